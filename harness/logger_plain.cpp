#define IN_SYSTEM do {} while (0)
#define humoto humoto_unthreaded
#include "harness/logger_ops.inc"
ILogger* makePlain(int mode, std::ostream* o, const std::string& f, int ms) { return new Impl(mode, o, f, ms); }
