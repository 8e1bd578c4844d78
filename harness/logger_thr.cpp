#include "sim/sched.h"
#define IN_SYSTEM sched::InSystem in_system_
#include "harness/logger_ops.inc"
ILogger* makeThreaded(int mode, std::ostream* o, const std::string& f, int ms) { return new Impl(mode, o, f, ms); }
