// A logging call in neutral form, and the two builds of the logger behind one interface.
#pragma once
#include <string>
#include <vector>
#include <ostream>
#include <cstddef>
#include <cstdint>
enum Kind { K_INT, K_SIZE, K_DOUBLE, K_STRING, K_CSTR, K_VECD, K_VECSZ, K_MATX, K_MATX_ROWMAJOR, K_VEC3, K_MAT3, K_MAT23_ROWMAJOR, K_MAP,
            K_BLOCK, K_TRANSPOSE, K_SUM, K_ROWVEC, K_INDEXVEC, K_RAW_STRING, K_RAW_CSTR, K_RAW_DOUBLE, K_RAW_INT, K_RAW_MATX, K_RAW_VEC3,
            K_STATE, K_POINTMASS, K_SOLUTION, K_KINDS };
struct NamePart { int kind; std::string s; std::size_t i; };   // kind 0: std::string, 1: const char*, 2: index
struct Val
{
    int kind;
    int ctor;                       // how the entry name is constructed: 0 const char*, 1 std::string, 2 default + add
    std::vector<NamePart> parts;
    std::vector<double> d;
    std::vector<std::size_t> z;
    int rows, cols;
    std::string s;
    long i;
};
struct ILogger
{
    virtual ~ILogger() {}
    virtual void log(Val& v, uint64_t fail_alloc, bool persistent, uint64_t* failed) = 0;  // fail_alloc: n-th allocation inside the call fails
    virtual void initialize(std::ostream& o, int sleep_ms) = 0;
    virtual void initialize(const std::string& f, int sleep_ms) = 0;
};
// mode 0: default constructor, 1: stream, 2: file
ILogger* makeThreaded(int mode, std::ostream* o, const std::string& f, int sleep_ms);
ILogger* makePlain(int mode, std::ostream* o, const std::string& f, int sleep_ms);
void destroyThreaded(ILogger*);
