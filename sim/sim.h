// Deterministic simulation core.
//
// One simulated run is a pure function of a sequence of choices.  choose(n)
// returns the next one: drawn from the seeded generator while exploring, taken
// from a recorded trace while replaying (0, the simplest choice, once the trace
// is exhausted).  Every run executes in its own forked child, so that runs do
// not see each other and a crash or a hang of the code under test is a verdict
// of that run, not of the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim
{
    // ---- choices -------------------------------------------------------
    uint32_t choose(uint32_t n);                     // 0 .. n-1
    bool     chance(uint32_t num, uint32_t den);     // true with probability num/den; 0 == false is the simple choice
    int      range(int lo, int hi);                  // lo .. hi inclusive, lo is simplest
    double   grid(double lo, double hi, int steps);  // one of steps+1 grid points, lo is simplest
    double   num(double lo, double hi);              // value with an arbitrary-looking mantissa; first choice may give 0 or simple values
    template<class T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }

    // ---- verdicts ------------------------------------------------------
    // A violation ends the run at once (the child process exits).
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void failStr(const std::string& cls, const std::string& msg);
    // The harness itself is wrong or the run cannot be judged: error, not a violation.
    [[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

    // ---- observation ---------------------------------------------------
    void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // goes to the event log and its digest
    void digest(uint64_t v);
    void digestBytes(const void* p, size_t n);
    void digestDouble(double v);
    void count(const char* name, uint64_t k = 1);    // fault/coverage counter of the evidence
    void state(uint64_t h);                          // a distinct state reached
    void step(uint64_t k = 1);                       // simulated steps
    void simTime(double seconds);                    // simulated time covered
    void nontrivial();                               // the run exercised what the property is about
    void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool verbose();
    bool thorough();
    const std::string& scratch();                    // scratch directory of this worker (exists, empty at start of the run)

    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
        x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
        return x;
    }

    // ---- registration --------------------------------------------------
    struct Scenario { Scenario(const char* property, const char* rule, std::function<void()> fn); };
    std::string hexDouble(double v);
    const char* prop();
}
