// Simulated threads, locks, condition variables and clock.
//
// The pthread, sleep and clock functions are interposed in the harness binary;
// inside a simulated run exactly one thread executes at a time and sim::choose
// decides who goes on at every preemption point (every basic block, load and
// store of the instrumented code, and every lock, unlock, wait and sleep).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace sched
{
    struct Config
    {
        uint32_t gap = 20;              // mean number of preemption points between context switches (0: only at blocking points)
        bool     spurious = false;      // spurious wake-ups of condition waits
        uint32_t create_fail_at = 0;    // n-th pthread_create fails with EAGAIN (0: never)
        uint64_t max_points = 4000000;  // bound on preemption points of a run
        bool     early_time = true;     // the clock may advance although threads are runnable (slow threads)
    };
    void begin(const Config&);
    void end();
    void preempt(uintptr_t where = 0);  // explicit preemption point
    void sleepUs(uint64_t us);          // simulated sleep of the calling thread
    uint64_t nowUs();
    uint64_t points();                  // preemption points so far: the logical clock of the history
    uint64_t switches();
    int      self();
    int      liveThreads();             // simulated threads that have not finished
    void     advanceUs(uint64_t us);
    void     stepWallUs(int64_t us);    // the system clock jumps (CLOCK_REALTIME, gettimeofday, time)
    uint64_t wallUs();                  // reading of the system clock
    bool     active();
    struct InSystem { bool old; InSystem(); ~InSystem(); };   // preemption inside instrumented code is on
    struct NoPreempt { bool old; NoPreempt(); ~NoPreempt(); };
    extern const char* (*describe_stall)();
    // Called when nothing can run any more / the step bound is hit; default: sim::fail("deadlock"/"livelock").
}
