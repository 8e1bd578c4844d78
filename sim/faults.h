// Fault injection: allocations and file system calls.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
namespace faults
{
    // ---- allocations (operator new, and malloc/realloc as called by header code) ----
    void     allocArm(uint64_t nth, bool persistent = false);  // the nth allocation (1..) of this thread from now on fails; persistent: all later ones too
    void     allocArmNew(uint64_t nth);  // the same for operator new only. Eigen's storage is malloc'ed, and Eigen itself leaves a dangling pointer in a matrix whose reallocation failed
    uint64_t allocDisarm();              // returns how many allocations failed since arming
    uint64_t allocCount();               // allocations of this thread since allocArm
    struct AllocScope { AllocScope(uint64_t n, bool p = false) { allocArm(n, p); } ~AllocScope() { allocDisarm(); } };

    // ---- files below the scratch directory ----
    struct Disk
    {
        int64_t  capacity = -1;      // bytes that can be written before ENOSPC (-1: no limit)
        int      error = 0;          // errno of the failing write (ENOSPC, EIO, ...)
        bool     then_recovers = false; // only one write call fails
        uint32_t max_chunk = 0;      // short writes: at most this many bytes per call (0: off)
        uint32_t max_read = 0;       // short reads
        uint32_t eintr_every = 0;    // every n-th read/write is interrupted
        int64_t  read_fail_at = -1;  // reads fail with EIO once this many bytes were read
        bool     open_fails = false; int open_errno = 13;
        int      open_fail_at = 0;   // only the n-th open fails (0: all, when open_fails)
        bool     close_fails = false;
    };
    void diskReset();
    Disk& disk();
    struct DiskStats { uint64_t opens, writes, reads, bytes_written, failed_writes, failed_reads, failed_opens, short_writes, short_reads, eintr; };
    DiskStats& diskStats();
    extern void (*io_point)();       // called at every simulated file system call (scheduler preemption)
}
