#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.h"
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <unistd.h>

namespace sched
{
    enum St { RUN, MUTEX, COND, SLEEP, JOIN, DONE };
    struct T
    {
        int id; St st; const void* obj; bool timed; uint64_t deadline; bool timedout; bool signaled;
        int join_target; sem_t sem; pthread_t real; bool in_system; int dtor_rounds;
        void* (*fn)(void*); void* arg; bool used;
    };
    static const int MAXT = 64;
    static T th[MAXT];
    static int nth = 0;
    static volatile bool active_ = false;
    static Config cfg;
    static uint64_t now_us = 0, points_ = 0, switches_ = 0, creates = 0;
    static uint64_t budget_left = 0;      // points until the next voluntary switch
    static uint64_t since_switch = 0;
    static bool budget_inf = true;
    static __thread T* me = NULL;
    static pthread_key_t key;
    static bool key_made = false;
    static const uint64_t T0 = 1500000000ull * 1000000ull;

    struct M { const void* addr; int owner; int count; };
    static M mtx[512]; static int nmtx = 0;

    const char* (*describe_stall)() = NULL;

    bool active() { return active_ && me; }
    uint64_t nowUs() { return now_us; }
    uint64_t points() { return points_; }
    uint64_t switches() { return switches_; }
    int self() { return me ? me->id : -1; }
    static int64_t wall_us = 0;
    void advanceUs(uint64_t us) { now_us += us; }
    void stepWallUs(int64_t us) { wall_us += us; }
    uint64_t wallUs() { return T0 + now_us + wall_us; }
    int liveThreads() { int n = 0; for (int i = 0; i < nth; ++i) if (th[i].st != DONE) ++n; return n; }
    InSystem::InSystem() { old = me ? me->in_system : false; if (me) me->in_system = true; }
    InSystem::~InSystem() { if (me) me->in_system = old; }
    NoPreempt::NoPreempt() { old = me ? me->in_system : false; if (me) me->in_system = false; }
    NoPreempt::~NoPreempt() { if (me) me->in_system = old; }

    template<class F> static F real(F& slot, const char* name) { if (!slot) slot = (F)dlsym(RTLD_NEXT, name); return slot; }

    static M* findM(const void* a, bool make)
    {
        for (int i = 0; i < nmtx; ++i) if (mtx[i].addr == a) return &mtx[i];
        if (!make) return NULL;
        for (int i = 0; i < nmtx; ++i) if (mtx[i].owner < 0) { mtx[i].addr = a; mtx[i].count = 0; return &mtx[i]; }
        if (nmtx == 512) sim::harnessError("too many mutexes");
        mtx[nmtx].addr = a; mtx[nmtx].owner = -1; mtx[nmtx].count = 0;
        return &mtx[nmtx++];
    }

    static void stall(const char* cls)
    {
        std::string s;
        static const char* names[] = {"runnable", "waiting for a mutex", "waiting on a condition", "sleeping", "joining", "done"};
        for (int i = 0; i < nth; ++i) { char b[128]; snprintf(b, sizeof b, " thread %d: %s;", i, names[th[i].st]); s += b; }
        if (describe_stall) { s += " "; s += describe_stall(); }
        sim::failStr(cls, std::string(cls) + ": after " + std::to_string(points_) + " steps," + s);
    }

    static void wakeSleepers()
    {
        for (int i = 0; i < nth; ++i)
            if ((th[i].st == SLEEP || (th[i].st == COND && th[i].timed)) && th[i].deadline <= now_us)
            {
                if (th[i].st == COND) th[i].timedout = true;
                th[i].st = RUN;
            }
    }
    static int earliest()
    {
        int b = -1;
        for (int i = 0; i < nth; ++i)
            if (th[i].st == SLEEP || (th[i].st == COND && th[i].timed))
                if (b < 0 || th[i].deadline < th[b].deadline) b = i;
        return b;
    }

    static void drawBudget()
    {
        since_switch = 0;
        if (cfg.gap == 0) { budget_inf = true; return; }
        uint32_t k = sim::choose(2 * cfg.gap + 1);
        budget_inf = (k == 0);
        budget_left = k;
    }

    // picks who runs next; returns its index
    static int pickNext(bool forced_away)
    {
        wakeSleepers();
        for (;;)
        {
            int cand[MAXT + 2], n = 0, kind[MAXT + 2];
            if (me->st == RUN && !forced_away) { kind[n] = 0; cand[n++] = me->id; }
            for (int i = 0; i < nth; ++i) if (th[i].st == RUN && (i != me->id)) { kind[n] = 0; cand[n++] = i; }
            int e = earliest();
            if (n == 0 && forced_away && me->st == RUN && e < 0) { kind[n] = 0; cand[n++] = me->id; }
            if (e >= 0 && (n == 0 || cfg.early_time)) { kind[n] = 1; cand[n++] = e; }
            if (cfg.spurious)
                for (int i = 0; i < nth; ++i) if (th[i].st == COND && n > 0 && n <= MAXT && i != e) { kind[n] = 2; cand[n++] = i; }
            if (n == 0) stall("deadlock");
            int c = (int)sim::choose(n);
            if (kind[c] == 1)
            {
                if (th[cand[c]].deadline > now_us) now_us = th[cand[c]].deadline;
                wakeSleepers();
                return cand[c];
            }
            if (kind[c] == 2) { th[cand[c]].st = RUN; sim::count("fault:spurious wake-up"); return cand[c]; }
            return cand[c];
        }
    }

    static void switchTo(int next, uintptr_t where)
    {
        drawBudget();
        if (next == me->id) return;
        ++switches_;
        sim::state(sim::mix(sim::mix(where, me->id == 0 ? 0 : 1), (uint64_t)me->st * 64 + next));
        sim::digest(sim::mix(me->id * 64 + next, points_));
        if (sim::verbose()) sim::event("t=%lluus step %llu: thread %d -> %d", (unsigned long long)now_us, (unsigned long long)points_, me->id, next);
        T* self = me;
        bool leaving = self->st == DONE;
        sem_post(&th[next].sem);
        if (leaving) return;
        while (sem_wait(&self->sem) != 0) {}
    }

    // the calling thread cannot go on in its present state
    static void block(uintptr_t where) { switchTo(pickNext(true), where); }

    void preempt(uintptr_t where)
    {
        if (!active_ || !me) return;
        ++points_;
        if (points_ > cfg.max_points) stall("livelock");
        ++since_switch;
        if (!budget_inf)
        {
            if (budget_left > 1) { --budget_left; return; }
            if (!where) where = (uintptr_t)__builtin_return_address(0);
            switchTo(pickNext(false), where);
        }
        else if (since_switch > 20000)
        {
            // fairness: nobody runs for ever without giving way
            since_switch = 0;
            switchTo(pickNext(true), where);
        }
    }
    static inline void point(uintptr_t where) { if (active_ && me && me->in_system) preempt(where); }

    void sleepUs(uint64_t us)
    {
        if (!active()) return;
        me->st = SLEEP; me->deadline = now_us + us;
        block((uintptr_t)__builtin_return_address(0));
    }

    static void keyDtor(void* p)
    {
        T* t = (T*)p;
        if (!active_) return;
        if (++t->dtor_rounds < 4) { pthread_setspecific(key, t); return; }
        t->st = DONE;
        for (int i = 0; i < nth; ++i) if (th[i].st == JOIN && th[i].join_target == t->id) th[i].st = RUN;
        sim::event("thread %d ends", t->id);
        me = t;
        int next = pickNext(true);
        switchTo(next, 1);
        me = NULL;
    }

    static void* threadMain(void* p)
    {
        T* t = (T*)p;
        me = t;
        while (sem_wait(&t->sem) != 0) {}
        pthread_setspecific(key, t);
        return t->fn(t->arg);
    }

    static T* newThread()
    {
        if (nth >= MAXT) sim::harnessError("too many threads");
        T* t = &th[nth];
        memset(t, 0, sizeof *t);
        t->id = nth; t->st = RUN; t->used = true;
        sem_init(&t->sem, 0, 0);
        return t;
    }

    void begin(const Config& c)
    {
        cfg = c;
        if (!key_made) { pthread_key_create(&key, keyDtor); key_made = true; }
        nth = 0; nmtx = 0; now_us = 0; points_ = switches_ = creates = 0;
        T* t = newThread(); nth++;
        t->real = pthread_self();
        me = t;
        active_ = true;
        drawBudget();
    }
    void end() { active_ = false; }
}

using namespace sched;
#define WHERE ((uintptr_t)__builtin_return_address(0))
#define REAL(ret, name, args) typedef ret (*F_##name) args; static F_##name r_##name; real(r_##name, #name)

extern "C"
{
    void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n; for (; a < b; ++a) *a = ++n; }
    void __sanitizer_cov_trace_pc_guard(uint32_t* g) { point(WHERE); }
#define LS(n) void __sanitizer_cov_load##n(void*) { point(WHERE); } void __sanitizer_cov_store##n(void*) { point(WHERE); }
    LS(1) LS(2) LS(4) LS(8) LS(16)

    static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

    static int simLock(pthread_mutex_t* m, uintptr_t where, bool try_only)
    {
        if (me->in_system || true) preempt(where);
        for (;;)
        {
            M* x = findM(m, true);
            if (x->owner < 0) { x->owner = me->id; x->count = 1; return 0; }
            if (x->owner == me->id && isRecursive(m)) { ++x->count; return 0; }
            if (try_only) return EBUSY;
            me->st = MUTEX; me->obj = m;
            block(where);
        }
    }
    static void simUnlock(pthread_mutex_t* m, uintptr_t where)
    {
        M* x = findM(m, false);
        if (!x || x->owner < 0) return;
        if (--x->count > 0) return;
        x->owner = -1;
        for (int i = 0; i < nth; ++i) if (th[i].st == MUTEX && th[i].obj == m) th[i].st = RUN;
    }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (active()) return simLock(m, WHERE, false);
        REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
        return r_pthread_mutex_lock(m);
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (active()) return simLock(m, WHERE, true);
        REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
        return r_pthread_mutex_trylock(m);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (active()) { simUnlock(m, WHERE); preempt(WHERE); return 0; }
        REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
        return r_pthread_mutex_unlock(m);
    }
    int pthread_mutex_destroy(pthread_mutex_t* m)
    {
        if (active()) { M* x = findM(m, false); if (x) { x->owner = -1; x->addr = NULL; } return 0; }
        REAL(int, pthread_mutex_destroy, (pthread_mutex_t*));
        return r_pthread_mutex_destroy(m);
    }

    static uint64_t tsUs(const struct timespec* ts) { return (uint64_t)ts->tv_sec * 1000000ull + (ts->tv_nsec + 999) / 1000; }

    static int simWait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abst, uintptr_t where)
    {
        me->timed = abst != NULL; me->timedout = false; me->obj = c;
        if (abst) { uint64_t d = tsUs(abst); me->deadline = d > T0 ? d - T0 : 0; }
        simUnlock(m, where);
        me->st = COND;
        block(where);
        bool to = me->timedout;
        // take the mutex again
        for (;;)
        {
            M* x = findM(m, true);
            if (x->owner < 0) { x->owner = me->id; x->count = 1; break; }
            me->st = MUTEX; me->obj = m;
            block(where);
        }
        return to ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (active()) return simWait(c, m, NULL, WHERE);
        REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
        return r_pthread_cond_wait(c, m);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
    {
        if (active()) return simWait(c, m, t, WHERE);
        REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
        return r_pthread_cond_timedwait(c, m, t);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t)
    {
        if (active()) return simWait(c, m, t, WHERE);
        typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
        static F f; real(f, "pthread_cond_clockwait");
        return f(c, m, CLOCK_MONOTONIC, t);
    }
    static void simSignal(pthread_cond_t* c, bool all)
    {
        int w[MAXT], n = 0;
        for (int i = 0; i < nth; ++i) if (th[i].st == COND && th[i].obj == c) w[n++] = i;
        if (!n) return;
        if (all) for (int i = 0; i < n; ++i) th[w[i]].st = RUN;
        else th[w[sim::choose(n)]].st = RUN;
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (active()) { simSignal(c, false); preempt(WHERE); return 0; }
        REAL(int, pthread_cond_signal, (pthread_cond_t*));
        return r_pthread_cond_signal(c);
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (active()) { simSignal(c, true); preempt(WHERE); return 0; }
        REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
        return r_pthread_cond_broadcast(c);
    }
    int pthread_cond_destroy(pthread_cond_t* c)
    {
        if (active()) return 0;
        REAL(int, pthread_cond_destroy, (pthread_cond_t*));
        return r_pthread_cond_destroy(c);
    }

    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
        if (!active()) return r_pthread_create(t, a, fn, arg);
        if (++creates == cfg.create_fail_at) { sim::count("fault:thread creation fails (EAGAIN)"); sim::event("pthread_create fails with EAGAIN"); return EAGAIN; }
        T* n = newThread();
        n->fn = fn; n->arg = arg; n->in_system = true;
        int r = r_pthread_create(t, a, threadMain, n);
        if (r) return r;
        n->real = *t;
        ++nth;
        sim::event("thread %d starts", n->id);
        preempt(WHERE);
        return 0;
    }
    int pthread_join(pthread_t t, void** ret)
    {
        REAL(int, pthread_join, (pthread_t, void**));
        if (active())
        {
            for (int i = nth - 1; i >= 0; --i)
                if (pthread_equal(th[i].real, t))
                {
                    if (&th[i] == me) return EDEADLK;
                    while (th[i].st != DONE) { me->st = JOIN; me->join_target = i; block(WHERE); }
                    break;
                }
        }
        return r_pthread_join(t, ret);
    }
    int pthread_once(pthread_once_t* o, void (*f)(void))
    {
        REAL(int, pthread_once, (pthread_once_t*, void (*)(void)));
        if (!active()) return r_pthread_once(o, f);
        bool inf = budget_inf; bool is = me->in_system;
        me->in_system = false; budget_inf = true;
        int r = r_pthread_once(o, f);
        me->in_system = is; budget_inf = inf;
        return r;
    }

    // static local initialisation: the real implementation would block the only running thread
    int __cxa_guard_acquire(uint64_t* g)
    {
        volatile unsigned char* b = (volatile unsigned char*)g;
        for (;;)
        {
            if (b[0]) return 0;
            if (!b[1]) { b[1] = 1; return 1; }
            if (active()) { switchTo(pickNext(true), WHERE); }
            else usleep(10);
        }
    }
    void __cxa_guard_release(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[0] = 1; b[1] = 0; }
    void __cxa_guard_abort(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; }

    int nanosleep(const struct timespec* req, struct timespec* rem)
    {
        if (active())
        {
            if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) { errno = EINVAL; return -1; }
            sleepUs((uint64_t)req->tv_sec * 1000000ull + req->tv_nsec / 1000); return 0;
        }
        REAL(int, nanosleep, (const struct timespec*, struct timespec*));
        return r_nanosleep(req, rem);
    }
    int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem)
    {
        if (active())
        {
            uint64_t us = tsUs(req);
            if (flags & TIMER_ABSTIME) { us = us > T0 + now_us ? us - T0 - now_us : 0; }
            sleepUs(us); return 0;
        }
        REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*));
        return r_clock_nanosleep(c, flags, req, rem);
    }
    int usleep(useconds_t us)
    {
        if (active()) { sleepUs(us); return 0; }
        struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
        return nanosleep(&ts, NULL);
    }
    unsigned sleep(unsigned s)
    {
        if (active()) { sleepUs(s * 1000000ull); return 0; }
        REAL(unsigned, sleep, (unsigned));
        return r_sleep(s);
    }
    int sched_yield(void)
    {
        if (active()) { ++points_; if (points_ > cfg.max_points) stall("livelock"); switchTo(pickNext(true), WHERE); return 0; }
        REAL(int, sched_yield, (void));
        return r_sched_yield();
    }
    int clock_gettime(clockid_t c, struct timespec* ts)
    {
        if (active()) { uint64_t t = T0 + now_us + (c == CLOCK_REALTIME ? wall_us : 0); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0; }
        REAL(int, clock_gettime, (clockid_t, struct timespec*));
        return r_clock_gettime(c, ts);
    }
    int gettimeofday(struct timeval* tv, void* tz)
    {
        if (active()) { uint64_t t = wallUs(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
        typedef int (*F)(struct timeval*, void*);
        static F f; real(f, "gettimeofday");
        return f(tv, tz);
    }
    time_t time(time_t* p)
    {
        if (active()) { time_t t = wallUs() / 1000000; if (p) *p = t; return t; }
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec;
    }
}
