// C01-C04: the threaded logger under simulated schedules, devices and faults.
#include "sim/sim.h"
#include "sim/sched.h"
#include "sim/faults.h"
#include "harness/logger_iface.h"
#include <sstream>
#include <fstream>
#include <map>
#include <cmath>
#include <cstring>
#include <memory>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>

namespace
{
    struct Entry
    {
        int thread; Val val; std::string text;
        bool called = false, returned = false, threw = false;
        uint64_t call = 0, ret = 0, call_us = 0, ret_us = 0; uint64_t alloc_failures = 0;
        int min_session = 0, max_session = 0; // outputs it may appear on
    };

    // ---------------- output device ----------------
    struct SimBuf : std::streambuf
    {
        std::string bytes;
        int64_t fail_at = -1;      // device fails for good once this many bytes were accepted
        bool throws = false;       // failing device throws (an exception of the stream buffer) instead of returning an error
        uint32_t stall_one_in = 0; // a write call stalls with this probability
        uint64_t stall_us = 0, stalled = 0;
        bool failed = false;
        void hook()
        {
            sched::preempt((uintptr_t)1);
            if (stall_one_in && sim::chance(1, stall_one_in)) { sim::count("fault:output stalls"); stalled += stall_us; sched::sleepUs(stall_us); }
        }
        std::streamsize put(const char* s, std::streamsize n)
        {
            hook();
            std::streamsize k = n;
            if (fail_at >= 0 && (int64_t)bytes.size() + k > fail_at) k = std::max<int64_t>(0, fail_at - (int64_t)bytes.size());
            bytes.append(s, k);
            if (k < n)
            {
                if (!failed) { sim::count("fault:output device fails"); sim::event("output fails after %zu bytes", bytes.size()); }
                failed = true;
                if (throws) { sim::count("fault:output device throws"); throw std::ios_base::failure("device"); }
            }
            return k;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n); }
        int overflow(int c) override { char b = (char)c; return put(&b, 1) == 1 ? c : EOF; }
        int sync() override { hook(); return failed ? -1 : 0; }
    };

    // ---------------- generation of values ----------------
    double value()
    {
        switch (sim::choose(8))
        {
            case 0: return sim::range(0, 9);
            case 1: return -sim::range(0, 1000) / 8.0;
            case 2: return sim::num(-1, 1);
            case 3: return sim::num(0, 1) * 1e-12;
            case 4: return sim::num(-1, 1) * 1e15;
            case 5: return 1.0 / 3.0 * std::pow(10.0, sim::range(-20, 20));
            case 6: return sim::num(-1, 1) * 1e300;
            default: { uint32_t k = sim::choose(6); return k == 0 ? 0.0 : k == 1 ? HUGE_VAL : k == 2 ? -HUGE_VAL : k == 3 ? 123456789012345.0 : k == 4 ? 0.1 : 1e-310; }
        }
    }
    std::string word(bool may_be_empty)
    {
        static const char* w[] = {"a", "state", "com_position", "x1", "B", "left_foot", "solver.iteration", ""};
        return w[sim::choose(may_be_empty ? 8 : 7)];
    }

    // every value carries a unique id in its name (or in its text, for raw entries)
    Val makeVal(int id, int kind)
    {
        Val v; v.kind = kind; v.ctor = sim::choose(3); v.rows = v.cols = 1; v.i = id;
        char uid[32]; snprintf(uid, sizeof uid, "e%d", id);
        v.parts.push_back(NamePart{(int)sim::choose(2), uid, 0});
        for (int n = sim::choose(4); n > 0; --n)
        {
            NamePart p; p.kind = sim::choose(3); p.i = sim::choose(2) ? sim::choose(1000) : sim::choose(3); p.s = p.kind == 2 ? "" : word(true);
            v.parts.push_back(p);
        }
        int n = 0;
        switch (kind)
        {
            case K_INT: v.i = sim::range(0, 1) ? -(long)sim::choose(1u << 30) : (long)sim::choose(1u << 30); break;
            case K_SIZE: v.i = (long)sim::choose(1u << 31) * (sim::chance(1, 4) ? 1000000007L : 1L); break;
            case K_DOUBLE: n = 1; break;
            case K_STRING: case K_CSTR: v.s = word(true) + uid; if (sim::chance(1, 8)) v.s += std::string(sim::range(1, 3000), 'x'); break;
            case K_VECD: n = sim::choose(5) ? sim::choose(6) : sim::choose(200); break;
            case K_VECSZ: case K_INDEXVEC: for (int k = sim::range(kind == K_INDEXVEC ? 1 : 0, 6); k > 0; --k) v.z.push_back(sim::choose(100000)); break;
            case K_MATX: case K_MATX_ROWMAJOR: case K_MAP: case K_BLOCK: case K_TRANSPOSE: case K_SUM: v.rows = sim::range(1, 5); v.cols = sim::range(1, 5); n = v.rows * v.cols; break;
            case K_VEC3: v.rows = 3; v.cols = 1; n = 3; break;
            case K_MAT3: v.rows = 3; v.cols = 3; n = 9; break;
            case K_MAT23_ROWMAJOR: v.rows = 2; v.cols = 3; n = 6; break;
            case K_ROWVEC: v.rows = 1; v.cols = sim::range(1, 7); n = v.cols; break;
            case K_RAW_STRING: case K_RAW_CSTR: v.s = std::string("raw_") + uid + " " + word(false); if (sim::chance(1, 8)) v.s += std::string(sim::range(1, 3000), 'y'); break;
            case K_RAW_DOUBLE: n = 1; break;
            case K_RAW_MATX: v.rows = sim::range(1, 4); v.cols = sim::range(1, 4); n = v.rows * v.cols; break;
            case K_RAW_VEC3: v.rows = 3; n = 3; break;
            case K_STATE: n = 18; v.s = word(false); break;
            case K_POINTMASS: n = 9; v.s = word(false); break;
            case K_SOLUTION: v.rows = sim::range(1, 4); n = 2 + v.rows; v.s = word(false); break;
        }
        if (n == 1 && (kind == K_DOUBLE || kind == K_RAW_DOUBLE)) v.d.push_back(value());
        else if (n > 0)
        {
            bool simple = !sim::chance(1, 3);
            for (int k = 0; k < n; ++k) v.d.push_back(simple ? k * 0.5 + id : value());
        }
        return v;
    }
    // what unthreaded logging of the same call writes
    std::string plainText(Val v)
    {
        std::ostringstream o;
        std::unique_ptr<ILogger> l(makePlain(1, &o, "", 0));
        l->log(v, 0, false, NULL);
        return o.str();
    }
    void scramble(Val& v)
    {
        // the caller's data change right after the call
        for (auto& x : v.d) x = -12345.678;
        for (auto& x : v.z) x = 424242;
        if (!v.s.empty()) memset(&v.s[0], '#', v.s.size());
        for (auto& p : v.parts) { if (!p.s.empty()) memset(&p.s[0], '#', p.s.size()); p.i = 77; }
    }

    // kinds for the concurrency properties: uniquely identifiable text
    const std::vector<int> ID_KINDS = {K_INT, K_DOUBLE, K_STRING, K_CSTR, K_VECD, K_MATX, K_VEC3, K_MAP, K_BLOCK, K_SUM, K_RAW_STRING, K_RAW_CSTR, K_VECSZ};

    struct World
    {
        std::vector<Entry> e;
        ILogger* logger = NULL;
        uint64_t seq = 0;      // total order of calls and returns
        int session = -1;      // index of the current output
        bool in_init = false, detached = false; // detached: the last initialisation failed, entries wait for the next output
        std::vector<std::string> outputs;
        bool timing = false;   // time advances only when everybody is idle: durations mean something
        uint64_t max_log_us = 0;
    } W;

    struct Fault { uint64_t nth = 0; bool persistent = false; };

    void callLog(Entry& en, Fault f = Fault())
    {
        en.called = true; en.call = ++W.seq; en.call_us = sched::nowUs();
        en.min_session = W.session < 0 ? 0 : W.session;
        sim::event("t%d: log %s(", en.thread, en.val.parts[0].s.c_str());
        std::string uid = en.val.parts[0].s;
        try { W.logger->log(en.val, f.nth, f.persistent, &en.alloc_failures); en.returned = true; }
        catch (const std::bad_alloc&) { en.threw = true; if (!en.alloc_failures) sim::fail("logging-call-threw", "a logging call threw although no allocation failed"); }
        catch (const std::exception& x) { sim::fail("logging-call-threw", "a logging call threw: %s", x.what()); }
        scramble(en.val);
        en.ret = ++W.seq; en.ret_us = sched::nowUs();
        en.max_session = W.session < 0 ? 0 : (W.in_init || W.detached ? W.session + 1 : W.session);
        if (W.in_init && en.min_session == W.session) en.max_session = W.session + 1;
        if (en.alloc_failures) sim::count("fault:allocation fails in a logging call", en.alloc_failures);
        sim::event("t%d: ) %s%s", en.thread, uid.c_str(), en.threw ? " threw" : "");
        if (W.timing && en.ret_us - en.call_us > W.max_log_us)
            sim::fail("producer-blocked", "a logging call took %llu us of simulated time while the output was slow", (unsigned long long)(en.ret_us - en.call_us));
    }

    // Parses one output into entries.  complete: nothing may be missing at the end.
    // Returns the indices of the entries found; tail_ok: the last entry may be cut (failed device)
    std::vector<int> parse(const std::string& out, const std::map<std::string, int>& byKey, bool tail_ok, const char* what)
    {
        std::vector<int> found;
        size_t pos = 0;
        while (pos < out.size())
        {
            // key: up to the first blank, dot, brace or newline
            std::string key;
            size_t p = pos;
            if (out.compare(p, 4, "raw_") == 0) p += 4;
            size_t q = p;
            while (q < out.size() && (isalnum((unsigned char)out[q]))) ++q;
            key = out.substr(p, q - p);
            auto it = byKey.find(key);
            if (it != byKey.end() && out.compare(pos, W.e[it->second].text.size(), W.e[it->second].text) == 0)
            {
                found.push_back(it->second);
                pos += W.e[it->second].text.size();
                continue;
            }
            if (tail_ok)
            {
                // a cut entry at the very end
                std::string rest = out.substr(pos);
                for (size_t k = 0; k < W.e.size(); ++k)
                    if (W.e[k].called && W.e[k].text.size() >= rest.size() && W.e[k].text.compare(0, rest.size(), rest) == 0 &&
                        std::find(found.begin(), found.end(), (int)k) == found.end()) { return found; }
            }
            sim::fail("entry-not-whole", "%s: at byte %zu the output is not the text of a logged entry: \"%s\"%s%s", what, pos, out.substr(pos, 200).c_str(),
                      it != byKey.end() ? "; expected: " : "", it != byKey.end() ? W.e[it->second].text.substr(0, 300).c_str() : "");
        }
        return found;
    }

    // exactly once, whole, real-time order; faulty: some entries may be missing (threw / device failed)
    void judge(bool device_failed, const char* what)
    {
        std::map<std::string, int> byKey;
        for (size_t i = 0; i < W.e.size(); ++i) byKey["e" + std::to_string(i)] = (int)i;
        std::vector<int> seen(W.e.size(), -1);
        int pos = 0;
        std::vector<int> order;
        for (size_t s = 0; s < W.outputs.size(); ++s)
        {
            std::vector<int> f = parse(W.outputs[s], byKey, device_failed && s + 1 == W.outputs.size(), what);
            for (int k : f)
            {
                Entry& en = W.e[k];
                if (!en.called) sim::fail("entry-invented", "%s: entry %d is on the output but was never logged", what, k);
                if (seen[k] >= 0) sim::fail("entry-duplicated", "%s: entry %d is on the output more than once", what, k);
                if (en.min_session > (int)s || en.max_session < (int)s)
                    sim::fail("wrong-output", "%s: entry %d was logged while output %d..%d was current but is on output %zu", what, k, en.min_session, en.max_session, s);
                seen[k] = pos++;
                order.push_back(k);
            }
        }
        for (size_t i = 0; i < W.e.size(); ++i)
        {
            Entry& en = W.e[i];
            if (!en.called || en.threw) continue;
            if (seen[i] < 0 && !device_failed)
                sim::fail("entry-lost", "%s: entry %zu (thread %d) was logged but is on no output (%zu of %zu entries found)", what, i, en.thread, order.size(), W.e.size());
        }
        // real-time order: walking backwards, nothing that follows in the output may have returned before an earlier one was called
        uint64_t min_ret = ~0ull; int who = -1;
        for (size_t k = order.size(); k-- > 0;)
        {
            Entry& en = W.e[order[k]];
            if (min_ret < en.call) sim::fail("order", "%s: entry %d was logged (call returned) before entry %d was, but follows it on the output", what, who, order[k]);
            if (en.ret < min_ret) { min_ret = en.ret; who = order[k]; }
        }
        if (device_failed)
        {
            // a prefix in the order of the calls: an entry that made it implies all that were logged before it
            for (size_t i = 0; i < W.e.size(); ++i)
                if (W.e[i].called && !W.e[i].threw && seen[i] < 0)
                    for (int k : order) if (W.e[i].ret < W.e[k].call)
                        sim::fail("gap", "%s: entry %d is on the failed output although the earlier entry %zu is not", what, k, i);
        }
        std::string all; for (auto& o : W.outputs) all += o;
        sim::digestBytes(all.data(), all.size());
    }

    sched::Config swarm(bool timing)
    {
        static const uint32_t gaps[] = {0, 1, 3, 8, 25, 80, 400};
        sched::Config c;
        c.gap = gaps[sim::choose(7)];
        c.spurious = sim::chance(1, 4);
        c.early_time = timing ? false : true;
        if (timing) c.spurious = false;
        c.max_points = 600000;
        return c;
    }

    struct Producer { int id; std::vector<int> entries; uint32_t pause; Fault (*fault)(int); };
    Fault noFault(int) { return Fault(); }
    void* producerMain(void* p)
    {
        Producer* pr = (Producer*)p;
        sched::NoPreempt np;
        for (int k : pr->entries)
        {
            sched::preempt((uintptr_t)2);
            if (pr->pause && sim::chance(1, pr->pause)) sched::sleepUs(100 * sim::range(1, 60));
            callLog(W.e[k], pr->fault(k));
        }
        return NULL;
    }

    // entries are generated before the simulated threads start, so the values do not depend on the schedule
    std::vector<Producer> makeProducers(int nmax, int emax, Fault (*fault)(int))
    {
        int n = sim::range(1, nmax);
        std::vector<Producer> ps;
        for (int p = 0; p < n; ++p)
        {
            Producer pr; pr.id = p; pr.pause = sim::choose(4); pr.fault = fault;
            for (int k = sim::range(1, emax); k > 0; --k)
            {
                Entry en; en.thread = p; en.val = makeVal((int)W.e.size(), sim::pick(ID_KINDS)); en.text = plainText(en.val);
                pr.entries.push_back((int)W.e.size());
                W.e.push_back(en);
            }
            ps.push_back(pr);
        }
        return ps;
    }
    // a burst: the control loop outruns the writer by thousands of entries
    void makeBurst(Producer& pr)
    {
        static const int sizes[] = {300, 700, 1500, 3000, 6000};
        int n = sizes[sim::choose(sim::thorough() ? 5 : 4)] + sim::choose(200);
        bool big = sim::chance(1, 4); pr.pause = 0;
        for (int k = 0; k < n; ++k)
        {
            Entry en; en.thread = pr.id; Val v; v.ctor = 0; v.rows = v.cols = 1; v.kind = big ? K_STRING : K_INT; v.i = k; if (big) v.s.assign(1000, 'b');
            int id = (int)W.e.size(); v.parts.push_back(NamePart{0, "e" + std::to_string(id), 0});
            std::string name = v.parts[0].s;
            en.val = v; en.text = big ? name + " = '" + v.s + "';\n" : name + " = " + std::to_string(k) + ";\n";
            pr.entries.push_back(id); W.e.push_back(en);
        }
        sim::count("bursts"); sim::count("entries logged in bursts", n);
    }
    void runProducers(std::vector<Producer>& ps)
    {
        std::vector<pthread_t> t(ps.size());
        for (size_t i = 1; i < ps.size(); ++i)
            if (pthread_create(&t[i], NULL, producerMain, &ps[i])) sim::harnessError("producer thread");
        producerMain(&ps[0]);
        for (size_t i = 1; i < ps.size(); ++i) pthread_join(t[i], NULL);
    }
    std::string readFile(const std::string& f)
    {
        std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str();
    }
    int sleepMs() { static const int v[] = {2, 1, 5, 20, 0}; return v[sim::choose(5)]; }
    void ioPoint() { sched::preempt((uintptr_t)3); }

    // ======================= C01 =======================
    void c01()
    {
        faults::diskReset(); faults::io_point = ioPoint;
        std::vector<Producer> ps = makeProducers(sim::chance(1, 4) ? 6 : 3, sim::chance(1, 6) ? 90 : 10, noFault);
        bool burst = sim::chance(1, 250);
        if (burst) makeBurst(ps[sim::choose(ps.size())]);
        int mode = sim::choose(4); // 0: default ctor + stream, 1 stream ctor, 2 file ctor, 3 default ctor + file
        int ms = sleepMs();
        bool early = mode == 0 || mode == 3 ? sim::chance(1, 2) : false; // first producer starts before initialisation
        sched::Config c = swarm(burst);
        if (burst) { c.gap = sim::chance(1, 2) ? 400 : 4000; c.max_points = 3000000; }
        SimBuf buf; if (!burst && sim::chance(1, 3)) { buf.stall_one_in = 1 + sim::choose(6); buf.stall_us = 300 * (1 + sim::choose(40)); }
        std::ostream os(&buf);
        std::string file = sim::scratch() + "/log.m";
        sched::begin(c);
        std::vector<pthread_t> t(ps.size());
        size_t started = 0;
        W.logger = makeThreaded(mode == 1 ? 1 : mode == 2 ? 2 : 0, &os, file, ms);
        if (mode == 1 || mode == 2) W.session = 0;
        if (early) { for (; started + 1 < ps.size(); ++started) if (pthread_create(&t[started], NULL, producerMain, &ps[started])) sim::harnessError("thread"); }
        if (mode == 0) { W.in_init = true; W.logger->initialize(os, ms); W.in_init = false; }
        if (mode == 3) { W.in_init = true; W.logger->initialize(file, ms); W.in_init = false; }
        W.session = 0;
        for (auto& en : W.e) { en.min_session = en.max_session = 0; }
        for (; started + 1 < ps.size(); ++started) if (pthread_create(&t[started], NULL, producerMain, &ps[started])) sim::harnessError("thread");
        producerMain(&ps[started]);
        for (size_t i = 0; i < started; ++i) pthread_join(t[i], NULL);
        delete W.logger;
        uint64_t sw = sched::switches();
        sim::step(sched::points()); sim::simTime(sched::nowUs() * 1e-6);
        sched::end();
        if (sw > 3 && W.e.size() > 1) sim::nontrivial();
        for (auto& en : W.e) en.min_session = en.max_session = 0;
        W.outputs.push_back(mode >= 2 ? readFile(file) : buf.bytes);
        sim::count(mode >= 2 ? "output: file" : "output: stream"); sim::count("entries logged", W.e.size()); sim::count("context switches", sw);
        sim::count(early ? "producers started before initialisation" : "producers started after initialisation");
        judge(false, "C01");
        sim::sample("%zu producers, %zu entries, %llu context switches at gap %u, writer sleep %d ms, mode %d", ps.size(), W.e.size(), (unsigned long long)sw, c.gap, ms, mode);
    }

    // ======================= C02 =======================
    // an independent reading of the documented text form
    std::string joinName(const Val& v)
    {
        std::string n;
        for (auto& p : v.parts)
        {
            if (p.kind == 2) n += "{" + std::to_string(p.i + 1) + "}";
            else { if (!n.empty() && !p.s.empty()) n += "."; n += p.s; }
        }
        return n;
    }
    bool sameNumber(const std::string& tok, double v)
    {
        std::string t = tok;
        while (!t.empty() && t[0] == ' ') t.erase(0, 1);
        while (!t.empty() && t.back() == ' ') t.pop_back();
        if (t.empty()) return false;
        char* end; double x = strtod(t.c_str(), &end);
        if (*end) return false;
        if (std::isinf(v)) return x == v;
        char b[64]; snprintf(b, sizeof b, "%.15g", v);
        return x == strtod(b, NULL);
    }
    std::vector<std::string> split(const std::string& s, const std::string& sep)
    {
        std::vector<std::string> r; size_t p = 0;
        for (;;) { size_t q = s.find(sep, p); if (q == std::string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + sep.size(); }
    }
    bool matrixIs(const std::string& body, const Val& v, double scale)   // body without the brackets
    {
        std::vector<std::string> rows = split(body, ";\n");
        if ((int)rows.size() != v.rows) return false;
        for (int i = 0; i < v.rows; ++i)
        {
            std::vector<std::string> cols = split(rows[i], ", ");
            if ((int)cols.size() != v.cols) return false;
            for (int j = 0; j < v.cols; ++j) if (!sameNumber(cols[j], scale * v.d[i * v.cols + j])) return false;
        }
        return true;
    }
    // NULL: fine; otherwise what is wrong
    const char* readBack(const Val& v, const std::string& text)
    {
        std::string name = joinName(v);
        if (v.kind >= K_STATE) return NULL;     // classes: compared with the unthreaded text, and by their parts below
        if (v.kind == K_RAW_STRING || v.kind == K_RAW_CSTR) return text == v.s + "\n" ? NULL : "raw string";
        if (v.kind == K_RAW_DOUBLE) return !text.empty() && text.back() == '\n' && sameNumber(text.substr(0, text.size() - 1), v.d[0]) ? NULL : "raw number";
        if (v.kind == K_RAW_INT) return text == std::to_string((int)v.i) + "\n" ? NULL : "raw integer";
        if (v.kind == K_RAW_MATX || v.kind == K_RAW_VEC3) return NULL;  // free form: compared with the unthreaded text
        std::string pre = name + " = ";
        if (text.compare(0, pre.size(), pre) != 0) return "name";
        std::string rest = text.substr(pre.size());
        if (rest.size() < 2 || rest.substr(rest.size() - 2) != ";\n") return "terminator";
        rest.resize(rest.size() - 2);
        switch (v.kind)
        {
            case K_INT: return rest == std::to_string((int)v.i) ? NULL : "integer";
            case K_SIZE: return rest == std::to_string((unsigned long)v.i) ? NULL : "integer";
            case K_DOUBLE: return sameNumber(rest, v.d[0]) ? NULL : "number";
            case K_STRING: case K_CSTR: return rest == "'" + v.s + "'" ? NULL : "string";
        }
        if (v.kind == K_VECD || v.kind == K_VECSZ)
        {
            if (rest.empty() || rest[0] != '[' || rest.back() != ']') return "vector brackets";
            rest = rest.substr(1, rest.size() - 2);
            size_t n = v.kind == K_VECD ? v.d.size() : v.z.size();
            if (n == 0) return rest.empty() ? NULL : "empty vector";
            std::vector<std::string> el = split(rest, ";");
            if (el.size() != n) return "vector length";
            for (size_t i = 0; i < n; ++i) if (!sameNumber(el[i], v.kind == K_VECD ? v.d[i] : (double)v.z[i])) return "vector element";
            return NULL;
        }
        // matrices
        if (rest.compare(0, 5, "...\n[") != 0 || rest.back() != ']') return "matrix brackets";
        rest = rest.substr(5, rest.size() - 6);
        if (v.kind == K_INDEXVEC)
        {
            Val t = v; t.rows = (int)v.z.size(); t.cols = 1; t.d.assign(v.z.begin(), v.z.end());
            return matrixIs(rest, t, 1) ? NULL : "index vector";
        }
        return matrixIs(rest, v, v.kind == K_SUM ? 2 : 1) ? NULL : "matrix";
    }
    // entries a self-logging class must write: name suffix and values
    const char* readClass(const Val& v, const std::string& text)
    {
        std::string base = joinName(v);
        if (!base.empty() && !v.s.empty()) base += ".";
        base += v.s;
        struct Part { const char* n; int at; };
        std::vector<Part> parts;
        if (v.kind == K_STATE || v.kind == K_POINTMASS) { parts.push_back({"position", 0}); }
        if (v.kind == K_STATE) { parts.push_back({"velocity", 6}); parts.push_back({"acceleration", 12}); parts.push_back({"rpy", 3}); parts.push_back({"angular_velocity", 9}); parts.push_back({"angular_acceleration", 15}); }
        if (v.kind == K_POINTMASS) { parts.push_back({"velocity", 3}); parts.push_back({"acceleration", 6}); }
        for (auto& p : parts)
        {
            std::string head = base + "." + p.n + " = ...\n[";
            size_t at = text.find(head);
            if (at == std::string::npos || (at > 0 && text[at - 1] != '\n')) return p.n;
            size_t end = text.find("];\n", at);
            if (end == std::string::npos) return p.n;
            Val t; t.rows = 3; t.cols = 1; t.d.assign(v.d.begin() + p.at, v.d.begin() + p.at + 3);
            if (!matrixIs(text.substr(at + head.size(), end - at - head.size()), t, 1)) return p.n;
        }
        return NULL;
    }
    void c02()
    {
        faults::diskReset(); faults::io_point = ioPoint;
        int n = sim::range(1, sim::chance(1, 5) ? 80 : 12);
        std::vector<Val> vals, orig;
        std::ostringstream plain_os; std::string pfile = sim::scratch() + "/plain.m";
        int mode = sim::choose(3), ms = sleepMs();
        for (int i = 0; i < n; ++i) vals.push_back(makeVal(i, sim::choose(K_KINDS)));
        orig = vals;
        // direct logging; texts of single calls
        std::vector<std::string> texts; std::string seen;
        {
            std::unique_ptr<ILogger> l(makePlain(mode == 2 ? 2 : 1, &plain_os, pfile, 0));
            for (int i = 0; i < n; ++i)
            {
                Val v = orig[i];
                l->log(v, 0, false, NULL);
                texts.push_back(plainText(orig[i]));
                if (mode == 2) { seen += texts.back(); std::string now = readFile(pfile); if (now != seen) sim::fail("not-on-output", "entry %d was logged directly, but a crash now would leave %zu of %zu bytes in the file", i, now.size(), seen.size()); sim::count("fault:crash-after-call"); }
            }
        }
        std::string plain = mode == 2 ? readFile(pfile) : plain_os.str();
        sched::Config c = swarm(false);
        SimBuf buf; std::ostream os(&buf);
        std::string file = sim::scratch() + "/log.m";
        // the stream comes with settings of its own
        if (mode != 2 && sim::chance(1, 3)) { os.precision(3); sim::count("stream with other precision set by the user"); }
        sched::begin(c);
        ILogger* l = makeThreaded(mode, &os, file, ms);
        int split_at = mode == 0 ? sim::choose(n + 1) : 0;
        for (int i = 0; i < n; ++i)
        {
            if (mode == 0 && i == split_at) l->initialize(os, ms);
            l->log(vals[i], 0, false, NULL);
            scramble(vals[i]);
            sched::preempt((uintptr_t)4);
        }
        if (mode == 0 && split_at == n) l->initialize(os, ms);
        delete l;
        sim::step(sched::points()); sim::simTime(sched::nowUs() * 1e-6);
        uint64_t sw = sched::switches();
        sched::end();
        std::string out = mode == 2 ? readFile(file) : buf.bytes;
        if (out != plain)
        {
            size_t k = 0; while (k < out.size() && k < plain.size() && out[k] == plain[k]) ++k;
            size_t from = k > 80 ? k - 80 : 0;
            sim::fail("text-differs", "threaded and direct logging differ at byte %zu: threaded \"%s\" direct \"%s\"", k, out.substr(from, 200).c_str(), plain.substr(from, 200).c_str());
        }
        std::string cat; for (auto& t : texts) cat += t;
        if (cat != plain) sim::fail("text-depends-on-history", "the text of an entry depends on the entries logged before it");
        for (int i = 0; i < n; ++i)
        {
            const char* w = orig[i].kind >= K_STATE ? readClass(orig[i], texts[i]) : readBack(orig[i], texts[i]);
            if (w) sim::fail("text-form", "entry of kind %d does not read back (%s): \"%s\", name %s, first value %s, string %s", orig[i].kind, w, texts[i].c_str(), joinName(orig[i]).c_str(),
                             orig[i].d.empty() ? "-" : sim::hexDouble(orig[i].d[0]).c_str(), orig[i].s.c_str());
            sim::state(sim::mix(orig[i].kind, orig[i].parts.size() * 64 + orig[i].rows * 8 + orig[i].cols));
            sim::count("entries compared");
        }
        if (n > 1) sim::nontrivial();
        sim::digestBytes(out.data(), out.size());
        sim::sample("%d entries, %zu bytes, first: %s", n, out.size(), texts[0].substr(0, 120).c_str());
        (void)sw;
    }

    // ======================= C03 =======================
    void c03()
    {
        faults::diskReset(); faults::io_point = ioPoint;
        bool timing = sim::chance(1, 2);
        W.timing = timing;
        std::vector<Producer> ps = makeProducers(timing ? 2 : 4, 8, noFault);
        // main's own entries, to be logged between life-cycle operations
        std::vector<int> mine;
        for (int k = sim::range(0, 10); k > 0; --k)
        {
            Entry en; en.thread = 99; en.val = makeVal((int)W.e.size(), sim::pick(ID_KINDS)); en.text = plainText(en.val);
            mine.push_back((int)W.e.size()); W.e.push_back(en);
        }
        int nsessions = sim::range(1, 4);
        int ms = 1 + sim::choose(5);
        sched::Config c = swarm(timing);
        std::vector<std::unique_ptr<SimBuf>> bufs; std::vector<std::unique_ptr<std::ostream>> oss; std::vector<std::string> files; std::vector<int> isfile;
        uint64_t stall = 0;
        for (int s = 0; s < nsessions; ++s)
        {
            bufs.emplace_back(new SimBuf); oss.emplace_back(new std::ostream(bufs.back().get()));
            isfile.push_back(sim::choose(2)); files.push_back(sim::scratch() + "/log" + std::to_string(s) + ".m");
            if (!isfile[s] && sim::chance(1, 2)) { bufs[s]->stall_one_in = 1 + sim::choose(10); bufs[s]->stall_us = timing ? 5000000 : 1000 * (1 + sim::choose(20)); stall = bufs[s]->stall_us; }
        }
        W.max_log_us = 1000000;  // a stall lasts 5 s
        int ctor = sim::choose(2);   // 0: default constructor, then initialise; 1: directly
        bool bad_open = sim::chance(1, 6);
        sched::begin(c);
        std::vector<pthread_t> t(ps.size());
        size_t mi = 0;
        auto logSome = [&](int k) { while (k-- > 0 && mi < mine.size()) { sched::preempt((uintptr_t)5); callLog(W.e[mine[mi++]]); } };
        int s = 0;
        if (ctor == 1) { W.logger = makeThreaded(isfile[0] ? 2 : 1, oss[0].get(), files[0], ms); W.session = 0; s = 1; }
        else W.logger = makeThreaded(0, NULL, "", ms);
        for (size_t i = 0; i < ps.size(); ++i) if (pthread_create(&t[i], NULL, producerMain, &ps[i])) sim::harnessError("thread");
        for (; s < nsessions; ++s)
        {
            logSome(sim::choose(4));
            if (sim::chance(1, 2)) sched::sleepUs(1000 * sim::range(0, 12));
            if (bad_open && s == nsessions - 1)
            {
                // an output that cannot be opened is reported, and nothing is lost
                faults::disk().open_fails = true; faults::disk().open_errno = ENOSPC;
                bool thrown = false;
                W.in_init = true;
                try { W.logger->initialize(files[s] + ".bad", ms); } catch (const std::exception&) { thrown = true; }
                W.in_init = false; W.detached = true;
                faults::disk().open_fails = false;
                sim::count("fault:log file cannot be opened");
                if (!thrown) sim::fail("open-failure-hidden", "initialisation with a file that cannot be opened returned normally");
                logSome(sim::choose(3));
                sim::event("failed initialisation");
            }
            sim::event("initialise output %d (%s)", s, isfile[s] ? "file" : "stream");
            uint64_t t0 = sched::nowUs(), st0 = 0; for (auto& b : bufs) st0 += b->stalled;
            W.in_init = true;
            try { if (isfile[s]) W.logger->initialize(files[s], ms); else W.logger->initialize(*oss[s], ms); }
            catch (const std::exception& x) { sim::fail("initialise-threw", "re-initialising the logger with a healthy output (%s, session %d of %d) failed: %s", isfile[s] ? "file" : "stream", s, nsessions, x.what()); }
            W.in_init = false;
            uint64_t st1 = 0; for (auto& b : bufs) st1 += b->stalled;
            W.session = s; W.detached = false;
            sim::count("re-initialisations");
            if (timing && sched::nowUs() - t0 > (st1 - st0) + stall + 20000ull * 1000) sim::fail("slow-stop", "initialise took %llu us of simulated time", (unsigned long long)(sched::nowUs() - t0));
            sim::event("initialised");
        }
        logSome(sim::choose(4));
        // everything before this point drains within a bounded time
        if (timing && !stall && sim::chance(1, 2))
        {
            for (size_t i = 0; i < ps.size(); ++i) pthread_join(t[i], NULL);
            logSome(3);
            sched::sleepUs(1000ull * (10 * ms + 50));
            std::string all;
            for (int k = 0; k < nsessions; ++k) all += isfile[k] ? readFile(files[k]) : bufs[k]->bytes;
            for (auto& en : W.e) if (en.returned && all.find(en.text) == std::string::npos)
                sim::fail("not-drained", "an entry logged %llu us ago has not reached the output although the writer polls every %d ms", (unsigned long long)(sched::nowUs() - en.ret_us), ms);
            sim::count("drain checks");
            ps.clear();
        }
        for (size_t i = 0; i < ps.size(); ++i) pthread_join(t[i], NULL);
        logSome(100);
        uint64_t t0 = sched::nowUs(), st0 = 0; for (auto& b : bufs) st0 += b->stalled;
        sim::event("destroy");
        delete W.logger;
        uint64_t st1 = 0; for (auto& b : bufs) st1 += b->stalled;
        if (timing && sched::nowUs() - t0 > (st1 - st0) + stall + 20000ull * 1000) sim::fail("slow-stop", "destruction took %llu us of simulated time", (unsigned long long)(sched::nowUs() - t0));
        if (sched::liveThreads() > 1) sim::fail("thread-left", "a background thread is still running after the logger was destroyed");
        sim::step(sched::points()); sim::simTime(sched::nowUs() * 1e-6);
        uint64_t sw = sched::switches();
        sched::end();
        for (int k = 0; k < nsessions; ++k) W.outputs.push_back(isfile[k] ? readFile(files[k]) : bufs[k]->bytes);
        if (sw > 3 && nsessions > 1) sim::nontrivial();
        sim::count("sessions", nsessions);
        judge(false, "C03");
        sim::sample("%d outputs (constructor %d), %zu entries, %llu context switches, stall %llu us, timing %d", nsessions, ctor, W.e.size(), (unsigned long long)sw, (unsigned long long)stall, timing);
    }

    // ======================= C04 =======================
    uint32_t alloc_rate = 0;
    Fault allocFault(int)
    {
        Fault f;
        if (alloc_rate && sim::chance(1, alloc_rate)) { f.nth = 1 + sim::choose(6); f.persistent = sim::chance(1, 2); }
        return f;
    }
    void c04()
    {
        faults::diskReset(); faults::io_point = ioPoint;
        alloc_rate = sim::chance(2, 3) ? 1 + sim::choose(8) : 0;
        std::vector<Producer> ps = makeProducers(3, sim::chance(1, 2) ? 40 : 8, allocFault);
        size_t total = 0; for (auto& en : W.e) total += en.text.size();
        // a slow writer lets the queue grow, so that the queue itself must allocate
        sched::Config c = swarm(false);
        if (sim::chance(1, 2)) c.early_time = false;
        SimBuf buf; std::ostream os(&buf);
        if (sim::chance(1, 2)) { buf.stall_one_in = 1 + sim::choose(4); buf.stall_us = 50000; }
        int mode = sim::choose(4), ms = 1 + sim::choose(4);
        std::string file = sim::scratch() + "/log.m";
        bool dev = sim::chance(1, 2);
        int64_t at = sim::choose(4) ? sim::choose((uint32_t)total + 1) : sim::choose(std::min<size_t>(total, 60) + 1);
        if (dev) { if (mode >= 2) { faults::disk().capacity = at; faults::disk().error = sim::chance(1, 2) ? EIO : ENOSPC; } else { buf.fail_at = at; buf.throws = sim::chance(1, 4); } }
        if (mode >= 2 && sim::chance(1, 3)) faults::disk().max_chunk = 1 + sim::choose(50);
        if (mode >= 2 && sim::chance(1, 4)) { faults::disk().eintr_every = 2 + sim::choose(4); }
        bool thread_fault = (mode == 0 || mode == 3) && sim::chance(1, 4);
        if (thread_fault) c.create_fail_at = 1;
        sched::begin(c);
        W.logger = makeThreaded(mode == 1 ? 1 : mode == 2 ? 2 : 0, &os, file, ms);
        auto init = [&]() { if (mode == 0) W.logger->initialize(os, ms); else W.logger->initialize(file, ms); };
        bool give_up = false;
        if (mode == 0 || mode == 3)
        {
            bool thrown = false;
            try { init(); } catch (const std::exception&) { thrown = true; }
            if (thrown != thread_fault) sim::fail("start-failure", "initialisation %s", thrown ? "failed without a fault" : "returned normally although the writer thread could not be started");
            if (thrown)
            {
                // the logger must still be usable: log, and either try again or just go away
                give_up = sim::chance(1, 3);
                if (!give_up) { try { init(); } catch (const std::exception& x) { sim::fail("restart", "initialisation after a failed one: %s", x.what()); } }
            }
        }
        W.session = 0;
        runProducers(ps);
        if (sim::chance(1, 3)) sched::sleepUs(1000 * sim::range(0, 30));
        sim::event("destroy");
        delete W.logger;
        if (sched::liveThreads() > 1) sim::fail("thread-left", "a background thread is still running after the logger was destroyed");
        sim::step(sched::points()); sim::simTime(sched::nowUs() * 1e-6);
        uint64_t sw = sched::switches();
        sched::end();
        auto& st = faults::diskStats();
        if (st.failed_writes) sim::count("fault:write to the log file fails", st.failed_writes);
        if (st.short_writes) sim::count("fault:short write to the log file", st.short_writes);
        if (st.eintr) sim::count("fault:interrupted write", st.eintr);
        faults::disk() = faults::Disk();
        std::string out = mode >= 2 ? readFile(file) : buf.bytes;
        bool failed = buf.failed || st.failed_writes > 0 || give_up;
        W.outputs.push_back(out);
        for (auto& en : W.e) en.min_session = en.max_session = 0;
        bool any = failed || thread_fault; for (auto& en : W.e) any = any || en.alloc_failures;
        if (any) sim::nontrivial();
        judge(failed, "C04");
        if (dev && (int64_t)out.size() > at && !thread_fault) sim::harnessError("device accepted more than its capacity");
        // as much as the device took: a failing device cuts the text exactly at the failure
        sim::sample("%zu entries in %zu producers, allocation fault rate 1/%u, device failure at byte %lld of %zu (mode %d), thread creation fault %d, %llu switches", W.e.size(), ps.size(), alloc_rate, dev ? (long long)at : -1LL, total, mode, thread_fault, (unsigned long long)sw);
    }

    sim::Scenario s1("C01", "a run is a set of producer threads with random entries, an output and a schedule drawn from the seed; non-trivial: more than 3 context switches and more than one entry", c01);
    sim::Scenario s2("C02", "a run is a sequence of random values of all supported types logged through the threaded and the unthreaded build; non-trivial: more than one entry", c02);
    sim::Scenario s3("C03", "a run is a sequence of outputs the logger is moved between while producers log, with a random schedule; non-trivial: more than one output and more than 3 context switches", c03);
    sim::Scenario s4("C04", "a run is a set of producers with allocation failures, thread creation failures and a failing output; non-trivial: at least one fault actually fired", c04);
}
