#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>

namespace sim
{
    enum Verdict { V_NONE = 0, V_OK = 1, V_FAIL = 2, V_ERROR = 3 };
    const uint32_t MAX_CHOICES = 1u << 20;
    const uint32_t MAX_STATES = 8192;
    const uint32_t MAX_COUNTERS = 128;
    const uint32_t MAX_LOG = 1u << 20;

    struct Shared
    {
        volatile uint32_t verdict;
        char cls[96];
        char msg[6000];
        uint64_t digest;
        uint64_t steps;
        double simtime;
        uint32_t ncounters;
        struct { char name[56]; uint64_t v; } counters[MAX_COUNTERS];
        uint32_t nstates;
        uint32_t nontrivial;
        char sample[600];
        uint32_t loglen;
        volatile uint32_t nchoices;
        uint64_t states[MAX_STATES];
        char log[MAX_LOG];
        uint32_t choices[MAX_CHOICES];
    };

    static Shared* sh = NULL;
    static uint64_t rng_state = 0;
    static const std::vector<uint32_t>* trace = NULL;
    static bool verbose_ = false, thorough_ = false;
    static std::string scratch_, prop_;

    struct Reg { std::string property, rule; std::function<void()> fn; };
    static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
    Scenario::Scenario(const char* p, const char* rule, std::function<void()> fn) { regs().push_back(Reg{p, rule, fn}); }

    bool verbose() { return verbose_; }
    bool thorough() { return thorough_; }
    const std::string& scratch() { return scratch_; }
    const char* prop() { return prop_.c_str(); }

    static uint64_t rng()
    {
        uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    uint32_t choose(uint32_t n)
    {
        if (n <= 1) return 0;
        uint32_t i = sh->nchoices, v;
        if (i >= MAX_CHOICES) harnessError("too many choices");
        if (trace) v = i < trace->size() ? (*trace)[i] % n : 0;
        else v = (uint32_t)((rng() >> 11) % n);
        sh->choices[i] = v;
        sh->nchoices = i + 1;
        sh->digest = mix(sh->digest, v + 1);
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
    int range(int lo, int hi) { return lo + (int)choose((uint32_t)(hi - lo + 1)); }
    double grid(double lo, double hi, int steps) { return lo + (hi - lo) * choose(steps + 1) / steps; }
    double num(double lo, double hi)
    {
        uint32_t k = choose(1u << 20);
        if (k == 0) return lo;
        // irrational-looking value in (lo, hi)
        double f = std::fmod(k * 0.6180339887498949, 1.0);
        return lo + (hi - lo) * f;
    }

    void digest(uint64_t v) { sh->digest = mix(sh->digest, v); }
    void digestBytes(const void* p, size_t n)
    {
        uint64_t h = 1469598103934665603ull;
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        digest(h);
    }
    void digestDouble(double v) { uint64_t u; memcpy(&u, &v, 8); digest(u); }

    void event(const char* fmt, ...)
    {
        char buf[2048];
        va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
        digestBytes(buf, n);
        if (verbose_ && sh->loglen + n + 1 < MAX_LOG)
        {
            memcpy(sh->log + sh->loglen, buf, n);
            sh->log[sh->loglen + n] = '\n';
            sh->loglen += n + 1;
        }
    }
    void count(const char* name, uint64_t k)
    {
        for (uint32_t i = 0; i < sh->ncounters; ++i)
            if (!strcmp(sh->counters[i].name, name)) { sh->counters[i].v += k; return; }
        if (sh->ncounters >= MAX_COUNTERS) return;
        strncpy(sh->counters[sh->ncounters].name, name, sizeof sh->counters[0].name - 1);
        sh->counters[sh->ncounters++].v = k;
    }
    void state(uint64_t h) { if (sh->nstates < MAX_STATES) sh->states[sh->nstates++] = h; }
    void step(uint64_t k) { sh->steps += k; }
    void simTime(double s) { sh->simtime += s; }
    void nontrivial() { sh->nontrivial = 1; }
    void sample(const char* fmt, ...)
    {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->sample, sizeof sh->sample, fmt, ap); va_end(ap);
    }
    std::string hexDouble(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

    static void finish(uint32_t verdict)
    {
        sh->verdict = verdict;
        syscall(SYS_exit_group, verdict == V_OK ? 0 : 3);
        _exit(3);
    }
    void failStr(const std::string& cls, const std::string& msg_)
    {
        std::string msg = msg_;   // the scratch directory differs from process to process
        for (size_t p; !scratch_.empty() && (p = msg.find(scratch_)) != std::string::npos;) msg.replace(p, scratch_.size(), "SCRATCH");
        if (sh->verdict == V_NONE)
        {
            strncpy(sh->cls, cls.c_str(), sizeof sh->cls - 1);
            strncpy(sh->msg, msg.c_str(), sizeof sh->msg - 1);
        }
        finish(V_FAIL);
        __builtin_unreachable();
    }
    void fail(const char* cls, const char* fmt, ...)
    {
        char buf[5900];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        failStr(cls, buf);
    }
    void harnessError(const char* fmt, ...)
    {
        va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
        finish(V_ERROR);
        __builtin_unreachable();
    }

    static void cleanDir(const std::string& d)
    {
        DIR* h = opendir(d.c_str());
        if (!h) return;
        while (dirent* e = readdir(h))
        {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string p = d + "/" + e->d_name;
            if (unlink(p.c_str()) != 0) rmdir(p.c_str());
        }
        closedir(h);
    }

    // Runs one simulated run in a child.  The result is in *sh.
    static void runOne(const Reg& reg, uint64_t seed, const std::vector<uint32_t>* tr)
    {
        sh->verdict = V_NONE; sh->cls[0] = sh->msg[0] = sh->sample[0] = 0;
        memset(sh->cls, 0, sizeof sh->cls); memset(sh->msg, 0, sizeof sh->msg);
        sh->digest = 0x1234567; sh->steps = 0; sh->simtime = 0; 
        memset(sh->counters, 0, sizeof sh->counters); sh->ncounters = 0;
        sh->nstates = 0; sh->nontrivial = 0; sh->loglen = 0; sh->nchoices = 0;
        cleanDir(scratch_);
        fflush(NULL);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {20, 20};
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && __has_feature(address_sanitizer))
            rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
            signal(SIGPIPE, SIG_IGN);
            if (!verbose_)
            {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1); dup2(fd, 2);
            }
            rng_state = mix(seed, 0xC0FFEE);
            trace = tr;
            bool thrown = true;
            std::string what;
            try { reg.fn(); thrown = false; }
            catch (const std::exception& e) { what = e.what(); }
            catch (...) { what = "unknown exception"; }
            if (thrown) failStr("unexpected-exception", "an exception escaped from the system where none is allowed: " + what);
            finish(V_OK);
        }
        int st = 0;
        // wall-clock guard only against a simulator that lost its baton; the verdict hang comes from CPU time
        for (long waited = 0;;)
        {
            pid_t r = waitpid(pid, &st, waited < 200 ? 0 | WNOHANG : WNOHANG);
            if (r == pid) break;
            if (r < 0 && errno != EINTR) { perror("waitpid"); exit(2); }
            usleep(waited < 2000 ? 50 : 2000);
            if (++waited > 92000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); sh->verdict = V_ERROR; strcpy(sh->msg, "run made no progress in wall-clock time (simulator stalled)"); return; }
        }
        if (sh->verdict == V_NONE)
        {
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
            {
                strcpy(sh->cls, "hang"); strcpy(sh->msg, "the run used 20 s of CPU time without finishing");
                sh->verdict = V_FAIL;
            }
            else if (WIFSIGNALED(st))
            {
                snprintf(sh->cls, sizeof sh->cls, "crash-signal-%d", WTERMSIG(st));
                snprintf(sh->msg, sizeof sh->msg, "the process was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                sh->verdict = V_FAIL;
            }
            else
            {
                snprintf(sh->cls, sizeof sh->cls, "crash-exit-%d", WEXITSTATUS(st));
                snprintf(sh->msg, sizeof sh->msg, "the process exited with status %d in the middle of the run (sanitizer report or exit call)", WEXITSTATUS(st));
                sh->verdict = V_FAIL;
            }
        }
    }

    static std::string jsonStr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }

    static void writeResult(const std::string& path, uint64_t seed, bool with_log)
    {
        FILE* f = fopen((path + ".tmp").c_str(), "w");
        fprintf(f, "{\"verdict\": %u, \"cls\": %s, \"msg\": %s, \"digest\": \"%016llx\", \"seed\": %llu, \"steps\": %llu, \"choices\": [",
                (unsigned)sh->verdict, jsonStr(sh->cls).c_str(), jsonStr(sh->msg).c_str(), (unsigned long long)sh->digest,
                (unsigned long long)seed, (unsigned long long)sh->steps);
        for (uint32_t i = 0; i < sh->nchoices; ++i) fprintf(f, "%s%u", i ? "," : "", sh->choices[i]);
        fprintf(f, "]");
        if (with_log) fprintf(f, ", \"log\": %s", jsonStr(std::string(sh->log, sh->loglen)).c_str());
        fprintf(f, "}\n");
        fclose(f);
        rename((path + ".tmp").c_str(), path.c_str());
    }

    int main(int argc, char** argv)
    {
        // No address-space randomisation, so that a stray address cannot make two runs differ.
        if (!getenv("SIM_NOASLR"))
        {
            setenv("SIM_NOASLR", "1", 1);
            if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
        mallopt(M_PERTURB, 0x5C);   // fresh and freed memory is filled: reads of it are repeatable garbage, never lucky zeros
        mallopt(M_ARENA_MAX, 1);
        std::map<std::string, std::string> a;
        for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
        prop_ = a["--prop"];
        thorough_ = a["--tier"] == "thorough";
        scratch_ = a["--scratch"];
        if (scratch_.empty() || scratch_[0] != '/') { fprintf(stderr, "--scratch DIR needed\n"); return 2; }
        mkdir(scratch_.c_str(), 0700);
        const Reg* reg = NULL;
        for (auto& r : regs()) if (r.property == prop_) reg = &r;
        if (!reg) { fprintf(stderr, "no scenario for %s\n", prop_.c_str()); return 2; }
        sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); return 2; }

        std::string out = a["--out"];
        if (a.count("--trace"))
        {
            std::vector<uint32_t> tr;
            FILE* f = fopen(a["--trace"].c_str(), "r");
            if (!f) { perror("trace"); return 2; }
            unsigned v; while (fscanf(f, "%u", &v) == 1) tr.push_back(v);
            fclose(f);
            verbose_ = a["--verbose"] == "1";
            runOne(*reg, 0, &tr);
            writeResult(out, 0, verbose_);
            return 0;
        }
        if (a.count("--one-seed"))
        {
            uint64_t s = strtoull(a["--one-seed"].c_str(), 0, 10);
            verbose_ = a["--verbose"] == "1";
            runOne(*reg, s, NULL);
            writeResult(out, s, verbose_);
            if (verbose_) fwrite(sh->log, 1, sh->loglen, stdout);
            printf("verdict %u %s %s digest %016llx choices %u steps %llu\n", (unsigned)sh->verdict, sh->cls, sh->msg, (unsigned long long)sh->digest, (unsigned)sh->nchoices, (unsigned long long)sh->steps);
            for (uint32_t i = 0; i < sh->ncounters; ++i) printf("  %s = %llu\n", sh->counters[i].name, (unsigned long long)sh->counters[i].v);
            return 0;
        }

        uint64_t base = strtoull(a["--seed"].c_str(), 0, 10);
        int worker = atoi(a["--worker"].c_str()), workers = atoi(a["--workers"].c_str());
        double budget = atof(a["--budget"].c_str());
        uint64_t max_runs = a.count("--max-runs") ? strtoull(a["--max-runs"].c_str(), 0, 10) : ~0ull;
        std::set<std::string> known;
        { std::string k = a["--known"], cur; for (char c : k + ",") if (c == ',') { if (!cur.empty()) known.insert(cur); cur.clear(); } else cur += c; }

        std::map<std::string, uint64_t> counters, counter_runs, known_hits;
        std::unordered_set<uint64_t> states, digests;
        std::vector<std::string> samples;
        uint64_t runs = 0, nontriv = 0, steps = 0, double_checked = 0, choices = 0;
        double simtime = 0;
        int rc = 0;
        auto t0 = std::chrono::steady_clock::now();
        for (uint64_t i = 0; runs < max_runs; ++i)
        {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
            uint64_t seed = mix(base, i * workers + worker) >> 1;
            runOne(*reg, seed, NULL);
            ++runs;
            if (sh->verdict == V_FAIL)
            {
                if (known.count(sh->cls)) { known_hits[sh->cls]++; continue; }
                writeResult(out + ".violation", seed, false);
                rc = 1;
                break;
            }
            if (sh->verdict != V_OK) { writeResult(out + ".error", seed, false); rc = 2; break; }
            steps += sh->steps; simtime += sh->simtime; choices += sh->nchoices;
            for (uint32_t k = 0; k < sh->ncounters; ++k) { counters[sh->counters[k].name] += sh->counters[k].v; counter_runs[sh->counters[k].name]++; }
            if (sh->nontrivial && digests.size() < 2000000 && digests.insert(sh->digest).second) ++nontriv;
            if (states.size() < 400000) for (uint32_t k = 0; k < sh->nstates; ++k) states.insert(sh->states[k]);
            if (sh->sample[0] && (samples.size() < 2)) samples.push_back(sh->sample);
            if (i % 64 == 0)
            {
                // the gate against hidden nondeterminism: the same seed again must give the same digest
                uint64_t d = sh->digest; uint32_t v = sh->verdict;
                runOne(*reg, seed, NULL);
                ++double_checked;
                if (sh->digest != d || sh->verdict != v)
                {
                    snprintf(sh->msg, sizeof sh->msg, "nondeterminism: seed %llu gave digests %016llx and %016llx", (unsigned long long)seed, (unsigned long long)d, (unsigned long long)sh->digest);
                    writeResult(out + ".error", seed, false); rc = 2; break;
                }
            }
        }
        FILE* f = fopen((out + ".stats").c_str(), "w");
        fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"steps\": %llu, \"choices\": %llu, \"simtime\": %.6f, \"double_checked\": %llu, \"states\": %llu, \"rule\": %s,\n\"counters\": {",
                (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)choices, simtime, (unsigned long long)double_checked,
                (unsigned long long)states.size(), jsonStr(reg->rule).c_str());
        bool first = true;
        for (auto& c : counters) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\n\"counter_runs\": {"); first = true;
        for (auto& c : counter_runs) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\n\"known_hits\": {"); first = true;
        for (auto& c : known_hits) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\n\"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jsonStr(samples[i]).c_str());
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((out + ".states").c_str(), "wb");
        for (uint64_t s : states) fwrite(&s, 8, 1, f);
        fclose(f);
        cleanDir(scratch_);
        rmdir(scratch_.c_str());
        return rc;
    }
}

int main(int argc, char** argv) { return sim::main(argc, argv); }
