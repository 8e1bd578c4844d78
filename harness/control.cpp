// Whole controllers: crash and restart, several controllers in one process, retries after failures, optimality.
#include "harness/control.h"
#include <cmath>
#include <functional>
using namespace control;
namespace wpgsim { void optimal(); }
namespace peppersim { void optimal(); }
void retryHierarchy();
namespace
{
    std::string compare(const std::vector<double>& a, const std::vector<double>& b, double tol)
    {
        if (a.size() != b.size()) return std::to_string(a.size()) + " values instead of " + std::to_string(b.size());
        double scale = 1; for (double x : b) if (std::isfinite(x)) scale = std::max(scale, std::min(std::fabs(x), 1e3));
        for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i] - b[i]) <= tol * (scale + std::fabs(b[i])))) { char s[120]; snprintf(s, sizeof s, "value %zu of %zu is %.17g instead of %.17g", i, a.size(), a[i], b[i]); return s; }
        return "";
    }
    // an iteration of the uninterrupted twin; false: it has ended
    enum Step { GOES_ON, STOPPED, NO_SOLUTION };
    Step advance(Controller& c) { Excuse excuse; try { return c.iterate() ? GOES_ON : STOPPED; } catch (const std::exception& e) { if (!excuse.solver()) sim::fail("iteration-failed", "an iteration failed: %s", e.what()); sim::event("no solution: %s", e.what()); return NO_SOLUTION; } }
    void disturb(std::initializer_list<Controller*> cs)
    {
        if (sim::chance(1, 5)) { double x = sim::num(-0.1, 0.1), y = sim::num(-0.1, 0.1); for (auto c : cs) c->push(x, y); sim::count("fault:push"); }
        if (sim::chance(1, 8)) { int k = sim::choose(4); for (auto c : cs) c->command(k); sim::count("fault:command-change"); }
    }
    void restarts()
    {
        auto f = draw(true); Ptr a = f->start(), b = f->start(); sim::sample("restart: %s", a->describe().c_str()); sim::event("%s", a->describe().c_str()); int n = sim::range(2, sim::thorough() ? 60 : 25), crashes = 0;
        for (int it = 0; it < n; ++it)
        {
            disturb({a.get(), b.get()});
            if (sim::chance(1, 4))
            {   // the process ends somewhere in an iteration, after its last state was persisted
                b->save(sim::scratch()); int where = sim::choose(Controller::STEPS); bool died = false;
                try { for (int k = 0; k < where; ++k) if (!b->phase(k)) break; } catch (const std::exception&) { died = true; } (void)died;
                b = f->start(); if (sim::chance(1, 4)) { for (int k = sim::range(1, 3); k > 0; --k) if (advance(*b) != GOES_ON) break; sim::count("loaded-into-running-process"); }
                b->load(sim::scratch()); ++crashes; sim::count("fault:crash"); sim::event("crash in step %d of iteration %d", where, it); sim::state(sim::mix(where, it));
            }
            Step x = advance(*a), y = advance(*b); if (x != y) sim::fail("restart-differs", "iteration %d after %d restarts: the controller %s instead of %s", it, crashes, y == GOES_ON ? "goes on" : y == STOPPED ? "stops" : "fails", x == GOES_ON ? "going on" : x == STOPPED ? "stopping" : "failing");
            if (x == NO_SOLUTION) return; std::string d = compare(b->observe(), a->observe(), 1e-9); if (!d.empty()) sim::fail("restart-differs", "iteration %d after %d restarts: %s", it, crashes, d.c_str());
            if (crashes) sim::nontrivial(); if (x == STOPPED) { sim::count("outcome:completed"); return; }
            for (double v : a->observe()) sim::digestDouble(v);
        }
    }
    void interleaved()
    {
        int n = sim::range(2, 4); std::vector<std::shared_ptr<Factory>> f; std::vector<std::vector<std::vector<double>>> alone(n); std::vector<int> length(n); std::vector<Step> end(n);
        for (int i = 0; i < n; ++i) { f.push_back(i && sim::chance(1, 3) ? f[sim::choose(i)] : draw(true)); length[i] = sim::range(2, sim::thorough() ? 20 : 8); }
        std::vector<std::vector<std::pair<double, double>>> pushes(n);
        for (int i = 0; i < n; ++i)
        {
            Ptr c = f[i]->start(); sim::sample("interleaved: %s", c->describe().c_str()); end[i] = GOES_ON;
            for (int it = 0; it < length[i]; ++it) { std::pair<double, double> u(0, 0); if (sim::chance(1, 4)) u = {sim::num(-0.1, 0.1), sim::num(-0.1, 0.1)}; pushes[i].push_back(u); c->push(u.first, u.second); end[i] = advance(*c); if (end[i] == NO_SOLUTION) break; alone[i].push_back(c->observe()); if (end[i] == STOPPED) break; }
        }
        std::vector<Ptr> c(n); std::vector<int> step(n, 0), iter(n, 0); std::vector<char> done(n, 0); int left = n; uint64_t trace = 0;
        // controllers start at any time, and may be destroyed before the others end
        while (left)
        {
            int i = sim::choose(n); while (done[i]) i = (i + 1) % n;
            trace = sim::mix(trace, i * 8 + step[i]); sim::state(sim::mix(trace, 1));
            if (!c[i]) { c[i] = f[i]->start(); continue; }
            if (step[i] == 0) c[i]->push(pushes[i][iter[i]].first, pushes[i][iter[i]].second);
            bool on = true, failed = false; std::string why; try { on = c[i]->phase(step[i]); } catch (const std::exception& e) { failed = true; why = e.what(); }
            bool last = iter[i] + 1 == (int)pushes[i].size();
            if (failed) { if (!(last && end[i] == NO_SOLUTION)) sim::fail("controllers-not-independent", "controller %d fails in iteration %d among others but not alone: %s", i, iter[i], why.c_str()); done[i] = 1; --left; c[i].reset(); continue; }
            if (on && ++step[i] < Controller::STEPS) continue;
            if (last && end[i] == NO_SOLUTION) sim::fail("controllers-not-independent", "controller %d fails alone in iteration %d but not among others", i, iter[i]);
            std::string d = compare(c[i]->observe(), alone[i][iter[i]], 0); if (!d.empty()) sim::fail("controllers-not-independent", "iteration %d of controller %d among %d differs from the same controller alone: %s", iter[i], i, n, d.c_str());
            if (!on != (last && end[i] == STOPPED)) sim::fail("controllers-not-independent", "controller %d %s among others", i, on ? "goes on" : "stops");
            step[i] = 0; if (++iter[i] == (int)pushes[i].size()) { done[i] = 1; --left; if (sim::chance(1, 2)) c[i].reset(); }
            sim::nontrivial();
        }
        sim::count("interleaved-runs");
    }
    void retries()
    {
        auto f = draw(true); Ptr a = f->start(), b = f->start(); sim::sample("retry: %s", a->describe().c_str()); sim::event("%s", a->describe().c_str()); int n = sim::range(1, sim::thorough() ? 40 : 12);
        for (int it = 0; it < n; ++it)
        {
            disturb({a.get(), b.get()}); int faults = 0;
            while (faults < 3 && sim::chance(1, 2))
            {
                ++faults; Fault t;
                switch (sim::choose(3))
                {
                    case 0: t.kind = Fault::ALLOC; t.at = 1 + sim::choose(sim::chance(1, 2) ? 10 : sim::chance(1, 2) ? 60 : 400); break;
                    case 1: t.kind = Fault::SOLVER; t.at = 1 + sim::choose(3); break;
                    default: t.kind = Fault::TASK; t.at = sim::choose(3); break;
                }
                // the client works with copies of what it persists until the iteration is complete
                bool threw = false, on = true; std::string why; std::vector<double> before;
                Ptr k = a; try { on = true; for (int s = 0; s < 1; ++s) on = k->attempt(t); } catch (const std::exception& e) { threw = true; why = e.what(); }
                if (t.fired && !threw) sim::fail("failure-not-raised", "iteration %d: %s, but no error was raised", it, t.kind == Fault::ALLOC ? "an allocation failed" : t.kind == Fault::SOLVER ? "the solver failed" : "a task failed");
                if (t.fired) { sim::count(t.kind == Fault::ALLOC ? "fault:allocation" : t.kind == Fault::SOLVER ? "fault:solver-failure" : "fault:task-throws"); sim::event("fault %d at %llu: %s", (int)t.kind, (unsigned long long)t.at, why.c_str()); sim::state(sim::mix(t.kind, t.at)); }
                (void)on;
            }
            Step x = advance(*a), y = advance(*b); if (x != y) sim::fail("retry-differs", "iteration %d after %d failures: the controller %s, without them it %s", it, faults, x == GOES_ON ? "goes on" : x == STOPPED ? "stops" : "fails", y == GOES_ON ? "goes on" : y == STOPPED ? "stops" : "fails");
            if (x == NO_SOLUTION) return; std::string d = compare(a->observe(), b->observe(), 1e-12); if (!d.empty()) sim::fail("retry-differs", "iteration %d after %d failures: %s", it, faults, d.c_str());
            if (faults) sim::nontrivial(); for (double v : a->observe()) sim::digestDouble(v);
            if (x == STOPPED) { sim::count("outcome:completed"); return; }
        }
    }
    sim::Scenario s15("C15", "an uninterrupted twin; each controller alone", [] { if (sim::choose(2)) interleaved(); else restarts(); });
    sim::Scenario s18("C18", "a twin without faults", [] { if (sim::choose(3) == 2) retryHierarchy(); else retries(); });
    sim::Scenario s25("C25", "minimiser of the declared objectives over the motions of the model, computed from its rollouts", [] { if (sim::choose(2)) peppersim::optimal(); else wpgsim::optimal(); });
}
