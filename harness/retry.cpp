// C18 for hierarchies of any shape: iterations that fail at any point and are repeated, against a twin that never fails.
#include "humoto/config_msgpack.h"     // like the other sources of this program: the classes are the same everywhere
#include "hier_life.h"
using namespace hier;
namespace
{
    struct Side
    {
        World w; std::unique_ptr<Front> f; humoto::ActiveSet as; bool as_ok = false;
        Side(Plan* p, int kind, const Params& q) : w(p), f(makeFront(kind)) { f->params(q); }
        void iterate(int form, int solve, const Params& q) { w.form(form); f->solve(w.sol, w.op, solve, as, w.asg, w.guess, q); if (returnsActiveSet(solve)) w.op.processActiveSet(as); }
    };
    bool eq(const V& a, const V& b) { return a.size() == b.size() && (a.size() == 0 || (a.array() == b.array()).all() || (a - b).cwiseAbs().maxCoeff() <= 1e-12 * (1 + b.cwiseAbs().maxCoeff())); }
}
void retryHierarchy()
{
    Opts o; o.qp = true; o.full_rank = true; int kind = sim::choose(NFRONTS); o.no_gi0 = kind < KKT_LU; o.eq0 = kind >= KKT_LU; o.simple_obj = false; Params q; Plan p; p.st = anyStructure(); newX0(p);
    Side a(&p, kind, q), b(&p, kind, q); int n = sim::range(1, 8); 
    for (int it = 0; it < n; ++it)
    {
        evolve(p, o, {&a.w, &b.w}, it == 0); int ov = sim::choose(a.f->overloads()); int form = usesGuess(ov) ? (usesActiveSetGuess(ov) ? 2 : 3) : usesActiveSetGuess(ov) ? 1 : 0;
        int failures = 0;
        for (int k = sim::choose(3); k > 0; --k)
        {
            int what = sim::choose(4); bool threw = false, injected = false;
            switch (what)
            {
                case 0: case 1: injected = threw = formFaulty(a.w, form, what); break;
                case 2:
                {
                    // anything of the iteration: forming, solving, processing the active set
                    faults::allocArmNew(1 + sim::choose(sim::chance(1, 2) ? 8 : 80)); try { a.iterate(form, ov, q); } catch (const std::exception&) { threw = true; } injected = faults::allocDisarm() > 0; if (injected) sim::count("fault:allocation"); break;
                }
                default:
                {
                    if (kind >= KKT_LU) break; try { a.w.form(form); } catch (const std::exception&) { break; }
                    Outcome r = callFront(*a.f, a.w, a.w.sol, ov, a.as, q, 1 + sim::choose(3)); injected = r.injected; threw = r.thrown; if (injected) sim::count("fault:solver-failure");
                }
            }
            if (injected && !threw) sim::fail("failure-not-raised", "iteration %d, %s: a failure was injected, no error was raised", it, frontName(kind));
            if (injected) { ++failures; sim::state(sim::mix(what, kind * 16 + ov)); }
        }
        bool ta = false, tb = false; std::string ea, eb; try { b.iterate(form, ov, q); } catch (const std::exception& e) { tb = true; eb = e.what(); } try { a.iterate(form, ov, q); } catch (const std::exception& e) { ta = true; ea = e.what(); }
        if (ta != tb) sim::fail("retry-differs", "iteration %d with %s after %d failures: %s %s", it, frontName(kind), failures, ta ? "fails:" : "without them it fails:", (ta ? ea : eb).c_str());
        if (tb) { sim::count("outcome:no-solution"); if (failures) sim::nontrivial(); return; }
        if (!eq(a.w.sol.get_x(), b.w.sol.get_x())) sim::fail("retry-differs", "iteration %d with %s after %d failures: another solution", it, frontName(kind), failures);
        if (a.w.sol.return_status_ != b.w.sol.return_status_) sim::fail("retry-differs", "iteration %d with %s after %d failures: status %d instead of %d", it, frontName(kind), failures, (int)a.w.sol.return_status_, (int)b.w.sol.return_status_);
        if (returnsActiveSet(ov)) { if (a.as.size() != b.as.size()) sim::fail("retry-differs", "iteration %d after %d failures: active set of %zu constraints instead of %zu", it, failures, a.as.size(), b.as.size()); for (size_t i = 0; i < a.as.size(); ++i) if (a.as[i].size() != b.as[i].size()) sim::fail("retry-differs", "iteration %d after %d failures: level %zu of the active set differs in size", it, failures, i); else for (size_t j = 0; j < a.as[i].size(); ++j) if (a.as[i][j] != b.as[i][j]) sim::fail("retry-differs", "iteration %d after %d failures: constraint %zu of the active set differs", it, failures, i); }
        a.w.old = a.w.sol; b.w.old = b.w.sol; if (failures) sim::nontrivial(); sim::step(); for (int i = 0; i < a.w.sol.get_x().size(); ++i) sim::digestDouble(a.w.sol.get_x()[i]);
    }
}
