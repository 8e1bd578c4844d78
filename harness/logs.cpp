// C27: logs record what models, problems, hierarchies, solvers and solutions contain.
#include "humoto/config_msgpack.h"     // like the other sources of this program
#include "hier_life.h"
#include "harness/control.h"
#include <malloc.h>
using namespace hier; using mlog::join;
namespace
{
    std::string bare(const std::string& s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
    struct Recorder
    {
        std::string whole;      // the log of the complete run
        // one iteration: what logging yields, with what it must contain judged by the caller
        template<class F> std::string record(F log)
        {
            auto full = [&] { mlog::Device d; std::ostream o(&d); log(o); return d.bytes; };
            std::string text;
            if (sim::chance(1, 4))
            {   // allocations fail while the log is written; the next attempt succeeds
                uint64_t k = 1 + sim::choose(sim::chance(1, 2) ? 20 : 400); bool threw = false; mlog::Device d; std::ostream o(&d); faults::allocArmNew(k);
                try { log(o); } catch (const std::exception&) { threw = true; } uint64_t n = faults::allocDisarm(); if (n) sim::count("fault:allocation"); if (threw && !n) sim::fail("logging-call-threw", "a log was not written although nothing failed");
                text = full(); std::string x = bare(d.bytes), y = bare(text);     // the alignment of columns may differ
                if (x.size() > y.size() || y.compare(0, x.size(), x) != 0) { size_t i = 0; while (i < y.size() && i < x.size() && x[i] == y[i]) ++i; sim::failStr("not-a-prefix", "what was logged before an allocation failed differs from the log of the same state: \"" + x.substr(i > 40 ? i - 40 : 0, 80) + "\" / \"" + y.substr(i > 40 ? i - 40 : 0, 80) + "\""); }
            }
            else text = full();
            if (sim::chance(1, 4))
            {   // the device fails for good
                mlog::Device d; d.fail_at = sim::choose(text.size() + 1); std::ostream o(&d); try { log(o); } catch (const std::exception& e) { sim::fail("logging-call-threw", "a log on a failed device threw: %s", e.what()); }
                if (d.failed) sim::count("fault:output device fails"); if (text.compare(0, d.bytes.size(), d.bytes) != 0 || (!d.failed && d.bytes.size() != text.size())) sim::fail("not-a-prefix", "the log on a device which failed differs from the beginning of the log of the same state");
                mlog::Entries part = mlog::parse(d.bytes, false), all = mlog::parse(text); for (auto& e : part) if (!all.count(e.first)) sim::fail("not-a-prefix", "entry %s appears only when the device fails", e.first.c_str());
            }
            if (sim::chance(1, 6) && full() != text) sim::fail("log-not-repeatable", "the second log of the same state differs from the first");
            whole += text; sim::digestBytes(text.data(), text.size()); return text;
        }
        void finish() { if (!whole.empty()) mlog::parse(whole); }     // names are unique in the whole run
    };
    mlog::Names names(int it) { static const char* w[] = {"humoto", "", "run.humoto", "x_1"}; mlog::Names n; n.prefix = w[sim::choose(4)]; n.custom = sim::chance(1, 3); n.index = it; if (n.prefix.empty()) n.prefix = "r"; return n; }

    void controllers()
    {
        auto f = control::draw(true); control::Ptr a = f->start(), b = f->start(); sim::sample("logged: %s", a->describe().c_str()); sim::event("%s", a->describe().c_str()); int n = sim::range(1, sim::thorough() ? 30 : 8); Recorder r; mlog::Names nm = names(0);
        auto eq = [&](const char* when, int it) { auto x = a->observe(), y = b->observe(); bool same = x.size() == y.size(); for (size_t i = 0; same && i < x.size(); ++i) same = x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])); if (!same) sim::fail("logging-changes-state", "iteration %d: %s the logged controller differs from its twin which is not logged", it, when); };
        if (sim::chance(1, 3))
        {   // before the first iteration; the content of memory must not show
            mlog::Names fresh = nm; fresh.fresh = true; std::string t[2]; static const int fill[2] = {0x5C, 0x13}; control::Ptr c[2];
            for (int k = 0; k < 2; ++k) { mallopt(M_PERTURB, fill[k]); c[k] = f->start(); mlog::Device d; std::ostream o(&d); c[k]->logTo(o, fresh); t[k] = d.bytes; } mallopt(M_PERTURB, 0x5C);
            mlog::Entries x = mlog::parse(t[0]), y = mlog::parse(t[1]); sim::count("logged before the first iteration");
            for (auto& e : x) { auto i = y.find(e.first); if (i == y.end()) sim::fail("log-of-garbage", "entry %s is not always there before the first iteration", e.first.c_str()); const mlog::M &p = e.second.m, &q = i->second.m; if (e.second.s != i->second.s || p.rows() != q.rows() || p.cols() != q.cols()) sim::fail("log-of-garbage", "entry %s of a new object depends on the content of memory", e.first.c_str()); for (int k = 0; k < p.size(); ++k) if (!mlog::same(p.data()[k], q.data()[k])) sim::fail("log-of-garbage", "entry %s of a new object depends on the content of memory: %g or %g", e.first.c_str(), p.data()[k], q.data()[k]); }
        }
        for (int it = 0; it < n; ++it)
        {
            if (sim::chance(1, 5)) { double x = sim::num(-0.1, 0.1), y = sim::num(-0.1, 0.1); a->push(x, y); b->push(x, y); sim::count("fault:push"); }
            if (sim::chance(1, 8)) { int k = sim::choose(4); a->command(k); b->command(k); sim::count("fault:command-change"); }
            control::Excuse excuse; bool on = true;
            try { for (int k = 0; k < 4 && on; ++k) { on = a->phase(k); if (b->phase(k) != on) sim::fail("logging-changes-state", "iteration %d: one of the twins stops", it); } }
            catch (const std::exception& e) { if (!excuse.solver()) sim::fail("iteration-failed", "an iteration failed: %s", e.what()); break; }
            if (!on) { sim::count("outcome:completed"); break; }
            nm.index = it; std::string t = r.record([&](std::ostream& o) { a->logTo(o, nm); }); mlog::Entries got = mlog::parse(t); mlog::Expect e; a->logExpected(got, e, nm); mlog::compare(got, e); sim::state(sim::mix(got.size(), nm.custom)); sim::nontrivial();
            for (auto& x : got) if (x.first.compare(0, mlog::at(nm.prefix, it).size(), mlog::at(nm.prefix, it)) != 0) sim::fail("entry-misplaced", "entry %s is not under the name given for the iteration", x.first.c_str());
            eq("after logging", it); a->phase(4); b->phase(4); eq("in the end", it);
        }
        r.finish();
    }

    double anything() { switch (sim::choose(6)) { case 0: return 0; case 1: return sim::num(-1, 1) * 1e-9; case 2: return sim::num(-1, 1) * 1e12; case 3: return HUGE_VAL; case 4: return sim::range(-5, 5); default: return sim::num(-10, 10); } }
    void any3(etools::Vector3& v) { for (int i = 0; i < 3; ++i) v[i] = anything(); }
    void states(Recorder& r, int it)
    {
        namespace rb = humoto::rigidbody; rb::PointMassState pm; any3(pm.position_); any3(pm.velocity_); any3(pm.acceleration_); rb::RigidBodyState b; any3(b.position_); any3(b.velocity_); any3(b.acceleration_); any3(b.rpy_); any3(b.angular_velocity_); any3(b.angular_acceleration_);
        rb::RigidBodyPose pose; any3(pose.position_); any3(pose.rpy_); humoto::Location loc(sim::choose(1000), sim::choose(1000)); humoto::ActiveSetConstraints as; as.initialize(sim::choose(5)); for (size_t i = 0; i < as.size(); ++i) as[i] = (CAT::Type)sim::choose(5);
        mlog::Names n; n.prefix = "states"; n.index = it; n.custom = sim::choose(2);
        std::string t = r.record([&](std::ostream& o)
        {
            humoto::Logger l(o); humoto::LogEntryName p(n.prefix); p.add((std::size_t)it); const humoto::LogEntryName k = p;
            if (n.custom) { pm.log(l, k, "my_point_mass_state"); b.log(l, k, "my_rigid_body_state"); ((rb::RotaryState&)b).log(l, k, "my_rotary_state"); pose.log(l, k, "my_rigid_body_pose"); loc.log(l, k, "my_location"); as.log(l, k, "my_set"); }
            else { pm.log(l, k); b.log(l, k); ((rb::RotaryState&)b).log(l, k); pose.log(l, k); loc.log(l, k); as.log(l, humoto::LogEntryName(k).add("set")); }
        });
        mlog::Expect e; mlog::pointMass(e, n.of("point_mass_state"), pm); mlog::rigidBody(e, n.of("rigid_body_state"), b); mlog::rotary(e, n.of("rotary_state"), b); e.mat(join(n.of("rigid_body_pose"), "position"), pose.position_); e.mat(join(n.of("rigid_body_pose"), "rpy"), pose.rpy_);
        e.num(join(n.of("location"), "offset"), loc.offset_); e.num(join(n.of("location"), "length"), loc.length_); mlog::activeSet(e, n.of("set"), as); mlog::compare(mlog::parse(t), e);
    }
    void hierarchies()
    {
        Opts o; o.qp = sim::chance(2, 3); o.max_levels = 4; o.full_rank = true; int kind = sim::choose(NFRONTS); if (o.qp) { o.no_gi0 = kind < KKT_LU; o.eq0 = kind >= KKT_LU; o.simple_obj = kind == KKT_ELIM; } Params q; Plan p; p.st = anyStructure(); newX0(p);
        World w(&p), twin(&p); std::unique_ptr<Front> f(makeFront(kind)), g(makeFront(kind)); f->params(q); g->params(q); humoto::ActiveSet as, twin_as; Recorder r; mlog::Names nm = names(0); sim::sample("hierarchies with %s", frontName(kind));
        int n = sim::range(1, 6); bool as_ok = false;
        for (int it = 0; it < n; ++it)
        {
            evolve(p, o, {&w, &twin}, it == 0); int ov = o.qp ? sim::choose(f->overloads()) : 0; int form = usesGuess(ov) ? (usesActiveSetGuess(ov) ? 2 : 3) : usesActiveSetGuess(ov) ? 1 : 0; if (!o.qp) form = sim::choose(4);
            bool solved = o.qp; w.form(form); twin.form(form);
            if (o.qp)
            {
                try { f->solve(w.sol, w.op, ov, as, w.asg, w.guess, q); } catch (const std::exception& e) { solved = false; sim::event("no solution: %s", e.what()); } bool other = true;
                try { g->solve(twin.sol, twin.op, ov, twin_as, twin.asg, twin.guess, q); } catch (const std::exception&) { other = false; } if (other != solved) sim::fail("logging-changes-state", "iteration %d: one of the twins has no solution", it);
                if (solved && returnsActiveSet(ov)) { w.op.processActiveSet(as); twin.op.processActiveSet(twin_as); as_ok = true; }
            }
            else { humoto::Location all(0, p.st.n()); V x(p.st.n()); for (int i = 0; i < x.size(); ++i) x[i] = sim::num(-2, 2); w.sol.getData(all) = x; twin.sol.getData(all) = x; solved = true; }
            humoto::Violations v; humoto::ActiveSet det; if (solved) { w.op.computeViolations(v, w.sol); w.op.determineActiveSet(det, w.sol); }
            nm.index = it; bool guess = form == 1 || form == 2; bool solution_guess = form == 2 || form == 3; bool qp_ok = o.qp && (p.levels.size() == 2 || kind < KKT_LU);
            std::string t = r.record([&](std::ostream& s)
            {
                humoto::Logger l(s); humoto::LogEntryName k(nm.prefix); k.add((std::size_t)it); if (nm.custom) w.op.log(l, k, "my_problem"); else w.op.log(l, k);
                if (nm.custom) w.sol.log(l, k, "my_solution"); else w.sol.log(l, k); if (solution_guess) w.guess.log(l, k, "solution_guess"); if (guess) w.asg.log(l, k, "active_set_guess"); if (as_ok) { if (nm.custom) as.log(l, k, "my_active_set"); else as.log(l, k); } if (solved) { det.log(l, k, "determined"); if (nm.custom) v.log(l, k, "my_violations"); else v.log(l, k); }
                if (o.qp) f->log(l, k, nm.custom ? (std::string("my_") + f->defaultName()).c_str() : nullptr);
            });
            mlog::Entries got = mlog::parse(t); mlog::Expect e; std::string base = mlog::at(nm.prefix, it); mlog::hierarchy(got, nm.custom ? join(base, "my_problem") : base, w.tracked(), p.levels.size());
            mlog::solution(e, nm.of("solution"), w.sol); if (solution_guess) mlog::solution(e, join(base, "solution_guess"), w.guess); if (guess) mlog::hierarchicalActiveSet(e, join(base, "active_set_guess"), w.asg); if (as_ok) mlog::hierarchicalActiveSet(e, nm.of("active_set"), as); if (solved) { mlog::hierarchicalActiveSet(e, join(base, "determined"), det); mlog::violations(e, nm.of("violations"), v); }
            if (qp_ok && solved) f->logged(e, nm.of(f->defaultName()), w.op, w.sol);
            mlog::compare(got, e); sim::nontrivial(); sim::state(sim::mix(got.size(), kind));
            for (auto& x : got) if (x.first.compare(0, base.size(), base) != 0) sim::fail("entry-misplaced", "entry %s is not under the name given for the iteration", x.first.c_str());
            const V &x = w.sol.get_x(), &y = twin.sol.get_x(); bool eq = x.size() == y.size(); for (int i = 0; eq && i < x.size(); ++i) eq = x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])); if (!eq) sim::fail("logging-changes-state", "iteration %d: the solution of the logged hierarchy differs from its twin's", it);
            w.old = w.sol; twin.old = twin.sol; if (sim::chance(1, 3)) states(r, it);
        }
        r.finish();
    }
    sim::Scenario s27("C27", "the accessors of the objects; a twin which is not logged", [] { if (sim::choose(2)) controllers(); else hierarchies(); });
}
