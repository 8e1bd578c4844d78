// The life of a hierarchy: changes between iterations, failures.
#pragma once
#include <cstring>
#include "solve_world.h"
namespace hier
{
    // ---------------------------------------------------------------- history of a hierarchy
    // One step of the life of a controller's hierarchy before the next iteration.
    inline void evolve(Plan& p, const Opts& o, std::vector<World*> ws, bool first)
    {
        uint32_t k = first ? 0 : sim::choose(8);
        if (k == 0 || (k == 3 && hasKind(p, ZEROSEL)))
        {
            p.st = anyStructure(); newX0(p); anyHierarchy(p, o); for (auto w : ws) w->rebuild(); sim::count("hierarchy_rebuilt"); return;
        }
        switch (k)
        {
            case 1: case 2: refill(p, o, false); sim::count("tasks_changed"); break;
            case 3: p.st = anyStructure(); newX0(p); refill(p, o, true); sim::count("structure_changed"); break;
            case 4: for (auto& s : p.specs) if (sim::chance(1, 2)) s->gain = gainVal(); sim::count("gains_changed"); break;
            case 5: // the same objects pushed again, tasks reordered within levels or a level dropped
                if (p.levels.size() > 1 && sim::chance(1, 2)) p.levels.erase(p.levels.begin()); else for (auto& l : p.levels) std::reverse(l.begin(), l.end());
                for (auto w : ws) { w->push(); } sim::count("hierarchy_reset"); break;
            case 6: for (auto& s : p.specs) { s->policy = sim::choose(3); s->unmod = sim::chance(1, 2); } break;
            default: break;   // nothing changed
        }
        for (auto w : ws) w->sync();
    }
    struct Latch { Plan& p; std::vector<int> armed; ~Latch() { for (int i : armed) p.specs[i]->throw_in_form = false; } };
    inline std::vector<int> live(const Plan& p) { std::vector<int> v; for (auto& l : p.levels) for (int i : l) v.push_back(i); return v; }

    // form() with an optional failure first; returns true if a failure was injected and raised
    inline bool formFaulty(World& w, int variant, uint32_t fault)
    {
        if (fault == 1)
        {
            auto v = live(*w.p); std::vector<int> c; for (int i : v) if (w.p->specs[i]->kind < ZEROVARS) c.push_back(i);
            if (c.empty()) return false;
            int i = c[sim::choose(c.size())]; w.p->specs[i]->throw_in_form = true; bool thrown = false;
            try { w.form(variant); } catch (const std::exception&) { thrown = true; }
            w.p->specs[i]->throw_in_form = false;
            if (!thrown) sim::fail("failure-swallowed", "a task threw an exception but form() returned normally");
            sim::count("fault:task_throws"); return true;
        }
        bool thrown = false; uint64_t n;
        faults::allocArmNew(1 + sim::choose(sim::chance(1, 2) ? 4 : 30));
        try { w.form(variant); } catch (const std::exception&) { thrown = true; }
        n = faults::allocDisarm();
        if (n == 0) return false;
        if (!thrown) sim::fail("failure-swallowed", "an allocation failed but form() returned normally");
        sim::count("fault:allocation"); return true;
    }

    struct Outcome { bool thrown = false, injected = false; std::string what; };
    inline Outcome callFront(Front& f, World& w, humoto::Solution& sol, int v, humoto::ActiveSet& as, const Params& q, int inject)
    {
        Outcome r; qpcore::Control& c = qpcore::control(); c.keep = true; c.fail_at = -1; uint64_t before = c.calls;
        if (inject) { c.fail_at = before + 1; c.fail_status = inject; c.fail_writes_garbage = true; }
        try { f.solve(sol, w.op, v, as, w.asg, w.guess, q); } catch (const std::exception& e) { r.thrown = true; r.what = e.what(); }
        r.injected = inject && c.calls > before; c.fail_at = -1; return r;
    }
    // solutions of the front ends which keep what their back ends returned
    inline std::unique_ptr<humoto::Solution> ownSolution(int kind) { typedef std::unique_ptr<humoto::Solution> P; return kind == QPOASES ? P(new humoto::qpoases::Solution) : kind == QPMAD ? P(new humoto::qpmad::Solution) : kind == QUADPROGPP ? P(new humoto::quadprogpp::Solution) : P(new humoto::Solution); }
    inline void checkOwn(const humoto::Solution& s, int kind, bool ok, bool limit, int iterations, const std::string& error)
    {
        std::string d = s.getStatusDescription(); bool agree = true; char code[40];
        if (kind == QPOASES) { auto& x = dynamic_cast<const humoto::qpoases::Solution&>(s); agree = (x.qpoases_return_value_ == qpOASES::SUCCESSFUL_RETURN) == ok && (x.qpoases_return_value_ == qpOASES::RET_MAX_NWSR_REACHED) == limit && x.number_of_iterations_ == iterations; snprintf(code, sizeof code, "(CODE: %d) ", (int)x.qpoases_return_value_); if (d.compare(0, strlen(code), code) != 0) agree = false; }
        else if (kind == QPMAD) { auto& x = dynamic_cast<const humoto::qpmad::Solution&>(s); agree = (x.qpmad_return_value_ == ::qpmad::Solver::OK) == ok && (x.qpmad_return_value_ == ::qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS) == limit && (d.find("Ok") != std::string::npos) == ok; }
        else if (kind == QUADPROGPP) { auto& x = dynamic_cast<const humoto::quadprogpp::Solution&>(s); agree = (x.quadprogpp_return_value_ == QuadProgpp::Status::OK) == ok && (d.find("Ok") != std::string::npos) == ok; }
        if (!agree) sim::fail("wrong-status", "%s: the solution reports '%s' although the back end %s", frontName(kind), d.c_str(), ok ? "succeeded" : "failed"); if (!error.empty() && error.find(d) == std::string::npos) sim::fail("wrong-status", "%s: the error '%s' does not say '%s'", frontName(kind), error.c_str(), d.c_str()); sim::count("solutions of back ends");
    }
}
