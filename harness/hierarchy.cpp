// C10: what is assembled from the hierarchy, C11: solver front ends, C12: active sets.
#include "hier_life.h"
#include <map>
using namespace hier;
namespace
{
    // ---------------------------------------------------------------- C10
    struct Kept { humoto::constraints::ContainerAB ab; humoto::constraints::ContainerAL al; humoto::constraints::ContainerALU alu, gen; humoto::constraints::ContainerILU ilu; humoto::QPProblem_ILU_ALU q1; humoto::QPProblem_AB_AL q2; humoto::QPProblem_AB q3; };
    void checkObjective(const humoto::QPObjective& q, const LevelRef& r, bool full, const char* what)
    {
        if (!closeM(q.getHessian(), r.H, !full)) sim::fail("wrong-objective", "%s: the Hessian is not that of the objective level", what);
        if (!closeV(q.getGradient(), -r.g)) sim::fail("wrong-objective", "%s: the gradient is not that of the objective level", what);
    }
    void checkAssembled(World& w, Kept& k)
    {
        const Plan& p = *w.p; int n = p.st.n(); const humoto::OptimizationProblem& op = w.op;
        if ((int)w.sol.getNumberOfVariables() != n || w.sol.x_.size() != n) sim::fail("wrong-structure", "the solution has %zu variables (%d allocated) instead of %d", w.sol.getNumberOfVariables(), (int)w.sol.x_.size(), n);
        int off = 0;
        for (auto& q : p.st.parts) { humoto::Location loc = w.sol.getSolutionPartLocation(q.first); if ((int)loc.offset_ != off || (int)loc.length_ != q.second) sim::fail("wrong-structure", "part '%s' of the solution is at %zu+%zu instead of %d+%d", q.first.c_str(), loc.offset_, loc.length_, off, q.second); off += q.second; }
        if (op.getNumberOfLevels() != p.levels.size()) sim::fail("wrong-levels", "%zu levels instead of %zu", op.getNumberOfLevels(), p.levels.size());
        std::vector<LevelRef> R;
        for (size_t l = 0; l < p.levels.size(); ++l)
        {
            LevelRef r = refLevel(p, l); const humoto::HierarchyLevel& h = op[l];
            if (h.getNumberOfConstraints() != r.all.size() || h.getNumberOfSimpleConstraints() != r.simple.size() || h.getNumberOfGeneralConstraints() != r.general.size() || h.getNumberOfEqualityConstraints() != r.eq.size() || h.getNumberOfInequalityConstraints() != r.all.size() - r.eq.size() || h.getNumberOfInequalityConstraintsOneSided() != r.ineq.size())
                sim::fail("wrong-counts", "level %zu: constraint counts are wrong (%zu/%zu all, %zu/%zu simple, %zu/%zu equality, %zu/%zu one-sided)", l, h.getNumberOfConstraints(), r.all.size(), h.getNumberOfSimpleConstraints(), r.simple.size(), h.getNumberOfEqualityConstraints(), r.eq.size(), h.getNumberOfInequalityConstraintsOneSided(), r.ineq.size());
            if (h.isEquality() != r.all_eq || h.isSimple() != r.all_simple) sim::fail("wrong-type", "level %zu: reported as equality=%d simple=%d", l, (int)h.isEquality(), (int)h.isSimple());
            h.getAllConstraints(k.alu, w.sol); sameRows("all constraints", l, keysLU(k.alu), r.all);
            // every task's rows stand where its location says
            std::vector<char> used(r.all.size(), 0); size_t seen = 0;
            for (auto it = h.tasks_.begin(); it != h.tasks_.end(); ++it)
            {
                int i = w.indexOf(it->ptr_.get()); ++seen; if (i < 0) sim::fail("wrong-task", "level %zu holds a task that was not pushed", l);
                Rows d = dense(*p.specs[i], p.st);
                if ((int)it->location_.length_ != d.A.rows()) sim::fail("wrong-location", "level %zu: task %s has %zu rows instead of %d", l, kindName(p.specs[i]->kind), it->location_.length_, (int)d.A.rows());
                for (int q = 0; q < d.A.rows(); ++q)
                {
                    size_t at = it->location_.offset_ + q; if (at >= used.size() || used[at]) sim::fail("wrong-location", "level %zu: locations of tasks overlap", l); used[at] = 1;
                    if (key(d.A.row(q), d.lo[q], d.hi[q]) != key(k.alu.getA().row(at), k.alu.getLowerBounds()[at], k.alu.getUpperBounds()[at])) sim::fail("wrong-location", "level %zu: row %zu is not row %d of task %s", l, at, q, kindName(p.specs[i]->kind));
                }
            }
            if (seen != p.levels[l].size()) sim::fail("wrong-task", "level %zu holds %zu tasks instead of %zu", l, seen, p.levels[l].size());
            h.getGeneralConstraints(k.gen, w.sol); sameRows("general constraints", l, keysLU(k.gen), r.general);
            h.getEqualityConstraints(k.ab, w.sol); sameRows("equality constraints", l, keysB(k.ab), r.eq);
            h.getInequalityConstraints(k.al, w.sol); sameRows("inequality constraints", l, keysL(k.al), r.ineq);
            bool thrown = false;
            try { h.getSimpleConstraints(k.ilu, w.sol); } catch (const std::exception&) { thrown = true; }
            if (thrown) { if (!r.has_gi) sim::fail("unexpected-error", "level %zu: simple constraints cannot be obtained", l); } else sameRows("simple constraints", l, keysI(k.ilu, n), r.simple);
            if (r.all_eq)
            {
                M H; V g; if (sim::chance(1, 2)) { H = M::Constant(n, n, 77); g = V::Constant(n, 77); }
                h.getObjective(H, g); if (!closeM(H, r.H, true) || !closeV(g, r.g)) sim::fail("wrong-objective", "level %zu: the objective is not that of its tasks", l);
            }
            R.push_back(r); sim::nontrivial();
            uint64_t sig = l; for (int i : p.levels[l]) sig = sim::mix(sig, p.specs[i]->kind * 8 + p.specs[i]->rows()); sim::state(sim::mix(sig, n));
        }
        // as quadratic programs
        size_t L = R.size(); bool okqp = L <= 2 && R.back().all_eq; bool thrown;
        auto run = [&](std::function<void()> f) { thrown = false; try { f(); } catch (const std::exception&) { thrown = true; } };
        run([&] { op.getQPProblem(k.q1, w.sol, true); });
        bool bad_bounds = false; V lb = V::Constant(n, -INF), ub = V::Constant(n, INF);
        if (L == 2) for (auto& s : R[0].simple) for (int i = 0; i < n; ++i) if (s[i] != 0) { lb[i] = std::max(lb[i], s[n]); ub[i] = std::min(ub[i], s[n + 1]); if (lb[i] > ub[i]) bad_bounds = true; }
        bool may = L == 2 && (R[0].has_gi || bad_bounds);
        if (!okqp && !thrown) sim::fail("error-not-raised", "a hierarchy that is not a quadratic program was converted to one");
        if (okqp && thrown && !may) sim::fail("unexpected-error", "a hierarchy was not converted to a quadratic program");
        if (!thrown && okqp)
        {
            checkObjective(k.q1, R.back(), true, "ILU/ALU program");
            sameRows("general constraints of the ILU/ALU program", 0, keysLU(k.q1.getGeneralConstraints()), L == 2 ? R[0].general : std::vector<Key>());
            sameRows("bounds of the ILU/ALU program", 0, keysI(k.q1.getSimpleBounds(), n), L == 2 ? R[0].simple : std::vector<Key>());
            bool any = L == 2 && !R[0].simple.empty();
            if (any ? (!closeV(k.q1.getSolutionLowerBounds(), lb) || !closeV(k.q1.getSolutionUpperBounds(), ub)) : (k.q1.getSolutionLowerBounds().size() != 0 && (k.q1.getSolutionLowerBounds().maxCoeff() > -INF || k.q1.getSolutionUpperBounds().minCoeff() < INF)))
                sim::fail("wrong-bounds", "the bounds on the variables are not those of the tasks");
        }
        run([&] { op.getQPProblem(k.q2, w.sol, true); });
        if (okqp == thrown) sim::fail(thrown ? "unexpected-error" : "error-not-raised", "conversion to an equality/inequality program %s", thrown ? "failed" : "succeeded");
        if (!thrown)
        {
            checkObjective(k.q2, R.back(), true, "AB/AL program");
            sameRows("equalities of the AB/AL program", 0, keysB(k.q2.getEqualities()), L == 2 ? R[0].eq : std::vector<Key>());
            sameRows("inequalities of the AB/AL program", 0, keysL(k.q2.getInequalities()), L == 2 ? R[0].ineq : std::vector<Key>());
        }
        run([&] { op.getQPProblem(k.q3, w.sol, false); });
        bool ok3 = okqp && (L == 1 || R[0].all_eq);
        if (ok3 == thrown) sim::fail(thrown ? "unexpected-error" : "error-not-raised", "conversion to an equality constrained program %s", thrown ? "failed" : "succeeded");
        if (!thrown) { checkObjective(k.q3, R.back(), false, "AB program"); sameRows("equalities of the AB program", 0, keysB(k.q3.getEqualities()), L == 2 ? R[0].eq : std::vector<Key>()); }
    }
    void c10()
    {
        Plan p; World w(&p); Kept k; Opts o; o.max_levels = 4; o.qp = sim::chance(1, 2); int iters = sim::range(2, 9);
        for (int it = 0; it < iters; ++it)
        {
            evolve(p, o, {&w}, it == 0); sim::step();
            int variant = sim::choose(4);
            if (sim::chance(1, 6)) formFaulty(w, variant, sim::choose(2));
            try { w.form(variant); } catch (const std::exception& e) { sim::fail("unexpected-error", "form() failed: %s", e.what()); }
            checkAssembled(w, k); sim::sample("%zu levels, %d variables, %zu tasks, all containers equal to the reference", p.levels.size(), p.st.n(), live(p).size());
            w.old = w.sol; w.old.x_.setZero();
            if (variant >= 1 && sim::chance(1, 2)) { humoto::ActiveSet as; w.op.initializeActiveSet(as); for (size_t l = 0; l < as.size(); ++l) as.set(l, CAT::INACTIVE); w.op.processActiveSet(as); }
        }
    }
    sim::Scenario s10("C10", "a fresh dense reference of the current tasks", c10);
    // ---------------------------------------------------------------- C11
    void c11()
    {
        Plan p; World w(&p); Opts o; o.qp = true; o.infeasible_allowed = sim::chance(1, 3);
        int kind = sim::choose(NFRONTS); o.full_rank = kind < KKT_LU || sim::chance(3, 4); o.no_gi0 = kind == QPOASES || kind == QPMAD; o.eq0 = kind >= KKT_LU; o.simple_obj = kind == KKT_ELIM && sim::chance(7, 8);   // the stand-in back ends need a regular Hessian
        std::unique_ptr<Front> f = makeFront(kind); Params q; f->params(q); int iters = sim::range(1, 8);
        for (int it = 0; it < iters; ++it)
        {
            evolve(p, o, {&w}, it == 0); sim::step();
            try { w.form(sim::choose(4)); } catch (const std::exception& e) { sim::fail("unexpected-error", "form() failed: %s", e.what()); }
            // whatever the guesses are
            int n = p.st.n();
            if (sim::chance(1, 2)) { w.guess.initialize(w.sol, 0.0); for (int i = 0; i < n; ++i) w.guess.x_[i] = sim::chance(1, 4) ? 1e6 : val(); }
            else w.guess.initialize(w.sol, w.old);
            bool short_guess = kind == QPOASES && sim::chance(1, 16); if (short_guess) w.guess.x_.conservativeResize(sim::chance(1, 2) ? n + 1 : std::max(1, n - 1));
            if (w.guess.x_.size() == n) short_guess = false;
            if (sim::chance(1, 2)) { w.op.initializeActiveSet(w.asg); for (size_t l = 0; l < w.asg.size(); ++l) for (size_t i = 0; i < w.asg[l].size(); ++i) w.asg[l][i] = (CAT::Type)sim::pick(std::vector<int>{CAT::INACTIVE, CAT::LOWER_BOUND, CAT::UPPER_BOUND, CAT::EQUALITY}); }
            else if (w.asg.size() != p.levels.size() || w.asg[0].size() != w.op[0].getNumberOfConstraints()) { w.op.initializeActiveSet(w.asg); for (size_t l = 0; l < w.asg.size(); ++l) w.asg[l].set(CAT::INACTIVE); }
            Params next = q; bool changed = false;
            if (sim::chance(1, 3)) { next.crash = sim::chance(1, 2); next.reg = sim::chance(1, 3) ? 0.01 : 0; next.max_iter = sim::chance(1, 3) ? sim::range(1, 4) : 1000; changed = true; }
            int v = sim::choose(f->overloads());
            if (changed && v != 1) f->params(next);
            q = next;
            int inject = kind < KKT_LU && sim::chance(1, 6) ? sim::range(1, 3) : 0;
            humoto::ActiveSet as; if (sim::chance(1, 2)) w.sol.x_.setConstant(1e5);
            qpcore::Control& c = qpcore::control(); uint64_t calls = c.calls;
            if (kind >= QPMAD) c.last_result.status = qpcore::OK;
            std::unique_ptr<humoto::Solution> own; if (sim::chance(1, 2)) { own = ownSolution(kind); *own = w.sol; }
            Outcome r = callFront(*f, w, own ? *own : w.sol, v, as, q, inject); if (own) w.sol = *own; bool ok = w.sol.return_status_ == humoto::SolverStatus::OK;
            bool has_reg = kind == QPMAD || kind == QUADPROGPP; qpcore::Problem ref = reference(p, has_reg ? q.reg : 0);
            bool simple = refLevel(p, p.levels.size() - 1).all_simple; bool feasible = violation(ref, p.x0) <= 1e-9;
            if (sim::verbose() && r.thrown) { std::string ks; for (auto& l : p.levels) { ks += "/"; for (int i : l) ks += std::string(" ") + kindName(p.specs[i]->kind); } sim::event("%s %s", r.what.c_str(), ks.c_str()); }
            sim::event("%s v%d it%d n%d m%d %d%d%d", frontName(kind), v, it, n, (int)ref.A.rows(), (int)r.thrown, (int)ok, (int)r.injected);
            if (short_guess && usesGuess(v)) { if (!r.thrown) sim::fail("bad-guess-accepted", "%s read a solution guess of %d values for %d variables", frontName(kind), (int)w.guess.x_.size(), n); sim::count("fault:guess_of_wrong_size"); f->params(q); continue; }
            if (kind == KKT_ELIM && !simple) { if (!r.thrown) sim::fail("error-not-raised", "elimination with a Hessian that is not diagonal was not refused"); continue; }
            qpcore::Result best = qpcore::solveRaw(ref);
            if (sim::verbose()) { std::ostringstream ss; ss << "H\n" << ref.H << "\ng " << ref.g.transpose() << "\nA\n" << ref.A << "\nlb " << ref.lbA.transpose() << "\nub " << ref.ubA.transpose() << "\nx " << w.sol.x_.transpose() << "\nbest " << best.x.transpose(); sim::event("%s", ss.str().c_str()); }
            if (!feasible && best.status != qpcore::OK)   // infeasible, or not known to the reference
            {
                double worst = w.sol.x_.allFinite() ? violation(ref, w.sol.x_) : 1e300;
                if (!r.thrown && ok && worst <= 1e-6) { sim::count("reference_undecided"); continue; }
                if (!r.thrown && ok) sim::fail("infeasible-solved", "%s: an infeasible problem is reported as solved", frontName(kind));
                if (q.crash && !r.thrown) sim::fail("failure-not-raised", "%s: no exception although the parameters ask for it (infeasible problem)", frontName(kind));
                sim::count("fault:infeasible_problem"); sim::nontrivial(); continue;
            }
            if (kind < KKT_LU)
            {
                if (c.calls == calls) sim::fail("not-solved", "%s: the back end was not called: %s", frontName(kind), r.what.c_str());
                int st = c.last_result.status; if (kind == QPOASES && st == qpcore::OK && c.last_result.iterations > q.max_iter) { st = qpcore::MAX_ITER; sim::count("fault:iteration_limit"); }
                humoto::SolverStatus::Status want = st == qpcore::OK ? humoto::SolverStatus::OK : st == qpcore::MAX_ITER && kind != QUADPROGPP ? humoto::SolverStatus::MAX_ITER : humoto::SolverStatus::OTHER;
                if (w.sol.return_status_ != want) sim::fail("wrong-status", "%s: status %d instead of %d (the back end returned %d)", frontName(kind), (int)w.sol.return_status_, (int)want, st);
                bool must = q.crash && want != humoto::SolverStatus::OK;
                if (own) checkOwn(*own, kind, want == humoto::SolverStatus::OK, st == qpcore::MAX_ITER && kind != QUADPROGPP, std::min(c.last_result.iterations, 1 << 30), r.thrown ? r.what : "");
                if (r.thrown != must) sim::fail(must ? "failure-not-raised" : "unexpected-error", "%s: %s (status %d): %s", frontName(kind), must ? "no exception although the parameters ask for it" : "unexpected exception", (int)want, r.what.c_str());
                if (r.injected) { sim::count(inject == 1 ? "fault:back_end_infeasible" : inject == 2 ? "fault:back_end_iteration_limit" : "fault:back_end_error"); sim::nontrivial(); }
                if (usesGuess(v) && (!c.x_guess_given || !closeV(c.x_guess, w.guess.x_, 0))) sim::fail("guess-lost", "%s: the solution guess did not reach the back end", frontName(kind));
                if (!usesGuess(v) && c.x_guess_given) sim::fail("stale-guess", "%s: a solution guess of an earlier call reached the back end", frontName(kind));
                if (usesActiveSetGuess(v) != c.guess_given) sim::fail("stale-guess", "%s: active set guess %s", frontName(kind), c.guess_given ? "of an earlier call reached the back end" : "did not reach the back end");
                if (want != humoto::SolverStatus::OK) continue;
            }
            else
            {
                bool posed = wellPosedEqualities(ref) && Eigen::SelfAdjointEigenSolver<M>(ref.H).eigenvalues().minCoeff() > 1e-3;
                if (!ok && posed) sim::fail("not-solved", "%s: a well-posed problem is reported as not solved", frontName(kind));
                if (r.thrown == ok || (!ok && q.crash != r.thrown)) { if (!(r.thrown == false && !ok && !q.crash)) sim::fail("failure-not-raised", "%s: exception %d for status %d", frontName(kind), (int)r.thrown, (int)w.sol.return_status_); }
                if (!ok) { sim::count("fault:singular_problem"); continue; }
            }
            if (best.status != qpcore::OK) { sim::count("reference_undecided"); continue; }
            // the answer
            const V& x = w.sol.x_; if (x.size() != n || !x.allFinite()) sim::fail("wrong-solution", "%s: the solution has a wrong size or is not finite", frontName(kind));
            double eig = Eigen::SelfAdjointEigenSolver<M>(ref.H).eigenvalues().minCoeff();
            double tol = kind == KKT_ELIM ? 1e-4 : 1e-6; double viol = violation(ref, x);
            if (viol > tol) sim::fail("infeasible-solution", "%s: a constraint is violated by %g", frontName(kind), viol);
            double fx = objective(ref, x), fb = objective(ref, best.x);
            // (a nearly singular set of equations may or may not be one: either answer is right)
            if (kind >= KKT_LU)
            {
                if (wellPosedEqualities(ref))
                {
                    V r = ref.H * x + ref.g;
                    if (ref.A.rows()) { Eigen::JacobiSVD<M> svd(ref.A, Eigen::ComputeFullV); M Z = svd.matrixV().rightCols(n - ref.A.rows()); r = Z.transpose() * r; }
                    if (r.size() && r.cwiseAbs().maxCoeff() > tol * (1 + ref.g.cwiseAbs().maxCoeff() + x.norm())) sim::fail("not-optimal", "%s: the objective decreases along feasible directions (%g)", frontName(kind), r.cwiseAbs().maxCoeff());
                }
            }
            else if (fx > fb + tol * (1 + std::fabs(fb) + x.norm())) sim::fail("not-optimal", "%s: objective %.12g, but %.12g is possible", frontName(kind), fx, fb);
            // a fresh solver, without guesses, agrees
            if (it > 0)
            {
                std::unique_ptr<Front> g = makeFront(kind); Params qq = q; g->params(qq); humoto::Solution s2 = w.sol; s2.x_.setConstant(-3); humoto::ActiveSet a2;
                Outcome r2 = callFront(*g, w, s2, 0, a2, qq, 0);
                if (r2.thrown || s2.return_status_ != humoto::SolverStatus::OK || !closeV(s2.x_, x, eig < 1e-3 ? 1e-2 : 1e-7)) sim::fail("history-dependent", "%s: a solver that has solved other problems gives another result than a new one", frontName(kind));
            }
            w.old = w.sol; sim::nontrivial(); sim::count("solved"); sim::state(sim::mix(sim::mix(kind * 16 + v, n), ref.A.rows() * 8 + p.levels.size()));
            sim::sample("%s: %d variables, %d constraints, objective %.6g (best %.6g)", frontName(kind), n, (int)ref.A.rows(), fx, fb);
        }
    }
    sim::Scenario s11("C11", "the optimum of a dense reference problem built from the tasks", c11);
    // ---------------------------------------------------------------- C12
    int mapped(CAT::Type t) { return t == CAT::LOWER_BOUND || t == CAT::EQUALITY ? -1 : t == CAT::UPPER_BOUND ? 1 : 0; }
    typedef std::vector<int> Types;
    Types typesOf(const humoto::ActiveSetConstraints& a) { Types t; for (size_t i = 0; i < a.size(); ++i) t.push_back(a[i]); return t; }
    std::string showT(const Types& t) { std::string s; for (int i : t) s += std::to_string(i) + " "; return s; }
    struct RowAt { int spec, q; size_t at; };     // row q of a task stands at 'at' of its level
    std::vector<std::vector<RowAt>> rowsOf(World& w)
    {
        std::vector<std::vector<RowAt>> v(w.op.getNumberOfLevels());
        for (size_t l = 0; l < v.size(); ++l) for (auto it = w.op[l].tasks_.begin(); it != w.op[l].tasks_.end(); ++it) { int s = w.indexOf(it->ptr_.get()); for (size_t q = 0; q < it->location_.length_; ++q) v[l].push_back(RowAt{s, (int)q, it->location_.offset_ + q}); }
        return v;
    }
    Types slice(const humoto::ActiveSetConstraints& a, const std::vector<RowAt>& rows, int spec) { Types t; for (auto& r : rows) if (r.spec == spec) t.push_back(a[r.at]); return t; }
    void checkShift()
    {
        size_t n = sim::range(2, 12), k = sim::range(0, (int)n - 1); humoto::ActiveSetConstraints a; a.initialize(n, CAT::INACTIVE); Types t;
        for (size_t i = 0; i < n; ++i) { CAT::Type c = (CAT::Type)sim::pick(std::vector<int>{CAT::INACTIVE, CAT::LOWER_BOUND, CAT::UPPER_BOUND, CAT::EQUALITY}); a[i] = c; t.push_back(c); }
        a.shift(k, CAT::INACTIVE); Types e(t.begin() + k, t.end()); e.resize(n, CAT::INACTIVE);
        if (typesOf(a) != e) sim::fail("wrong-shift", "shifting by %zu turned [%s] into [%s]", k, showT(t).c_str(), showT(typesOf(a)).c_str());
    }
    // pieces of active sets and of violations are moved to and from the places of tasks; places outside are refused
    template<class F> bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
    struct Viol { V d, lo, hi; bool operator==(const Viol& o) const { return d == o.d && lo == o.lo && hi == o.hi; } };
    Viol violOf(const humoto::ViolationsConstraints& v) { Viol r; r.d.resize(v.size()); r.lo = r.hi = r.d; for (size_t i = 0; i < v.size(); ++i) { r.d[i] = v[i]; r.lo[i] = v.getLower(i); r.hi[i] = v.getUpper(i); } return r; }
    void checkParts()
    {
        auto type = [] { return (CAT::Type)sim::choose(5); }; size_t n = sim::range(1, 8); humoto::ActiveSetConstraints a; humoto::ViolationsConstraints v; Types t(n); Viol x; x.d = x.lo = x.hi = V::Zero(n);
        CAT::Type first = type(); a.initialize(n, first); t.assign(n, first); v.initialize(n); v.setZero(); int steps = sim::range(1, 8); auto sub = [](Viol f, size_t o, size_t l) { Viol r; r.d = f.d.segment(o, l); r.lo = f.lo.segment(o, l); r.hi = f.hi.segment(o, l); return r; };
        auto same = [&](const char* what) { if (typesOf(a) != t) sim::fail("wrong-part", "%s: the active set is [%s] instead of [%s]", what, showT(typesOf(a)).c_str(), showT(t).c_str()); if (!(violOf(v) == x)) sim::fail("wrong-part", "%s: the violations are wrong", what); size_t k = 0; for (int i : t) k += i == CAT::LOWER_BOUND || i == CAT::UPPER_BOUND; if (a.countActiveInequalities() != k) sim::fail("wrong-part", "%zu inequalities are counted as active instead of %zu", a.countActiveInequalities(), k); };
        for (int k = 0; k < steps; ++k)
        {
            size_t o = sim::choose(n + 1), l = sim::choose(n - o + 1); humoto::Location at(o, l); humoto::ActiveSetConstraints b; humoto::ViolationsConstraints y;
            if (sim::chance(1, 6))
            {   // a place which is not inside
                switch (sim::choose(3)) { case 0: at.length_ = n - o + 1 + sim::choose(3); break; case 1: at.offset_ = n + 1; at.length_ = sim::choose(2); break; default: at.offset_ = 1 + sim::choose(3); at.length_ = (size_t)0 - sim::choose(at.offset_ + 1); if (at.length_ == 0) at.length_ = n; }
                bool in = at.offset_ <= n && at.length_ <= n - at.offset_; b.initialize(at.length_ <= 20 ? at.length_ : 1, CAT::EQUALITY); y.initialize(b.size()); y.setZero(); if (in) continue; sim::count("fault:place outside");
                if (!refused([&] { a.set(at, CAT::EQUALITY); }) || !refused([&] { a.copyTo(at, b); }) || !refused([&] { b.copyFrom(a, at); }) || !refused([&] { b.initialize(a, at); }) || !refused([&] { v.setZero(at); }) || !refused([&] { v.copyTo(at, y); }) || !refused([&] { y.copyFrom(v, at); }) || !refused([&] { y.initialize(v, at); })) sim::fail("error-not-raised", "a place of %zu constraints from %zu of %zu was accepted", at.length_, at.offset_, n);
                if (!refused([&] { (void)a[n]; }) || !refused([&] { (void)v[n]; }) || !refused([&] { (void)v.getLower(n); }) || !refused([&] { (void)v.getUpper(n); }) || !refused([&] { v.set(n, 0, 0); }) || !refused([&] { a.shift(n + 1, CAT::INACTIVE); })) sim::fail("error-not-raised", "a constraint which does not exist was accepted");
                same("after a refused request"); continue;
            }
            switch (sim::choose(6))
            {
                case 0: { CAT::Type c = type(); a.set(at, c); for (size_t i = o; i < o + l; ++i) t[i] = c; v.setZero(at); x.d.segment(o, l).setZero(); x.lo.segment(o, l).setZero(); x.hi.segment(o, l).setZero(); same("values set in a place"); break; }
                case 1: b.initialize(l); y.initialize(l); y.setZero(); for (size_t i = 0; i < l; ++i) { t[o + i] = b[i] = type(); double lo = val(), hi = lo - sim::grid(0, 5, 10); y.set(i, lo, hi); x.lo[o + i] = lo; x.hi[o + i] = hi; x.d[o + i] = lo < 0 ? lo : hi > 0 ? hi : 0; } a.copyTo(at, b); v.copyTo(at, y); same("values copied to a place"); break;
                case 2: b.initialize(sim::choose(4), CAT::EQUALITY); y.initialize(sim::choose(4)); y.setZero(); b.initialize(a, at); y.initialize(v, at); if (typesOf(b) != Types(t.begin() + o, t.begin() + o + l) || !(violOf(y) == sub(x, o, l))) sim::fail("wrong-part", "values taken from a place are wrong"); break;
                case 3: b.initialize(l, type()); y.initialize(l); y.setZero(); b.copyFrom(a, at); y.copyFrom(v, at); if (typesOf(b) != Types(t.begin() + o, t.begin() + o + l) || !(violOf(y) == sub(x, o, l))) sim::fail("wrong-part", "values copied from a place are wrong"); b.initialize(l + 1, CAT::INACTIVE); y.initialize(l + 1); if (!refused([&] { b.copyFrom(a, at); }) || !refused([&] { y.copyFrom(v, at); })) sim::fail("error-not-raised", "a part of another size was accepted"); break;
                case 4: { CAT::Type c = type(); a.set(c); t.assign(n, c); v.setZero(); x.d.setZero(); x.lo.setZero(); x.hi.setZero(); same("all values set"); break; }
                default: { CAT::Type c = type(); size_t q = sim::choose(n + 1); a.shift(q, c); t.erase(t.begin(), t.begin() + q); t.resize(n, c); same("values shifted"); }
            }
        }
        // all levels
        std::vector<size_t> sizes; for (int i = sim::range(1, 4); i > 0; --i) sizes.push_back(sim::choose(5)); humoto::ActiveSet s; humoto::Violations u; if (sim::chance(1, 2)) { s.initialize(2, {3, 4}); u.initialize(2, {3, 4}); }
        s.initialize(sizes.size(), sizes); u.initialize(sizes.size(), sizes); if (s.size() != sizes.size() || u.size() != sizes.size()) sim::fail("wrong-levels", "wrong number of levels"); size_t pick = sim::choose(sizes.size()); CAT::Type c = type();
        for (size_t i = 0; i < sizes.size(); ++i) { if (s[i].size() != sizes[i] || u[i].size() != sizes[i]) sim::fail("wrong-size", "wrong size of a level"); s[i].set(CAT::INACTIVE); u[i].setZero(); for (size_t j = 0; j < sizes[i]; ++j) u[i].set(j, -1, -2); }
        s.set(pick, c); u.setZero(pick); for (size_t i = 0; i < sizes.size(); ++i) for (size_t j = 0; j < sizes[i]; ++j) if (s[i][j] != (i == pick ? c : CAT::INACTIVE) || u[i][j] != (i == pick ? 0 : -1)) sim::fail("wrong-part", "a change of level %zu is seen wrongly in level %zu", pick, i);
        if (!refused([&] { s.set(sizes.size(), c); }) || !refused([&] { u.setZero(sizes.size()); })) sim::fail("error-not-raised", "a level which does not exist was accepted"); s.reset(); u.reset(); if (s.size() || u.size()) sim::fail("wrong-levels", "levels are left after a reset");
        sim::count("parts moved");
    }
    void checkDetermined(World& w, const std::vector<std::vector<RowAt>>& at)
    {
        Plan& p = *w.p; int n = p.st.n(); humoto::Solution s = w.sol; s.x_.resize(n);
        for (int i = 0; i < n; ++i) s.x_[i] = sim::chance(1, 3) ? p.x0[i] : val();
        humoto::ActiveSet as; humoto::Violations vi; if (sim::chance(1, 3)) { as.initialize(1, std::vector<size_t>(1, 3)); vi.initialize(1, std::vector<size_t>(1, 3)); }
        w.op.determineActiveSet(as, s); w.op.computeViolations(vi, s);
        if (as.size() != p.levels.size() || vi.size() != p.levels.size()) sim::fail("wrong-levels", "the active set or the violations have a wrong number of levels");
        for (size_t l = 0; l < at.size(); ++l)
        {
            if (as[l].size() != at[l].size() || vi[l].size() != at[l].size()) sim::fail("wrong-size", "level %zu: the active set or the violations have a wrong size", l);
            for (auto& r : at[l])
            {
                Rows d = dense(*p.specs[r.spec], p.st); double a = d.A.row(r.q).dot(s.x_), lo = d.lo[r.q], hi = d.hi[r.q], e = 1e-9 * (1 + std::fabs(a)); CAT::Type t = as[l][r.at];
                double want = a - lo < 0 ? a - lo : a - hi > 0 ? a - hi : 0;
                if (!(std::fabs(vi[l][r.at] - want) <= e * 10)) sim::fail("wrong-violation", "level %zu, row %d of task %s: violation %.12g instead of %.12g", l, r.q, kindName(p.specs[r.spec]->kind), vi[l][r.at], want);
                if (lo > -INF && std::fabs(vi[l].getLower(r.at) - (a - lo)) > e * 10) sim::fail("wrong-violation", "level %zu, row %d of task %s: distance to the lower bound %.12g instead of %.12g", l, r.q, kindName(p.specs[r.spec]->kind), vi[l].getLower(r.at), a - lo);
                if (hi < INF && std::fabs(vi[l].getUpper(r.at) - (a - hi)) > e * 10) sim::fail("wrong-violation", "level %zu, row %d of task %s: distance to the upper bound %.12g instead of %.12g", l, r.q, kindName(p.specs[r.spec]->kind), vi[l].getUpper(r.at), a - hi);
                if (d.eq || lo == hi) { if (t != CAT::EQUALITY) sim::fail("wrong-active-set", "level %zu: an equality is determined as type %d", l, (int)t); continue; }
                if (lo > hi) continue;
                if (std::fabs(a - lo) > e && std::fabs(a - hi) > e) { int want_t = a < lo ? CAT::LOWER_BOUND : a > hi ? CAT::UPPER_BOUND : CAT::INACTIVE; if (t != want_t) sim::fail("wrong-active-set", "level %zu, row %d of task %s: determined as type %d instead of %d", l, r.q, kindName(p.specs[r.spec]->kind), (int)t, want_t); }
            }
        }
    }
    // what the back end was told and what it answered, row by row
    void checkBackEnd(World& w, const std::vector<std::vector<RowAt>>& at, const humoto::ActiveSet& as, bool guessed)
    {
        Plan& p = *w.p; qpcore::Control& c = qpcore::control(); int n = p.st.n(); const qpcore::Problem& q = c.last; const qpcore::Result& r = c.last_result;
        if (as.size() != p.levels.size()) sim::fail("wrong-levels", "the solver returned an active set with %zu levels instead of %zu", as.size(), p.levels.size());
        size_t obj = p.levels.size() - 1;
        for (size_t l = 0; l < as.size(); ++l) if (as[l].size() != at[l].size()) sim::fail("wrong-size", "the solver returned an active set of %zu entries for a level of %zu", as[l].size(), at[l].size());
        for (size_t i = 0; i < as[obj].size(); ++i) if (as[obj][i] != CAT::EQUALITY) sim::fail("wrong-active-set", "an objective row is reported as type %d", (int)as[obj][i]);
        if (guessed && ((int)c.guess_bounds.size() != n || (int)c.guess_rows.size() != q.A.rows())) sim::fail("wrong-guess", "the guess given to the back end has %zu bounds and %zu rows instead of %d and %d", c.guess_bounds.size(), c.guess_rows.size(), n, (int)q.A.rows());
        if (p.levels.size() < 2) { if (guessed) for (int g : c.guess_bounds) if (g != 0) sim::fail("wrong-guess", "a bound that does not exist is guessed active"); return; }
        std::map<Key, std::vector<int>> back, front, gback, gfront;
        for (int i = 0; i < q.A.rows(); ++i) { Key k = key(q.A.row(i), q.lbA[i], q.ubA[i]); back[k].push_back(r.rows[i]); if (guessed) gback[k].push_back(c.guess_rows[i]); }
        std::vector<double> lb(n, -INF), ub(n, INF); std::vector<std::vector<int>> bg(n);
        for (auto& x : at[0]) if (p.specs[x.spec]->kind != INFEAS)
        {
            Rows d = dense(*p.specs[x.spec], p.st);
            if (!d.simple) { Key k = key(d.A.row(x.q), d.lo[x.q], d.hi[x.q]); front[k].push_back(mapped(as[0][x.at])); gfront[k].push_back(guessed ? mapped(w.asg[0][x.at]) : 0); }
            else { int v = p.specs[x.spec]->I[x.q]; lb[v] = std::max(lb[v], d.lo[x.q]); ub[v] = std::min(ub[v], d.hi[x.q]); if (guessed) { int m = mapped(w.asg[0][x.at]); bg[v].push_back(m); } }
        }
        for (auto& f : front)
        {
            auto norm = [&](std::vector<int> v) { bool eq = f.first[n] == f.first[n + 1]; if (eq) for (int& i : v) i = std::abs(i); std::sort(v.begin(), v.end()); return v; };
            if (norm(f.second) != norm(back[f.first])) sim::fail("misplaced-active-set", "the activity reported for constraint [%s] is not the one the back end returned", show(f.first).c_str());
            if (guessed && norm(gfront[f.first]) != norm(gback[f.first])) sim::fail("misplaced-guess", "the guess given to the back end for constraint [%s] is not the one of its task", show(f.first).c_str());
        }
        for (auto& x : at[0])
        {
            Rows d = dense(*p.specs[x.spec], p.st); if (!d.simple) continue;
            int v = p.specs[x.spec]->I[x.q]; int b = r.bounds[v]; CAT::Type t = as[0][x.at];
            bool low = b == -1 && d.lo[x.q] == lb[v], up = b == 1 && d.hi[x.q] == ub[v]; bool eq = d.lo[x.q] == d.hi[x.q];
            int want = low ? -1 : up ? 1 : 0;
            if (mapped(t) != want && !(eq && want != 0 && t == CAT::EQUALITY)) sim::fail("misplaced-active-set", "the activity of a bound on variable %d is reported as %d; the back end returned %d for bounds %g and %g", v, (int)t, b, lb[v], ub[v]);
        }
        if (guessed) for (int v = 0; v < n; ++v)
        {
            bool any = false, found = c.guess_bounds[v] == 0; for (int m : bg[v]) { if (m) any = true; if (m && m == c.guess_bounds[v]) found = true; }
            if (any && bg[v].size() == 1 && c.guess_bounds[v] != bg[v][0]) sim::fail("misplaced-guess", "the guess for the bound on variable %d is %d instead of %d", v, c.guess_bounds[v], bg[v][0]);
            if (!found || (any && c.guess_bounds[v] == 0)) sim::fail("misplaced-guess", "the guess for the bound on variable %d is %d", v, c.guess_bounds[v]);
        }
    }
    void c12()
    {
        Plan p; World w(&p); Opts o; o.qp = sim::chance(3, 4); o.max_levels = 4; o.no_gi0 = true; o.full_rank = true; int iters = sim::range(2, 9);
        FQpoases solver; Params q; q.crash = false; solver.params(q);
        if (sim::chance(1, 4)) checkShift(); if (sim::chance(1, 4)) checkParts();
        for (int it = 0; it < iters; ++it)
        {
            evolve(p, o, {&w}, it == 0); sim::step(); int variant = sim::choose(4); bool guessing = variant == 1 || variant == 2;
            std::vector<Types> before; for (auto& t : w.tasks) before.push_back(typesOf(t.ctl->actual()));
            if (sim::chance(1, 8)) formFaulty(w, variant, sim::choose(2));
            try { w.form(variant); } catch (const std::exception& e) { sim::fail("unexpected-error", "form() failed: %s", e.what()); }
            std::vector<std::vector<RowAt>> at = rowsOf(w);
            if (guessing)
            {
                if (w.asg.size() != p.levels.size()) sim::fail("wrong-levels", "the active set guess has %zu levels instead of %zu", w.asg.size(), p.levels.size());
                for (size_t l = 0; l < at.size(); ++l)
                {
                    if (w.asg[l].size() != at[l].size()) sim::fail("wrong-size", "level %zu: the guess has %zu entries instead of %zu", l, w.asg[l].size(), at[l].size());
                    for (int i : p.levels[l])
                    {
                        Spec& s = *p.specs[i]; Types got = slice(w.asg[l], at[l], i), old = before[i]; size_t m = got.size(); bool eq = kEq(s.kind);
                        Types def(m, eq ? CAT::EQUALITY : CAT::INACTIVE), want = def; int um = w.tasks[i].ctl->unmodified(); bool client = um >= 0;
                        if (client && s.policy == 1 && s.pattern.size() == m) want = Types(s.pattern.begin(), s.pattern.end());
                        else if (client && s.policy == 2 && old.size() == m && m > 1) { want.assign(old.begin() + 1, old.end()); want.push_back(eq ? CAT::EQUALITY : CAT::INACTIVE); }
                        else if (um == 1 && old.size() == m) want = old;
                        if (got != want && !(um < 0 && got == old)) sim::fail("misplaced-guess", "level %zu: the guess at the rows of task %s is [%s] instead of [%s]", l, kindName(s.kind), showT(got).c_str(), showT(want).c_str());
                        sim::nontrivial();
                    }
                }
            }
            checkDetermined(w, at);
            humoto::ActiveSet as; bool have = false;
            if (o.qp && sim::chance(3, 4))
            {
                bool shape = w.asg.size() == p.levels.size(); if (shape) for (size_t l = 0; l < at.size(); ++l) if (w.asg[l].size() != at[l].size()) shape = false;
                int v = shape && sim::chance(2, 3) ? 4 : 3; if (sim::chance(1, 3)) as.initialize(2, std::vector<size_t>(2, 5));
                Outcome r = callFront(solver, w, w.sol, v, as, q, sim::chance(1, 10) ? sim::range(1, 3) : 0);
                if (r.thrown) { bool bad = false; qpcore::Problem ref = reference(p, 0); if (qpcore::solveRaw(ref).status != qpcore::OK) bad = true; if (!bad) sim::fail("unexpected-error", "solving failed: %s", r.what.c_str()); }
                else { checkBackEnd(w, at, as, v == 4); have = true; sim::count("solved"); }
            }
            if (!have)
            {
                w.op.initializeActiveSet(as);
                for (size_t l = 0; l < as.size(); ++l) { if (as[l].size() != at[l].size()) sim::fail("wrong-size", "an initialised active set has %zu entries for a level of %zu", as[l].size(), at[l].size()); for (size_t i = 0; i < as[l].size(); ++i) as[l][i] = (CAT::Type)sim::pick(std::vector<int>{CAT::INACTIVE, CAT::LOWER_BOUND, CAT::UPPER_BOUND, CAT::EQUALITY}); }
            }
            uint32_t deed = sim::choose(6);
            if (deed == 5)   // an active set of another hierarchy must be refused
            {
                humoto::ActiveSet bad; bad.initialize(p.levels.size() + 1, std::vector<size_t>(p.levels.size() + 1, 1)); bool thrown = false;
                try { w.op.processActiveSet(bad); } catch (const std::exception&) { thrown = true; }
                if (!thrown) sim::fail("error-not-raised", "an active set with too many levels was accepted"); sim::count("fault:wrong_active_set");
            }
            else if (deed > 0)
            {
                w.op.processActiveSet(as);
                for (size_t l = 0; l < at.size(); ++l) for (int i : p.levels[l])
                {
                    Types got = typesOf(w.tasks[i].ctl->actual()), want = slice(as[l], at[l], i);
                    if (got != want) sim::fail("misplaced-active-set", "level %zu: task %s received [%s] instead of [%s]", l, kindName(p.specs[i]->kind), showT(got).c_str(), showT(want).c_str());
                }
                sim::nontrivial();
            }
            else sim::count("fault:active_set_not_processed");
            for (size_t l = 0; l < at.size(); ++l) { uint64_t h = l; for (int i : p.levels[l]) h = sim::mix(h, p.specs[i]->kind * 32 + p.specs[i]->policy * 8 + p.specs[i]->unmod); sim::state(h); }
            sim::sample("%zu levels, %zu tasks, guess %d, solved %d", p.levels.size(), live(p).size(), (int)guessing, (int)have);
            w.old = w.sol; if (w.old.x_.size() != p.st.n()) w.old.x_.setZero(p.st.n());
        }
    }
    sim::Scenario s12("C12", "rows and locations of a dense reference", c12);
}
