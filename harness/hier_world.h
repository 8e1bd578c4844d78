// Random hierarchies and the checks of what humoto assembles from them.
#pragma once
#include "hier.h"
namespace hier
{
    struct Plan
    {
        Structure st; std::vector<std::unique_ptr<Spec>> specs; std::vector<std::vector<int>> levels; V x0; bool infeasible = false;
    };
    inline double val() { static const double v[] = {1, 0, -1, 2, 0.5, -2, 3, -0.25}; return sim::chance(1, 3) ? sim::num(-2, 2) : v[sim::choose(8)]; }
    inline double gainVal() { static const double v[] = {1, 2, 0.5, 3, 0.1, 10}; return v[sim::choose(6)]; }
    inline Structure anyStructure()
    {
        static const char* ids[] = {"a", "b", "state", "c"};
        Structure s; int k = sim::range(1, 3); int first = sim::choose(4);
        for (int i = 0; i < k; ++i) s.parts.push_back({ids[(first + i) % 4], sim::range(1, 4)});
        return s;
    }
    // fills the data of a task of a given kind; constraint: feasible at x0
    inline void fill(Spec& s, const Plan& p, bool constraint)
    {
        int n = p.st.n(); s.version++;
        int m = sim::range(1, 4); s.unmod = sim::chance(1, 3); s.policy = sim::choose(3); s.pattern.clear();
        s.part.clear(); if (s.kind == ZEROVARS && sim::chance(2, 3)) s.part = p.st.parts[sim::choose(p.st.parts.size())].first;
        if (kA(s.kind) || kAS(s.kind))
        {
            int cols = n; s.offset = 0;
            if (kAS(s.kind)) { cols = sim::range(1, n); s.offset = sim::range(0, n - cols); }
            s.A.resize(m, cols);
            for (int i = 0; i < m; ++i) { for (int j = 0; j < cols; ++j) s.A(i, j) = val(); if (s.A.row(i).cwiseAbs().maxCoeff() < 0.1) s.A(i, sim::choose(cols)) = 1; }
            if (constraint && (s.kind == AB0 || s.kind == ASB0))   // must hold at x0
                for (int i = 0; i < m; ++i) { V x = p.x0.segment(s.offset, cols); double q = x.squaredNorm(); if (q > 1e-9) s.A.row(i) -= (s.A.row(i).dot(x) / q) * x.transpose(); for (int j = 0; j < cols; ++j) if (std::fabs(s.A(i, j)) < 1e-9) s.A(i, j) = 0; }
        }
        else
        {
            s.I.resize(m); s.G.resize(m);
            for (int i = 0; i < m; ++i) { s.I[i] = sim::choose(n); s.G[i] = 0.25 * sim::range(1, 12); }
            if (constraint && (s.kind == IB0 || s.kind == GIB0 || s.kind == ZEROSEL))
            {
                std::vector<int> z; for (int i = 0; i < n; ++i) if (p.x0[i] == 0) z.push_back(i);
                if (z.empty()) { s.kind = kGI(s.kind) ? GIB : IB; } else for (int i = 0; i < m; ++i) s.I[i] = z[sim::choose(z.size())];
            }
        }
        s.lb.resize(m); s.ub.resize(m); s.b.resize(m);
        for (int i = 0; i < m; ++i)
        {
            double c = 0;
            if (kA(s.kind) || kAS(s.kind)) c = s.A.row(i).dot(p.x0.segment(s.offset, s.A.cols())); else if (s.I.rows() > i) c = (kGI(s.kind) ? s.G[i] : 1) * p.x0[s.I[i]];
            if (!constraint) c = val();
            s.b[i] = c; s.lb[i] = c - 0.25 * sim::range(0, 8); s.ub[i] = c + 0.25 * sim::range(0, 8);
        }
        for (int i = 0; i < m; ++i) s.pattern.push_back(kEq(s.kind) ? (int)CAT::EQUALITY : sim::pick(std::vector<int>{CAT::INACTIVE, CAT::LOWER_BOUND, CAT::UPPER_BOUND}));
    }
    inline int anyKind(bool eq_only, bool no_gi, bool no_zero)
    {
        for (;;)
        {
            int k = sim::choose(INFEAS);
            if (eq_only && !kEq(k)) { static const int e[] = {AB, AB0, ASB, ASB0, GIB, GIB0, IB, IB0}; k = e[k % 8]; }
            if (no_gi && kGI(k)) { static const int e[] = {AB, ASB, IB}; static const int q[] = {ALU, ILU, ASLU, IL}; k = kEq(k) ? e[k % 3] : q[k % 4]; }
            if (no_zero && k == ZEROVARS) k = AB;
            return k;
        }
    }
    inline bool hasKind(const Plan& p, int k) { for (auto& s : p.specs) if (s->kind == k) return true; return false; }
    struct Opts { int max_levels = 3; bool qp = false; bool no_gi0 = false; bool eq0 = false; bool full_rank = false; bool infeasible_allowed = false; bool simple_obj = false; };
    inline void newX0(Plan& p) { int n = p.st.n(); p.x0.resize(n); for (int i = 0; i < n; ++i) p.x0[i] = sim::chance(1, 3) ? 0.0 : val(); }
    // a new set of tasks and levels
    inline void anyHierarchy(Plan& p, const Opts& o)
    {
        p.specs.clear(); p.levels.clear(); p.infeasible = false;
        int L = o.qp ? sim::range(1, 2) : sim::range(1, o.max_levels);
        if (o.qp && sim::chance(2, 3)) L = 2;
        for (int l = 0; l < L; ++l)
        {
            p.levels.emplace_back(); int k = sim::range(1, 3); bool objective = o.qp && l == L - 1;
            bool constraint = o.qp && !objective;
            for (int t = 0; t < k; ++t)
            {
                std::unique_ptr<Spec> s(new Spec); s->gain = gainVal();
                s->kind = anyKind(objective || (constraint && o.eq0), constraint && o.no_gi0, constraint);
                if (objective && o.simple_obj && !kSimple(s->kind)) { static const int e[] = {GIB, IB, GIB0, IB0}; s->kind = e[s->kind % 4]; }
                fill(*s, p, constraint); p.levels[l].push_back(p.specs.size()); p.specs.push_back(std::move(s));
            }
            if (objective && o.full_rank) { std::unique_ptr<Spec> s(new Spec); s->gain = 0.5; s->kind = ZEROVARS; fill(*s, p, false); s->part.clear(); p.levels[l].push_back(p.specs.size()); p.specs.push_back(std::move(s)); }
            if (constraint && o.infeasible_allowed && sim::chance(1, 8)) { std::unique_ptr<Spec> s(new Spec); s->kind = INFEAS; p.levels[l].push_back(p.specs.size()); p.specs.push_back(std::move(s)); p.infeasible = true; }
        }
    }
    inline void refill(Plan& p, const Opts& o, bool all)
    {
        for (size_t l = 0; l < p.levels.size(); ++l)
        {
            bool constraint = o.qp && l + 1 != p.levels.size();
            for (int i : p.levels[l]) if (p.specs[i]->kind != INFEAS && p.specs[i]->kind != ZEROSEL && (all || sim::chance(1, 2)))
            {
                Spec& s = *p.specs[i]; int kind = s.kind; std::string part = s.part; humoto::IndexVector I = s.I;
                fill(s, p, constraint); if (s.kind != kind) { s.kind = kind; }        // objects keep their type
                bool full = o.full_rank && !constraint && kind == ZEROVARS && part.empty(); if (full) s.part.clear();
            }
        }
    }

    struct World
    {
        Plan* p; std::vector<Handle> tasks; humoto::OptimizationProblem op; Problem cp; Mdl model; humoto::Solution sol, guess, old; humoto::ActiveSet asg;
        explicit World(Plan* q) : p(q) {}
        void push()
        {
            op.reset(p->levels.size());
            for (size_t l = 0; l < p->levels.size(); ++l) for (int i : p->levels[l]) op.pushTask(tasks[i].ptr, l);
        }
        void rebuild() { tasks.clear(); for (auto& s : p->specs) tasks.push_back(make(s.get(), ("client" + std::to_string(tasks.size())).c_str())); push(); }
        std::vector<mlog::Tracked> tracked() const { std::vector<mlog::Tracked> v; for (size_t l = 0; l < p->levels.size(); ++l) for (int i : p->levels[l]) v.push_back(tasks[i].ctl->tracked(l)); return v; }
        void sync() { for (size_t i = 0; i < tasks.size(); ++i) { Spec& s = *p->specs[i]; if (kGained(s.kind)) tasks[i].ctl->gain(s.gain); if (s.kind == ZEROVARS) tasks[i].ctl->variables(s.part); } }
        int indexOf(const humoto::TaskBase* t) const { for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i].ptr.get() == t) return i; return -1; }
        void form(int variant)
        {
            cp.set(p->st);
            switch (variant)
            {
                case 0: op.form(sol, model, cp); break;
                case 1: op.form(sol, asg, model, cp); break;
                case 2: op.form(sol, guess, asg, model, cp, old); break;
                default: op.form(sol, guess, model, cp, old);
            }
        }
    };

    typedef std::vector<double> Key;
    inline Key key(const Eigen::RowVectorXd& a, double lo, double hi) { Key k; for (int i = 0; i < a.size(); ++i) k.push_back(a[i] + 0.0); k.push_back(lo + 0.0); k.push_back(hi + 0.0); return k; }
    inline std::string show(const Key& k) { std::string s; char b[40]; for (double d : k) { snprintf(b, sizeof b, "%g ", d); s += b; } return s; }
    inline void sameRows(const char* what, size_t level, std::vector<Key> got, std::vector<Key> want)
    {
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got.size() != want.size()) sim::fail("wrong-constraints", "level %zu: %s has %zu rows instead of %zu", level, what, got.size(), want.size());
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) sim::fail("wrong-constraints", "level %zu: %s has a row [%s] that no task defines (expected e.g. [%s])", level, what, show(got[i]).c_str(), show(want[i]).c_str());
    }
    struct LevelRef { std::vector<Rows> r; std::vector<int> spec; std::vector<Key> all, general, simple, eq, ineq; bool all_eq = true, all_simple = true, has_gi = false; M H; V g; };
    inline LevelRef refLevel(const Plan& p, size_t l)
    {
        LevelRef q; int n = p.st.n(); q.H = M::Zero(n, n); q.g = V::Zero(n);
        for (int i : p.levels[l])
        {
            Rows r = dense(*p.specs[i], p.st); q.spec.push_back(i);
            if (!r.eq) q.all_eq = false; if (!r.simple) q.all_simple = false; if (kGI(p.specs[i]->kind)) q.has_gi = true;
            for (int k = 0; k < r.A.rows(); ++k)
            {
                Key x = key(r.A.row(k), r.lo[k], r.hi[k]); q.all.push_back(x); (r.simple ? q.simple : q.general).push_back(x);
                if (r.eq) q.eq.push_back(x);
                else { if (r.lo[k] > -INF || p.specs[i]->kind == INFEAS) q.ineq.push_back(key(r.A.row(k), r.lo[k], 0)); if (r.hi[k] < INF) q.ineq.push_back(key(-r.A.row(k), -r.hi[k], 0)); }
            }
            if (r.eq) { q.H += r.A.transpose() * r.A; q.g += r.A.transpose() * r.lo; }
            q.r.push_back(r);
        }
        return q;
    }
    inline bool closeM(const M& a, const M& b, bool lower) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; double s = 1 + b.cwiseAbs().maxCoeff(); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if ((!lower || j <= i) && !(std::fabs(a(i, j) - b(i, j)) <= 1e-9 * s)) return false; return true; }
    inline bool closeV(const V& a, const V& b, double tol = 1e-9) { if (a.size() != b.size()) return false; double s = 1 + (b.size() ? b.cwiseAbs().maxCoeff() : 0); for (int i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= tol * s)) return false; return true; }
    template<class C> std::vector<Key> keysLU(const C& c) { std::vector<Key> k; for (size_t i = 0; i < c.getNumberOfConstraints(); ++i) k.push_back(key(c.getA().row(i), c.getLowerBounds()[i], c.getUpperBounds()[i])); return k; }
    template<class C> std::vector<Key> keysB(const C& c) { std::vector<Key> k; for (size_t i = 0; i < c.getNumberOfConstraints(); ++i) k.push_back(key(c.getA().row(i), c.getB()[i], c.getB()[i])); return k; }
    template<class C> std::vector<Key> keysL(const C& c) { std::vector<Key> k; for (size_t i = 0; i < c.getNumberOfConstraints(); ++i) k.push_back(key(c.getA().row(i), c.getLowerBounds()[i], 0)); return k; }
    inline std::vector<Key> keysI(const humoto::constraints::ContainerILU& c, int n)
    {
        std::vector<Key> k;
        for (size_t i = 0; i < c.getNumberOfConstraints(); ++i) { Eigen::RowVectorXd a = Eigen::RowVectorXd::Zero(n); a[c.getIndices()[i]] = 1; k.push_back(key(a, c.getLowerBounds()[i], c.getUpperBounds()[i])); }
        return k;
    }
}
