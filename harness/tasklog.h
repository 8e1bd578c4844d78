// What the logs of tasks, rigid bodies, active sets and solutions have to contain.  Included after humoto.
#pragma once
#include "harness/mlog.h"
#include <functional>
namespace mlog
{
    template<class T> auto eGain(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getGain(), void()) { e.num(join(p, "gain"), t.getGain()); }
    template<class T> void eGain(Expect&, const std::string&, const T&, long) {}
    template<class T> auto eI(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getIGains(), void()) { e.mat(join(p, "A"), t.getIndices()); e.mat(join(p, "Agains"), t.getIGains()); }
    template<class T> auto eI(Expect& e, const std::string& p, const T& t, long) -> decltype(t.getIndices(), void()) { e.mat(join(p, "A"), t.getIndices()); }
    template<class T> auto eA(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getOffset(), void()) { e.mat(join(p, "A"), t.getA()); e.num(join(p, "offset"), t.getOffset()); }
    template<class T> auto eA(Expect& e, const std::string& p, const T& t, long) -> decltype(t.getA(), void()) { e.mat(join(p, "A"), t.getA()); }
    template<class T> auto eBody(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getIndices(), void()) { eI(e, p, t, 0); }
    template<class T> auto eBody(Expect& e, const std::string& p, const T& t, long) -> decltype(t.getA(), void()) { eA(e, p, t, 0); }
    template<class T> auto eB(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getB(), void()) { e.mat(join(p, "b"), t.getB()); }
    template<class T> void eB(Expect&, const std::string&, const T&, long) {}
    template<class T> auto eL(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getLowerBounds(), void()) { e.mat(join(p, "lb"), t.getLowerBounds()); }
    template<class T> void eL(Expect&, const std::string&, const T&, long) {}
    template<class T> auto eU(Expect& e, const std::string& p, const T& t, int) -> decltype(t.getUpperBounds(), void()) { e.mat(join(p, "ub"), t.getUpperBounds()); }
    template<class T> void eU(Expect&, const std::string&, const T&, long) {}
    template<class A> void activeSet(Expect& e, const std::string& p, const A& a) { Value v; v.m.resize(a.size(), 1); for (size_t i = 0; i < a.size(); ++i) v.m(i, 0) = (double)a[i]; e.e.push_back({p, v}); }
    // constraints, in a task or a container
    template<class T> void constraints(Expect& e, const std::string& p, const T& t) { e.num(join(p, "number_of_variables"), t.getNumberOfVariables()); eBody(e, p, t, 0); eB(e, p, t, 0); eL(e, p, t, 0); eU(e, p, t, 0); }
    // what tasks see of themselves
    struct Insight : humoto::TaskBase { static const humoto::ActiveSetConstraints& actual(const humoto::TaskBase& t) { return (t.*(&Insight::getActualActiveSet))(); } static const humoto::ActiveSetConstraints& guess(const humoto::TaskBase& t) { return (const_cast<humoto::TaskBase&>(t).*(&Insight::getActiveSetGuess))(); } };
    template<class T> void task(Expect& e, const std::string& p, const T& t)
    {
        e.str(join(p, "id"), t.getDescription()); eGain(e, p, t, 0); activeSet(e, join(p, "active_set_actual"), Insight::actual(t)); activeSet(e, join(p, "active_set_guess"), Insight::guess(t)); constraints(e, p, t);
    }
    inline void hierarchicalActiveSet(Expect& e, const std::string& p, const humoto::ActiveSet& a) { for (size_t i = 0; i < a.size(); ++i) activeSet(e, at(p, i), a[i]); }
    inline void violations(Expect& e, const std::string& p, const humoto::Violations& v)
    {
        for (size_t l = 0; l < v.size(); ++l)
        {
            size_t n = v[l].size(); Eigen::VectorXd d(n), lo(n), hi(n); for (size_t i = 0; i < n; ++i) { d[i] = v[l][i]; lo[i] = v[l].getLower(i); hi[i] = v[l].getUpper(i); }
            e.mat(join(at(p, l), "violations"), d); e.mat(join(at(p, l), "lower_bound_diff"), lo); e.mat(join(at(p, l), "upper_bound_diff"), hi);
        }
    }
    inline void pointMass(Expect& e, const std::string& p, const humoto::rigidbody::PointMassState& s) { e.mat(join(p, "position"), s.position_); e.mat(join(p, "velocity"), s.velocity_); e.mat(join(p, "acceleration"), s.acceleration_); }
    inline void rotary(Expect& e, const std::string& p, const humoto::rigidbody::RotaryState& s) { e.mat(join(p, "rpy"), s.rpy_); e.mat(join(p, "angular_velocity"), s.angular_velocity_); e.mat(join(p, "angular_acceleration"), s.angular_acceleration_); }
    inline void rigidBody(Expect& e, const std::string& p, const humoto::rigidbody::RigidBodyState& s) { pointMass(e, p, s); rotary(e, p, s); }
    inline void solution(Expect& e, const std::string& p, const humoto::Solution& s) { e.mat(join(p, "x"), s.get_x()); e.num(join(p, "status"), s.return_status_); }
    template<class Q> void objective(Expect& e, const std::string& p, const Q& q) { e.mat(join(p, "H"), q.getHessian()); e.mat(join(p, "g"), q.getGradient()); e.has(join(p, "hessian_type")); e.has(join(p, "status")); }     // back ends change the last two
    inline void qp(Expect& e, const std::string& p, const humoto::QPProblem_ILU_ALU& q)
    {
        objective(e, join(p, "objective"), (const humoto::QPObjective&)q); std::string c = join(p, "constraints"); constraints(e, join(c, "bounds"), q.getSimpleBounds()); constraints(e, join(c, "general_constraints"), q.getGeneralConstraints());
        e.mat(join(c, "lb"), q.getSolutionLowerBounds()); e.mat(join(c, "ub"), q.getSolutionUpperBounds());
    }
    inline void qp(Expect& e, const std::string& p, const humoto::QPProblem_AB_AL& q) { objective(e, join(p, "objective"), (const humoto::QPObjective&)q); std::string c = join(p, "constraints"); constraints(e, join(c, "equality_constraints"), q.getEqualities()); constraints(e, join(c, "inequality_constraints"), q.getInequalities()); }
    inline void qp(Expect& e, const std::string& p, const humoto::QPProblem_AB& q) { objective(e, join(p, "objective"), (const humoto::QPObjective&)q); constraints(e, join(join(p, "constraints"), "equality_constraints"), q.getEqualities()); }
    // of a level: which tasks it has; their place is found by their ids
    struct Tracked { size_t level; std::string id; std::function<void(Expect&, const std::string&)> expect; std::function<std::pair<bool, size_t>()> shape; };
    inline void hierarchy(const Entries& got, const std::string& p, const std::vector<Tracked>& tasks, size_t levels)
    {
        for (size_t l = 0; l < levels; ++l)
        {
            std::vector<const Tracked*> mine; for (auto& t : tasks) if (t.level == l) mine.push_back(&t);
            size_t general = 0, n = 0; for (auto t : mine) { auto s = t->shape(); n += s.second; if (!s.first) general += s.second; }
            std::set<std::string> seen; std::vector<char> covered(n, 0);
            for (size_t k = 0; k < mine.size(); ++k)
            {
                std::string q = at(at(join(p, "tasks"), l), k); auto id = got.find(join(q, "id")); if (id == got.end()) sim::fail("entry-missing", "the log has no task %zu of level %zu (%s)", k, l, join(q, "id").c_str());
                const Tracked* t = nullptr; for (auto m : mine) if (m->id == id->second.s) t = m;
                if (!t || !seen.insert(t->id).second) sim::fail("entry-wrong", "task %zu of level %zu is logged as '%s'", k, l, id->second.s.c_str());
                Expect e; t->expect(e, q); compare(got, e);
                auto o = got.find(join(q, "location.offset")), len = got.find(join(q, "location.length")); if (o == got.end() || len == got.end()) sim::fail("entry-missing", "the location of task %s is not logged", t->id.c_str());
                size_t first = (size_t)o->second.m(0, 0), count = (size_t)len->second.m(0, 0); auto s = t->shape();
                if (count != s.second || first + count > n || (s.first ? first < general : first + count > general)) sim::fail("entry-wrong", "task %s with %zu constraints is logged at %zu, length %zu of %zu (%zu general)", t->id.c_str(), s.second, first, count, n, general);
                for (size_t i = first; i < first + count; ++i) { if (covered[i]) sim::fail("entry-wrong", "the logged locations of the tasks overlap"); covered[i] = 1; }
            }
            if (got.count(join(at(at(join(p, "tasks"), l), mine.size()), "id"))) sim::fail("entry-wrong", "level %zu is logged with more tasks than it has", l);
        }
        if (got.count(join(at(at(join(p, "tasks"), levels), 0), "id"))) sim::fail("entry-wrong", "more levels are logged than there are");
    }
    template<class T> Tracked track(const T* t, size_t level) { Tracked r; r.level = level; r.id = t->getDescription(); r.expect = [t](Expect& e, const std::string& p) { task(e, p, *t); }; r.shape = [t] { return std::make_pair((bool)t->isSimple(), (size_t)t->getNumberOfConstraints()); }; return r; }
}
