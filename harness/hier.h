// Client tasks of every kind, a control problem of arbitrary structure, and a dense reference model of the
// hierarchy they define.  Used by C10, C11, C12 and C18.
#pragma once
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "qpOASES.hpp"
#include "qpmad/solver.h"
#include "QuadProg++/QuadProg++.hh"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "sim/sim.h"
#include "sim/faults.h"
#include "harness/tasklog.h"
#include <vector>
#include <string>
#include <algorithm>
#include <memory>
#include <cmath>
#include <sstream>
namespace hier
{
    typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V; typedef humoto::ConstraintActivationType CAT;
    const double INF = 1e20;
    enum Kind { AB, AB0, ALU, AL, AU, ASB, ASB0, ASLU, ASL, ASU, GIB, GIB0, IB0, IB, GILU, GIL, GIU, ILU, IL, IU, ZEROVARS, ZEROSEL, INFEAS, NKINDS };
    inline const char* kindName(int k) { static const char* n[] = {"AB","AB0","ALU","AL","AU","ASB","ASB0","ASLU","ASL","ASU","GIB","GIB0","IB0","IB","GILU","GIL","GIU","ILU","IL","IU","ZeroVariables","ZeroSelected","InfeasibleInequality"}; return n[k]; }
    inline bool kEq(int k) { return k == AB || k == AB0 || k == ASB || k == ASB0 || k == GIB || k == GIB0 || k == IB || k == IB0 || k == ZEROVARS || k == ZEROSEL; }
    inline bool kAS(int k) { return k >= ASB && k <= ASU; }
    inline bool kA(int k) { return k <= AU; }
    inline bool kGI(int k) { return k == GIB || k == GIB0 || k == GILU || k == GIL || k == GIU || k == ZEROVARS || k == ZEROSEL; }
    inline bool kSimple(int k) { return k >= GIB && k <= IU || k == ZEROVARS || k == ZEROSEL; }
    inline bool kGained(int k) { return kA(k) || kAS(k) || kGI(k); }

    struct Spec
    {
        int kind = AB; double gain = 1; M A; int offset = 0; V lb, ub, b; humoto::IndexVector I; V G; std::string part;
        int version = 0; int policy = 0; std::vector<int> pattern; bool unmod = false;
        bool throw_in_form = false;
        int rows() const { return kA(kind) || kAS(kind) ? A.rows() : I.rows(); }
    };
    struct Rows { M A; V lo, hi; bool eq, simple; };
    struct Structure
    {
        std::vector<std::pair<std::string, int>> parts;
        int n() const { int k = 0; for (auto& p : parts) k += p.second; return k; }
        bool find(const std::string& id, int& off, int& len) const { off = 0; for (auto& p : parts) { if (p.first == id) { len = p.second; return true; } off += p.second; } return false; }
    };
    // what the task means, densely
    inline Rows dense(const Spec& s, const Structure& st)
    {
        Rows r; int n = st.n(); r.eq = kEq(s.kind); r.simple = kSimple(s.kind);
        if (s.kind == ZEROVARS)
        {
            int off = 0, len = n; if (!s.part.empty()) st.find(s.part, off, len);
            r.A = M::Zero(len, n); for (int i = 0; i < len; ++i) r.A(i, off + i) = s.gain; r.lo = r.hi = V::Zero(len); return r;
        }
        if (s.kind == INFEAS) { r.A = M::Ones(1, n); r.lo = V::Constant(1, 1); r.hi = V::Constant(1, -1); return r; }
        int m = s.rows(); r.A = M::Zero(m, n); r.lo = V::Constant(m, -INF); r.hi = V::Constant(m, INF);
        for (int i = 0; i < m; ++i)
        {
            if (kA(s.kind)) r.A.row(i) = s.gain * s.A.row(i);
            else if (kAS(s.kind)) for (int j = 0; j < s.A.cols(); ++j) r.A(i, s.offset + j) = s.gain * s.A(i, j);
            else if (kGI(s.kind)) r.A(i, s.I[i]) = s.gain * (s.kind == ZEROSEL ? 1 : s.G[i]);
            else r.A(i, s.I[i]) = 1;
            double g = kGained(s.kind) ? s.gain : 1;
            switch (s.kind)
            {
                case AB: case ASB: case GIB: case IB: r.lo[i] = r.hi[i] = g * s.b[i]; break;
                case AB0: case ASB0: case GIB0: case IB0: case ZEROSEL: r.lo[i] = r.hi[i] = 0; break;
                case ALU: case ASLU: case GILU: case ILU: r.lo[i] = g * s.lb[i]; r.hi[i] = g * s.ub[i]; break;
                case AL: case ASL: case GIL: case IL: r.lo[i] = g * s.lb[i]; break;
                default: r.hi[i] = g * s.ub[i];
            }
        }
        return r;
    }

    // ---- client tasks ----
    struct TaskI { virtual ~TaskI() {} virtual const humoto::ActiveSetConstraints& actual() const = 0; virtual void gain(double) = 0; virtual void variables(const std::string&) = 0; virtual int unmodified() const = 0; virtual mlog::Tracked tracked(size_t level) const = 0; };   // unmodified: 1, 0 or -1 (not known)
    template<class T> auto setAImpl(T& t, const Spec& s, double g, int) -> decltype(t.getOffset(), void()) { t.getA() = g * s.A; t.setOffset(s.offset); }
    template<class T> auto setAImpl(T& t, const Spec& s, double g, long) -> decltype(t.getA(), void()) { t.getA() = g * s.A; }
    template<class T> auto setIImpl(T& t, const Spec& s, double g, int) -> decltype(t.getIGains(), void()) { t.getIndices() = s.I; t.getIGains() = g * s.G; }
    template<class T> auto setIImpl(T& t, const Spec& s, double g, long) -> decltype(t.getIndices(), void()) { t.getIndices() = s.I; }
    template<class T> auto setBody(T& t, const Spec& s, double g, int) -> decltype(t.getIndices(), void()) { setIImpl(t, s, g, 0); }
    template<class T> auto setBody(T& t, const Spec& s, double g, long) -> decltype(t.getA(), void()) { setAImpl(t, s, g, 0); }
    template<class T> auto setB(T& t, const Spec& s, double g, int) -> decltype(t.getB(), void()) { t.getB() = g * s.b; }
    template<class T> void setB(T&, const Spec&, double, long) {}
    template<class T> auto setL(T& t, const Spec& s, double g, int) -> decltype(t.getLowerBounds(), void()) { t.getLowerBounds() = g * s.lb; }
    template<class T> void setL(T&, const Spec&, double, long) {}
    template<class T> auto setU(T& t, const Spec& s, double g, int) -> decltype(t.getUpperBounds(), void()) { t.getUpperBounds() = g * s.ub; }
    template<class T> void setU(T&, const Spec&, double, long) {}
    template<class T> auto gainOf(const T& t, int) -> decltype(t.getGain()) { return t.getGain(); }
    template<class T> double gainOf(const T&, long) { return 1; }
    template<class T> auto gainTo(T& t, double g, int) -> decltype(t.setGain(g), void()) { t.setGain(g); }
    template<class T> void gainTo(T&, double, long) {}

    template<class Base> struct Client : public Base, public TaskI
    {
        const Spec* s; int formed = -1; double formed_gain = 0; bool unmod = false;
        Client(const std::string& d, double g, const Spec* p) : Base(d, g), s(p) {}
        Client(const std::string& d, const Spec* p) : Base(d), s(p) {}
        void form(const humoto::SolutionStructure&, const humoto::Model&, const humoto::ControlProblem&)
        {
            double g = gainOf(static_cast<Base&>(*this), 0); unmod = false;
            if (s->throw_in_form) throw std::runtime_error("injected task failure");
            if (s->unmod && formed == s->version && formed_gain == g) { this->markAsUnmodified(); unmod = true; sim::count("unmodified_task"); return; }
            formed = -1;
            setBody(static_cast<Base&>(*this), *s, g, 0); setB(static_cast<Base&>(*this), *s, g, 0); setL(static_cast<Base&>(*this), *s, g, 0); setU(static_cast<Base&>(*this), *s, g, 0);
            formed = s->version; formed_gain = g;
        }
        void guessActiveSet(const humoto::SolutionStructure& a, const humoto::Model& b, const humoto::ControlProblem& c)
        {
            size_t n = this->getNumberOfConstraints();
            if (s->policy == 1 && s->pattern.size() == n)
            {
                this->getActiveSetGuess().initialize(n, CAT::INACTIVE);
                for (size_t i = 0; i < n; ++i) this->getActiveSetGuess()[i] = (CAT::Type)s->pattern[i];
            }
            else if (s->policy == 2 && this->getActualActiveSet().size() == n && n > 1)
            {
                this->getActiveSetGuess() = this->getActualActiveSet(); this->getActiveSetGuess().shift(1, this->isEquality() ? CAT::EQUALITY : CAT::INACTIVE);
            }
            else Base::guessActiveSet(a, b, c);
        }
        const humoto::ActiveSetConstraints& actual() const { return this->getActualActiveSet(); }
        void gain(double g) { gainTo(static_cast<Base&>(*this), g, 0); }
        void variables(const std::string&) {}
        int unmodified() const { return unmod; }
        mlog::Tracked tracked(size_t level) const { return mlog::track(this, level); }
    };
    template<class Base> struct Generic : public Base, public TaskI
    {
        template<class... A> explicit Generic(A... a) : Base(a...) {}
        const humoto::ActiveSetConstraints& actual() const { return this->getActualActiveSet(); }
        void gain(double g) { this->setGain(g); }
        void variables(const std::string& v) { setv(*this, v, 0); }
        int unmodified() const { return -1; }
        mlog::Tracked tracked(size_t level) const { return mlog::track(this, level); }
        template<class T> static auto setv(T& t, const std::string& v, int) -> decltype(t.setVariablesID(v), void()) { t.setVariablesID(v); }
        template<class T> static void setv(T&, const std::string&, long) {}
    };
    struct Handle { humoto::TaskSharedPointer ptr; TaskI* ctl = 0; };
    template<class T> Handle wrap(boost::shared_ptr<T> p) { Handle h; h.ptr = p; h.ctl = p.get(); return h; }
    template<class B> Handle mk(const Spec* s, const char* d) { return wrap(boost::shared_ptr<Client<B>>(new Client<B>(d, s->gain, s))); }
    template<class B> Handle mks(const Spec* s, const char* d) { return wrap(boost::shared_ptr<Client<B>>(new Client<B>(d, s))); }
    inline Handle make(const Spec* s, const char* d)
    {
        using namespace humoto;
        switch (s->kind)
        {
            case AB: return mk<TaskAB>(s, d); case AB0: return mk<TaskAB0>(s, d); case ALU: return mk<TaskALU>(s, d); case AL: return mk<TaskAL>(s, d); case AU: return mk<TaskAU>(s, d);
            case ASB: return mk<TaskASB>(s, d); case ASB0: return mk<TaskASB0>(s, d); case ASLU: return mk<TaskASLU>(s, d); case ASL: return mk<TaskASL>(s, d); case ASU: return mk<TaskASU>(s, d);
            case GIB: return mk<TaskGIB>(s, d); case GIB0: return mk<TaskGIB0>(s, d); case GILU: return mk<TaskGILU>(s, d); case GIL: return mk<TaskGIL>(s, d); case GIU: return mk<TaskGIU>(s, d);
            case IB0: return mks<TaskIB0>(s, d); case IB: return mks<TaskIB>(s, d); case ILU: return mks<TaskILU>(s, d); case IL: return mks<TaskIL>(s, d); case IU: return mks<TaskIU>(s, d);
            case ZEROVARS: return wrap(boost::shared_ptr<Generic<TaskZeroVariables>>(new Generic<TaskZeroVariables>(s->gain, std::string(d), s->part)));
            case ZEROSEL: return wrap(boost::shared_ptr<Generic<TaskZeroSelectedVariables>>(new Generic<TaskZeroSelectedVariables>(s->I, s->gain, std::string(d))));
            default: return wrap(boost::shared_ptr<Generic<TaskInfeasibleInequality>>(new Generic<TaskInfeasibleInequality>(s->gain, std::string(d))));
        }
    }
    struct Problem : public humoto::ControlProblem
    {
        void set(const Structure& s) { sol_structure_.reset(); for (auto& p : s.parts) sol_structure_.addSolutionPart(p.first, p.second); }
        void log(humoto::Logger&, const humoto::LogEntryName&, const std::string&) const {}
    };
    struct Mdl : public humoto::Model { void updateState(const humoto::ModelState&) {} void log(humoto::Logger&, const humoto::LogEntryName&, const std::string&) const {} };
}
