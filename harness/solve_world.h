// Solver front ends over the stand-in back ends (and kktsolver, which needs none), and what their answers are judged by.
#pragma once
#include "hier_world.h"
namespace hier
{
    enum FrontKind { QPOASES, QPMAD, QUADPROGPP, KKT_LU, KKT_QR, KKT_ELIM, NFRONTS };
    inline const char* frontName(int k) { static const char* n[] = {"qpoases", "qpmad", "quadprogpp", "kktsolver/LU", "kktsolver/QR", "kktsolver/elimination"}; return n[k]; }
    struct Params { bool crash = true; double reg = 0; int max_iter = 1000; };
    struct Front
    {
        virtual ~Front() {}
        virtual void params(const Params& q) = 0;
        virtual void solve(humoto::Solution& s, const humoto::OptimizationProblem& op, int overload, humoto::ActiveSet& as, const humoto::ActiveSet& asg, const humoto::Solution& guess, const Params& q) = 0;
        virtual int overloads() const { return 2; }
        virtual void log(humoto::Logger& l, const humoto::LogEntryName& p, const char* name) = 0;      // name: null for the default
        virtual const char* defaultName() const = 0;
        virtual void logged(mlog::Expect& e, const std::string& p, const humoto::OptimizationProblem& op, const humoto::Solution& x) = 0;
    };
    template<class S> void logFront(const S& s, humoto::Logger& l, const humoto::LogEntryName& p, const char* name) { if (name) s.log(l, p, name); else s.log(l, p); }
    // the constraints of a problem; the objective, where the back end leaves it
    template<class Q> void loggedQP(mlog::Expect& e, const std::string& p, const humoto::OptimizationProblem& op, const humoto::Solution& x, bool objective)
    {
        Q q; op.getQPProblem(q, x, true); mlog::Expect t; mlog::qp(t, mlog::join(p, "qp_problem"), q); for (auto& i : t.e) { if (!objective && i.first.find(".objective.") != std::string::npos) i.second.any = true; e.e.push_back(i); }
    }
    struct FQpoases : Front
    {
        humoto::qpoases::Solver s;
        static humoto::qpoases::SolverParameters conv(const Params& q) { humoto::qpoases::SolverParameters p; p.crash_on_any_failure_ = q.crash; p.max_number_of_iterations_ = q.max_iter; return p; }
        void params(const Params& q) { s.setParameters(conv(q)); }
        int overloads() const { return 9; }
        void log(humoto::Logger& l, const humoto::LogEntryName& p, const char* name) { logFront(s, l, p, name); }
        const char* defaultName() const { return "qpoases"; }
        void logged(mlog::Expect& e, const std::string& p, const humoto::OptimizationProblem& op, const humoto::Solution& x) { loggedQP<humoto::QPProblem_ILU_ALU>(e, p, op, x, true); }
        void solve(humoto::Solution& x, const humoto::OptimizationProblem& op, int v, humoto::ActiveSet& as, const humoto::ActiveSet& asg, const humoto::Solution& g, const Params& q)
        {
            switch (v)
            {
                case 1: s.solve(x, op, conv(q)); break; case 2: s.solve(x, op, g); break; case 3: s.solve(x, as, op); break; case 4: s.solve(x, as, op, asg); break;
                case 5: s.solve(x, op, asg); break; case 6: s.solve(x, as, op, g, asg); break; case 7: s.solve(x, op, g, asg); break; case 8: s.solve(x, as, op, g); break;
                default: s.solve(x, op);
            }
        }
    };
    template<class S, class P, class Q> struct FReg : Front
    {
        S s; const char* name; explicit FReg(const char* n) : name(n) {}
        void log(humoto::Logger& l, const humoto::LogEntryName& p, const char* n) { logFront(s, l, p, n); }
        const char* defaultName() const { return name; }
        void logged(mlog::Expect& e, const std::string& p, const humoto::OptimizationProblem& op, const humoto::Solution& x) { loggedQP<Q>(e, p, op, x, false); }
        static P conv(const Params& q) { P p; p.crash_on_any_failure_ = q.crash; p.regularization_factor_ = q.reg; return p; }
        void params(const Params& q) { s.setParameters(conv(q)); }
        void solve(humoto::Solution& x, const humoto::OptimizationProblem& op, int v, humoto::ActiveSet&, const humoto::ActiveSet&, const humoto::Solution&, const Params& q) { if (v == 1) s.solve(x, op, conv(q)); else s.solve(x, op); }
    };
    struct FKkt : Front
    {
        humoto::kktsolver::Solver s; int kind;
        explicit FKkt(int k) : kind(k) {}
        void log(humoto::Logger& l, const humoto::LogEntryName& p, const char* name) { logFront(s, l, p, name); }
        const char* defaultName() const { return "kktsolver"; }
        void logged(mlog::Expect& e, const std::string& p, const humoto::OptimizationProblem& op, const humoto::Solution& x) { loggedQP<humoto::QPProblem_AB>(e, p, op, x, true); }
        humoto::kktsolver::SolverParameters conv(const Params& q) { typedef humoto::kktsolver::SolverParameters P; P p; p.crash_on_any_failure_ = q.crash; p.solution_method_ = kind == KKT_LU ? P::LU : kind == KKT_QR ? P::QR : P::CONSTRAINT_ELIMINATION_LLT; return p; }
        void params(const Params& q) { s.setParameters(conv(q)); }
        void solve(humoto::Solution& x, const humoto::OptimizationProblem& op, int v, humoto::ActiveSet&, const humoto::ActiveSet&, const humoto::Solution&, const Params& q) { if (v == 1) s.solve(x, op, conv(q)); else s.solve(x, op); }
    };
    inline std::unique_ptr<Front> makeFront(int k)
    {
        switch (k)
        {
            case QPOASES: return std::unique_ptr<Front>(new FQpoases);
            case QPMAD: return std::unique_ptr<Front>(new FReg<humoto::qpmad::Solver, humoto::qpmad::SolverParameters, humoto::QPProblem_ILU_ALU>("qpmad"));
            case QUADPROGPP: return std::unique_ptr<Front>(new FReg<humoto::quadprogpp::Solver, humoto::quadprogpp::SolverParameters, humoto::QPProblem_AB_AL>("quadprogpp"));
            default: return std::unique_ptr<Front>(new FKkt(k));
        }
    }
    inline bool usesGuess(int v) { return v == 2 || v == 6 || v == 7 || v == 8; }
    inline bool usesActiveSetGuess(int v) { return v == 4 || v == 5 || v == 6 || v == 7; }
    inline bool returnsActiveSet(int v) { return v == 3 || v == 4 || v == 6 || v == 8; }

    // the problem the tasks define, from the specifications alone
    inline qpcore::Problem reference(const Plan& p, double reg)
    {
        qpcore::Problem q; int n = p.st.n(); LevelRef o = refLevel(p, p.levels.size() - 1);
        q.H = o.H + reg * M::Identity(n, n); q.g = -o.g; q.A.resize(0, n); q.lbA.resize(0); q.ubA.resize(0);
        if (p.levels.size() == 2)
        {
            LevelRef c = refLevel(p, 0); q.A.resize(c.all.size(), n); q.lbA.resize(c.all.size()); q.ubA.resize(c.all.size()); int k = 0;
            for (auto& r : c.r) for (int i = 0; i < r.A.rows(); ++i, ++k) { q.A.row(k) = r.A.row(i); q.lbA[k] = r.lo[i]; q.ubA[k] = r.hi[i]; }
        }
        return q;
    }
    inline double objective(const qpcore::Problem& q, const V& x) { return 0.5 * x.dot(q.H * x) + q.g.dot(x); }
    // largest violation relative to the size of the bound
    inline double violation(const qpcore::Problem& q, const V& x)
    {
        double w = 0; for (int i = 0; i < q.A.rows(); ++i) { double a = q.A.row(i).dot(x); if (q.lbA[i] > -1e19) w = std::max(w, (q.lbA[i] - a) / (1 + std::fabs(q.lbA[i]))); if (q.ubA[i] < 1e19) w = std::max(w, (a - q.ubA[i]) / (1 + std::fabs(q.ubA[i]))); }
        return w;
    }
    inline bool wellPosedEqualities(const qpcore::Problem& q)
    {
        if (q.A.rows() == 0) return true; if (q.A.rows() > q.A.cols()) return false;
        Eigen::JacobiSVD<M> svd(q.A); return svd.singularValues().minCoeff() > 1e-3;
    }
}
