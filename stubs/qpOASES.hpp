// Stand-in for qpOASES (not installed): the part of its interface humoto uses.
#pragma once
#include "qpcore.h"
namespace qpOASES
{
    typedef double real_t; typedef int int_t;
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37, RET_MAX_NWSR_REACHED = 64, RET_QP_INFEASIBLE = 61 };
    struct MessageHandling { static const char* getErrorCodeMessage(const returnValue) { return "stand-in"; } };
    struct Options
    {
        BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests;
        int_t enableDriftCorrection, enableCholeskyRefactorisation; BooleanType enableEqualities;
        real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping, finalRamping, initialFarBounds, growFarBounds;
        SubjectToStatus initialStatusBounds; real_t epsFlipping; int_t numRegularisationSteps; real_t epsRegularisation; int_t numRefinementSteps;
        real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin; BooleanType enableInertiaCorrection, enableDropInfeasibles; int_t dropBoundPriority, dropEqConPriority, dropIneqConPriority;
        Options() { setToMPC(); }
        returnValue setToMPC()
        {
            enableRamping = BT_FALSE; enableFarBounds = BT_TRUE; enableFlippingBounds = BT_FALSE; enableRegularisation = BT_TRUE; enableFullLITests = BT_FALSE; enableNZCTests = BT_FALSE;
            enableDriftCorrection = 0; enableCholeskyRefactorisation = 0; enableEqualities = BT_TRUE;
            terminationTolerance = 1e-9; boundTolerance = 1e-6; boundRelaxation = 1e4; epsNum = -1e-13; epsDen = 1e-13; maxPrimalJump = 1e8; maxDualJump = 1e8; initialRamping = 0.5; finalRamping = 1; initialFarBounds = 1e6; growFarBounds = 1e3;
            initialStatusBounds = ST_INACTIVE; epsFlipping = 1e-13; numRegularisationSteps = 1; epsRegularisation = 1e-13; numRefinementSteps = 0; epsIterRef = 1e-14; epsLITests = 1e-11; epsNZCTests = 3e-13; rcondSMin = 1e-14;
            enableInertiaCorrection = BT_FALSE; enableDropInfeasibles = BT_FALSE; dropBoundPriority = 1; dropEqConPriority = 1; dropIneqConPriority = 1; return SUCCESSFUL_RETURN;
        }
    };
    struct Bounds
    {
        std::vector<int> s;
        returnValue init(int_t n) { s.assign(n, 99); return SUCCESSFUL_RETURN; }
        returnValue setupAllFree() { for (auto& v : s) v = 0; return SUCCESSFUL_RETURN; }
        returnValue setupBound(int_t i, SubjectToStatus st) { s.at(i) = st; return SUCCESSFUL_RETURN; }
    };
    struct Constraints
    {
        std::vector<int> s;
        returnValue init(int_t n) { s.assign(n, 99); return SUCCESSFUL_RETURN; }
        returnValue setupConstraint(int_t i, SubjectToStatus st) { s.at(i) = st; return SUCCESSFUL_RETURN; }
    };
    class QProblem
    {
        int nv_, nc_; qpcore::Result r_;
        public:
        QProblem(int_t nv, int_t nc, HessianType = HST_UNKNOWN) : nv_(nv), nc_(nc) { r_.x = Eigen::VectorXd::Zero(nv); r_.bounds.assign(nv, 0); r_.rows.assign(nc, 0); }
        returnValue setOptions(const Options&) { return SUCCESSFUL_RETURN; }
        returnValue init(const real_t* H, const real_t* g, const real_t* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t* cputime = 0,
                         const real_t* xOpt = 0, const real_t* yOpt = 0, const Bounds* gb = 0, const Constraints* gc = 0, const real_t* R = 0)
        {
            qpcore::Problem p; qpcore::Control& c = qpcore::control();
            typedef Eigen::Matrix<double, -1, -1, Eigen::RowMajor> RM;
            p.H = Eigen::Map<const RM>(H, nv_, nv_); p.g = Eigen::Map<const Eigen::VectorXd>(g, nv_);
            if (lb) p.lb = Eigen::Map<const Eigen::VectorXd>(lb, nv_);
            if (ub) p.ub = Eigen::Map<const Eigen::VectorXd>(ub, nv_);
            if (nc_ > 0 && A) { p.A = Eigen::Map<const RM>(A, nc_, nv_); p.lbA = Eigen::Map<const Eigen::VectorXd>(lbA, nc_); p.ubA = Eigen::Map<const Eigen::VectorXd>(ubA, nc_); }
            else p.A.resize(0, nv_);
            c.guess_given = gb && gc; c.guess_bounds.clear(); c.guess_rows.clear(); if (gb) c.guess_bounds = gb->s; if (gc) c.guess_rows = gc->s;
            c.x_guess_given = xOpt != 0; if (xOpt) c.x_guess = Eigen::Map<const Eigen::VectorXd>(xOpt, nv_);
            int limit = nWSR;
            r_ = qpcore::solve(p); nWSR = r_.iterations;
            if (r_.status == qpcore::OK && r_.iterations > limit) r_.status = qpcore::MAX_ITER;
            return r_.status == qpcore::OK ? SUCCESSFUL_RETURN : r_.status == qpcore::MAX_ITER ? RET_MAX_NWSR_REACHED : RET_INIT_FAILED_INFEASIBILITY;
        }
        returnValue getPrimalSolution(real_t* x) const { for (int i = 0; i < nv_; ++i) x[i] = r_.x[i]; return r_.status == qpcore::OK ? SUCCESSFUL_RETURN : RET_QP_INFEASIBLE; }
        returnValue getWorkingSetBounds(real_t* w) { for (int i = 0; i < nv_; ++i) w[i] = r_.bounds[i]; return SUCCESSFUL_RETURN; }
        returnValue getWorkingSetConstraints(real_t* w) { for (int i = 0; i < nc_; ++i) w[i] = r_.rows[i]; return SUCCESSFUL_RETURN; }
    };
}
