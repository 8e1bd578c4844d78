// Stand-in for qpmad (not installed): the part of its interface humoto uses.
#pragma once
#include "../qpcore.h"
namespace qpmad
{
    class SolverParameters
    {
        public:
        enum HessianType { HESSIAN_UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
        HessianType hessian_type_; double tolerance_; int max_iter_;
        SolverParameters() { hessian_type_ = HESSIAN_LOWER_TRIANGULAR; tolerance_ = 1e-12; max_iter_ = -1; }
    };
    class Solver
    {
        public:
        enum ReturnStatus { OK = 0, MAXIMAL_NUMBER_OF_ITERATIONS = 4, INFEASIBLE = 5 };
        // only the lower triangular part of H is used; H is overwritten with its factor, as in qpmad
        ReturnStatus solve(Eigen::VectorXd& primal, Eigen::MatrixXd& H, const Eigen::VectorXd& h, const Eigen::VectorXd& lb, const Eigen::VectorXd& ub,
                           const Eigen::MatrixXd& A, const Eigen::VectorXd& Alb, const Eigen::VectorXd& Aub)
        {
            qpcore::Problem p; p.H = H.selfadjointView<Eigen::Lower>(); p.g = h; p.lb = lb; p.ub = ub; p.A = A; p.lbA = Alb; p.ubA = Aub;
            if (p.A.rows() == 0) p.A.resize(0, h.size());
            qpcore::control().guess_given = false; qpcore::control().x_guess_given = false;
            qpcore::Result r = qpcore::solve(p);
            H.setConstant(1e33);
            primal = r.x;
            return r.status == qpcore::OK ? OK : r.status == qpcore::MAX_ITER ? MAXIMAL_NUMBER_OF_ITERATIONS : INFEASIBLE;
        }
    };
}
