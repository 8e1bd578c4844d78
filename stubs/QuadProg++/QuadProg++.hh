// Stand-in for QuadProg++ (not installed): the part of its interface humoto uses.
#pragma once
#include "../qpcore.h"
namespace QuadProgpp
{
    struct Status { enum { OK = 0, FAILURE = 1 }; };
    class Solver
    {
        public:
        // min 1/2 x'Gx + g0'x,  CE' x + ce0 = 0,  CI' x + ci0 >= 0; G is overwritten
        double solve(Eigen::MatrixXd& G, const Eigen::VectorXd& g0, const Eigen::MatrixXd& CE, const Eigen::VectorXd& ce0, const Eigen::MatrixXd& CI, const Eigen::VectorXd& ci0, Eigen::VectorXd& x)
        {
            qpcore::Problem p; int n = g0.size();
            p.H = G; p.g = g0; p.A.resize(CE.cols() + CI.cols(), n); p.lbA.resize(p.A.rows()); p.ubA.resize(p.A.rows());
            for (int i = 0; i < CE.cols(); ++i) { p.A.row(i) = CE.col(i).transpose(); p.lbA[i] = p.ubA[i] = -ce0[i]; }
            for (int i = 0; i < CI.cols(); ++i) { p.A.row(CE.cols() + i) = CI.col(i).transpose(); p.lbA[CE.cols() + i] = -ci0[i]; p.ubA[CE.cols() + i] = 2 * qpcore::inf(); }
            qpcore::control().guess_given = false; qpcore::control().x_guess_given = false;
            qpcore::Result r = qpcore::solve(p);
            G.setConstant(1e33);
            x = r.x;
            return r.status == qpcore::OK ? Status::OK : r.status == qpcore::INFEASIBLE ? std::numeric_limits<double>::infinity() : (double)Status::FAILURE;
        }
    };
}
