// Dense QP core used by the stand-ins for the third-party QP solvers, which are
// not installed here:   min 1/2 x'Hx + g'x,  lb <= x <= ub,  lbA <= Ax <= ubA.
// Dual active set method (Goldfarb & Idnani), recomputed densely at every step:
// slow, deterministic, and simple enough to trust.
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <algorithm>
#include <cmath>
#include <limits>
#include <functional>
namespace qpcore
{
    enum Status { OK = 0, INFEASIBLE = 1, MAX_ITER = 2, NOT_CONVEX = 3 };
    struct Problem
    {
        Eigen::MatrixXd H; Eigen::VectorXd g;
        Eigen::VectorXd lb, ub;                 // size n (infinite where absent)
        Eigen::MatrixXd A; Eigen::VectorXd lbA, ubA;
    };
    struct Result
    {
        Status status = OK; int iterations = 0;
        Eigen::VectorXd x;
        std::vector<int> bounds, rows;          // -1 lower, 0 inactive, 1 upper
    };
    // Faults the simulation injects into the back end, and what the back end was given.
    struct Control
    {
        uint64_t calls = 0; int last_status = OK;
        int64_t fail_at = -1;                   // the n-th call (1..) fails ...
        int fail_status = INFEASIBLE;           // ... with this status
        bool fail_writes_garbage = true;
        bool keep = false; Problem last; Result last_result;
        std::vector<int> guess_bounds, guess_rows; bool guess_given = false; Eigen::VectorXd x_guess; bool x_guess_given = false;
    };
    inline Control& control() { static Control c; return c; }
    inline const double inf() { return 1e19; }

    inline Result solveRaw(const Problem& p)
    {
        const int n = p.g.size(), m = p.A.rows();
        Result r; r.x.resize(n); r.bounds.assign(n, 0); r.rows.assign(m, 0);
        struct C { Eigen::VectorXd a; double b; bool eq; int row, side; bool bound; };
        std::vector<C> cs;
        auto add = [&](const Eigen::VectorXd& a, double lo, double hi, int row, bool bound) -> bool {
            if (lo > hi + 1e-9 * (1 + std::fabs(lo))) return false;
            double s = a.norm();
            if (s < 1e-13) return lo <= 1e-9 && hi >= -1e-9;
            if (lo > -inf() && hi < inf() && hi - lo <= 1e-12 * (1 + std::fabs(lo))) { cs.push_back(C{a / s, lo / s, true, row, -1, bound}); return true; }
            if (lo > -inf()) cs.push_back(C{a / s, lo / s, false, row, -1, bound});
            if (hi < inf()) cs.push_back(C{-a / s, -hi / s, false, row, 1, bound});
            return true;
        };
        for (int i = 0; i < n; ++i) { Eigen::VectorXd e = Eigen::VectorXd::Zero(n); e[i] = 1; if (!add(e, p.lb.size() ? p.lb[i] : -2 * inf(), p.ub.size() ? p.ub[i] : 2 * inf(), i, true)) { r.status = INFEASIBLE; r.x.setZero(); return r; } }
        for (int i = 0; i < m; ++i) if (!add(p.A.row(i).transpose(), p.lbA[i], p.ubA[i], i, false)) { r.status = INFEASIBLE; r.x.setZero(); return r; }
        std::stable_sort(cs.begin(), cs.end(), [](const C& a, const C& b) { return a.eq > b.eq; });

        Eigen::MatrixXd H = 0.5 * (p.H + p.H.transpose());
        double scale = std::max(1e-12, H.diagonal().cwiseAbs().maxCoeff());
        for (int i = 0; i < n; ++i) H(i, i) += 1e-10 * scale;
        Eigen::LLT<Eigen::MatrixXd> llt(H);
        if (llt.info() != Eigen::Success) { r.status = NOT_CONVEX; r.x.setZero(); return r; }
        Eigen::MatrixXd L = llt.matrixL();
        Eigen::VectorXd x = llt.solve(-p.g);
        std::vector<int> act; std::vector<double> u;
        std::vector<char> skip(cs.size(), 0);
        const double tol = 1e-10;
        for (int iter = 0; ; ++iter)
        {
            r.iterations = iter;
            if (iter > 60 * (n + (int)cs.size()) + 200) { r.status = MAX_ITER; break; }
            // most violated constraint, equalities first
            int pick = -1; double worst = 0; double sgn = 1;
            for (size_t i = 0; i < cs.size(); ++i)
            {
                if (skip[i] || std::find(act.begin(), act.end(), (int)i) != act.end()) continue;
                double s = cs[i].a.dot(x) - cs[i].b, t = tol * (1 + std::fabs(cs[i].b));
                if (cs[i].eq) { pick = i; sgn = s > 0 ? -1 : 1; worst = -std::fabs(s); break; }
                if (s < -t && s < worst) { worst = s; pick = i; sgn = 1; }
            }
            if (pick < 0) break;
            if (sgn < 0) { cs[pick].a = -cs[pick].a; cs[pick].b = -cs[pick].b; cs[pick].side = -cs[pick].side; }
            double up = 0; bool done = false;
            for (int inner = 0; !done; ++inner)
            {
                if (inner > n + (int)cs.size() + 10) { r.status = MAX_ITER; done = true; break; }
                Eigen::VectorXd d = L.triangularView<Eigen::Lower>().solve(cs[pick].a);
                Eigen::VectorXd rr(act.size()), zt = d;
                if (!act.empty())
                {
                    Eigen::MatrixXd B(n, act.size());
                    for (size_t k = 0; k < act.size(); ++k) B.col(k) = cs[act[k]].a;
                    L.triangularView<Eigen::Lower>().solveInPlace(B);
                    rr = B.colPivHouseholderQr().solve(d);
                    zt = d - B * rr;
                }
                double zn = zt.squaredNorm();
                bool nodir = zn <= 1e-18 * std::max(1.0, d.squaredNorm()) || (int)act.size() >= n;
                double s = cs[pick].a.dot(x) - cs[pick].b;
                if (cs[pick].eq && nodir && std::fabs(s) <= 1e-8 * (1 + std::fabs(cs[pick].b))) { skip[pick] = 1; done = true; break; }  // redundant equality
                double t1 = std::numeric_limits<double>::infinity(); int drop = -1;
                for (size_t k = 0; k < act.size(); ++k) if (!cs[act[k]].eq && rr[k] > 1e-14) { double t = u[k] / rr[k]; if (t < t1) { t1 = t; drop = k; } }
                double t2 = nodir ? std::numeric_limits<double>::infinity() : -s / zn;
                if (!std::isfinite(t1) && !std::isfinite(t2)) { r.status = INFEASIBLE; done = true; break; }
                double t = std::min(t1, t2);
                if (std::isfinite(t2)) x += t * L.transpose().triangularView<Eigen::Upper>().solve(zt);
                for (size_t k = 0; k < act.size(); ++k) u[k] -= t * rr[k];
                up += t;
                if (t2 <= t1) { act.push_back(pick); u.push_back(up); done = true; }
                else { act.erase(act.begin() + drop); u.erase(u.begin() + drop); }
            }
            if (r.status != OK) break;
        }
        // polish on the final active set with the original Hessian
        if (r.status == OK)
        {
            int k = act.size();
            Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n + k, n + k); Eigen::VectorXd v(n + k);
            K.topLeftCorner(n, n) = H; v.head(n) = -p.g + (H - 0.5 * (p.H + p.H.transpose())) * x;
            for (int i = 0; i < k; ++i) { K.block(0, n + i, n, 1) = cs[act[i]].a; K.block(n + i, 0, 1, n) = cs[act[i]].a.transpose(); v[n + i] = cs[act[i]].b; }
            Eigen::VectorXd y = K.fullPivLu().solve(v).head(n);
            bool good = y.allFinite() && (y - x).norm() < 1e-4 * (1 + x.norm());
            if (good) for (auto& c : cs) if (c.a.dot(y) - c.b < -1e-8 * (1 + std::fabs(c.b))) good = false;
            if (good) x = y;
        }
        r.x = x;
        for (int a : act) (cs[a].bound ? r.bounds : r.rows)[cs[a].row] = cs[a].side;
        return r;
    }

    inline Result solve(const Problem& p)
    {
        Control& c = control();
        c.calls++;
        Result r = solveRaw(p);
        if (c.fail_at >= 0 && (int64_t)c.calls == c.fail_at)
        {
            r.status = (Status)c.fail_status;
            if (c.fail_writes_garbage) for (int i = 0; i < r.x.size(); ++i) r.x[i] = 1e3 * (i + 1);
        }
        c.last_status = r.status;
        if (c.keep) { c.last = p; c.last_result = r; }
        return r;
    }
}
