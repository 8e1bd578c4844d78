// C26: models and condensed predictions against the step by step motion of a simulated plant, whose time is sliced arbitrarily.
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "sim/sim.h"
#include <cmath>
#include <vector>
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
using humoto::rigidbody::TripleIntegrator; using humoto::walking::PointMassModel6z;
namespace
{
    const double G = 9.8;
    void equal(const char* cls, const char* what, int k, const M& got, const M& want, double scale, double eps = 1e-11)
    {
        if (got.rows() != want.rows() || got.cols() != want.cols()) sim::fail(cls, "%s, step %d: the size is %ldx%ld instead of %ldx%ld", what, k, (long)got.rows(), (long)got.cols(), (long)want.rows(), (long)want.cols());
        for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j) if (!(std::fabs(got(i, j) - want(i, j)) <= eps * (1 + scale))) sim::fail(cls, "%s, step %d: element (%d, %d) is %.15g instead of %.15g", what, k, i, j, got(i, j), want(i, j));
    }
    double big(const M& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

    // ---------------- chains of integrators: the jerk is constant in a period ----------------
    enum Control { JERK, ACC, VEL, POS };
    const char* cname(int c) { static const char* n[] = {"jerk", "acceleration", "velocity", "position"}; return n[c]; }
    V drift(const V& x, const V& jerk, double t)
    {
        V r(x.size()); for (int i = 0; i < jerk.size(); ++i) { double p = x[3 * i], v = x[3 * i + 1], a = x[3 * i + 2], j = jerk[i]; r[3 * i] = p + t * (v + t * (a / 2 + t * j / 6)); r[3 * i + 1] = v + t * (a + t * j / 2); r[3 * i + 2] = a + t * j; } return r;
    }
    template<std::size_t n> struct Chain
    {
        static M A(int c, double T) { return c == JERK ? M(TripleIntegrator::getAJerk<n>(T)) : c == ACC ? M(TripleIntegrator::getAAcc<n>(T)) : c == VEL ? M(TripleIntegrator::getAVel<n>(T)) : M(TripleIntegrator::getAPos<n>(T)); }
        static M B(int c, double T) { return c == JERK ? M(TripleIntegrator::getBJerk<n>(T)) : c == ACC ? M(TripleIntegrator::getBAcc<n>(T)) : c == VEL ? M(TripleIntegrator::getBVel<n>(T)) : M(TripleIntegrator::getBPos<n>(T)); }
        static M As(int c, double T, double s) { return c == JERK ? A(c, s) : c == ACC ? M(TripleIntegrator::getAsAcc<n>(T, s)) : c == VEL ? M(TripleIntegrator::getAsVel<n>(T, s)) : M(TripleIntegrator::getAsPos<n>(T, s)); }
        static M Bs(int c, double T, double s) { return c == JERK ? B(c, s) : c == ACC ? M(TripleIntegrator::getBsAcc<n>(T, s)) : c == VEL ? M(TripleIntegrator::getBsVel<n>(T, s)) : M(TripleIntegrator::getBsPos<n>(T, s)); }
        static M D(int c, double T) { return c == JERK ? M(M::Zero(n, 3 * n)) : c == ACC ? M(TripleIntegrator::getDAcc<n>(T)) : c == VEL ? M(TripleIntegrator::getDVel<n>(T)) : M(TripleIntegrator::getDPos<n>(T)); }
        static M E(int c, double T) { return c == JERK ? M(M::Identity(n, n)) : c == ACC ? M(TripleIntegrator::getEAcc<n>(T)) : c == VEL ? M(TripleIntegrator::getEVel<n>(T)) : M(TripleIntegrator::getEPos<n>(T)); }
    };
    struct Models { M A, B, As, Bs, D, E; };
    Models chain(int n, int c, double T, double s)
    {
        Models m;
        switch (n)
        {
#define CHAIN(k) case k: m.A = Chain<k>::A(c, T); m.B = Chain<k>::B(c, T); m.As = Chain<k>::As(c, T, s); m.Bs = Chain<k>::Bs(c, T, s); m.D = Chain<k>::D(c, T); m.E = Chain<k>::E(c, T); break
            CHAIN(1); CHAIN(2); CHAIN(3); CHAIN(4);
        }
        return m;
    }
    double period() { static const double p[] = {0.1, 0.02, 0.5, 1, 0.005}; uint32_t k = sim::choose(6); return k < 5 ? p[k] : sim::num(0.01, 1.5); }
    void disturb(V& x) { if (sim::chance(1, 5)) { x[sim::choose(x.size())] += sim::num(-1, 1); sim::count("fault:push"); } }
    void integrators()
    {
        int n = sim::range(1, 4), steps = sim::range(1, 12); V x(3 * n); for (int i = 0; i < x.size(); ++i) x[i] = sim::num(-2, 2); sim::event("%d integrators", n);
        for (int k = 0; k < steps; ++k)
        {
            double T = period(); int c = sim::choose(4); V jerk(n); for (int i = 0; i < n; ++i) jerk[i] = sim::num(-5, 5) / T; double s = sim::chance(1, 4) ? T : sim::num(0.01, 1) * T; if (s <= 0) s = T / 3; if (s > T) s = T;
            Models m = chain(n, c, T, s); V end = drift(x, jerk, T), mid = drift(x, jerk, s), u(n); for (int i = 0; i < n; ++i) u[i] = c == JERK ? jerk[i] : end[3 * i + 3 - c];
            double scale = (big(x) + big(end) + big(jerk)) * (1 + 1 / (T * T * T)); char what[100]; snprintf(what, sizeof what, "%d integrators controlled by %s, period %.6g", n, cname(c), T);
            sim::state(sim::mix(n * 4 + c, k));
            equal("wrong-step", what, k, m.A * x + m.B * u, end, scale); equal("wrong-jerk", what, k, m.D * x + m.E * u, jerk, scale, 1e-10);
            equal("wrong-intermediate-state", what, k, m.As * x + m.Bs * u, mid, scale);
            // the same period in slices: as long as the jerk does not change, it does not matter how time passes
            V y = x; double left = T; for (int q = sim::range(1, 4); q > 0; --q) { double d = q == 1 ? left : left * sim::num(0.01, 0.99); if (d <= 0) continue; int cs = sim::choose(4); Models p = chain(n, cs, d, d); V next = drift(y, jerk, d), w(n); for (int i = 0; i < n; ++i) w[i] = cs == JERK ? jerk[i] : next[3 * i + 3 - cs]; V z = p.A * y + p.B * w; equal("wrong-step", "slice", k, z, next, (big(y) + big(next) + big(jerk)) * (1 + 1 / (d * d))); y = next; left -= d; sim::count("slice"); }
            equal("depends-on-slicing", what, k, y, end, big(x) + big(end) + big(jerk), 1e-10);
            x = end; sim::simTime(T); sim::step(); sim::nontrivial(); disturb(x); for (int i = 0; i < x.size(); ++i) { sim::digestDouble(x[i]); if (std::fabs(x[i]) > 1e4) x[i] = std::fmod(x[i], 10); }
        }
    }
    // ---------------- inverted pendulum: the centre of pressure moves at a constant speed in a period ----------------
    void swing(const double* s, double v, double w, double t, double* r)
    {
        double z0 = s[0] - s[2] / (w * w), d0 = s[0] - z0, e0 = s[1] - v, ch = std::cosh(w * t), sh = std::sinh(w * t), d = d0 * ch + e0 / w * sh, e = d0 * w * sh + e0 * ch; r[0] = z0 + v * t + d; r[1] = v + e; r[2] = w * w * d;
    }
    V pendulum(const V& x, const Eigen::Vector2d& v, double w, double t) { V r(6); swing(x.data(), v[0], w, t, r.data()); swing(x.data() + 3, v[1], w, t, r.data() + 3); return r; }
    void pendulums()
    {
        PointMassModel6z model; double h = sim::chance(1, 2) ? 0.814 : sim::num(0.2, 2); if (h <= 0) h = 1; int steps = sim::range(1, 10); V x(6); for (int i = 0; i < 6; ++i) x[i] = sim::num(-0.5, 0.5); sim::event("pendulum %g", h);
        if (model.Ns_ != 6 || model.Nu_ != 2) sim::fail("wrong-size", "the model has %zu states and %d controls", model.Ns_, model.Nu_);
        for (int k = 0; k < steps; ++k)
        {
            double T = std::min(0.5, period()), w = PointMassModel6z::getOmega(h), wr = std::sqrt(G / h), s = sim::chance(1, 4) ? T : sim::num(0.01, 1) * T; if (s <= 0) s = T / 3; if (s > T) s = T;
            equal("wrong-frequency", "pendulum", k, M::Constant(1, 1, w), M::Constant(1, 1, wr), wr, 1e-14);
            Eigen::Vector2d v(sim::num(-1, 1), sim::num(-1, 1)), z0(x[0] - x[2] / (wr * wr), x[3] - x[5] / (wr * wr)), z1 = z0 + v * T; V end = pendulum(x, v, wr, T), mid = pendulum(x, v, wr, s); double scale = (big(x) + big(end) + 1) * (1 + 1 / T);
            sim::state(sim::mix(k, (uint64_t)(h * 100)));
            equal("wrong-step", "pendulum", k, PointMassModel6z::getA6(T, w) * x + PointMassModel6z::getB6(T, w) * z1, end, scale);
            equal("wrong-intermediate-state", "pendulum", k, PointMassModel6z::getA6(s, w, T) * x + PointMassModel6z::getB6(s, w, T) * z1, mid, scale);
            for (int a = 0; a < 2; ++a) { V q = x.segment(3 * a, 3); equal("wrong-step", "one axis of the pendulum", k, PointMassModel6z::getA3(T, w) * q + PointMassModel6z::getB3(T, w) * z1[a], end.segment(3 * a, 3), scale); equal("wrong-intermediate-state", "one axis of the pendulum", k, PointMassModel6z::getA3(s, w, T) * q + PointMassModel6z::getB3(s, w, T) * z1[a], mid.segment(3 * a, 3), scale); equal("wrong-output", "velocity of the centre of pressure", k, PointMassModel6z::getD3(T, w) * q + M::Constant(1, 1, PointMassModel6z::getE3(T) * z1[a]), M::Constant(1, 1, v[a]), scale); }
            equal("wrong-output", "velocity of the centre of pressure", k, PointMassModel6z::getD6(T, w) * x + PointMassModel6z::getE6(T, w) * z1, v, scale);
            equal("wrong-output", "centre of pressure", k, PointMassModel6z::getDdz6(h) * x, z0, scale);
            // the capture point is c + dc / w
            equal("wrong-output", "velocity of the capture point", k, PointMassModel6z::getDcpv6(w) * x, Eigen::Vector2d(x[1] + x[2] / wr, x[4] + x[5] / wr), scale);
            humoto::rigidbody::PointMassState e = PointMassModel6z::evaluate(s, T, h, etools::Vector6(x), etools::Vector2(z1)); equal("wrong-intermediate-state", "evaluated state", k, PointMassModel6z::convertCoMState(e), mid, scale);
            if (e.position_.z() != h || e.velocity_.z() != 0 || e.acceleration_.z() != 0) sim::fail("wrong-height", "the height of the evaluated state is %g instead of %g", e.position_.z(), h);
            equal("lossy-conversion", "state", k, PointMassModel6z::convertCoMState(PointMassModel6z::convertCoMState(etools::Vector6(x), h)), x, 0, 0);
            // slices
            V y = x; double left = T; for (int q = sim::range(1, 4); q > 0; --q) { double d = q == 1 ? left : left * sim::num(0.05, 0.9); if (d <= 0) continue; Eigen::Vector2d z(y[0] - y[2] / (wr * wr) + v[0] * d, y[3] - y[5] / (wr * wr) + v[1] * d); y = PointMassModel6z::getA6(d, w) * y + PointMassModel6z::getB6(d, w) * z; left -= d; sim::count("slice"); }
            equal("depends-on-slicing", "pendulum", k, y, end, scale * 10, 1e-10);
            x = end; sim::simTime(T); sim::step(); sim::nontrivial(); disturb(x); for (int i = 0; i < 6; ++i) { sim::digestDouble(x[i]); if (std::fabs(x[i]) > 1e3) x[i] = std::fmod(x[i], 1); }
            if (sim::chance(1, 8)) { h = sim::num(0.2, 2); if (h <= 0) h = 1; sim::count("fault:height-change"); }
        }
    }
    // ---------------- condensed predictions ----------------
    struct Predictor : humoto::MPC
    {
        void guessSolution(humoto::Solution&, const humoto::Solution&) const {}
        template<int nx, int nu, bool lower> static void run(const std::vector<M>& A, const std::vector<M>& B, const std::vector<M>& D, const std::vector<M>& E, M& S, M& U, M& Ox, M& Ou)
        {
            typedef Eigen::Matrix<double, nx, nx> TA; typedef Eigen::Matrix<double, nx, nu> TB; typedef Eigen::Matrix<double, 2, nx> TD; typedef Eigen::Matrix<double, 2, nu> TE;
            std::vector<TA, Eigen::aligned_allocator<TA>> a0; std::vector<TA> a; std::vector<TB> b; std::vector<TD> d; std::vector<TE> e; for (size_t i = 0; i < A.size(); ++i) { a.push_back(A[i]); b.push_back(B[i]); d.push_back(D[i]); e.push_back(E[i]); }
            etools::GenericBlockMatrix<nx, nx> s; etools::GenericBlockMatrix<2, nx> ox;
            if (lower) { etools::LeftLowerTriangularBlockMatrix<nx, nu> u; dirty(u); condense(s, u, a, b); etools::LeftLowerTriangularBlockMatrix<2, nu> ou; dirty(ou); condenseOutput(ox, ou, d, e, s, u); S = s.getRaw(); U = u.getRaw(); Ox = ox.getRaw(); Ou = ou.getRaw(); }
            else { etools::GenericBlockMatrix<nx, nu> u; dirty(u); condense(s, u, a, b); S = s.getRaw(); U = u.getRaw(); Ox.resize(0, 0); }
        }
        // what is left of an earlier use does not matter
        template<class B> static void dirty(B& b) { if (sim::chance(1, 2)) { int n = sim::range(1, 3); b.resize(n, n); for (int i = 0; i < n; ++i) b.row(i).setConstant(7); } }
        static void dense(const std::vector<M>& A, const std::vector<M>& B, M& S, M& U) { condense(S, U, A, B); }
        static void invariant(const M& A, const M& B, int N, M& S, M& U) { condenseTimeInvariant(S, U, N, A, B); }
        static void output(const M& D, const M& E, const M& S, const M& U, M& Ox, M& Ou) { condenseOutput(Ox, Ou, D, E, S, U); }
        // controls in groups
        template<int nx> static void groups(const std::vector<M>& A, const std::vector<std::vector<M>>& B, const std::vector<M>& D, const std::vector<M>& E, M& S, std::vector<M>& U, M& Ox, std::vector<M>& Ou)
        {
            typedef Eigen::Matrix<double, nx, nx> TA; std::vector<TA> a; for (auto& m : A) a.push_back(m); etools::GenericBlockMatrix<nx, nx> s; std::vector<etools::LeftLowerTriangularBlockMatrix<nx, etools::MatrixBlockSizeType::DYNAMIC>> u(B.size());
            for (size_t g = 0; g < B.size(); ++g) { u[g].setBlockSize(etools::MatrixBlockSizeType::UNDEFINED, B[g][0].cols()); condense(s, u[g], a, B[g]); }
            etools::GenericBlockMatrix<2, nx> ox; std::vector<etools::LeftLowerTriangularBlockMatrix<2, etools::MatrixBlockSizeType::DYNAMIC>> ou; condenseOutput(ox, ou, D, E, s, u);
            S = s.getRaw(); Ox = ox.getRaw(); U.clear(); Ou.clear(); for (auto& m : u) U.push_back(m.getRaw()); for (auto& m : ou) Ou.push_back(m.getRaw());
        }
    };
    M any(int r, int c) { M m(r, c); int sparse = sim::choose(3); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = sparse == 1 && sim::chance(1, 2) ? 0 : sparse == 2 ? sim::grid(-1, 1, 4) : sim::num(-1.2, 1.2); return m; }
    void condensing()
    {
        static const int NX[] = {3, 6, 2, 3, 2, 4}, NU[] = {1, 2, 2, 3, 1, 3}; int shape = sim::choose(6), nx = NX[shape], nu = NU[shape], kind = sim::choose(5), N = sim::range(1, sim::thorough() ? 14 : 8); bool constant = kind == 3;
        // the plant
        std::vector<M> A, B, D, E; bool chained = nx == 3 && nu == 1 && sim::chance(1, 2);
        for (int i = 0; i < N; ++i)
        {
            if (constant && i) { A.push_back(A[0]); B.push_back(B[0]); D.push_back(D[0]); E.push_back(E[0]); continue; }
            if (chained) { double T = period(); int c = sim::choose(2); A.push_back(Chain<1>::A(c, T)); B.push_back(Chain<1>::B(c, T)); } else { A.push_back(any(nx, nx)); B.push_back(any(nx, nu)); }
            D.push_back(any(2, nx)); E.push_back(any(2, nu));
        }
        V x(nx); for (int i = 0; i < nx; ++i) x[i] = sim::num(-1, 1); std::vector<V> u; for (int i = 0; i < N; ++i) { V w(nu); for (int j = 0; j < nu; ++j) w[j] = sim::num(-1, 1); u.push_back(w); } sim::event("condensing %d: %d states, %d controls, %d steps", kind, nx, nu, N);
        static const char* names[] = {"blocks, lower triangular", "blocks", "dense", "time invariant", "groups of controls"};
        // time passes: the horizon recedes, the plant is pushed, what is left of the horizon is predicted anew
        for (int k = 0; k < N; ++k)
        {
            int n = N - k; std::vector<M> a(A.begin() + k, A.end()), b(B.begin() + k, B.end()), d(D.begin() + k, D.end()), e(E.begin() + k, E.end()); V w(n * nu); for (int i = 0; i < n; ++i) w.segment(i * nu, nu) = u[k + i];
            // step by step
            V X(n * nx), Y(2 * n), q = x; double scale = big(q); for (int i = 0; i < n; ++i) { Y.segment(2 * i, 2) = d[i] * q + e[i] * u[k + i]; q = (a[i] * q + b[i] * u[k + i]).eval(); X.segment(i * nx, nx) = q; scale = std::max(scale, big(q)); }
            double grow = 1; for (int i = 0; i < n; ++i) grow *= std::max(1.0, a[i].cwiseAbs().rowwise().sum().maxCoeff()); scale = (scale + 1) * grow;
            sim::state(sim::mix(sim::mix(shape, kind), n)); sim::nontrivial();
            M S, U, Ox, Ou; V PX, PY; bool out = true;
            if (kind <= 1)
            {
                switch (shape)
                {
#define RUN(s, x, u) case s: if (kind) Predictor::run<x, u, false>(a, b, d, e, S, U, Ox, Ou); else Predictor::run<x, u, true>(a, b, d, e, S, U, Ox, Ou); break
                    RUN(0, 3, 1); RUN(1, 6, 2); RUN(2, 2, 2); RUN(3, 3, 3); RUN(4, 2, 1); RUN(5, 4, 3);
                }
                out = kind == 0;
            }
            else if (kind == 2) { if (sim::chance(1, 2)) { S = M::Constant(2, 3, 5); U = M::Constant(1, 4, 5); } Predictor::dense(a, b, S, U); out = false; }
            else if (kind == 3) { if (sim::chance(1, 2)) Predictor::invariant(a[0], b[0], n, S, U); else Predictor::dense(a, b, S, U); if (sim::chance(1, 2)) Ou = M::Constant(3, 3, 5); Predictor::output(d[0], e[0], S, U, Ox, Ou); }
            if (kind < 4)
            {
                if (S.cols() != nx || U.cols() != n * nu || S.rows() != n * nx || U.rows() != n * nx) sim::fail("wrong-size", "%s: the prediction matrices are %ldx%ld and %ldx%ld", names[kind], (long)S.rows(), (long)S.cols(), (long)U.rows(), (long)U.cols());
                PX = S * x + U * w; if (out) { if (Ox.rows() != 2 * n || Ou.rows() != 2 * n || Ox.cols() != nx || Ou.cols() != n * nu) sim::fail("wrong-size", "%s: the output matrices are %ldx%ld and %ldx%ld", names[kind], (long)Ox.rows(), (long)Ox.cols(), (long)Ou.rows(), (long)Ou.cols()); PY = Ox * x + Ou * w; }
                for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!U.block(i * nx, j * nu, nx, nu).isZero(0)) sim::fail("not-causal", "%s: the control of step %d changes the state of step %d", names[kind], j, i);
                if (out) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!Ou.block(i * 2, j * nu, 2, nu).isZero(0)) sim::fail("not-causal", "%s: the control of step %d changes the output of step %d", names[kind], j, i);
            }
            else
            {   // the controls in groups of any sizes
                std::vector<int> sz; int left = nu; while (left) { int g = sim::range(1, left); sz.push_back(g); left -= g; } std::vector<std::vector<M>> bg; int off = 0; std::vector<V> wg; for (int g : sz) { std::vector<M> l; V ww(n * g); for (int i = 0; i < n; ++i) { l.push_back(b[i].middleCols(off, g)); ww.segment(i * g, g) = u[k + i].segment(off, g); } bg.push_back(l); wg.push_back(ww); off += g; }
                std::vector<M> UU, OO; switch (nx) { case 4: Predictor::groups<4>(a, bg, d, e, S, UU, Ox, OO); break; case 2: Predictor::groups<2>(a, bg, d, e, S, UU, Ox, OO); break; case 3: Predictor::groups<3>(a, bg, d, e, S, UU, Ox, OO); break; default: Predictor::groups<6>(a, bg, d, e, S, UU, Ox, OO); }
                if (OO.size() != sz.size()) sim::fail("wrong-size", "outputs of %zu groups of controls instead of %zu", OO.size(), sz.size());
                PX = S * x; PY = Ox * x; for (size_t g = 0; g < sz.size(); ++g) { PX += UU[g] * wg[g]; PY += OO[g] * wg[g]; }
            }
            equal("wrong-prediction", names[kind], k, PX, X, scale, 1e-12); if (out) equal("wrong-output-prediction", names[kind], k, PY, Y, scale * 6, 1e-12);
            x = (a[0] * x + b[0] * u[k]).eval(); for (int i = 0; i < nx; ++i) sim::digestDouble(x[i]); sim::step(); sim::simTime(0.1); disturb(x);
        }
    }
    sim::Scenario s("C26", "models and predictions agree with the step by step motion of the plant", [] { switch (sim::choose(3)) { case 0: condensing(); break; case 1: integrators(); break; default: pendulums(); } });
}
