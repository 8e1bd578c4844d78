// C22: a swinging foot which is sampled at arbitrary instants and whose step is planned again while it is in the air.
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "sim/sim.h"
#include <cmath>
#include <vector>
#include <algorithm>
using humoto::rigidbody::RigidBodyState;
using humoto::rigidbody::TrajectoryEvaluationType;
using humoto::walking::Simple3DFootTrajectory;
typedef etools::Vector3 V3;
namespace
{
    const int YAW = humoto::AngleIndex::YAW;
    // motion of the foot at one instant: x, y, z, yaw with rates with respect to the physical time
    struct Motion { double p[4], v[4], a[4]; };
    struct Ends { Motion from, to; double height, duration; bool yaw; };
    double coordinate(double s) { switch (sim::choose(4)) { case 0: return 0; case 1: return sim::grid(-s, s, 20); default: return sim::num(-s, s); } }

    RigidBodyState body(const Motion& m, double D)
    {
        RigidBodyState r; r.setDefaults(); for (int i = 0; i < 3; ++i) { r.position_(i) = m.p[i]; r.velocity_(i) = m.v[i] * D; } r.rpy_(YAW) = m.p[3]; r.angular_velocity_(YAW) = m.v[3] * D; return r;
    }
    void plan(Simple3DFootTrajectory& f, const Ends& e)
    {
        V3 a(e.from.p[0], e.from.p[1], e.from.p[2]), b(e.to.p[0], e.to.p[1], e.to.p[2]), va(e.from.v[0], e.from.v[1], e.from.v[2]), vb(e.to.v[0], e.to.v[1], e.to.v[2]);
        if (e.yaw) f.initialize(body(e.from, e.duration), body(e.to, e.duration), e.height);
        else if (va.isZero(0) && vb.isZero(0) && sim::chance(1, 2)) f.initialize(a, b, e.height);
        else f.initialize(a, V3(va * e.duration), b, V3(vb * e.duration), e.height);
    }
    Motion at(const Simple3DFootTrajectory& f, const Ends& e, double t)
    {
        double s = std::min(1.0, std::max(0.0, t / e.duration)), D = e.duration; Motion m;
        RigidBodyState r; r.setDefaults(); f.eval(r, s);
        V3 p = f.eval(s, TrajectoryEvaluationType::POSITION), v = f.eval(s, TrajectoryEvaluationType::VELOCITY), a = f.eval(s, TrajectoryEvaluationType::ACCELERATION);
        for (int i = 0; i < 3; ++i)
        {
            if (r.position_(i) != p(i) || r.velocity_(i) != v(i) || r.acceleration_(i) != a(i)) sim::fail("inconsistent", "coordinate %d: the state of the foot differs from the values of the coordinates at %.17g", i, s);
            m.p[i] = p(i); m.v[i] = v(i) / D; m.a[i] = a(i) / D / D;
        }
        m.p[3] = m.v[3] = m.a[3] = 0; if (e.yaw) { m.p[3] = r.rpy_(YAW); m.v[3] = r.angular_velocity_(YAW) / D; m.a[3] = r.angular_acceleration_(YAW) / D / D; }
        return m;
    }
    double scale(const Ends& e, int i) { double s = 1e-3 + e.height; s += std::fabs(e.from.p[i]) + std::fabs(e.to.p[i]) + (std::fabs(e.from.v[i]) + std::fabs(e.to.v[i])) * e.duration; return s; }
    bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
    const char* names[] = {"x", "y", "z", "yaw"};

    // the end of the step which is being made
    void boundary(const Ends& e, const Motion& m, const Motion& want, const char* what)
    {
        for (int i = 0; i < 4; ++i)
        {
            if (i == 3 && !e.yaw) continue;
            double s = scale(e, i);
            if (!close(m.p[i], want.p[i], 1e-11 * s)) sim::fail("boundary-position", "%s of the motion: %s is %.17g instead of %.17g", what, names[i], m.p[i], want.p[i]);
            if (!close(m.v[i], want.v[i], 1e-10 * s / e.duration)) sim::fail("boundary-velocity", "%s of the motion: rate of %s is %.17g instead of %.17g", what, names[i], m.v[i], want.v[i]);
        }
    }
    // rates agree with what they are the rates of: Simpson's rule is exact for the pieces
    void rates(const Simple3DFootTrajectory& f, const Ends& e, double t0, double t1)
    {
        double half = e.duration / 2;
        if (t0 < half && t1 > half) { rates(f, e, t0, half); rates(f, e, half, t1); return; }
        if (t0 >= half && t0 < half * (1 + 1e-12)) { t0 = half * (1 + 1e-12); if (t1 <= t0) return; }   // the second half begins
        Motion a = at(f, e, t0), b = at(f, e, t1), m = at(f, e, 0.5 * (t0 + t1)); double h = t1 - t0;
        for (int i = 0; i < 4; ++i)
        {
            double s = scale(e, i);
            if (!close(b.p[i] - a.p[i], h / 6 * (a.v[i] + 4 * m.v[i] + b.v[i]), 1e-10 * s)) sim::fail("rate-mismatch", "from %.17g to %.17g of %.17g s %s changes by %.17g, its rate says %.17g", t0, t1, e.duration, names[i], b.p[i] - a.p[i], h / 6 * (a.v[i] + 4 * m.v[i] + b.v[i]));
            if (!close(b.v[i] - a.v[i], h / 6 * (a.a[i] + 4 * m.a[i] + b.a[i]), 1e-9 * s / e.duration)) sim::fail("rate-mismatch", "from %.17g to %.17g of %.17g s the rate of %s changes by %.17g, the acceleration says %.17g", t0, t1, e.duration, names[i], b.v[i] - a.v[i], h / 6 * (a.a[i] + 4 * m.a[i] + b.a[i]));
        }
    }
    void middle(const Simple3DFootTrajectory& f, const Ends& e)
    {
        for (int side = 0; side < 2; ++side)
        {
            double t = side ? e.duration / 2 * (1 + 1e-13) : e.duration / 2; Motion m = at(f, e, t); double s = scale(e, 2);
            if (!close(m.p[2], e.from.p[2] + e.height, 1e-11 * s)) sim::fail("step-height", "in the middle of the step the height is %.17g instead of %.17g + %.17g", m.p[2], e.from.p[2], e.height);
            if (!close(m.v[2], 0, 1e-10 * s / e.duration)) sim::fail("step-height", "in the middle of the step the vertical velocity is %.17g", m.v[2]);
        }
    }
    void inside(const Ends& e, const Motion& m, double t)
    {
        // a motion from rest to rest does not leave the range between its ends
        for (int i = 0; i < 4; ++i)
        {
            if ((i == 3 && !e.yaw) || e.from.v[i] != 0 || e.to.v[i] != 0) continue;
            double lo = std::min(e.from.p[i], e.to.p[i]), hi = std::max(e.from.p[i], e.to.p[i]), tol = 1e-11 * scale(e, i); if (i == 2) hi = std::max(hi, e.from.p[2] + e.height);
            if (m.p[i] < lo - tol || m.p[i] > hi + tol) sim::fail("overshoot", "at %.17g of %.17g s %s is %.17g, outside of [%.17g, %.17g]", t, e.duration, names[i], m.p[i], lo, hi);
        }
    }
}

void swingRun()
{
    Simple3DFootTrajectory f; Ends e; int steps = sim::range(1, 4); Motion foot; for (int i = 0; i < 4; ++i) { foot.p[i] = i == 2 ? 0 : coordinate(1); foot.v[i] = foot.a[i] = 0; }
    bool any = false; double total = 0;
    for (int k = 0; k < steps; ++k)
    {
        // a new step
        e.from = foot; e.yaw = sim::chance(2, 3); e.duration = sim::chance(1, 2) ? 0.1 * sim::range(1, 10) : sim::num(0.05, 2); e.height = sim::chance(1, 8) ? 0 : 0.01 * sim::range(1, 10);
        for (int i = 0; i < 4; ++i) { e.to.p[i] = i == 2 ? 0 : foot.p[i] + coordinate(0.5); e.to.v[i] = e.to.a[i] = 0; }
        e.to.p[2] = sim::chance(1, 3) ? std::min(foot.p[2] + e.height, foot.p[2] + coordinate(0.1)) : foot.p[2];
        if (!e.yaw) { e.to.p[3] = e.from.p[3]; e.from.v[3] = 0; }
        if (sim::chance(1, 3)) for (int i = 0; i < 4; ++i) if (i != 3 || e.yaw) { if (sim::chance(1, 2)) e.to.v[i] = coordinate(1); if (k == 0 && sim::chance(1, 3)) e.from.v[i] = coordinate(1); }
        plan(f, e); boundary(e, at(f, e, 0), e.from, "start"); boundary(e, at(f, e, e.duration), e.to, "end"); middle(f, e);
        double t = 0; Motion m = at(f, e, 0); int replans = 0;
        for (int n = sim::range(1, 12); n > 0; --n)
        {
            double left = e.duration - t, dt = sim::chance(1, 3) ? left * sim::grid(0, 1, 10) : std::min(left, left / n * sim::num(0, 2)); if (dt <= 0) continue;
            double t1 = std::min(e.duration, t + dt); rates(f, e, t, t1); m = at(f, e, t1); inside(e, m, t1); t = t1; sim::step(); sim::simTime(dt); total += dt; sim::state(sim::mix((uint64_t)(16 * t / e.duration), replans * 4 + (e.yaw ? 2 : 0) + k)); any = true;
            for (int i = 0; i < 4; ++i) sim::digestDouble(m.p[i]);
            if (t < e.duration * 0.999 && sim::chance(1, 4))
            {
                // the landing position changes (or the remaining time does): the step is planned again from where the foot is
                Ends o = e; bool yaw = e.yaw; e.from = m; e.yaw = yaw; e.duration = sim::chance(1, 3) ? sim::num(0.05, 1) : o.duration - t;
                for (int i = 0; i < 4; ++i) if (i != 2 && (i != 3 || e.yaw) && sim::chance(1, 2)) e.to.p[i] += coordinate(0.2);
                double apex = t < o.duration / 2 ? o.from.p[2] + o.height : m.p[2]; e.height = std::max(0.0, std::max(apex, e.to.p[2]) - m.p[2]); if (e.to.p[2] > e.from.p[2] + e.height) e.height += 1e-12 + e.height * 1e-12;
                if (sim::chance(1, 2)) { Simple3DFootTrajectory g; f = g; }
                plan(f, e); t = 0; ++replans; sim::count("fault:replanned"); boundary(e, at(f, e, 0), m, "continuation"); boundary(e, at(f, e, e.duration), e.to, "end"); middle(f, e); m = at(f, e, 0);
            }
        }
        if (t < e.duration) { rates(f, e, t, e.duration); sim::simTime(e.duration - t); }
        foot = at(f, e, e.duration); if (!e.yaw) foot.p[3] = e.from.p[3]; boundary(e, foot, e.to, "landing"); foot = e.to; for (int i = 0; i < 4; ++i) foot.a[i] = 0;
        if (foot.v[3] != 0 && sim::chance(1, 2)) for (int i = 0; i < 4; ++i) foot.v[i] = 0;
    }
    sim::sample("%d steps of a foot in %.3f s", steps, total); if (any) sim::nontrivial();
}

// one coordinate, sampled at many instants of a clock
static void coordinateRun()
{
    humoto::rigidbody::CubicPolynomial1D p; double a = coordinate(1), b = coordinate(1), va = 0, vb = 0; bool rest = sim::chance(1, 2);
    for (int k = sim::range(0, 2); k > 0; --k) p.initialize(coordinate(1), coordinate(1), coordinate(1), coordinate(1));   // it was used before
    if (rest) p.initialize(a, b); else { va = coordinate(2); vb = coordinate(2); p.initialize(a, va, b, vb); }
    int n = sim::range(2, 12); double start = sim::chance(1, 2) ? 0 : sim::num(-1e3, 1e3), D = sim::num(0.05, 5); Eigen::VectorXd clock(n); for (int i = 0; i < n; ++i) clock(i) = start + D * sim::grid(0, 1, 40);
    int first = sim::choose(n), last = (first + 1 + sim::choose(n - 1)) % n; clock(first) = start; clock(last) = start + D;
    Eigen::VectorXd t = humoto::rigidbody::CubicPolynomial1D::scale(clock); if (t.size() != n) sim::fail("wrong-size", "%d instants were scaled to %d", n, (int)t.size());
    double s = 1e-3 + std::fabs(a) + std::fabs(b) + std::fabs(va) + std::fabs(vb); const double eps = 1e-15 * (1 + std::fabs(start) / D) * 16;
    for (int i = 0; i < n; ++i) if (std::fabs(t(i) - (clock(i) - start) / D) > eps || t(i) < 0 || t(i) > 1) sim::fail("wrong-scale", "instant %.17g of [%.17g, %.17g] is scaled to %.17g", clock(i), start, start + D, t(i));
    std::vector<double> x = p.eval(t, TrajectoryEvaluationType::POSITION), v = p.eval(t, TrajectoryEvaluationType::VELOCITY), w = p.eval(t, TrajectoryEvaluationType::ACCELERATION);
    if ((int)x.size() != n || (int)v.size() != n || (int)w.size() != n) sim::fail("wrong-size", "%d instants have %d positions", n, (int)x.size());
    for (int i = 0; i < n; ++i)
    {
        // Hermite form of the polynomial with the given ends
        double u = t(i), h = 1 - u, want = a * h * h * (1 + 2 * u) + b * u * u * (3 - 2 * u) + va * u * h * h - vb * u * u * h;
        double rate = 6 * u * h * (b - a) + va * h * (1 - 3 * u) + vb * u * (3 * u - 2), acc = 6 * (1 - 2 * u) * (b - a) + va * (6 * u - 4) + vb * (6 * u - 2);
        if (!close(x[i], want, 1e-12 * s)) sim::fail("wrong-sample", "the position at %.17g is %.17g instead of %.17g", u, x[i], want);
        if (!close(v[i], rate, 1e-11 * s)) sim::fail("wrong-sample", "the rate at %.17g is %.17g instead of %.17g", u, v[i], rate);
        if (!close(w[i], acc, 1e-11 * s)) sim::fail("wrong-sample", "the acceleration at %.17g is %.17g instead of %.17g", u, w[i], acc);
        sim::step(); sim::digestDouble(x[i]);
    }
    if (!close(p.getJerk(), 12 * (a - b) + 6 * (va + vb), 1e-11 * s)) sim::fail("wrong-sample", "the jerk is %.17g instead of %.17g", p.getJerk(), 12 * (a - b) + 6 * (va + vb));
    // an instant outside of the motion is refused, and so is an unknown quantity
    bool refused = false; int what = sim::choose(3); Eigen::VectorXd late = t; late(sim::choose(n)) = sim::chance(1, 2) ? 1 + sim::pick(std::vector<double>{1e-9, 0.1, 2}) : -sim::pick(std::vector<double>{1e-9, 0.1, 2});
    try { p.eval(late, what == 0 ? TrajectoryEvaluationType::POSITION : what == 1 ? TrajectoryEvaluationType::VELOCITY : TrajectoryEvaluationType::ACCELERATION); } catch (const std::exception&) { refused = true; }
    if (!refused) sim::fail("error-not-raised", "a value outside of the motion was computed"); sim::count("fault:instant outside of the motion");
    sim::simTime(D); sim::nontrivial(); sim::state(sim::mix(n, rest)); sim::sample("a coordinate at %d instants of %.3f s", n, D);
}
static sim::Scenario s22("C22", "a step or a coordinate is sampled", [] { if (sim::chance(1, 6)) coordinateRun(); else swingRun(); });
