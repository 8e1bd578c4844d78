// C20: a tumbling body whose orientation passes from one representation to another while time is sliced arbitrarily.
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "sim/sim.h"
#include <cmath>
#include <vector>
using namespace humoto::rigidbody;
typedef Eigen::Matrix3d M3; typedef Eigen::Vector3d V3;
namespace
{
    // reference, written out: elementary rotations, rotation about an axis
    M3 about(int axis, double a) { M3 r = M3::Identity(); int i = (axis + 1) % 3, j = (axis + 2) % 3; r(i, i) = r(j, j) = std::cos(a); r(i, j) = -std::sin(a); r(j, i) = std::sin(a); return r; }
    M3 skew(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
    M3 turn(const V3& w, double t)
    {   // series of the exponential of a fraction of the motion, squared up again
        M3 x = skew(w) * t; int k = 0; while (x.norm() > 0.05) { x /= 2; ++k; } M3 r = M3::Identity(), p = M3::Identity(); for (int i = 1; i < 12; ++i) { p = p * x / i; r += p; } while (k--) r = (r * r).eval(); return r;
    }
    M3 euler(const V3& e, EulerAngles::Type t) { return t == EulerAngles::RPY ? M3(about(2, e[2]) * about(1, e[1]) * about(0, e[0])) : M3(about(0, e[0]) * about(1, e[1]) * about(2, e[2])); }
    void equal(const char* cls, const char* what, const M3& got, const M3& want, double tol)
    {
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::fabs(got(i, j) - want(i, j)) <= tol)) sim::fail(cls, "%s: element (%d, %d) is %.15g instead of %.15g", what, i, j, got(i, j), want(i, j));
    }
    void equal(const char* cls, const char* what, const V3& got, const V3& want, double tol) { for (int i = 0; i < 3; ++i) if (!(std::fabs(got[i] - want[i]) <= tol)) sim::fail(cls, "%s: element %d is %.15g instead of %.15g", what, i, got[i], want[i]); }
    double angle() { switch (sim::choose(4)) { case 0: return sim::grid(-M_PI, M_PI, 8); case 1: return sim::grid(-M_PI, M_PI, 8) + sim::num(-1e-6, 1e-6); default: return sim::num(-4, 4); } }
    double rate() { switch (sim::choose(5)) { case 0: return 0; case 1: return sim::num(-1e-3, 1e-3); default: return sim::num(-6, 6); } }
    const EulerAngles::Type types[] = {EulerAngles::RPY, EulerAngles::YPR};
    // one representation after another: the body stays where it is
    void convert(const M3& R, const char* what)
    {
        EulerAngles::Type a = types[sim::choose(2)], b = types[sim::choose(2)]; V3 e = convertMatrixToEulerAngles(R, a); equal("lossy-conversion", what, convertEulerAnglesToMatrix(e, a), R, 1e-9); equal("wrong-matrix", what, convertEulerAnglesToMatrix(e, a), euler(e, a), 1e-12);
        V3 f = convertEulerAngles(e, a, b); equal("lossy-conversion", what, euler(f, b), R, 1e-9);
        RotaryState s; s.rpy_ = b == EulerAngles::RPY ? f : convertEulerAngles(f, b, EulerAngles::RPY); equal("lossy-conversion", what, s.getOrientationMatrix(), R, 1e-9);
        V3 wv(rate(), rate(), rate()), wa(rate(), rate(), rate()); RotaryState t; t.set(s.rpy_, wv, wa); equal("wrong-state", what, t.rpy_, s.rpy_, 0); equal("wrong-state", what, t.angular_velocity_, wv, 0); equal("wrong-state", what, t.angular_acceleration_, wa, 0); t.set(s.rpy_); equal("wrong-state", what, t.angular_velocity_, V3::Zero(), 0); equal("wrong-state", what, t.angular_acceleration_, V3::Zero(), 0); equal("lossy-conversion", what, t.getOrientationMatrix(), R, 1e-9);
        sim::count("conversion");
    }
    // rates of roll, pitch and yaw are an angular velocity of the body in the fixed frame
    void rates(const V3& e)
    {
        V3 de(rate(), rate(), rate()); M3 R = euler(e, EulerAngles::RPY), dR = M3::Zero(); 
        for (int i = 0; i < 3; ++i) { M3 p = M3::Identity(); for (int a = 2; a >= 0; --a) p = (a == i ? M3(p * about(a, e[a]) * skew(V3::Unit(a))) : M3(p * about(a, e[a]))); dR += p * de[i]; }
        M3 W = dR * R.transpose(); V3 w(W(2, 1), W(0, 2), W(1, 0)); equal("wrong-angular-velocity", "rates of roll, pitch and yaw", getEulerRatesToAngularVelocityTransform(e, EulerAngles::RPY) * de, w, 1e-10 * (1 + de.norm()));
    }
    void unsupported(const M3& R, const V3& e)
    {
        EulerAngles::Type t = static_cast<EulerAngles::Type>(sim::choose(2) ? 0 : 3); int n = 0; try { convertMatrixToEulerAngles(R, t); } catch (const std::exception&) { ++n; } try { convertEulerAnglesToMatrix(e, t); } catch (const std::exception&) { ++n; }
        try { getEulerRatesToAngularVelocityTransform(e, sim::choose(2) ? t : EulerAngles::YPR); } catch (const std::exception&) { ++n; } try { convertEulerAngles(e, types[sim::choose(2)], t); } catch (const std::exception&) { ++n; } if (n != 4) sim::fail("unsupported-accepted", "a convention which is not supported is accepted"); sim::count("fault:unsupported-convention");
    }
    void cross(const M3& R, const V3& w)
    {
        etools::CrossProductMatrix X(w); V3 v(rate(), rate(), rate()); double tol = 1e-12 * (1 + w.norm()) * (1 + v.norm()); equal("wrong-cross-product", "matrix", X.eval(), skew(w), 0); equal("wrong-cross-product", "static", etools::CrossProductMatrix::eval(w), skew(w), 0);
        V3 c(w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]); equal("wrong-cross-product", "vector", V3(X * v), c, tol); equal("wrong-cross-product", "matrix on the left", M3(R * X), R * skew(w), tol); V3 o; X.multiplyRight(o, v); equal("wrong-cross-product", "vector", o, c, tol); M3 l; X.multiplyLeft(l, R); equal("wrong-cross-product", "matrix on the left", l, R * skew(w), tol);
    }
    // a state taken apart and put together; what is not given is zero, and unset values are not numbers
    void bodyState()
    {
        auto v = [] { return V3(rate(), rate(), rate()); }; V3 p = v(), e = v(), dp = v(), w = v(), ddp = v(), a = v(), z = V3::Zero(), t = v(); RigidBodyState s; if (sim::chance(1, 2)) s.set(v(), v(), v(), v(), v(), v()); if (sim::chance(1, 3)) s.unset(); const char* what = "state of a body";
        int k = sim::choose(6); if (k < 5) { dp = k > 0 ? dp : z; w = k > 1 ? w : z; ddp = k > 2 ? ddp : z; a = k > 3 ? a : z; }
        switch (k) { case 0: s.set(p, e); break; case 1: s.set(p, e, dp); break; case 2: s.set(p, e, dp, w); break; case 3: s.set(p, e, dp, w, ddp); break; default: s.set(p, e, dp, w, ddp, a); }
        auto check = [&](const RigidBodyState& x) { equal("wrong-state", what, x.position_, p, 0); equal("wrong-state", what, x.rpy_, e, 0); equal("wrong-state", what, x.velocity_, dp, 0); equal("wrong-state", what, x.angular_velocity_, w, 0); equal("wrong-state", what, x.acceleration_, ddp, 0); equal("wrong-state", what, x.angular_acceleration_, a, 0); };
        check(s); s.translate(t); p += t; check(s); RigidBodyState c(s), d; d = s; check(c); check(d); 
        PointMassState m; if (sim::chance(1, 2)) m.set(v(), v(), v()); switch (sim::choose(3)) { case 0: m.set(p); dp = ddp = z; break; case 1: m.set(p, dp); ddp = z; break; default: m.set(p, dp, ddp); } equal("wrong-state", what, m.position_, p, 0); equal("wrong-state", what, m.velocity_, dp, 0); equal("wrong-state", what, m.acceleration_, ddp, 0);
        s.unset(); for (const V3* x : {&s.position_, &s.velocity_, &s.acceleration_, &s.rpy_, &s.angular_velocity_, &s.angular_acceleration_}) for (int i = 0; i < 3; ++i) if (!std::isnan((*x)[i])) sim::fail("wrong-state", "a value which is not set is %g", (*x)[i]);
        s.setDefaults(); p = e = dp = w = ddp = a = z; check(s); double deg = sim::num(-720, 720), rad = deg * M_PI / 180; if (std::fabs(humoto::convertDegreesToRadians(deg) - rad) > 1e-12 || std::fabs(humoto::convertRadiansToDegrees(rad) - deg) > 1e-10) sim::fail("wrong-angle", "%g degrees are %g", deg, humoto::convertDegreesToRadians(deg));
        double r = std::fabs(rate()), side = humoto::getEncircledSquareSide(r); if (std::fabs(2 * side * side - 4 * r * r) > 1e-12 * (1 + r * r)) sim::fail("wrong-square", "the square in a circle of radius %g has sides of %g", r, side); sim::count("states of bodies");
    }
    // points of the body
    void points(const M3& R)
    {
        V3 at(rate(), rate(), rate()); int n = sim::range(1, 5); Eigen::Matrix<double, 3, Eigen::Dynamic> P(3, n); for (int i = 0; i < n; ++i) P.col(i) = V3(rate(), rate(), rate()); Eigen::Matrix<double, 3, Eigen::Dynamic> Q = etools::transform(P, R, at);
        if (Q.cols() != n) sim::fail("wrong-transform", "%ld points instead of %d", (long)Q.cols(), n); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { double s = at[k]; for (int j = 0; j < 3; ++j) s += R(k, j) * P(j, i); if (!(std::fabs(Q(k, i) - s) <= 1e-12 * (1 + std::fabs(s)))) sim::fail("wrong-transform", "coordinate %d of point %d of the body is %.15g instead of %.15g", k, i, Q(k, i), s); }
    }
    void error(const M3& R, const M3& ref)
    {
        M3 E = getRotationError(R, ref); equal("wrong-error", "rotation error", E * R, ref, 1e-9); M3 K = (ref * R.transpose() - R * ref.transpose()) / 2; equal("wrong-error", "axis of the rotation error", getRotationErrorAngleAxis(R, ref), V3(K(2, 1), K(0, 2), K(1, 0)), 1e-9);
    }
    // a body which is turned back by its controller
    void regulate(M3 R, const M3& ref)
    {
        M3 E = ref * R.transpose(); double c = (E.trace() - 1) / 2; if (c < -0.9) return; double before = std::acos(std::min(1.0, c)); int n = 0;
        while (before > 1e-5) { V3 w = getRotationErrorAngleAxis(R, ref); R = integrateAngularVelocityRodrigues(R, R.transpose() * w, 0.8); double now = std::acos(std::min(1.0, ((ref * R.transpose()).trace() - 1) / 2)); if (!(now < before)) sim::fail("wrong-error", "turning along the reported error increases it from %.9g to %.9g", before, now); before = now; if (++n > 60) sim::fail("not-reached", "the reference is not reached, the error is %.9g", before); sim::step(); }
        sim::count("regulated");
    }
    void tumble()
    {
        V3 e(angle(), angle(), angle()); EulerAngles::Type type = types[sim::choose(2)]; M3 R = convertEulerAnglesToMatrix(e, type); equal("wrong-matrix", "initial orientation", R, euler(e, type), 1e-12); M3 exact = euler(e, type); double drift = 0; int moves = sim::range(1, 8); sim::event("%.9g %.9g %.9g", e[0], e[1], e[2]);
        for (int k = 0; k < moves; ++k)
        {
            V3 w(rate(), rate(), rate()); double T = sim::chance(1, 3) ? sim::grid(0, 1, 4) : sim::num(0, 1); if (T < 0) T = -T; double left = T; int q = sim::range(1, 5); sim::state(sim::mix(k, q));
            if (sim::chance(1, 4)) { w *= 1e-9; sim::count("slow"); }
            for (; q > 0; --q)
            {   // the angular velocity is constant in the frame of the body, time is sliced
                double d = q == 1 ? left : left * sim::num(0, 1); if (d < 0) d = -d; left -= d; M3 before = R; double th = w.norm() * d;
                M3 simple = integrateAngularVelocity(R, w, d); equal("wrong-integration", "simple integration", simple, R * (M3::Identity() + d * skew(w)), 1e-12 * (1 + th)); 
                R = integrateAngularVelocityRodrigues(R, w, d); drift += w.norm() < 2 * humoto::g_generic_tolerance ? th : 0; equal("wrong-integration", "integration", R, before * turn(w, d), 1e-11 + (w.norm() < 2 * humoto::g_generic_tolerance ? th : 0));
                M3 o = R * R.transpose(); equal("not-a-rotation", "orientation", o, M3::Identity(), 1e-10); if (!(R.determinant() > 0.99)) sim::fail("not-a-rotation", "the orientation is not a rotation");
                sim::step(); sim::simTime(d); if (sim::chance(1, 6)) convert(R, "while tumbling");
            }
            exact = (exact * turn(w, T)).eval(); equal("depends-on-slicing", "orientation", R, exact, 1e-9 + drift); 
            switch (sim::choose(6)) { case 0: rates(V3(angle(), angle(), angle())); break; case 1: unsupported(R, e); break; case 2: cross(R, w); break; case 3: points(R); break; case 4: { M3 ref = euler(V3(angle(), angle(), angle()), type); error(R, ref); regulate(R, ref); break; } default: convert(R, "at rest"); }
            // what another process knows are the angles
            if (sim::chance(1, 3)) { V3 f = convertMatrixToEulerAngles(R, type); R = convertEulerAnglesToMatrix(f, type); sim::count("handed-over"); }
            if (sim::chance(1, 6)) { V3 kick(angle(), angle(), angle()); R = R * euler(kick, EulerAngles::RPY); exact = exact * euler(kick, EulerAngles::RPY); sim::count("fault:kick"); }
            if (sim::chance(1, 6)) bodyState();
            for (int i = 0; i < 9; ++i) sim::digestDouble(R.data()[i]); sim::nontrivial();
        }
    }
    sim::Scenario s("C20", "a tumbling body keeps its orientation in every representation and slicing of time", tumble);
}
