// The controller of the wheeled robot in closed loop with a simulated robot.
//  C16 prediction == motion of the two masses; C17 limits and the schedule of commands; C25 optimality; parts of C15 and C18.
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/pepper_mpc.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "harness/control.h"
#include "harness/cfgnode.h"
#include "harness/client_task.h"
#include "harness/tasklog.h"
#include <deque>
using namespace humoto;
namespace
{
    namespace pm = humoto::pepper_mpc;
    typedef Eigen::Vector2d V2; typedef Eigen::Matrix2d M2; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
    inline M2 rot(double a) { M2 r; r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return r; }
    const double G = 9.8; const int UNLIMITED = -1;
    double some(double lo, double hi) { return sim::chance(1, 2) ? sim::num(lo, hi) : sim::grid(lo, hi, 8); }
    struct Robot { double radius = 0.7, vel = 0.5, acc = 1.0; double lx = -0.06, ux = 0.06, ly = -0.03, uy = 0.03; };
    struct Command { V2 vel = V2::Zero(), pos = V2::Zero(); double w = 0; long ms = UNLIMITED; };
    struct Config
    {
        int N = 4, S = 100, sub = 100; Robot robot; std::vector<Command> schedule; bool single = false; bool position = false, body_ref = false; int call = 0, front = 0; bool extra_task = false;
        double hb = 0.125564931735602, hd = 0.750001340031501, mb = 16.34234, md = 12.3389; V2 base = V2::Zero(), vel = V2::Zero(), body = V2::Zero(), body_vel = V2::Zero(); double theta = 0;
        double gains[5] = {1.0, 0.0223606797749979, 0.0223606797749979, 0.707106781186548, 0.5};   // reference, base jerk, body jerk, centre of pressure, body position
    };
    Command drawCommand() { Command c; c.vel = V2(some(-0.6, 0.6), some(-0.4, 0.4)); c.pos = V2(some(-1, 1), some(-1, 1)); c.w = sim::chance(1, 2) ? 0 : some(-1.5, 1.5); return c; }
    void drawSchedule(Config& c)
    {
        c.schedule.clear(); c.single = sim::chance(1, 5); int n = c.single ? 1 : sim::range(1, 5); long total = 0;
        for (int i = 0; i < n; ++i)
        {
            Command m = drawCommand(); switch (sim::choose(6)) { case 0: m.ms = c.S * sim::range(1, 6); break; case 1: m.ms = c.sub * sim::range(1, 12); break; case 2: m.ms = sim::range(1, 700); break; case 3: m.ms = 0; break; case 4: m.ms = c.S * c.N; break; default: m.ms = i + 1 == n || sim::chance(1, 4) ? UNLIMITED : c.S * sim::range(1, 4); }
            c.schedule.push_back(m); if (m.ms > 0) total += m.ms;
        }
    }
    Config draw(bool small)
    {
        Config c; static const int subs[] = {100, 10, 20, 50, 25, 7, 1, 100}; c.sub = subs[sim::choose(8)]; c.S = c.sub * sim::range(1, c.sub >= 100 ? 2 : c.sub <= 10 ? 10 : 5);
        c.N = sim::range(2, small ? 5 : 8); if (sim::thorough() && sim::chance(1, 10)) c.N = 12;
        if (sim::chance(2, 3)) { Robot& r = c.robot; r.radius = some(0.1, 0.8); r.vel = some(0.1, 1.5); r.acc = some(0.2, 3); r.lx = -some(0.01, 0.1); r.ux = some(0.01, 0.1); r.ly = -some(0.01, 0.06); r.uy = some(0.01, 0.06); }
        if (sim::chance(1, 2)) { c.hb = some(0.05, 0.3); c.hd = some(0.3, 1.2); c.mb = some(1, 40); c.md = some(1, 40); }
        drawSchedule(c); c.position = sim::chance(1, 3); c.body_ref = sim::chance(1, 2); c.call = sim::choose(5); c.front = sim::chance(1, 4) ? 1 + sim::choose(2) : 0;
        if (sim::chance(1, 2)) { c.base = V2(sim::num(-2, 2), sim::num(-2, 2)); c.theta = sim::num(-3, 3); }
        c.vel = sim::chance(1, 2) ? V2(0, 0) : V2(some(-0.5, 0.5), some(-0.5, 0.5)) * c.robot.vel; V2 u(sim::grid(0.1, 0.9, 8), sim::grid(0.1, 0.9, 8)); c.body = V2(c.robot.lx + u.x() * (c.robot.ux - c.robot.lx), c.robot.ly + u.y() * (c.robot.uy - c.robot.ly)); c.body_vel = c.vel;
        if (sim::chance(1, 3)) { c.gains[0] = some(0.1, 3); c.gains[1] = some(0.01, 0.2); c.gains[2] = some(0.01, 0.2); c.gains[3] = some(0.1, 3); c.gains[4] = some(0.1, 3); }
        return c;
    }
    pm::MotionParameters toMotion(const Command& c) { pm::MotionParameters m; m.base_velocity_ = c.vel; m.base_position_ = c.pos; m.base_angular_velocity_ = c.w; m.duration_ms_ = c.ms; return m; }

    class Process : public control::Controller
    {
        public:
            Config cfg; pm::MPCParameters mpc_parameters; pm::RobotParameters robot; pm::Model model; pm::MPCforMG mg; std::deque<pm::MotionParameters> deque; pm::MotionParameters single;
            OptimizationProblem op; humoto::qpoases::Solver s_qpoases; humoto::qpmad::Solver s_qpmad; humoto::quadprogpp::Solver s_quad;
            Solution solution, guess, old; ActiveSet as, asg; bool stopped = false; client::Task* probe = nullptr; pm::ModelState next; int advance = 0; bool shifted = false; std::vector<mlog::Tracked> tracked;

            explicit Process(const Config& c) : cfg(c), mpc_parameters(c.N, c.S, c.sub), advance(c.sub)
            {
                mg.setParameters(mpc_parameters); setRobot(); setSchedule(c.schedule); hierarchy(); initial();
            }
            void setSchedule(const std::vector<Command>& s) { deque.clear(); for (auto& m : s) deque.push_back(toMotion(m)); if (cfg.single) single = toMotion(s[0]); stopped = false; }
            void setRobot()
            {
                const Robot& r = cfg.robot; Node n = Node::map(); Node b = Node::arr(); for (double x : {r.lx, r.ux, r.ly, r.uy}) (void)x;
                robot.setDefaults(); robot.base_radius_ = r.radius; robot.max_nominal_base_velocity_ = r.vel; robot.max_nominal_base_acceleration_ = r.acc; robot.body_bounds_ << r.lx, r.ux, r.ly, r.uy;
                std::string f = sim::scratch() + "/robot.msg"; { humoto::config::msgpack::Writer w(f); robot.writeConfig(w, "robot"); } { humoto::config::msgpack::Reader rd(f); robot.readConfig(rd, "robot", true); }      // computes the derived limits
                model.setParameters(robot);
            }
            void hierarchy()
            {
                op.reset(2); const double* g = cfg.gains; tracked.clear(); auto push = [&](auto* t, int l) { op.pushTask(TaskSharedPointer(t), l); tracked.push_back(mlog::track(t, l)); };
                push(new pm::TaskBaseVelocityBounds, 0); push(new pm::TaskBodyPositionBounds, 0); push(new pm::TaskCoPPositionBounds, 0); push(new pm::TaskBaseAccelerationBounds, 0);
                if (cfg.position) push(new pm::TaskBasePositionReference(g[0]), 1); else push(new pm::TaskBaseVelocityReference(g[0]), 1);
                push(new pm::TaskBaseJerkMinimization(g[1]), 1); push(new pm::TaskBodyJerkMinimization(g[2]), 1); push(new pm::TaskCoPCentering(g[3]), 1); if (cfg.body_ref) push(new pm::TaskBodyPositionReference(g[4]), 1);
                if (cfg.extra_task) { probe = new client::Task; push(probe, 1); }
            }
            void initial()
            {
                pm::ModelState s; V2 b = cfg.base + rot(cfg.theta) * cfg.body; etools::Vector3 p0(cfg.base.x(), cfg.base.y(), cfg.hb), p1(b.x(), b.y(), cfg.hd);
                { pm::ModelState u(cfg.hb, cfg.hd, cfg.body.x()); if (u.base_state_.position_ != etools::Vector3(0, 0, cfg.hb) || u.body_state_.position_ != etools::Vector3(cfg.body.x(), 0, cfg.hd) || !u.base_state_.velocity_.isZero(0) || !u.body_state_.velocity_.isZero(0) || !u.base_state_.rpy_.isZero(0)) sim::fail("wrong-posture", "a state built from heights and the offset of the body does not have them"); }
                { pm::ModelState u(cfg.mb, cfg.md, p0, p1); if (sim::chance(1, 2)) { pm::ModelState w; w.set(cfg.mb, cfg.md, p0, p1); u = w; } if (u.base_mass_ != cfg.mb || u.body_mass_ != cfg.md || u.base_state_.position_ != p0 || u.body_state_.position_ != p1 || !u.base_state_.velocity_.isZero(0) || !u.body_state_.acceleration_.isZero(0)) sim::fail("wrong-posture", "a state built from masses and positions does not have them"); }
                s.base_mass_ = cfg.mb; s.body_mass_ = cfg.md; s.base_state_.position_ << cfg.base, cfg.hb; s.base_state_.rpy_ << 0, 0, cfg.theta; s.base_state_.velocity_ << cfg.vel, 0; s.body_state_.position_ << b, cfg.hd; s.body_state_.velocity_ << cfg.body_vel, 0; if (sim::chance(1, 2)) { pm::ModelState u(cfg.mb, cfg.md, etools::Vector3(1, 2, 3), etools::Vector3(3, 2, 1)); u.set(s.base_state_, s.body_state_); s = u; } model.updateState(s);
            }
            void form()
            {
                switch (cfg.call) { case 1: op.form(solution, guess, asg, model, mg, old); break; case 2: op.form(solution, guess, model, mg, old); break; case 3: op.form(solution, asg, model, mg); break; default: op.form(solution, model, mg); }
            }
            void solve()
            {
                if (cfg.front == 1) { s_qpmad.solve(solution, op); return; } if (cfg.front == 2) { s_quad.solve(solution, op); return; }
                switch (cfg.call) { case 1: s_qpoases.solve(solution, as, op, guess, asg); break; case 2: s_qpoases.solve(solution, op, guess); break; case 3: s_qpoases.solve(solution, as, op, asg); break; case 4: s_qpoases.solve(solution, as, op); break; default: s_qpoases.solve(solution, op); }
            }
            bool activeSets() const { return cfg.front == 0 && (cfg.call == 1 || cfg.call == 3 || cfg.call == 4); }
            bool plan(control::Fault* f = nullptr)
            {
                control::Arm arm(f, probe);
                for (int k = 0; k < 4; ++k) { if (k == 2) arm.solving(); if (!phase(k)) return false; }
                return true;
            }
            bool phase(int k)
            {
                switch (k)
                {
                    case 0: if ((cfg.single ? mg.update(single, model) : mg.update(deque, model)) != ControlProblemStatus::OK) { stopped = true; return false; } break;
                    case 1: form(); break;
                    case 2: solve(); if (activeSets()) op.processActiveSet(as); break;
                    case 3: if (advance == cfg.S) next = mg.getNextModelState(solution, model); else { mg.parseSolution(solution); next = mg.getModelState(model, (size_t)advance); } break;
                    case 4: commit();
                }
                return true;
            }
            void shift(long ms) { if (cfg.single) mg.shift(single, ms); else mg.shift(deque, ms); }
            void commit() { shift(advance); model.updateState(next); old = solution; sim::simTime(advance / 1000.0); sim::step(); }
            bool iterate() { if (!plan()) return false; commit(); return true; }
            bool attempt(control::Fault& f) { bool on; try { on = plan(&f); } catch (...) { stopped = false; throw; } stopped = false; return on; }
            std::vector<double> observe()
            {
                std::vector<double> v; auto add = [&](const V& x) { for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); };
                add(model.getMPCState()); v.push_back(model.getTheta()); v.push_back(model.getBaseHeight()); v.push_back(model.getBodyHeight()); v.push_back(model.getBaseMass()); v.push_back(model.getBodyMass()); v.push_back(stopped); add(model.current_base_position_);
                if (!stopped && solution.isNonEmpty()) { add(solution.get_x()); add(mg.cop_profile_); add(mg.cstate_profile_); add(mg.base_jerk_profile_); }
                if (cfg.single) v.push_back(single.duration_ms_); else for (auto& m : deque) { v.push_back(m.duration_ms_); add(m.base_velocity_); }
                return v;
            }
            void save(const std::string& d)
            {
                humoto::config::msgpack::Writer w(d + "/pepper.msg"); mpc_parameters.writeConfig(w, "mpc"); model.robot_parameters_.writeConfig(w, "robot"); model.state_.writeConfig(w, "state"); single.writeConfig(w, "motion");
                for (size_t i = 0; i < deque.size(); ++i) deque[i].writeConfig(w, ("motion" + std::to_string(i)).c_str()); w.flush(); spew(d + "/motions", std::to_string(deque.size()));
            }
            void load(const std::string& d)
            {
                stopped = false; 
                humoto::config::msgpack::Reader r(d + "/pepper.msg"); mpc_parameters.readConfig(r, "mpc", true); mg.setParameters(mpc_parameters); robot.readConfig(r, "robot", true); model.setParameters(robot); pm::ModelState s; s.readConfig(r, "state", true); model.updateState(s);
                single.readConfig(r, "motion", true); deque.clear(); int n = std::stoi(slurp(d + "/motions")); for (int i = 0; i < n; ++i) { pm::MotionParameters m; m.readConfig(r, ("motion" + std::to_string(i)).c_str(), true); deque.push_back(m); }
            }
            void push(double vx, double vy) { pm::ModelState s = model.state_; s.body_state_.velocity_.x() += 0.1 * vx; s.body_state_.velocity_.y() += 0.1 * vy; model.updateState(s); }
            void command(int k) { pm::MotionParameters* m = cfg.single ? &single : deque.empty() ? nullptr : &deque.front(); if (m) { m->base_velocity_ += V2(0.05 * (k % 3), -0.03 * (k % 2)); m->base_angular_velocity_ += 0.1 * (k % 2); } }
            double period() { return advance / 1000.0; }
            template<class S> void log1(humoto::Logger& l, const LogEntryName& p, const mlog::Names& n, const char* d, const S& s) { if (n.custom) s.log(l, p, std::string("my_") + d); else s.log(l, p); }
            void logTo(std::ostream& out, const mlog::Names& n)
            {
                humoto::Logger l(out); LogEntryName p(n.prefix); if (n.index >= 0) p.add((std::size_t)n.index);
                log1(l, p, n, "model", model); log1(l, p, n, "mpcmg", mg); log1(l, p, n, "solution", solution); log1(l, p, n, "model_state", next);
                if (n.custom) op.log(l, p, "my_problem"); else op.log(l, p);
                if (cfg.front == 1) log1(l, p, n, "qpmad", s_qpmad); else if (cfg.front == 2) log1(l, p, n, "quadprogpp", s_quad); else log1(l, p, n, "qpoases", s_qpoases);
                if (activeSets()) log1(l, p, n, "active_set", as); if (cfg.call == 1 || cfg.call == 3) asg.log(l, p, "guess"); if (n.fresh) return; Violations v; op.computeViolations(v, solution); log1(l, p, n, "violations", v);
            }
            static void expectState(mlog::Expect& e, const std::string& p, const pm::ModelState& s) { using mlog::join; e.num(join(p, "base_mass"), s.base_mass_); e.num(join(p, "body_mass"), s.body_mass_); mlog::rigidBody(e, join(p, "base_state"), s.base_state_); mlog::pointMass(e, join(p, "body_state"), s.body_state_); }
            void logExpected(const mlog::Entries& got, mlog::Expect& e, const mlog::Names& n)
            {
                using mlog::join; using mlog::at; std::string p = n.of("model"); expectState(e, join(p, "state"), model.state_); e.mat(join(p, "mpc_state"), model.getMPCState()); e.mat(join(p, "current_base_position"), model.current_base_position_);
                p = n.of("mpcmg"); std::string h = join(join(p, "preview_horizon"), "interval"); const auto& H = mg.preview_horizon_;
                for (size_t i = 0; i < H.intervals_.size(); ++i)
                {
                    std::string q = at(h, i); const auto& v = H.intervals_[i]; e.num(join(q, "base_height"), v.base_height_); e.num(join(q, "body_height"), v.body_height_); e.num(join(q, "base_mass"), v.base_mass_); e.num(join(q, "body_mass"), v.body_mass_); e.num(join(q, "T"), v.T_); e.num(join(q, "T_ms"), v.T_ms_);
                    e.mat(join(q, "base_vel_ref"), v.base_vel_ref_); e.mat(join(q, "base_pos_ref"), v.base_pos_ref_); e.num(join(q, "theta"), v.theta_); e.mat(join(q, "rotation"), v.rotation_); e.mat(join(q, "body_bounds"), v.body_bounds_); e.mat(join(q, "cop_bounds"), v.cop_bounds_);
                    e.mat(join(q, "nominal_base_velocity_bounds"), v.nominal_base_velocity_bounds_); e.mat(join(q, "nominal_base_acceleration_bounds"), v.nominal_base_acceleration_bounds_);
                }
                e.mat(join(p, "R"), mg.R_.getRaw()); e.mat(join(p, "S"), mg.S_); e.mat(join(p, "s"), mg.s_); e.mat(join(p, "sp"), mg.sp_); e.mat(join(p, "Ap"), mg.Ap_); e.mat(join(p, "sas"), mg.sas_); e.mat(join(p, "Aas"), mg.Aas_); e.mat(join(p, "sps"), mg.sps_); e.mat(join(p, "Aps"), mg.Aps_); e.mat(join(p, "sjs"), mg.sjs_); e.mat(join(p, "Ajs"), mg.Ajs_);
                e.mat(join(p, "base_controls"), mg.base_controls_); e.mat(join(p, "body_controls"), mg.body_controls_); e.mat(join(p, "cstate_profile"), mg.cstate_profile_); e.mat(join(p, "jerk_profile"), mg.base_jerk_profile_); e.mat(join(p, "cop_profile"), mg.cop_profile_);
                mlog::solution(e, n.of("solution"), solution); expectState(e, n.of("model_state"), next);
                std::string base = n.prefix; if (n.index >= 0) base = at(base, n.index); mlog::hierarchy(got, n.custom ? join(base, "my_problem") : base, tracked, 2);
                if (!cfg.front) { QPProblem_ILU_ALU q; op.getQPProblem(q, solution); mlog::qp(e, join(n.of("qpoases"), "qp_problem"), q); }
                if (activeSets()) mlog::hierarchicalActiveSet(e, n.of("active_set"), as); if (cfg.call == 1 || cfg.call == 3) mlog::hierarchicalActiveSet(e, join(base, "guess"), asg); Violations v; op.computeViolations(v, solution); mlog::violations(e, n.of("violations"), v);
            }
            std::string describe()
            {
                char b[400]; std::string s; for (auto& m : cfg.schedule) s += " " + std::to_string(m.ms); snprintf(b, sizeof b, "horizon %d, sampling %d/%d ms, %s, schedule%s%s, call %d, front end %d%s", cfg.N, cfg.S, cfg.sub, cfg.position ? "position" : "velocity", s.c_str(), cfg.single ? " (single)" : "", cfg.call, cfg.front, cfg.body_ref ? ", body reference" : ""); return b;
            }
    };

    // ---------------- reference ----------------
    struct S6 { double p[2], v[2], a[2]; };
    struct State { S6 base, body; double theta; };
    State stateOf(const pm::ModelState& m) { State s; for (int k = 0; k < 2; ++k) { s.base.p[k] = m.base_state_.position_[k]; s.base.v[k] = m.base_state_.velocity_[k]; s.base.a[k] = m.base_state_.acceleration_[k]; s.body.p[k] = m.body_state_.position_[k]; s.body.v[k] = m.body_state_.velocity_[k]; s.body.a[k] = m.body_state_.acceleration_[k]; } s.theta = m.base_state_.rpy_.z(); return s; }
    void move(S6& s, int k, double j, double t) { double p = s.p[k], v = s.v[k], a = s.a[k]; s.p[k] = p + v * t + a * t * t / 2 + j * t * t * t / 6; s.v[k] = v + a * t + j * t * t / 2; s.a[k] = a + j * t; }
    struct Plan
    {
        const Config* c; std::vector<const Command*> command; State start; double T;
        bool covered = false;
    };
    // commands of the intervals when `elapsed` of the schedule is over
    Plan makePlan(const Config& c, const State& s, long elapsed)
    {
        Plan p; p.c = &c; p.start = s; p.T = c.S / 1000.0;
        for (int i = 0; i < c.N; ++i)
        {
            long end = elapsed + (long)(i + 1) * c.S, cum = 0; const Command* found = nullptr;
            for (auto& m : c.schedule) { if (m.ms == UNLIMITED) { found = &m; break; } cum += m.ms; if (end <= cum) { found = &m; break; } }
            if (!found) return p; p.command.push_back(found);
        }
        p.covered = true; return p;
    }
    struct Motion { std::vector<State> end; std::vector<V2> jerk, cop; std::vector<double> theta; double scale = 1; };
    double baseJerk(const S6& s, int k, double u, double T) { return 2 * (u - s.v[k] - s.a[k] * T) / (T * T); }
    V2 copOf(const Config& c, const State& s) { V2 z; for (int k = 0; k < 2; ++k) z[k] = (c.mb * (s.base.p[k] - c.hb / G * s.base.a[k]) + c.md * (s.body.p[k] - c.hd / G * s.body.a[k])) / (c.mb + c.md) - s.base.p[k]; return z; }
    Motion roll(const Plan& p, const V& x)
    {
        Motion m; State s = p.start; const int N = p.c->N;
        for (int i = 0; i < N; ++i)
        {
            V2 j; for (int k = 0; k < 2; ++k) { j[k] = baseJerk(s.base, k, x[2 * i + k], p.T); move(s.base, k, j[k], p.T); move(s.body, k, x[2 * N + 2 * i + k], p.T); }
            s.theta += p.command[i]->w * p.T; m.end.push_back(s); m.jerk.push_back(j); m.cop.push_back(copOf(*p.c, s));
            for (int k = 0; k < 2; ++k) m.scale = std::max({m.scale, std::fabs(s.base.p[k]), std::fabs(s.base.v[k]), std::fabs(s.base.a[k]), std::fabs(s.body.p[k]), std::fabs(s.body.v[k]), std::fabs(s.body.a[k])});
        }
        // a base with prescribed velocities swings; errors of rounding grow with the number of intervals
        m.scale *= N * N; return m;
    }
    State at(const Plan& p, const Motion& m, const V& x, double t)
    {
        int i = 0; const int N = p.c->N; double left = t; while (i + 1 < N && left > p.T * (1 + 1e-12)) { left -= p.T; ++i; }
        State s = i ? m.end[i - 1] : p.start; for (int k = 0; k < 2; ++k) { move(s.base, k, m.jerk[i][k], left); move(s.body, k, x[2 * N + 2 * i + k], left); } s.theta += p.command[i]->w * left; return s;
    }
    bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
    void same(const char* cls, const Config& c, const pm::ModelState& got, const State& want, double scale, const char* what, double t)
    {
        State g = stateOf(got); const double tol = 1e-10 * scale; static const char* n[] = {"position", "velocity", "acceleration"};
        for (int k = 0; k < 2; ++k)
        {
            const double *a[] = {g.base.p, g.base.v, g.base.a, g.body.p, g.body.v, g.body.a}, *b[] = {want.base.p, want.base.v, want.base.a, want.body.p, want.body.v, want.body.a};
            for (int j = 0; j < 6; ++j) if (!near(a[j][k], b[j][k], tol * (j % 3 == 2 ? 10 : 1))) sim::fail(cls, "%s: after %g s the %s of the %s, axis %d, is %.12g instead of %.12g", what, t, n[j % 3], j < 3 ? "base" : "body", k, a[j][k], b[j][k]);
        }
        if (!near(g.theta, want.theta, 1e-11 * (1 + std::fabs(want.theta)))) sim::fail(cls, "%s: after %g s the orientation is %.12g instead of %.12g", what, t, g.theta, want.theta);
        if (got.base_mass_ != c.mb || got.body_mass_ != c.md) sim::fail("parameters-changed", "%s: the masses are %.12g and %.12g instead of %.12g and %.12g", what, got.base_mass_, got.body_mass_, c.mb, c.md);
        if (got.base_state_.position_.z() != c.hb || got.body_state_.position_.z() != c.hd) sim::fail("parameters-changed", "%s: the heights are %.12g and %.12g instead of %.12g and %.12g", what, got.base_state_.position_.z(), got.body_state_.position_.z(), c.hb, c.hd);
        for (double z : {got.base_state_.velocity_.z(), got.base_state_.acceleration_.z(), got.body_state_.velocity_.z(), got.body_state_.acceleration_.z(), got.base_state_.rpy_.x(), got.base_state_.rpy_.y()}) if (z != 0) sim::fail("parameters-changed", "%s: vertical motion or tilt %g", what, z);
    }
    void checkPrediction(Process& p, const Plan& q, const V& x, const char* what)
    {
        const int N = p.cfg.N; if (x.size() != 4 * N) sim::fail("wrong-number-of-variables", "the solution has %ld variables instead of %d", (long)x.size(), 4 * N);
        Motion m = roll(q, x); double tol = 1e-10 * m.scale;
        auto sizes = [&](const V& v, int n, const char* w) { if (v.size() != n) sim::fail("wrong-prediction", "%s has %ld elements instead of %d", w, (long)v.size(), n); };
        sizes(p.mg.cstate_profile_, 12 * N, "predicted state"); sizes(p.mg.cop_profile_, 2 * N, "predicted centre of pressure"); sizes(p.mg.base_jerk_profile_, 2 * N, "predicted jerk");
        for (int i = 0; i < N; ++i) for (int k = 0; k < 2; ++k)
        {
            const State& s = m.end[i]; double want[6] = {s.base.p[k], s.base.v[k], s.base.a[k], s.body.p[k], s.body.v[k], s.body.a[k]};
            for (int j = 0; j < 6; ++j) { double got = p.mg.cstate_profile_[(j < 3 ? 0 : 6 * N) + 6 * i + 3 * k + j % 3]; if (!near(got, want[j], tol * 10)) sim::fail("wrong-state-prediction", "%s: predicted state of the %s at the end of interval %d, axis %d, element %d is %.12g instead of %.12g", what, j < 3 ? "base" : "body", i, k, j % 3, got, want[j]); }
            if (!near(p.mg.cop_profile_[2 * i + k], m.cop[i][k], tol)) sim::fail("wrong-cop-prediction", "%s: predicted centre of pressure of interval %d, axis %d is %.12g instead of %.12g", what, i, k, p.mg.cop_profile_[2 * i + k], m.cop[i][k]);
            if (!near(p.mg.base_jerk_profile_[2 * i + k], m.jerk[i][k], tol * 100 / (q.T * q.T))) sim::fail("wrong-jerk-prediction", "%s: predicted jerk of the base in interval %d, axis %d is %.12g instead of %.12g", what, i, k, p.mg.base_jerk_profile_[2 * i + k], m.jerk[i][k]);
        }
        for (int t = 0; t < 4; ++t)
        {
            int total = N * p.cfg.S, ms = t == 0 ? sim::range(0, p.cfg.S) : t == 1 ? p.cfg.S * sim::range(0, N) : sim::range(0, total); same("wrong-state-in-time", p.cfg, p.mg.getModelState(p.model, (size_t)ms), at(q, m, x, ms / 1000.0), m.scale, what, ms / 1000.0);
            double sec = sim::num(0, 1) * (total - 1) / 1000.0; if (sec < 0) sec = -sec; if (sec > (total - 0.5) / 1000) sec = 0; same("wrong-state-in-time", p.cfg, p.mg.getModelState(p.model, sec), at(q, m, x, sec), m.scale, what, sec);
        }
        same("wrong-next-state", p.cfg, ((const pm::MPCforMG&)p.mg).getNextModelState(p.model), m.end[0], m.scale, what, q.T);
        V2 now = p.model.getCoP(), z = copOf(p.cfg, q.start); if ((now - z).norm() > 1e-12 * m.scale) sim::fail("wrong-cop", "the current centre of pressure is (%.12g, %.12g) instead of (%.12g, %.12g)", now.x(), now.y(), z.x(), z.y());
    }
    struct Limits { double vel, acc, cop; Robot r; };
    Limits limits(const Config& c) { Limits l; const double k = std::sqrt(0.5); l.vel = c.robot.vel * k; l.acc = c.robot.acc * k; l.cop = c.robot.radius * k; l.r = c.robot; return l; }
    V2 bodyIn(const State& s) { return rot(-s.theta) * V2(s.body.p[0] - s.base.p[0], s.body.p[1] - s.base.p[1]); }
    void checkLimits(const Config& c, const State& s, const char* what, int i)
    {
        Limits l = limits(c); const double tol = 1e-6; V2 z = copOf(c, s), b = bodyIn(s);
        for (int k = 0; k < 2; ++k)
        {
            if (std::fabs(s.base.v[k]) > l.vel + tol) sim::fail("velocity-limit", "%s %d: the velocity of the base, axis %d, is %.9g, allowed are +-%.9g", what, i, k, s.base.v[k], l.vel);
            if (std::fabs(s.base.a[k]) > l.acc + 10 * tol * (1 + 10.0 / c.S)) sim::fail("acceleration-limit", "%s %d: the acceleration of the base, axis %d, is %.9g, allowed are +-%.9g", what, i, k, s.base.a[k], l.acc);
            if (std::fabs(z[k]) > l.cop + tol) sim::fail("balance", "%s %d: the centre of pressure is %.9g from the centre of the base in axis %d, allowed are %.9g", what, i, z[k], k, l.cop);
        }
        if (b.x() < l.r.lx - tol || b.x() > l.r.ux + tol || b.y() < l.r.ly - tol || b.y() > l.r.uy + tol) sim::fail("body-limit", "%s %d: the body is at (%.9g, %.9g) in the frame of the base, allowed are [%.9g, %.9g] x [%.9g, %.9g]", what, i, b.x(), b.y(), l.r.lx, l.r.ux, l.r.ly, l.r.uy);
    }
    // ---------------- reference of the optimal motion ----------------
    V residuals(const Plan& q, const V& x)
    {
        const Config& c = *q.c; const int N = c.N; Motion m = roll(q, x); V r(10 * N); const double* g = c.gains;
        for (int i = 0; i < N; ++i)
        {
            V2 pos(m.end[i].base.p[0], m.end[i].base.p[1]), u = x.segment(2 * i, 2), d = x.segment(2 * N + 2 * i, 2);
            r.segment(10 * i, 2) = g[0] * (c.position ? V2(pos - q.command[i]->pos) : V2(u - rot(m.end[i].theta) * q.command[i]->vel)); r.segment(10 * i + 2, 2) = g[1] * m.jerk[i]; r.segment(10 * i + 4, 2) = g[2] * d; r.segment(10 * i + 6, 2) = g[3] * m.cop[i]; r.segment(10 * i + 8, 2) = c.body_ref ? V2(g[4] * bodyIn(m.end[i])) : V2(0, 0);
        }
        return r;
    }
    V outputs(const Plan& q, const V& x) { const int N = q.c->N; Motion m = roll(q, x); V o(6 * N); for (int i = 0; i < N; ++i) { o.segment(6 * i, 2) = m.cop[i]; o.segment(6 * i + 2, 2) = V2(m.end[i].base.a[0], m.end[i].base.a[1]); o.segment(6 * i + 4, 2) = bodyIn(m.end[i]); } return o; }
    // scaled: jerks are large
    void reference(const Plan& q, M& J, V& r0, V& s, qpcore::Problem& b, double margin)
    {
        const Config& c = *q.c; const int N = c.N, n = 4 * N; V z = V::Zero(n), o0 = outputs(q, z); r0 = residuals(q, z); M A(o0.size(), n); J.resize(r0.size(), n); Limits l = limits(c);
        for (int j = 0; j < n; ++j) { V u = z; u[j] = 1; J.col(j) = residuals(q, u) - r0; A.col(j) = outputs(q, u) - o0; }
        b.H = J.transpose() * J; b.g = J.transpose() * r0; b.lb = V::Constant(n, -1e30); b.ub = V::Constant(n, 1e30); for (int i = 0; i < 2 * N; ++i) { b.lb[i] = -l.vel; b.ub[i] = l.vel; }
        b.A = A; b.lbA.resize(o0.size()); b.ubA.resize(o0.size()); for (int i = 0; i < N; ++i) { b.lbA.segment(6 * i, 6) << -l.cop, -l.cop, -l.acc, -l.acc, l.r.lx, l.r.ly; b.ubA.segment(6 * i, 6) << l.cop, l.cop, l.acc, l.acc, l.r.ux, l.r.uy; } b.lbA -= o0; b.ubA -= o0;
        for (int i = 0; i < 2 * N; ++i) { double w = margin * (b.ub[i] - b.lb[i]); b.lb[i] += w; b.ub[i] -= w; } V w = margin * (b.ubA - b.lbA); b.lbA += w; b.ubA -= w;
        s.resize(n); for (int j = 0; j < n; ++j) s[j] = 1 / std::sqrt(b.H(j, j)); b.H = s.asDiagonal() * b.H * s.asDiagonal(); b.g = s.asDiagonal() * b.g; b.A = b.A * s.asDiagonal(); for (int j = 0; j < n; ++j) { b.lb[j] = b.lb[j] < -1e29 ? -1e30 : b.lb[j] / s[j]; b.ub[j] = b.ub[j] > 1e29 ? 1e30 : b.ub[j] / s[j]; }
    }
    void checkInfeasible(const Plan& q)
    {
        M J; V r0, s; qpcore::Problem b; reference(q, J, r0, s, b, 1e-3);
        if (qpcore::solveRaw(b).status == qpcore::OK) sim::fail("solution-missed", "the controller found no motion within the limits, there are such motions"); sim::count("outcome:infeasible-confirmed");
    }
    void checkOptimal(const Plan& q, const V& x)
    {
        M J; V r0, s; qpcore::Problem b; reference(q, J, r0, s, b, 0); const Config& c = *q.c; const int N = c.N; const double hmax = (J.transpose() * J).diagonal().maxCoeff();
        qpcore::Result r = qpcore::solveRaw(b); if (r.status != qpcore::OK) { sim::count("outcome:reference-without-solution"); return; }
        V best = s.asDiagonal() * r.x; auto cost = [&](const V& y) { return (r0 + J * y).squaredNorm(); }; double f = cost(x), f0 = cost(best);
        double reg = 2e-10 * hmax * best.squaredNorm();   // the stand-in of the solver regularises the problem
        if (f > f0 + reg + 1e-6 * (1e-3 + f0 + r0.squaredNorm() * 1e-3)) sim::fail("not-optimal", "the motion does not minimise the objectives: they amount to %.9g, %.9g is possible", f, f0);
        if (f < f0 - 1e-5 * (1e-3 + f0 + r0.squaredNorm() * 1e-3)) { Motion m = roll(q, x); for (int i = 0; i < N; ++i) checkLimits(c, m.end[i], "interval", i); }
        sim::nontrivial();
    }

    // the guess is the previous solution moved on by one interval
    void checkGuess(const Process& p, int N)
    {
        V want = V::Zero(4 * N); if (p.old.isNonEmpty() && p.old.getNumberOfVariables()) { const V o = p.old.get_x(); for (int part = 0; part < 2; ++part) want.segment(2 * N * part, 2 * (N - 1)) = o.segment(2 * N * part + 2, 2 * (N - 1)); }
        const V g = p.guess.get_x(); if (g.size() != want.size()) sim::fail("wrong-guess", "the guess has %ld variables instead of %ld", (long)g.size(), (long)want.size());
        for (int i = 0; i < want.size(); ++i) if (g[i] != want[i]) sim::fail("wrong-guess", "variable %d of the guess is %.12g, in the previous solution moved on by one interval it is %.12g (%d intervals)", i, g[i], want[i], N);
        sim::count("guess");
    }
    enum Judge { PREDICTION, LIMITS, OPTIMAL };
    void checkSchedule(const Process& p, const Config& c, long elapsed)
    {
        if (c.single)
        {
            long want = c.schedule[0].ms == UNLIMITED ? UNLIMITED : std::max(0l, c.schedule[0].ms - elapsed); if (p.single.duration_ms_ != want) sim::fail("wrong-schedule", "after %ld ms %ld ms of the command are left instead of %ld", elapsed, (long)p.single.duration_ms_, want); return;
        }
        long cum = 0; size_t k = 0; bool endless = false; while (k < c.schedule.size()) { if (c.schedule[k].ms == UNLIMITED) { endless = true; break; } if (cum + c.schedule[k].ms > elapsed) break; cum += c.schedule[k].ms; ++k; }
        // commands that are over, or have no duration, may still be there
        auto it = p.deque.begin(); while (it != p.deque.end() && it->duration_ms_ == 0) ++it; size_t rest = p.deque.end() - it; size_t want = 0; for (size_t i = k; i < c.schedule.size(); ++i) ++want; 
        if (rest != want) { size_t a = 0, b = 0; for (auto j = it; j != p.deque.end(); ++j) if (j->duration_ms_) ++a; for (size_t i = k; i < c.schedule.size(); ++i) if (c.schedule[i].ms) ++b; if (a != b) sim::fail("wrong-schedule", "after %ld ms %zu commands are left instead of %zu", elapsed, a, b); return; }
        for (size_t i = k; it != p.deque.end(); ++it, ++i)
        {
            long left = c.schedule[i].ms; if (i == k && !endless) left -= elapsed - cum; if (it->duration_ms_ != left || it->base_velocity_ != c.schedule[i].vel || it->base_angular_velocity_ != c.schedule[i].w || it->base_position_ != c.schedule[i].pos) sim::fail("wrong-schedule", "after %ld ms %ld ms of command %zu are left instead of %ld", elapsed, (long)it->duration_ms_, i, left);
        }
    }
    void driveRun(Judge J)
    {
        Config cfg = draw(true); Process p(cfg); sim::sample("%s", p.describe().c_str()); sim::event("%s", p.describe().c_str()); long elapsed = 0; int limit = sim::thorough() ? 200 : 60, schedules = sim::chance(1, 5) ? 2 : 1; bool slices = sim::chance(1, 3);
        for (int it = 0; it < limit; ++it)
        {
            if (it && sim::chance(1, 8))
            {
                pm::ModelState s = p.model.state_;
                switch (sim::choose(4))
                {
                    case 0: s.body_state_.velocity_.x() += sim::num(-0.05, 0.05); s.body_state_.velocity_.y() += sim::num(-0.05, 0.05); sim::count("fault:push"); break;
                    case 1: s.base_state_.velocity_.x() += sim::num(-0.05, 0.05); sim::count("fault:wheel-slip"); break;
                    case 2: { double dx = sim::num(-1, 1), dy = sim::num(-1, 1); s.base_state_.position_.x() += dx; s.body_state_.position_.x() += dx; s.base_state_.position_.y() += dy; s.body_state_.position_.y() += dy; sim::count("fault:position-jump"); break; }
                    default: s.body_mass_ = cfg.md = p.cfg.md = some(1, 40); sim::count("fault:load-change"); break;
                }
                p.model.updateState(s);
            }
            if (it && sim::chance(1, 15) && cfg.schedule.back().ms == UNLIMITED)
            {   // the user replaces the schedule
                drawSchedule(p.cfg); p.cfg.single = cfg.single; if (cfg.single) p.cfg.schedule.resize(1); cfg.schedule = p.cfg.schedule; p.setSchedule(cfg.schedule); elapsed = 0; sim::count("fault:new-schedule");
            }
            if (slices) p.advance = sim::chance(1, 2) ? cfg.sub * sim::range(1, cfg.S / cfg.sub) : sim::range(1, cfg.S * (sim::chance(1, 4) ? std::min(3, cfg.N) : 1));
            sim::state(sim::mix(sim::mix(elapsed % 100000, cfg.N), sim::mix(cfg.S / cfg.sub, cfg.schedule.size())));
            State start = stateOf(p.model.state_); Plan q = makePlan(cfg, start, elapsed);
            if (sim::chance(1, 12)) { control::Fault f; f.kind = control::Fault::SOLVER; f.at = 1 + sim::choose(3); sim::count("fault:solver-failure"); bool threw = false; try { p.plan(&f); } catch (const std::exception&) { threw = true; } if (!threw && !p.stopped) sim::fail("failure-not-reported", "the solver failed, the iteration did not"); p.stopped = false; }
            bool ok; control::Excuse excuse; try { ok = p.plan(); } catch (const std::exception& e) { if (!excuse.solver()) sim::fail("iteration-failed", "after %ld ms of the schedule an iteration failed: %s", elapsed, e.what()); if (J == OPTIMAL) checkInfeasible(q); sim::count("outcome:no-solution"); sim::event("no solution: %s", e.what()); if (it > 2) sim::nontrivial(); return; }
            if (J == LIMITS && ok != q.covered) sim::fail("wrong-end", "after %ld ms of the schedule, with a horizon of %d ms, the controller %s", elapsed, cfg.N * cfg.S, ok ? "goes on" : "stops");
            if (!ok)
            {
                sim::count("outcome:schedule-completed"); sim::nontrivial(); if (--schedules == 0) return;
                drawSchedule(p.cfg); p.cfg.single = cfg.single; if (cfg.single) p.cfg.schedule.resize(1); cfg.schedule = p.cfg.schedule; p.setSchedule(cfg.schedule); elapsed = 0; continue;
            }
            V x = p.solution.get_x(); Motion m = roll(q, x);
            if (J == PREDICTION)
            {
                if (cfg.call == 1 || cfg.call == 2) checkGuess(p, cfg.N);
                checkPrediction(p, q, x, "solution"); sim::nontrivial(); same("wrong-next-state", cfg, p.next, at(q, m, x, p.advance / 1000.0), m.scale, "next state", p.advance / 1000.0);
                if (sim::chance(1, 4))
                {
                    Solution other = p.solution; Location all(0, x.size()); V y(x.size()); for (int k = 0; k < y.size(); ++k) y[k] = sim::num(-1, 1); other.getData(all) = y; p.mg.parseSolution(other); checkPrediction(p, q, y, "arbitrary solution"); sim::count("arbitrary-solution"); p.mg.parseSolution(p.solution);
                }
            }
            if (J == OPTIMAL) checkOptimal(q, x);
            if (J == LIMITS) { for (int i = 0; i < cfg.N; ++i) checkLimits(cfg, m.end[i], "interval", i); sim::nontrivial(); }
            p.model.updateState(p.next); p.old = p.solution;
            if (slices && sim::chance(1, 2)) { int left = p.advance; while (left > 0) { int d = sim::range(1, left); p.shift(d); left -= d; } sim::count("sliced-shift"); } else if (p.advance == cfg.S && sim::chance(1, 2)) p.shift(pm::MPCforMG::DEFAULT_PREVIEW_HORIZON_SHIFT + 0); else p.shift(p.advance);
            elapsed += p.advance; sim::simTime(p.advance / 1000.0); sim::step();
            if (J == LIMITS) { checkSchedule(p, cfg, elapsed); if (p.advance == cfg.S) checkLimits(cfg, stateOf(p.model.state_), "iteration", it); }
            if ((V2(p.model.current_base_position_) - V2(p.model.state_.base_state_.position_.head(2))).norm() != 0) sim::fail("wrong-position", "the position of the base was not updated");
            sim::digestDouble(p.model.state_.base_state_.position_.x()); sim::digestDouble(p.model.state_.body_state_.position_.y());
        }
    }
    sim::Scenario s16("C16", "at every iteration the prediction of the controller of the wheeled robot is the motion of the two masses", [] { driveRun(PREDICTION); });
    sim::Scenario s17("C17", "limits hold in the closed loop, the schedule is consumed as commanded", [] { driveRun(LIMITS); });
    struct F : control::Factory { Config c; control::Ptr start() { return control::Ptr(new Process(c)); } };
}
namespace peppersim { void optimal() { driveRun(OPTIMAL); } }
std::shared_ptr<control::Factory> control::drawPepper(bool small) { std::shared_ptr<F> f(new F); f->c = ::draw(small); f->c.extra_task = true; return f; }
