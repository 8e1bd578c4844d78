// The walking controller in closed loop with a simulated robot.
//  C13 prediction == motion of the linear inverted pendulum; C14 balance and reach; C25 optimality of the motion; parts of C15 and C18.
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "harness/control.h"
#include "harness/cfgnode.h"
#include "harness/timeline.h"
#include "harness/client_task.h"
#include "harness/tasklog.h"
#include <deque>
using namespace humoto;
using namespace humoto::walking;
namespace
{
    typedef Eigen::Vector2d V2; typedef Eigen::Matrix2d M2; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
    inline M2 rot(double a) { M2 r; r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return r; }
    const double G = 9.8;
    const char* sname(int t) { static const char* n[] = {"UNDEFINED", "DS", "LSS", "RSS", "TDS"}; return t >= 0 && t < 5 ? n[t] : "?"; }
    bool ss(int t) { return t == StanceType::LSS || t == StanceType::RSS; }

    struct Foot { double step = 0.2, near = 0.19, far = 0.3, dist = 0.19, length = 0.1372, width = 0.058; };
    struct Config
    {
        int N = 4, S = 100, sub = 100, tds = 100; wpg04::WalkParameters walk; Foot foot; double h = 0.814; int hierarchy = 0, call = 0, front = 0;
        V2 ads = V2::Zero(); double yaw = 0; double foot_z = 0; V2 com = V2::Zero(), vel = V2::Zero(), cop = V2::Zero(); double swing_x = 0, swing_y = 0; bool extra_task = false; double gains[3] = {0.707106781186548, 0.223606797749979, 12.2474487139159};
    };
    double some(double lo, double hi) { return sim::chance(1, 2) ? sim::num(lo, hi) : sim::grid(lo, hi, 8); }
    void drawSpeeds(wpg04::WalkParameters& w)
    {
        w.com_velocity_ = V2(some(-0.3, 0.4), some(-0.15, 0.15)); w.first_stance_com_velocity_ = sim::chance(1, 2) ? w.com_velocity_ : V2(some(-0.2, 0.2), some(-0.1, 0.1)); w.last_stance_com_velocity_ = sim::chance(1, 2) ? V2(0, 0) : V2(some(-0.1, 0.1), some(-0.1, 0.1));
        w.theta_increment_ = sim::chance(1, 2) ? 0 : sim::num(-0.4, 0.4);
    }
    void drawWalk(wpg04::WalkParameters& w, int N, int S, bool small, bool ds_first)
    {
        uint32_t k = sim::choose(6); w.num_steps_ = k == 5 ? 0 : sim::range(2, small ? 3 : 5);
        w.first_stance_ = StanceType::DS; w.first_ss_type_ = sim::choose(2) ? StanceType::LSS : StanceType::RSS;
        if (!ds_first && sim::chance(1, 4)) { w.first_stance_ = w.first_ss_type_ == StanceType::LSS ? StanceType::RSS : StanceType::LSS; }
        w.ss_duration_ms_ = S * sim::range(1, small ? 4 : 8); w.first_stance_duration_ms_ = S * sim::range(1, 5); w.last_stance_duration_ms_ = S * (N + sim::range(0, 4));
        if (w.first_stance_ == StanceType::DS && w.num_steps_ == 0) w.first_stance_duration_ms_ = S * (N + sim::range(0, 6));
        if (ss(w.first_stance_) && w.num_steps_ == 0) w.num_steps_ = 2;
        drawSpeeds(w);
    }
    Config draw(bool small)
    {
        Config c; static const int subs[] = {100, 20, 10, 25, 50, 40, 7, 1};
        c.sub = subs[sim::choose(8)]; int per = sim::range(1, c.sub >= 100 ? 2 : c.sub <= 10 ? 8 : 5); c.S = c.sub * per; c.tds = sim::chance(1, 2) ? c.S : c.sub * sim::range(1, per);
        c.N = sim::range(2, small ? 5 : 9); if (sim::thorough() && sim::chance(1, 10)) c.N = 16;
        drawWalk(c.walk, c.N, c.S, small, false); c.walk.tds_duration_ms_ = c.tds;
        if (sim::chance(2, 3)) { Foot& f = c.foot; f.step = some(0.05, 0.4); f.near = some(0.1, 0.25); f.far = f.near + some(0, 0.2); f.dist = some(0.1, 0.3); f.length = some(0.05, 0.3); f.width = some(0.02, 0.15); }
        c.h = sim::chance(1, 2) ? 0.814 : some(0.3, 1.5); { uint32_t k = sim::choose(8); c.hierarchy = k < 4 ? 0 : k < 7 ? 1 : 2; } c.call = sim::choose(5); c.front = sim::chance(1, 4) ? 1 + sim::choose(2) : 0;
        if (sim::chance(1, 2)) { c.ads = V2(sim::num(-2, 2), sim::num(-2, 2)); c.yaw = sim::num(-3, 3); c.foot_z = sim::num(-0.1, 0.1); }
        c.vel = sim::chance(1, 2) ? V2(0, 0) : V2(some(-0.3, 0.3), some(-0.2, 0.2)); c.com = V2(some(-0.02, 0.02), some(-0.02, 0.02));
        c.swing_x = some(-0.1, 0.1); c.swing_y = some(0, 0.05);
        // part of the initial support area where the centre of pressure is
        if (sim::chance(1, 3)) { c.gains[0] = some(0.1, 2); c.gains[1] = some(0.05, 1); c.gains[2] = some(0.5, 15); }
        c.cop = V2(sim::grid(-0.9, 0.9, 6), sim::grid(-0.9, 0.9, 6));
        return c;
    }
    template<class T> void writeTo(const std::string& f, const T& o, const char* n) { humoto::config::msgpack::Writer w(f); o.writeConfig(w, n); }

    class Process : public control::Controller
    {
        public:
            Config cfg; wpg04::MPCParameters mpc_parameters; wpg04::WalkParameters walk; wpg04::Model model; wpg04::MPCforWPG wpg; StanceFiniteStateMachine fsm;
            OptimizationProblem op; humoto::qpoases::Solver s_qpoases; humoto::qpmad::Solver s_qpmad; humoto::quadprogpp::Solver s_quad;
            Solution solution, guess, old; ActiveSet as, asg; bool fresh = true, stopped = false; uint64_t elapsed = 0, walk_time = 0; uint64_t walk_start = 0; client::Task* probe = nullptr; int commands = 0;
            bool predicted = false; wpg04::ModelState next; std::vector<mlog::Tracked> tracked;

            explicit Process(const Config& c, bool initialise = true) : cfg(c), mpc_parameters(c.N, c.S, c.sub, c.tds)
            {
                wpg.setParameters(mpc_parameters); walk = c.walk; fsm.setParameters(walk); setFeet(); hierarchy();
                if (initialise) initial();
            }
            void setFeet()
            {
                const Foot& f = cfg.foot; Node n = Node::map(); n.add("max_step_len", Node::dbl(f.step)).add("min_feet_dist", Node::dbl(f.near)).add("max_feet_dist", Node::dbl(f.far)).add("feet_dist_default", Node::dbl(f.dist)).add("foot_length", Node::dbl(f.length)).add("foot_width", Node::dbl(f.width));
                Node r = Node::map(); r.add("RobotFootParameters", n); std::string file = sim::scratch() + "/feet.msg"; spew(file, encode(r));
                RobotFootParameters p; { humoto::config::msgpack::Reader rd(file); p.readConfig(rd, true); } model.setFootParameters(p);
            }
            void hierarchy()
            {
                op.reset(2); tracked.clear(); auto push = [&](auto* t, int l) { op.pushTask(TaskSharedPointer(t), l); tracked.push_back(mlog::track(t, l)); };
                push(new wpg04::TaskFootstepBounds(cfg.hierarchy == 1), 0); push(new wpg04::TaskCoPBounds, 0);
                if (cfg.hierarchy == 2) push(new wpg04::TaskTerminalConstraint, 0);
                push(new wpg04::TaskCoMVelocity(cfg.gains[0]), 1); push(new wpg04::TaskCoPVelocity(cfg.gains[1]), 1); push(new wpg04::TaskCoPPosition(cfg.gains[2]), 1);
                if (cfg.extra_task) { probe = new client::Task; push(probe, 1); }
            }
            void initial()
            {
                wpg04::ModelState s((const RobotFootParameters&)model, cfg.h); if (sim::chance(1, 3)) { wpg04::ModelState u; u.set((const RobotFootParameters&)model, cfg.h); s = u; }
                for (int l = 0; l < 2; ++l) { const rigidbody::RigidBodyState& f = l ? s.feet_.getLeft() : s.feet_.getRight(); if (f.position_.x() != 0 || std::fabs(f.position_.y() - (l ? 0.5 : -0.5) * cfg.foot.dist) > 1e-12 || f.position_.z() != 0 || !f.rpy_.isZero(0) || !f.velocity_.isZero(0)) sim::fail("wrong-posture", "the %s foot of a new state is not beside the origin", l ? "left" : "right"); }
                if (s.com_state_.position_ != etools::Vector3(0, 0, cfg.h) || !s.com_state_.velocity_.isZero(0) || !s.com_state_.acceleration_.isZero(0) || s.stance_type_ != StanceType::DS) sim::fail("wrong-posture", "a new state does not stand still at the given height");
                // the feet stand somewhere, side by side at their default distance
                M2 R = rot(cfg.yaw); for (int l = 0; l < 2; ++l) { rigidbody::RigidBodyState& f = l ? s.feet_.getLeft() : s.feet_.getRight(); V2 p(0, (l ? 0.5 : -0.5) * cfg.foot.dist); f.position_.head(2) = cfg.ads + R * p; f.position_.z() = cfg.foot_z; f.rpy_ << 0, 0, cfg.yaw; }
                V2 centre = cfg.ads; double hw = (cfg.foot.width + cfg.foot.dist) / 2;
                s.stance_type_ = walk.first_stance_; 
                if (ss(walk.first_stance_)) { bool l = walk.first_stance_ == StanceType::LSS; centre = (l ? s.feet_.getLeft() : s.feet_.getRight()).position_.head(2); hw = cfg.foot.width / 2; rigidbody::RigidBodyState& f = l ? s.feet_.getRight() : s.feet_.getLeft(); f.position_.head(2) += R * V2(cfg.swing_x, (l ? -1 : 1) * cfg.swing_y); }
                V2 z = centre + R * V2(cfg.cop.x() * cfg.foot.length / 2, cfg.cop.y() * hw); s.com_state_.position_ << centre + cfg.com, cfg.h; s.com_state_.velocity_ << cfg.vel, 0; V2 c = s.com_state_.position_.head(2); s.com_state_.acceleration_ << (c - z) * G / cfg.h, 0;
                wpg04::ModelState t; t.set(s.stance_type_, s.com_state_, s.feet_.getLeft(), s.feet_.getRight()); model.state_ = t; model.updateState(t);
            }
            void form()
            {
                switch (cfg.call)
                {
                    case 1: op.form(solution, guess, asg, model, wpg, old); break;
                    case 2: op.form(solution, guess, model, wpg, old); break;
                    case 3: op.form(solution, asg, model, wpg); break;
                    default: op.form(solution, model, wpg);
                }
            }
            void solve()
            {
                if (cfg.front == 1) { s_qpmad.solve(solution, op); return; } if (cfg.front == 2) { s_quad.solve(solution, op); return; }
                switch (cfg.call)
                {
                    case 1: s_qpoases.solve(solution, as, op, guess, asg); break;
                    case 2: s_qpoases.solve(solution, op, guess); break;
                    case 3: s_qpoases.solve(solution, as, op, asg); break;
                    case 4: s_qpoases.solve(solution, as, op); break;
                    default: s_qpoases.solve(solution, op);
                }
            }
            bool activeSets() const { return cfg.front == 0 && (cfg.call == 1 || cfg.call == 3 || cfg.call == 4); }
            // update, form, solve: false when stopped
            bool plan(control::Fault* f = nullptr)
            {
                predicted = false; control::Arm arm(f, probe);
                for (int k = 0; k < 4; ++k) { if (k == 2) arm.solving(); if (!phase(k)) return false; }
                return true;
            }
            bool phase(int k)
            {
                switch (k)
                {
                    case 0: if (wpg.update(model, fsm, walk) != ControlProblemStatus::OK) { stopped = true; return false; } break;
                    case 1: form(); break;
                    case 2: solve(); if (activeSets()) op.processActiveSet(as); break;
                    case 3: { StanceFiniteStateMachine m = fsm; m.shiftTime(cfg.sub); next = wpg.getNextModelState(solution, m, model); break; }
                    case 4: commit();
                }
                return true;
            }
            void commit() { fsm.shiftTime(cfg.sub); elapsed += cfg.sub; walk_time += cfg.sub; model.updateState(next); old = solution; fresh = false; sim::simTime(cfg.sub / 1000.0); sim::step(); }
            bool iterate() { if (!plan()) return false; commit(); return true; }
            bool attempt(control::Fault& f) { bool on; try { on = plan(&f); } catch (...) { stopped = false; throw; } stopped = false; return on; }
            std::vector<double> observe()
            {
                std::vector<double> v; auto add = [&](const V& x) { for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); };
                add(model.getCState()); add(model.current_support_position_); v.push_back(model.state_.stance_type_); v.push_back(model.state_.next_stance_type_); v.push_back(stopped);
                // the position of a foot in the air is not defined
                if (model.state_.stance_type_ != StanceType::RSS) { add(model.state_.feet_.getLeft().position_); add(model.state_.feet_.getLeft().rpy_); }
                if (model.state_.stance_type_ != StanceType::LSS) { add(model.state_.feet_.getRight().position_); add(model.state_.feet_.getRight().rpy_); }
                if (!stopped && solution.isNonEmpty()) { add(solution.get_x()); add(wpg.cop_profile); add(wpg.cstate_profile); add(wpg.footpos_profile); }
                v.push_back(fsm.current_time_ms_); v.push_back(fsm.current_stance_.type_); v.push_back(fsm.ss_states_to_termination_);
                return v;
            }
            void save(const std::string& d)
            {
                humoto::config::msgpack::Writer w(d + "/wpg.msg"); mpc_parameters.writeConfig(w, "mpc"); walk.writeConfig(w, "walk"); model.writeConfig(w, "feet"); model.state_.writeConfig(w, "state"); w.flush();
                humoto::config::msgpack::Writer w2(d + "/fsm.msg"); fsmParameters().writeConfig(w2, "fsm"); w2.flush();
                spew(d + "/time", std::to_string(walk_time));
            }
            StanceFSMParameters fsm_parameters; bool have_fsm_parameters = false;
            StanceFSMParameters fsmParameters() const { return have_fsm_parameters ? fsm_parameters : (const StanceFSMParameters&)cfg.walk; }
            void load(const std::string& d)
            {
                stopped = false; 
                humoto::config::msgpack::Reader r(d + "/wpg.msg"); mpc_parameters.readConfig(r, "mpc", true); wpg.setParameters(mpc_parameters); walk.readConfig(r, "walk", true); RobotFootParameters p; p.readConfig(r, "feet", true); model.setFootParameters(p);
                wpg04::ModelState s; s.readConfig(r, "state", true); model.state_ = s; model.updateState(s);
                humoto::config::msgpack::Reader r2(d + "/fsm.msg"); StanceFSMParameters q; q.readConfig(r2, "fsm", true); fsm.setParameters(q); fsm_parameters = q; have_fsm_parameters = true; walk_time = std::stoull(slurp(d + "/time")); if (walk_time) fsm.shiftTime(walk_time);
            }
            void push(double vx, double vy) { wpg04::ModelState s = model.state_; s.com_state_.velocity_.x() += vx; s.com_state_.velocity_.y() += vy; model.updateState(s); }
            void command(int k) { walk.com_velocity_ += V2(0.05 * (k % 3), -0.03 * (k % 2)); if (k % 4 == 1) walk.theta_increment_ += 0.1; }
            void restartWalk(const wpg04::WalkParameters& w) { walk = w; fsm_parameters = w; have_fsm_parameters = true; fsm.setParameters(w); stopped = false; walk_time = 0; }
            double period() { return cfg.sub / 1000.0; }
            template<class S> void log1(humoto::Logger& l, const LogEntryName& p, const mlog::Names& n, const char* d, const S& s) { if (n.custom) s.log(l, p, std::string("my_") + d); else s.log(l, p); }
            void logTo(std::ostream& out, const mlog::Names& n)
            {
                humoto::Logger l(out); LogEntryName p(n.prefix); if (n.index >= 0) p.add((std::size_t)n.index);
                log1(l, p, n, "model", model); log1(l, p, n, "mpcwpg", wpg); log1(l, p, n, "stance_fsm", fsm); log1(l, p, n, "solution", solution); log1(l, p, n, "model_state", next);
                if (n.custom) op.log(l, p, "my_problem"); else op.log(l, p);
                if (cfg.front == 1) log1(l, p, n, "qpmad", s_qpmad); else if (cfg.front == 2) log1(l, p, n, "quadprogpp", s_quad); else log1(l, p, n, "qpoases", s_qpoases);
                if (activeSets()) log1(l, p, n, "active_set", as); if (cfg.call == 1 || cfg.call == 3) asg.log(l, p, "guess"); if (n.fresh) return; Violations v; op.computeViolations(v, solution); log1(l, p, n, "violations", v);
            }
            static void expectState(mlog::Expect& e, const std::string& p, const wpg04::ModelState& s)
            {
                using mlog::join; e.num(join(p, "stance_type"), s.stance_type_); e.num(join(p, "next_stance_type"), s.next_stance_type_); mlog::pointMass(e, join(p, "com_state"), s.com_state_); mlog::rigidBody(e, join(p, "left_foot_state"), s.feet_.getLeft()); mlog::rigidBody(e, join(p, "right_foot_state"), s.feet_.getRight());
            }
            static void expectStance(mlog::Expect& e, const std::string& p, const Stance& s)
            {
                using mlog::join; e.num(join(p, "type"), s.type_); e.num(join(p, "previous_nonds_stance_type"), s.previous_nonds_stance_type_); e.num(join(p, "previous_nontds_stance_type"), s.previous_nontds_stance_type_); e.num(join(p, "subtype"), s.subtype_); e.num(join(p, "duration_ms"), s.duration_ms_); e.num(join(p, "total_duration_ms"), s.total_duration_ms_);
            }
            void logExpected(const mlog::Entries& got, mlog::Expect& e, const mlog::Names& n)
            {
                using mlog::join; using mlog::at; std::string p = n.of("model"); const Foot& f = cfg.foot;
                { std::string q = join(p, "foot_parameters"); e.num(join(q, "max_step_len"), f.step); e.num(join(q, "min_feet_dist"), f.near); e.num(join(q, "max_feet_dist"), f.far); e.num(join(q, "feet_dist_default"), f.dist); e.num(join(q, "foot_length"), f.length); e.num(join(q, "foot_width"), f.width); }
                expectState(e, join(p, "state"), model.state_); e.mat(join(p, "cstate"), model.getCState()); e.mat(join(p, "current_support_position"), model.current_support_position_);
                p = n.of("mpcwpg"); std::string h = join(p, "preview_horizon"); const wpg04::PreviewHorizon& H = wpg.preview_horizon_; e.vec(join(h, "variable_steps_indices"), H.variable_steps_indices_);
                for (size_t i = 0; i < H.intervals_.size(); ++i) { std::string q = at(join(h, "interval"), i); const auto& v = H.intervals_[i]; e.num(join(q, "state_index"), v.state_index_); e.num(join(q, "omega"), v.omega_); e.num(join(q, "T"), v.T_); e.mat(join(q, "cvel_ref"), v.cvel_ref_); }
                for (size_t i = 0; i < H.walk_states_.size(); ++i) { std::string q = at(join(h, "state"), i); const auto& v = H.walk_states_[i]; e.num(join(q, "theta"), v.theta_); e.num(join(q, "step_height"), v.step_height_); e.mat(join(q, "cvel_ref"), v.cvel_ref_); e.mat(join(q, "rotation"), v.rotation_); e.mat(join(q, "R_cvel_ref"), v.R_cvel_ref_); e.mat(join(q, "fd_bounds"), v.fd_bounds_); e.mat(join(q, "cop_bounds"), v.cop_bounds_); expectStance(e, join(q, "stance"), v); }
                e.mat(join(p, "R"), wpg.R_.getRaw()); e.mat(join(p, "Rh"), wpg.Rh_.getRaw()); e.mat(join(p, "V"), wpg.V_); e.mat(join(p, "V0"), wpg.V0_); e.mat(join(p, "Vfp"), wpg.Vfp_); e.mat(join(p, "vfp"), wpg.vfp_); e.mat(join(p, "S"), wpg.S_); e.mat(join(p, "s"), wpg.s_); e.mat(join(p, "Sdz"), wpg.Sdz_); e.mat(join(p, "sdz"), wpg.sdz_);
                e.mat(join(p, "cop_profile"), wpg.cop_profile); e.mat(join(p, "dcop_profile"), wpg.dcop_profile); e.mat(join(p, "cstate_profile"), wpg.cstate_profile); e.mat(join(p, "footpos_profile"), wpg.footpos_profile);
                p = n.of("stance_fsm"); expectStance(e, join(p, "current_stance"), fsm.current_stance_); e.num(join(p, "ss_states_to_termination"), fsm.ss_states_to_termination_); e.num(join(p, "current_time"), fsm.current_time_ms_); e.num(join(p, "is_tds_started"), fsm.is_tds_started_);
                mlog::solution(e, n.of("solution"), solution); expectState(e, n.of("model_state"), next);
                std::string base = n.prefix; if (n.index >= 0) base = at(base, n.index); mlog::hierarchy(got, n.custom ? join(base, "my_problem") : base, tracked, 2);
                if (!cfg.front) { QPProblem_ILU_ALU q; op.getQPProblem(q, solution); mlog::qp(e, join(n.of("qpoases"), "qp_problem"), q); }
                if (activeSets()) mlog::hierarchicalActiveSet(e, n.of("active_set"), as); if (cfg.call == 1 || cfg.call == 3) mlog::hierarchicalActiveSet(e, join(base, "guess"), asg); Violations v; op.computeViolations(v, solution); mlog::violations(e, n.of("violations"), v);
            }
            std::string describe()
            {
                char b[400]; snprintf(b, sizeof b, "horizon %d, sampling %d/%d/%d ms, first %s then %s, %zu steps, durations %zu/%zu/%zu/%zu, hierarchy %d, call %d, front end %d", cfg.N, cfg.S, cfg.tds, cfg.sub, sname(cfg.walk.first_stance_), sname(cfg.walk.first_ss_type_), cfg.walk.num_steps_,
                    cfg.walk.first_stance_duration_ms_, cfg.walk.tds_duration_ms_, cfg.walk.ss_duration_ms_, cfg.walk.last_stance_duration_ms_, cfg.hierarchy, cfg.call, cfg.front); return b;
            }
    };

    // ---------------- reference: horizon and motion, from the parameters and the state of the robot alone ----------------
    struct Support { int type; double theta; V2 lo, hi; V2 box; };             // step bounds relative to the preceding support, half sizes of the area for the centre of pressure
    struct Interval { double T; int ms; int support; V2 vref; };
    struct Horizon
    {
        std::vector<Support> support; std::vector<Interval> iv; V2 base; double h; Eigen::Matrix<double, 6, 1> c0;
        int steps() const { return (int)support.size() - 1; }
        std::vector<int> step_at;                                              // interval in which a step begins to count
    };
    int nextStance(const Timeline& T, size_t i) { return i + 1 < T.s.size() ? T.s[i + 1].type : (int)StanceType::DS; }
    Support makeSupport(const Config& c, int type, int before, double theta)
    {
        Support s; s.type = type; s.theta = theta; s.box = V2(c.foot.length / 2, (type == StanceType::DS ? c.foot.width + c.foot.dist : c.foot.width) / 2); s.lo = s.hi = V2::Zero();
        const double d = c.foot.dist / 2;
        if (before < 0) return s;
        if (type == StanceType::DS) { double y = before == StanceType::LSS ? -d : d; s.lo = s.hi = V2(0, y); }
        else
        {
            double side = type == StanceType::LSS ? 1 : -1;
            if (before == StanceType::DS) s.lo = s.hi = V2(0, side * d);
            else
            {
                s.lo = V2(-c.foot.step, side > 0 ? c.foot.near : -c.foot.far); s.hi = V2(c.foot.step, side > 0 ? c.foot.far : -c.foot.near);
                if (c.hierarchy == 1) { s.lo.x() = s.hi.x(); s.lo.y() = s.hi.y() = side * c.foot.near; }
            }
        }
        return s;
    }
    V2 footXY(const wpg04::Model& m, bool left) { const rigidbody::RigidBodyState& f = left ? m.state_.feet_.getLeft() : m.state_.feet_.getRight(); return f.position_.head(2); }
    double footYaw(const wpg04::Model& m, bool left) { const rigidbody::RigidBodyState& f = left ? m.state_.feet_.getLeft() : m.state_.feet_.getRight(); return f.rpy_.z(); }
    Horizon horizon(const Process& p, const Timeline& T)
    {
        Horizon H; const Config& c = p.cfg; const wpg04::Model& m = p.model; size_t i = T.at(p.walk_time); uint64_t rem = T.s[i].start + T.s[i].dur - p.walk_time;
        H.h = m.state_.com_state_.position_.z(); H.c0 << m.state_.com_state_.position_.x(), m.state_.com_state_.velocity_.x(), m.state_.com_state_.acceleration_.x(), m.state_.com_state_.position_.y(), m.state_.com_state_.velocity_.y(), m.state_.com_state_.acceleration_.y();
        auto velocity = [&](size_t k) -> V2 { const Ref& r = T.s[k]; if (r.type == StanceType::DS) return r.subtype == StanceSubType::FIRST ? p.walk.first_stance_com_velocity_ : p.walk.last_stance_com_velocity_; if (r.type == StanceType::TDS && nextStance(T, k) == StanceType::DS) return p.walk.last_stance_com_velocity_; return p.walk.com_velocity_; };
        int type = T.s[i].type; bool tds = type == StanceType::TDS; if (tds) type = nextStance(T, i);
        double theta = type == StanceType::LSS ? footYaw(m, true) : type == StanceType::RSS ? footYaw(m, false) : (footYaw(m, true) + footYaw(m, false)) / 2;
        H.base = type == StanceType::LSS ? footXY(m, true) : type == StanceType::RSS ? footXY(m, false) : V2((footXY(m, true) + footXY(m, false)) / 2);
        H.support.push_back(makeSupport(c, type, -1, theta));
        auto add = [&](int ms, size_t stance) { if ((int)H.iv.size() < c.N) H.iv.push_back({ms / 1000.0, ms, (int)H.support.size() - 1, rot(H.support.back().theta) * velocity(stance)}); };
        if (tds) { add((int)rem, i); ++i; rem = T.s[i].dur; }
        else if (rem >= (uint64_t)c.N * c.S) {}      // the stance lasts longer than the horizon: whole intervals from now
        else if (rem % c.S) { add((int)(rem % c.S), i); rem -= rem % c.S; }
        for (uint64_t k = 0; k < rem / c.S; ++k) add(c.S, i);
        while ((int)H.iv.size() < c.N)
        {
            ++i;                        // transitional double support: belongs to the next support
            if (i + 1 >= T.s.size()) sim::harnessError("the horizon exceeds the walk");
            int before = H.support.back().type, now = T.s[i + 1].type; double th = H.support.back().theta;
            if (ss(now)) th = before == StanceType::DS ? footYaw(m, now == StanceType::LSS) : th + p.walk.theta_increment_;
            H.step_at.push_back((int)H.iv.size()); H.support.push_back(makeSupport(c, now, before, th)); add(c.tds, i); ++i;
            for (uint64_t k = 0; k < T.s[i].dur / c.S; ++k) add(c.S, i);
        }
        return H;
    }
    struct Motion { std::vector<V2> cop, dcop, foot; std::vector<Eigen::Matrix<double, 6, 1>> c; double scale = 1; };
    // one axis of the pendulum, centre of pressure linear from z0 to z1 in time T, after a time t
    void pendulum(const double* s, double z0, double z1, double T, double w, double t, double* r)
    {
        double v = (z1 - z0) / T, d0 = s[0] - z0, e0 = s[1] - v, ch = std::cosh(w * t), sh = std::sinh(w * t);
        double d = d0 * ch + e0 / w * sh, e = d0 * w * sh + e0 * ch; r[0] = z0 + v * t + d; r[1] = v + e; r[2] = w * w * d;
    }
    Motion roll(const Horizon& H, const V& x)
    {
        Motion m; V2 pos = H.base; int k = 0; double w = std::sqrt(G / H.h); double s[6]; for (int i = 0; i < 6; ++i) s[i] = H.c0[i];
        const int N = H.iv.size();
        std::vector<V2> sup(1, pos);
        for (int q = 1; q < (int)H.support.size(); ++q) { pos += rot(H.support[q - 1].theta) * V2(x[2 * N + 2 * (q - 1)], x[2 * N + 2 * (q - 1) + 1]); sup.push_back(pos); m.foot.push_back(pos); } (void)k;
        for (int i = 0; i < N; ++i)
        {
            const Interval& I = H.iv[i]; V2 z1 = sup[I.support] + rot(H.support[I.support].theta) * V2(x[2 * i], x[2 * i + 1]); V2 z0(s[0] - s[2] / (w * w), s[3] - s[5] / (w * w)); double r[6];
            pendulum(s, z0.x(), z1.x(), I.T, w, I.T, r); pendulum(s + 3, z0.y(), z1.y(), I.T, w, I.T, r + 3);
            m.cop.push_back(z1); m.dcop.push_back((z1 - z0) / I.T); Eigen::Matrix<double, 6, 1> c; for (int j = 0; j < 6; ++j) { s[j] = r[j]; c[j] = r[j]; m.scale = std::max(m.scale, std::fabs(r[j])); } m.c.push_back(c);
        }
        // how much an error in the beginning may grow
        double total = 0; for (auto& I : H.iv) total += I.T; m.scale *= std::cosh(w * total);
        return m;
    }
    bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
    // the state of the motion at a time
    void at(const Horizon& H, const Motion& m, int ms, double* r)
    {
        int i = 0; while (i + 1 < (int)H.iv.size() && ms > H.iv[i].ms) { ms -= H.iv[i].ms; ++i; }
        double w = std::sqrt(G / H.h); const Eigen::Matrix<double, 6, 1>& s = i ? m.c[i - 1] : H.c0; V2 z0(s[0] - s[2] / (w * w), s[3] - s[5] / (w * w));
        pendulum(s.data(), z0.x(), m.cop[i].x(), H.iv[i].T, w, ms / 1000.0, r); pendulum(s.data() + 3, z0.y(), m.cop[i].y(), H.iv[i].T, w, ms / 1000.0, r + 3);
    }
    void checkPrediction(const Process& p, const Horizon& H, const V& x, const char* what)
    {
        const int N = H.iv.size(); Motion m = roll(H, x); double tol = 1e-11 * (1 + m.scale);
        if (x.size() != 2 * N + 2 * H.steps()) sim::fail("wrong-number-of-variables", "the solution has %ld variables, %d intervals and %d steps are previewed", (long)x.size(), N, H.steps());
        auto sizes = [&](const V& v, int n, const char* w) { if (v.size() != n) sim::fail("wrong-prediction", "%s has %ld elements instead of %d", w, (long)v.size(), n); };
        sizes(p.wpg.cop_profile, 2 * N, "predicted centre of pressure"); sizes(p.wpg.cstate_profile, 6 * N, "predicted state"); sizes(p.wpg.dcop_profile, 2 * N, "predicted velocity of the centre of pressure"); sizes(p.wpg.footpos_profile, 2 * H.steps(), "predicted footsteps");
        for (int i = 0; i < N; ++i)
        {
            for (int a = 0; a < 2; ++a)
            {
                if (!near(p.wpg.cop_profile[2 * i + a], m.cop[i][a], 1e-9 * (1 + std::fabs(m.cop[i][a])) + 1e-12 * m.cop[i].norm())) sim::fail("wrong-cop-prediction", "%s: predicted centre of pressure of interval %d is %.12g instead of %.12g", what, i, p.wpg.cop_profile[2 * i + a], m.cop[i][a]);
                if (!near(p.wpg.dcop_profile[2 * i + a], m.dcop[i][a], tol / H.iv[i].T * 10)) sim::fail("wrong-cop-velocity", "%s: predicted velocity of the centre of pressure in interval %d is %.12g instead of %.12g", what, i, p.wpg.dcop_profile[2 * i + a], m.dcop[i][a]);
            }
            for (int j = 0; j < 6; ++j) if (!near(p.wpg.cstate_profile[6 * i + j], m.c[i][j], tol * 10)) sim::fail("wrong-state-prediction", "%s: predicted state at the end of interval %d, element %d is %.12g instead of %.12g", what, i, j, p.wpg.cstate_profile[6 * i + j], m.c[i][j]);
        }
        for (int q = 0; q < H.steps(); ++q) for (int a = 0; a < 2; ++a) if (!near(p.wpg.footpos_profile[2 * q + a], m.foot[q][a], 1e-9 * (1 + std::fabs(m.foot[q][a])))) sim::fail("wrong-footstep-prediction", "%s: predicted footstep %d is %.12g instead of %.12g", what, q, p.wpg.footpos_profile[2 * q + a], m.foot[q][a]);
    }
    // the guess is the previous solution moved on by one interval; steps which are over are dropped, new ones have no guess yet
    void checkGuess(const Process& p, const Horizon& H)
    {
        const int N = H.iv.size(), m = 2 * H.steps(); V want = V::Zero(2 * N + m);
        if (!p.fresh) { const V& o = p.old.get_x(); const int l = o.size() - 2 * N, n = std::min(l, m); want.head(2 * (N - 1)) = o.segment(2, 2 * (N - 1)); want.segment(2 * N, n) = o.segment(2 * N + (l > m ? l - m : 0), n); }
        const V g = p.guess.get_x(); if (g.size() != want.size()) sim::fail("wrong-guess", "the guess has %ld variables instead of %ld", (long)g.size(), (long)want.size());
        for (int i = 0; i < want.size(); ++i) if (g[i] != want[i]) sim::fail("wrong-guess", "variable %d of the guess is %.12g, in the previous solution moved on by one interval it is %.12g (%d intervals, %d steps)", i, g[i], want[i], N, H.steps());
        sim::count("guess");
    }
    void checkComStates(Process& p, const Horizon& H, const V& x, const char* what)
    {
        Motion m = roll(H, x); double tol = 1e-10 * (1 + m.scale); int total = 0; for (auto& I : H.iv) total += I.ms;
        for (int k = 0; k < 4; ++k)
        {
            int t = k == 0 ? 0 : k == 1 ? total : sim::range(0, total); if (k == 2) { t = 0; int e = sim::choose(H.iv.size()); for (int i = 0; i <= e; ++i) t += H.iv[i].ms; }
            rigidbody::PointMassState s = p.wpg.getCoMState(p.model, t); double r[6]; at(H, m, t, r);
            double got[6] = {s.position_.x(), s.velocity_.x(), s.acceleration_.x(), s.position_.y(), s.velocity_.y(), s.acceleration_.y()};
            for (int j = 0; j < 6; ++j) if (!near(got[j], r[j], tol)) sim::fail("wrong-state-in-time", "%s: state after %d of %d ms, element %d is %.12g instead of %.12g", what, t, total, j, got[j], r[j]);
            if (s.position_.z() != H.h || s.velocity_.z() != 0 || s.acceleration_.z() != 0) sim::fail("wrong-height", "%s: the height of the centre of mass changes to %g", what, s.position_.z());
        }
    }
    // ---------------- reference of the optimal motion ----------------
    V residuals(const Horizon& H, const V& x, const double* g)
    {
        const int N = H.iv.size(); Motion m = roll(H, x); V r(6 * N);
        for (int i = 0; i < N; ++i) { V2 v(m.c[i][1], m.c[i][4]); r.segment(2 * i, 2) = g[0] * (v - H.iv[i].vref); r.segment(2 * N + 2 * i, 2) = g[1] * m.dcop[i]; r.segment(4 * N + 2 * i, 2) = g[2] * x.segment(2 * i, 2); }
        return r;
    }
    qpcore::Problem optimal(const Process& p, const Horizon& H)
    {
        const int N = H.iv.size(), n = 2 * N + 2 * H.steps(); V z = V::Zero(n), r0 = residuals(H, z, p.cfg.gains); M J(r0.size(), n); bool term = p.cfg.hierarchy == 2; double w = std::sqrt(G / H.h);
        auto cp = [&](const V& x) { Motion m = roll(H, x); V2 e(m.c.back()[1] + m.c.back()[2] / w, m.c.back()[4] + m.c.back()[5] / w); return e; }; V2 e0 = term ? cp(z) : V2(0, 0); M E(2, n);
        for (int j = 0; j < n; ++j) { V u = z; u[j] = 1; J.col(j) = residuals(H, u, p.cfg.gains) - r0; if (term) E.col(j) = cp(u) - e0; }
        qpcore::Problem q; q.H = J.transpose() * J; q.g = J.transpose() * r0; q.lb.resize(n); q.ub.resize(n);
        for (int i = 0; i < N; ++i) { q.lb.segment(2 * i, 2) = -H.support[H.iv[i].support].box; q.ub.segment(2 * i, 2) = H.support[H.iv[i].support].box; }
        for (int k = 0; k < H.steps(); ++k) { q.lb.segment(2 * N + 2 * k, 2) = H.support[k + 1].lo; q.ub.segment(2 * N + 2 * k, 2) = H.support[k + 1].hi; }
        q.A.resize(0, n); if (term) { q.A = E; q.lbA = q.ubA = -e0; }
        return q;
    }
    void checkOptimal(const Process& p, const Horizon& H, const V& x)
    {
        qpcore::Problem q = optimal(p, H); const int n = q.g.size(); if (x.size() != n) sim::fail("wrong-number-of-variables", "the solution has %ld variables instead of %d", (long)x.size(), n);
        V g = q.H * x + q.g; double scale = 1e-7 * (1 + q.H.diagonal().maxCoeff() + q.g.cwiseAbs().maxCoeff());
        if (p.cfg.hierarchy == 2)
        {   // equalities: remove the part of the gradient they balance
            std::vector<int> fr; for (int i = 0; i < n; ++i) if (x[i] - q.lb[i] > 1e-7 && q.ub[i] - x[i] > 1e-7) fr.push_back(i);
            V res = q.A * x - q.lbA; if (res.cwiseAbs().maxCoeff() > 1e-6 * (1 + q.lbA.cwiseAbs().maxCoeff())) sim::fail("terminal-constraint", "the motion does not end in a capture point at rest: %.9g", res.cwiseAbs().maxCoeff());
            if ((int)fr.size() < 4) return; M F(2, fr.size()); V gf(fr.size()); for (size_t k = 0; k < fr.size(); ++k) { F.col(k) = q.A.col(fr[k]); gf[k] = g[fr[k]]; }
            Eigen::JacobiSVD<M> svd(F, Eigen::ComputeThinU | Eigen::ComputeThinV); if (svd.singularValues().minCoeff() < 1e-3 * svd.singularValues().maxCoeff()) return; V lam = F.transpose().jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(gf); g -= q.A.transpose() * lam; scale *= 100;
        }
        for (int i = 0; i < n; ++i)
        {
            double t = 1e-6 * (1 + std::fabs(q.lb[i]) + std::fabs(q.ub[i])); if (x[i] < q.lb[i] - t || x[i] > q.ub[i] + t) sim::fail("outside-of-limits", "variable %d of the solution is %.9g, outside of [%.9g, %.9g]", i, x[i], q.lb[i], q.ub[i]);
            bool lo = x[i] - q.lb[i] < 1e-7, hi = q.ub[i] - x[i] < 1e-7; 
            if ((g[i] > scale && !lo) || (g[i] < -scale && !hi)) sim::fail("not-optimal", "the motion does not minimise the objectives: slope %.6g along variable %d of %d, which is at %.9g in [%.9g, %.9g]", g[i], i, n, x[i], q.lb[i], q.ub[i]);
        }
    }

    void checkInfeasible(const Process& p, const Horizon& H)
    {
        qpcore::Problem q = optimal(p, H); V w = 1e-3 * (q.ub - q.lb); q.lb += w; q.ub -= w; qpcore::Result r = qpcore::solveRaw(q);
        if (r.status == qpcore::OK) sim::fail("solution-missed", "the controller found no motion within the limits, there are such motions"); sim::count("outcome:infeasible-confirmed");
    }

    // ---------------- the environment of a simulated walk ----------------
    enum Judge { PREDICTION, LIMITS, OPTIMAL };
    struct Rect { V2 c; double th; V2 half; bool in(const V2& z, double tol) const { V2 l = rot(-th) * (z - c); return std::fabs(l.x()) <= half.x() + tol && std::fabs(l.y()) <= half.y() + tol; } void corners(std::vector<V2>& o) const { for (int i = 0; i < 4; ++i) o.push_back(c + rot(th) * V2((i & 1 ? 1 : -1) * half.x(), (i & 2 ? 1 : -1) * half.y())); } };
    bool inHull(const Rect& a, const Rect& b, const V2& z, double tol)
    {
        if (a.in(z, tol) || b.in(z, tol)) return true; std::vector<V2> pts; a.corners(pts); b.corners(pts);
        // outside iff some line separates it
        for (auto& p : pts) for (auto& q : pts)
        {
            V2 d = q - p; if (d.norm() < 1e-12) continue; V2 n(-d.y(), d.x()); n /= d.norm(); double mx = -1e300; for (auto& r : pts) mx = std::max(mx, n.dot(r - p)); if (mx > 1e-9) continue;   // not an edge of the hull
            if (n.dot(z - p) > tol) return false;
        }
        return true;
    }
    V2 copOf(const rigidbody::PointMassState& s) { V2 c = s.position_.head(2), a = s.acceleration_.head(2); return c - a * s.position_.z() / G; }
    Rect areaOf(const Process& p, int type)
    {
        Rect r; const wpg04::Model& m = p.model; const Foot& f = p.cfg.foot; r.half = V2(f.length / 2, f.width / 2);
        if (ss(type)) { bool l = type == StanceType::LSS; r.c = footXY(m, l); r.th = footYaw(m, l); }
        else { r.c = (footXY(m, true) + footXY(m, false)) / 2; r.th = footYaw(m, true); r.half.y() = (f.width + f.dist) / 2; }
        return r;
    }
    void walkRun(Judge J)
    {
        Config cfg = draw(true); if (J == OPTIMAL && cfg.hierarchy == 2 && sim::chance(1, 2)) cfg.hierarchy = 0; Process p(cfg); sim::sample("%s", p.describe().c_str()); sim::event("%s", p.describe().c_str());
        Timeline T(cfg.walk); Rect previous = areaOf(p, cfg.walk.first_stance_); int landings = 0; int walks = sim::chance(1, 6) ? 2 : 1; const double tol = 1e-6;
        V2 planned_landing; bool have_plan = false; double worst = 0;
        int limit = sim::thorough() ? 400 : 120;
        for (int it = 0; it < limit; ++it)
        {
            // ---- what happens between two iterations ----
            if (it && sim::chance(1, 6))
            {
                wpg04::ModelState s = p.model.state_; V2 z = copOf(s.com_state_);
                switch (sim::choose(5))
                {
                    case 0: s.com_state_.velocity_.x() += sim::num(-0.3, 0.3); s.com_state_.velocity_.y() += sim::num(-0.3, 0.3); sim::count("fault:push"); break;
                    case 1: s.com_state_.position_.x() += sim::num(-0.03, 0.03); s.com_state_.position_.y() += sim::num(-0.03, 0.03); sim::count("fault:state-estimate-jump"); break;
                    case 2: drawSpeeds(p.walk); sim::count("fault:command-change"); break;
                    case 3: s.com_state_.position_.z() = some(0.3, 1.5); sim::count("fault:height-change"); break;
                    default: if (sim::chance(1, 2)) { p.walk.theta_increment_ = sim::num(-0.4, 0.4); sim::count("fault:turn-change"); } else { p.walk.com_velocity_ = V2(0, 0); sim::count("fault:command-change"); } break;
                }
                // the centre of pressure is where the contact forces are: a push does not move it out of the support
                s.com_state_.acceleration_.head(2) = (V2(s.com_state_.position_.head(2)) - z) * G / s.com_state_.position_.z();
                p.model.updateState(s); have_plan = false;
            }
            size_t i = T.at(p.walk_time); int type = T.s[i].type; sim::state(sim::mix(sim::mix(type * 8 + nextStance(T, i), (p.walk_time - T.s[i].start) / cfg.sub), sim::mix(cfg.N, cfg.S / cfg.sub * 16 + cfg.tds / cfg.sub)));
            bool covered = T.end() >= p.walk_time + (uint64_t)cfg.N * cfg.S || i < T.last;
            // ---- iteration ----
            control::Fault f; bool ok;
            if (sim::chance(1, 12)) { f.kind = control::Fault::SOLVER; f.at = 1 + sim::choose(3); sim::count("fault:solver-failure"); bool threw = false; try { p.plan(&f); } catch (const std::exception&) { threw = true; } if (!threw && !p.stopped) sim::fail("failure-not-reported", "the solver failed, the iteration did not"); p.stopped = false; }
            control::Excuse excuse; try { ok = p.plan(); }
            catch (const std::exception& e) { if (cfg.hierarchy == 2 && excuse.solver()) { if (J == OPTIMAL) checkInfeasible(p, horizon(p, T)); sim::count("outcome:no-solution"); return; } sim::fail("iteration-failed", "iteration %d at %llu ms (%s) failed: %s", it, (unsigned long long)p.walk_time, sname(type), e.what()); }
            if (J == LIMITS && ok != covered) sim::fail("wrong-end", "at %llu of %llu ms with a horizon of %d ms the controller %s", (unsigned long long)p.walk_time, (unsigned long long)T.end(), cfg.N * cfg.S, ok ? "goes on" : "stops");
            if (!ok)
            {
                if (J == LIMITS)
                {
                    if (type != StanceType::DS) sim::fail("wrong-end", "the walk ends in %s", sname(type));
                    int expected = 0; for (size_t k = 0; k + 1 <= T.last; ++k) if (ss(T.s[k].type)) ++expected;
                    if (landings != expected) sim::fail("wrong-number-of-steps", "%d steps were made instead of %d", landings, expected);
                }
                sim::count("outcome:walk-completed"); sim::nontrivial(); if (--walks == 0) break;
                wpg04::WalkParameters w; drawWalk(w, cfg.N, cfg.S, true, true); w.tds_duration_ms_ = cfg.tds; p.restartWalk(w); T = Timeline(w); landings = 0; previous = areaOf(p, StanceType::DS); sim::event("next walk: %zu steps", w.num_steps_); have_plan = false; continue;
            }
            Horizon H = horizon(p, T); V x = p.solution.get_x();
            if (J == PREDICTION)
            {
                if (cfg.call == 1 || cfg.call == 2) checkGuess(p, H);
                sim::nontrivial(); checkPrediction(p, H, x, "solution");
                checkComStates(p, H, x, "solution");
                Motion m = roll(H, x); double r[6]; at(H, m, cfg.sub, r); const rigidbody::PointMassState& s = p.next.com_state_; double got[6] = {s.position_.x(), s.velocity_.x(), s.acceleration_.x(), s.position_.y(), s.velocity_.y(), s.acceleration_.y()};
                for (int j = 0; j < 6; ++j) if (!near(got[j], r[j], 1e-10 * (1 + m.scale))) sim::fail("wrong-next-state", "the next state differs from the prediction at %d ms: element %d is %.12g instead of %.12g", cfg.sub, j, got[j], r[j]);
                if (s.position_.z() != H.h || s.velocity_.z() != 0 || s.acceleration_.z() != 0) sim::fail("wrong-height", "the height of the centre of mass changes to %g", s.position_.z());
                if (sim::chance(1, 4))
                {   // any other solution
                    Solution other = p.solution; Location all(0, x.size()); V y(x.size()); for (int k = 0; k < y.size(); ++k) y[k] = sim::num(-1, 1); other.getData(all) = y; wpg04::MPCforWPG keep = p.wpg; p.wpg.parseSolution(other); checkPrediction(p, H, y, "arbitrary solution"); checkComStates(p, H, y, "arbitrary solution"); sim::count("arbitrary-solution");
                    p.wpg.parseSolution(p.solution);
                }
            }
            if (J == OPTIMAL) { checkOptimal(p, H, x); sim::nontrivial(); }
            if (J == LIMITS)
            {
                Motion m = roll(H, x);
                for (int k = 0; k < cfg.N; ++k)
                {   // at the ends of the intervals; between them the centre of pressure moves along a line
                    int q = H.iv[k].support; Rect a; a.th = H.support[q].theta; a.half = H.support[q].box; V2 z(p.wpg.cop_profile[2 * k], p.wpg.cop_profile[2 * k + 1]); a.c = q ? V2(p.wpg.footpos_profile[2 * (q - 1)], p.wpg.footpos_profile[2 * (q - 1) + 1]) : H.base;
                    if (!a.in(z, tol)) { V2 l = rot(-a.th) * (z - a.c); sim::fail("predicted-balance", "the predicted centre of pressure of interval %d is (%.9g, %.9g) in the frame of its support, outside of +-(%.9g, %.9g)", k, l.x(), l.y(), a.half.x(), a.half.y()); }
                }
                for (int q = 0; q < H.steps(); ++q)
                {
                    V2 here(p.wpg.footpos_profile[2 * q], p.wpg.footpos_profile[2 * q + 1]), from = q ? V2(p.wpg.footpos_profile[2 * q - 2], p.wpg.footpos_profile[2 * q - 1]) : H.base; V2 l = rot(-H.support[q].theta) * (here - from); const Support& s = H.support[q + 1];
                    for (int a = 0; a < 2; ++a) if (l[a] < s.lo[a] - tol || l[a] > s.hi[a] + tol) sim::fail("predicted-reach", "predicted step %d (%s after %s) is (%.9g, %.9g) from its support, outside of [%.9g, %.9g] x [%.9g, %.9g]", q, sname(s.type), sname(H.support[q].type), l.x(), l.y(), s.lo.x(), s.hi.x(), s.lo.y(), s.hi.y());
                }
                (void)m;
            }
            V2 announced = H.steps() ? V2(p.wpg.footpos_profile[0], p.wpg.footpos_profile[1]) : V2(0, 0); double announced_th = H.steps() ? H.support[1].theta : 0; (void)planned_landing; (void)have_plan;
            wpg04::ModelState before = p.model.state_; rigidbody::RigidBodyState landing; bool asked = J == PREDICTION && ss(type) && H.steps() && sim::chance(1, 2); if (asked) landing = p.wpg.getFootLandingState(p.model);
            if (asked && H.support[1].type != StanceType::DS) { V2 l = landing.position_.head(2); if ((l - announced).norm() > 1e-12 || !near(landing.rpy_.z(), announced_th, 1e-12)) sim::fail("wrong-landing-announced", "the landing state of the foot is announced at (%.9g, %.9g, %.9g), the prediction has (%.9g, %.9g, %.9g)", l.x(), l.y(), landing.rpy_.z(), announced.x(), announced.y(), announced_th); }
            p.commit(); const wpg04::ModelState& now = p.model.state_; size_t j = T.at(p.walk_time); int ntype = T.s[j].type;
            bool land = ntype == StanceType::TDS && ss(type) && j != i;
            worst = std::max(worst, now.com_state_.position_.head(2).cwiseAbs().maxCoeff());
            if (J == LIMITS || J == PREDICTION)
            {
                if ((int)now.stance_type_ != ntype) sim::fail("wrong-stance", "the stance of the model is %s instead of %s", sname(now.stance_type_), sname(ntype));
            }
            int sup = land || ntype == StanceType::TDS ? nextStance(T, j) : ntype;
            if (land)
            {
                ++landings; bool lands_left = type == StanceType::RSS; V2 at = footXY(p.model, lands_left);
                if (J == PREDICTION)
                {
                    if ((V2(p.model.current_support_position_) - announced).norm() > 1e-10 * (1 + announced.norm())) sim::fail("step-not-realised", "the support after the step is at (%.9g, %.9g), the prediction was (%.9g, %.9g)", p.model.current_support_position_.x(), p.model.current_support_position_.y(), announced.x(), announced.y());
                    if (!near(footYaw(p.model, lands_left), announced_th, 1e-12)) sim::fail("step-not-realised", "the foot lands with orientation %.9g instead of the predicted %.9g", footYaw(p.model, lands_left), announced_th);
                    if (asked && (V2(landing.position_.head(2)) - at).norm() > 1e-12) sim::fail("step-not-realised", "the foot does not land at the announced position");
                }
                if (J == LIMITS)
                {
                    V2 from = footXY(p.model, !lands_left); double th = footYaw(p.model, !lands_left); V2 l = rot(-th) * (at - from); double side = lands_left ? 1 : -1; const Foot& f = cfg.foot;
                    if (sup == StanceType::DS) { if (std::fabs(l.x()) > tol || std::fabs(l.y() - side * f.dist) > tol) sim::fail("feet-not-together", "the last step lands at (%.9g, %.9g) from the other foot instead of (0, %.9g)", l.x(), l.y(), side * f.dist); if (!near(footYaw(p.model, lands_left), th, 1e-9)) sim::fail("feet-not-together", "the feet are not aligned after the last step"); }
                    else if (l.x() < -f.step - tol || l.x() > f.step + tol || side * l.y() < f.near - tol || side * l.y() > f.far + tol) sim::fail("unreachable-step", "the %s foot lands at (%.9g, %.9g) in the frame of the support foot: reachable are +-%.9g, %.9g to %.9g", lands_left ? "left" : "right", l.x(), l.y(), f.step, f.near, f.far);
                    if (!near(now.feet_.getLeft().position_.z(), cfg.foot_z, 1e-12) && lands_left) sim::fail("unreachable-step", "the foot lands at another height");
                }
                sim::count("step");
            }
            if (J == LIMITS)
            {
                for (int l = 0; l < 2; ++l)
                {
                    bool supports = ntype == StanceType::DS || ntype == StanceType::TDS || (l ? ntype == StanceType::LSS : ntype == StanceType::RSS), did = type == StanceType::DS || type == StanceType::TDS || (l ? type == StanceType::LSS : type == StanceType::RSS);
                    const rigidbody::RigidBodyState &a = l ? before.feet_.getLeft() : before.feet_.getRight(), &b = l ? now.feet_.getLeft() : now.feet_.getRight();
                    if (did && supports && (a.position_ != b.position_ || a.rpy_ != b.rpy_)) sim::fail("supporting-foot-moved", "the %s foot moved while it supported (%s to %s)", l ? "left" : "right", sname(type), sname(ntype));
                }
                // balance now
                V2 z = copOf(now.com_state_); Rect area = areaOf(p, sup); double t2 = tol + 1e-9 * now.com_state_.position_.head(2).norm();
                if (ntype == StanceType::TDS || (type == StanceType::TDS && p.walk_time == T.s[j].start)) { if (land) { int s0 = type; previous = areaOf(p, s0); } if (!inHull(previous, area, z, t2)) sim::fail("balance", "the centre of pressure leaves the support in a transitional double support"); }
                else if (!area.in(z, t2)) { V2 l = rot(-area.th) * (z - area.c); sim::fail("balance", "at %llu ms in %s the centre of pressure is (%.9g, %.9g) in the frame of the support, outside of +-(%.9g, %.9g)", (unsigned long long)p.walk_time, sname(ntype), l.x(), l.y(), area.half.x(), area.half.y()); }
                if (ntype != StanceType::TDS) previous = area;
            }
            sim::digestDouble(now.com_state_.position_.x()); sim::digestDouble(now.com_state_.position_.y());
            if (worst > 50) { sim::count("outcome:fell"); break; }
        }
    }
    sim::Scenario s13("C13", "at every iteration the prediction of the walking controller is the motion of the pendulum", [] { walkRun(PREDICTION); });
    sim::Scenario s14("C14", "balance and reach hold at every iteration, the walk completes", [] { walkRun(LIMITS); });

    struct F : control::Factory { Config c; control::Ptr start() { return control::Ptr(new Process(c)); } };
}
namespace wpgsim { void optimal() { walkRun(OPTIMAL); } }
std::shared_ptr<control::Factory> control::drawWpg(bool small) { std::shared_ptr<F> f(new F); f->c = ::draw(small); f->c.extra_task = true; return f; }
