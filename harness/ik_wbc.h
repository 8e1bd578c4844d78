// C24, part of ik.cpp: tasks, control loops and commands of pepper_ik.
#pragma once
namespace ik
{
    namespace pik = humoto::pepper_ik; typedef humoto::config::yaml::Reader Reader; typedef humoto::config::yaml::Writer Writer;
    enum { PLANAR = pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_PLANAR, TIBIA = pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TIBIA, TORSO = pik::ModelFeatures::FIXED_WHEELS | pik::ModelFeatures::ROOT_TORSO };
    inline const char* modelFile(int F) { return pepperFile(F == PLANAR ? 2 : F == TIBIA ? 1 : 0); }
    inline const char* modelName(int F) { return F == PLANAR ? "planar" : F == TIBIA ? "tibia" : "torso"; }
    const double POSITION_TOLERANCE = 1e-7, WHEEL_RADIUS = 0.07, WHEEL_LIMIT = 6.28319;
    const char* const HEAD[] = {"HeadYaw", "HeadPitch"};
    const char* const ARMS[] = {"LShoulderPitch", "LShoulderRoll", "LElbowYaw", "LElbowRoll", "LWristYaw", "RShoulderPitch", "RShoulderRoll", "RElbowYaw", "RElbowRoll", "RWristYaw"};
    const char* const LEGS[] = {"KneePitch", "HipPitch", "HipRoll"};

    // what the description of the robot says about it
    struct Robot
    {
        Tree t; int F, root; std::map<std::string, int> joint; V lo, hi, vmax; int base, torso, foot; std::vector<int> body, all; std::string text;
        explicit Robot(int f) : F(f)
        {
            text = slurp(repo() + "/modules/pepper_ik/config/" + modelFile(F)); urdf_mini::Robot r; if (!urdf_mini::parse(text, r)) sim::harnessError("bad URDF"); t.build(r, F != PLANAR);
            root = F == PLANAR ? 3 : 6; int n = t.nq - root; lo.resize(n); hi.resize(n); vmax.resize(n);
            for (auto& k : t.n) if (k.dofs.size() == 1) { int i = k.q - root; joint[k.joint] = i; lo[i] = k.lower; hi[i] = k.upper; vmax[i] = k.velocity; }
            all = t.moving(); base = t.carrier(t.at("Tibia")); torso = t.at("torso"); foot = t.at("base_footprint"); for (int i : all) if (i != base) body.push_back(i);
        }
        int nj() const { return t.nq - root; }
    };
    inline double inside(double lo, double hi) { return lo + (hi - lo) * (0.02 + 0.96 * sim::choose(1001) / 1000.0); }
    // joint angles: near the usual posture, anywhere within the limits, at the limits
    inline V anyJoints(const Robot& r)
    {
        V j(r.nj()); int how = sim::choose(5);
        static const std::map<std::string, double> usual = {{"KneePitch", -0.2}, {"HipPitch", 0.42}, {"HeadPitch", 0.07}, {"LShoulderPitch", 1.6}, {"LShoulderRoll", 0.12}, {"LElbowYaw", -1.22}, {"LElbowRoll", -0.52}, {"RShoulderPitch", 1.6}, {"RShoulderRoll", -0.12}, {"RElbowYaw", 1.22}, {"RElbowRoll", 0.52}};
        for (auto& k : r.joint) { int i = k.second; auto u = usual.find(k.first); double c = u == usual.end() ? 0 : u->second; j[i] = how < 2 ? std::min(std::max(c + (how ? sim::num(-0.1, 0.1) : 0), r.lo[i]), r.hi[i]) : inside(r.lo[i], r.hi[i]); if (how == 4 && sim::chance(1, 4)) j[i] = sim::chance(1, 2) ? r.lo[i] : r.hi[i]; }
        return j;
    }
    template<int F> struct State
    {
        typedef pik::GeneralizedCoordinates<F> GC;
        // the root: where the base stands, how it is turned and tilted
        static void place(GC& g, const Robot& r, const V3& p, const V3& rpy)
        {
            if (F == PLANAR) { g.setRootPosition(V3(p[0], p[1], 0)); g.setRootOrientation(V3(0, 0, rpy[2])); }
            else { g.setRootPosition(p); g.setRootOrientation(rpy); }
            (void)r;
        }
        static GC any(const Robot& r)
        {
            GC g; double w = sim::chance(1, 3) ? 0 : sim::chance(1, 2) ? 1 : 5; double tilt = F == PLANAR || sim::chance(1, 3) ? 0 : 0.3;
            place(g, r, V3(sim::num(-w, w), sim::num(-w, w), F == TORSO ? 0.8 + sim::num(-0.1, 0.1) : sim::num(-0.1, 0.1)), V3(sim::num(-tilt, tilt), sim::num(-tilt, tilt), sim::num(-3.1, 3.1)));
            g.joint_angles_ = anyJoints(r); return g;
        }
    };
    template<int F> void loadModel(pik::Model<F>& m, const Robot& r)
    {
        std::string file = sim::scratch() + "/" + modelName(F) + ".urdf"; if (access(file.c_str(), F_OK)) spill(file, r.text);
        try { m.loadParameters(file); } catch (const std::exception& e) { fail("unexpected-error", "loadParameters() failed: %s", e.what()); }
    }
    // quantities of the model against the tree in the same configuration
    template<int F> void checkModel(const pik::Model<F>& m, Robot& r, const V& q)
    {
        Tree& t = r.t; t.fk(q); const double tol = 1e-9 * (1 + q.cwiseAbs().maxCoeff()); M J;
        if (!near(m.getState().asVector(), q, 1e-12)) fail("wrong-state", "the state of the model is not the one it was given");
        if (!near(m.getBaseCoM(), t.com({r.base}), tol)) fail("wrong-com", "%s: centre of mass of the base is wrong by %g", modelName(F), off(m.getBaseCoM(), t.com({r.base})));
        if (!near(m.getBodyCoM(), t.com(r.body), tol)) fail("wrong-com", "%s: centre of mass of the body is wrong by %g", modelName(F), off(m.getBodyCoM(), t.com(r.body)));
        if (!near(m.getCoM(), t.com(r.all), tol)) fail("wrong-com", "%s: centre of mass is wrong by %g", modelName(F), off(m.getCoM(), t.com(r.all)));
        if (std::fabs(m.getBaseMass() - t.mass({r.base})) > 1e-9 || std::fabs(m.getBodyMass() - t.mass(r.body)) > 1e-9 || std::fabs(m.getMass() - t.mass(r.all)) > 1e-9) fail("wrong-mass", "%s: masses are wrong", modelName(F));
        if (!near(m.getBaseOrientation(), t.n[r.foot].R, tol) || !near(m.getBasePosition(), t.n[r.foot].p, tol)) fail("wrong-base", "%s: pose of the base is wrong", modelName(F));
        const M3& R = t.n[r.foot].R; if (std::fabs(R(2, 0)) < 0.9 && std::fabs(std::remainder(m.getBaseYaw() - std::atan2(R(1, 0), R(0, 0)), 2 * M_PI)) > 1e-8) fail("wrong-yaw", "%s: yaw of the base is wrong", modelName(F));
        m.getBaseCoMJacobian(J); if (!near(J, t.comJac({r.base}), tol)) fail("wrong-jacobian", "%s: Jacobian of the centre of mass of the base is wrong", modelName(F));
        m.getBodyCoMJacobian(J); if (!near(J, t.comJac(r.body), tol)) fail("wrong-jacobian", "%s: Jacobian of the centre of mass of the body is wrong", modelName(F));
        m.getCoMJacobian(J); if (!near(J, t.comJac(r.all), tol)) fail("wrong-jacobian", "%s: Jacobian of the centre of mass is wrong", modelName(F));
        m.getBaseOrientationJacobian(J); if (!near(J, t.jac(r.foot, t.n[r.foot].p).topRows(3), tol)) fail("wrong-jacobian", "%s: rotational Jacobian of the base is wrong", modelName(F));
        int i = sim::choose(t.n.size()); humoto::rbdl::TagLinkPtr tag = m.getLinkTag(t.n[i].name);
        if (!near(m.getTagPosition(tag), t.n[i].p, tol) || !near(m.getTagOrientation(tag), t.n[i].R, tol)) fail("wrong-pose", "%s: pose of link %s is wrong", modelName(F), t.n[i].name.c_str());
        M A = t.jac(i, t.n[i].p); m.getTagCompleteJacobian(J, tag); if (!near(J, A, tol)) fail("wrong-jacobian", "%s: Jacobian of link %s is wrong", modelName(F), t.n[i].name.c_str());
        m.getTagOrientationJacobian(J, tag); if (!near(J, A.topRows(3), tol)) fail("wrong-jacobian", "%s: rotational Jacobian of link %s is wrong", modelName(F), t.n[i].name.c_str());
    }
    template<int F> void checkLimits(const pik::Model<F>& m, const Robot& r)
    {
        typedef pik::ModelDescription<F> D;
        if ((int)D::JOINTS_DOF_NUMBER != r.nj() || (int)D::ROOT_DOF_NUMBER != r.root) fail("wrong-dof", "%s: wrong number of degrees of freedom", modelName(F));
        for (auto& j : r.joint)
        {
            int i = j.second; const auto& c = m.constraints_;
            if (std::fabs(c.joint_position_bounds_min_[i] - r.lo[i]) > 1e-9 || std::fabs(c.joint_position_bounds_max_[i] - r.hi[i]) > 1e-9) fail("wrong-limit", "%s: limits of joint %s are [%g, %g] instead of [%g, %g]", modelName(F), j.first.c_str(), c.joint_position_bounds_min_[i], c.joint_position_bounds_max_[i], r.lo[i], r.hi[i]);
            if (std::fabs(c.joint_velocity_bounds_[i] - r.vmax[i]) > 1e-9) fail("wrong-limit", "%s: limit of the velocity of joint %s is %g instead of %g", modelName(F), j.first.c_str(), c.joint_velocity_bounds_[i], r.vmax[i]);
        }
        typename State<F>::GC g; for (auto& j : r.joint) if (g.joint_angles_[j.second] < r.lo[j.second] || g.joint_angles_[j.second] > r.hi[j.second]) fail("wrong-default", "%s: the default angle of joint %s is outside of its limits", modelName(F), j.first.c_str());
    }

    // ------------------------------------------------------------ one robot described in three ways
    template<int G> void transfer(const Robot& from, const V& joints, const V3& p, const V3& rpy, const Tree& ref, const Robot& ref_robot)
    {
        Robot r(G); pik::Model<G> m; loadModel(m, r); typename State<G>::GC g; State<G>::place(g, r, p, rpy);
        for (auto& j : from.joint) g.joint_angles_[r.joint[j.first]] = joints[j.second];
        V3 back; g.getRootPosition(back); if (!near(back, p, 1e-12)) fail("wrong-root", "%s: position of the root was changed", modelName(G));
        g.getRootOrientation(back); if (!near(rpyMatrix(back), rpyMatrix(rpy), 1e-7)) fail("wrong-root", "%s: orientation of the root was changed", modelName(G));
        m.updateState(g); checkModel(m, r, g.asVector()); checkLimits(m, r);
        if (!near(m.getCoM(), ref.com(ref_robot.all), 1e-6) || !near(m.getBodyCoM(), ref.com(ref_robot.body), 1e-6) || !near(m.getBaseCoM(), ref.com({ref_robot.base}), 1e-6)) fail("models-differ", "%s and %s: centres of mass differ in the same posture", modelName(from.F), modelName(G));
        static const char* tags[] = {"Head", "l_wrist", "r_wrist", "base_footprint", "CameraTop_optical_frame", "RForeArm", "l_gripper"}; const char* n = tags[sim::choose(7)];
        humoto::rbdl::TagLinkPtr tag = m.getLinkTag(n); const Node& k = ref.n[ref.at(n)];
        if (!near(m.getTagPosition(tag), k.p, 1e-6) || !near(m.getTagOrientation(tag), k.R, 1e-6)) fail("models-differ", "%s and %s: poses of %s differ in the same posture by %g, %g", modelName(from.F), modelName(G), n, off(m.getTagPosition(tag), k.p), off(m.getTagOrientation(tag), k.R));
        humoto::rigidbody::RigidBodyPose torso = m.getTorsoRootPose(); if (G == TORSO && (!near(torso.position_, p, 1e-7) || !near(rpyMatrix(torso.rpy_), rpyMatrix(rpy), 1e-6))) fail("wrong-root", "pose of the torso is not that of the root");
    }
    template<int OUT, int IN> void reorder(const Robot& out, const Robot& in)
    {
        int rows = sim::range(1, 4); M A = M::Zero(rows, in.t.nq); for (int i = 0; i < A.size(); ++i) A.data()[i] = sim::num(-2, 2);
        M B = A; pik::ModelDescriptionBase<pik::ModelFeatures::FIXED_WHEELS>::template reorderJointsColumns<OUT, IN>(B);
        if (B.rows() != rows || B.cols() != out.t.nq) fail("wrong-order", "a matrix with reordered columns has wrong size");
        for (auto& j : in.joint) if (!near(B.col(out.root + out.joint.at(j.first)), A.col(in.root + j.second), 0)) fail("wrong-order", "column of joint %s was moved to a wrong place", j.first.c_str());
    }
    void same()
    {
        RigidBodyDynamics::stub::multiDoF() = sim::choose(3); Robot r(PLANAR); pik::Model<PLANAR> m; loadModel(m, r); int n = sim::range(1, 3);
        for (int k = 0; k < n; ++k)
        {
            sim::step(); State<PLANAR>::GC g = State<PLANAR>::any(r); m.updateState(g); checkModel(m, r, g.asVector()); checkLimits(m, r);
            humoto::rigidbody::RigidBodyPose torso = m.getTorsoRootPose(); const Node& t = r.t.n[r.torso];
            if (!near(torso.position_, t.p + t.R * V3(-2e-5, 0, 0.139), 1e-9) || !near(rpyMatrix(torso.rpy_), t.R, 1e-6)) fail("wrong-root", "pose of the torso is wrong");
            V3 tp = torso.position_, ta = torso.rpy_, bp = r.t.n[r.foot].p, ba = V3(0, 0, g.asVector()[2]);
            if (sim::chance(1, 2)) transfer<TORSO>(r, g.joint_angles_, tp, ta, r.t, r); else transfer<TIBIA>(r, g.joint_angles_, bp, ba, r.t, r);
            Robot s(TORSO), b(TIBIA); switch (sim::choose(4)) { case 0: reorder<TORSO, PLANAR>(s, r); break; case 1: reorder<PLANAR, TORSO>(r, s); break; case 2: reorder<TIBIA, TORSO>(b, s); break; default: reorder<PLANAR, TIBIA>(r, b); }
            for (int i = 0; i < 18; ++i) sim::digestDouble(g.asVector()[i]);
        }
        sim::nontrivial(); sim::sample("three descriptions of one robot in %d postures", n);
    }

    // ------------------------------------------------------------ tasks
    enum Kind { BASECOM, BODYCOM, BASEORIENT, JOINTSREF, FIXARMS, FIXHEAD, TAGORIENT, TAGANGVEL, TAGVEL, TAGPOSE, TAGPOSE3, NEQ, BOUNDS = NEQ, DAMP };
    inline const char* className(int k) { static const char* n[] = {"TaskBaseCoMTracking", "TaskBodyCoMTracking", "TaskBaseOrientation", "TaskJointsReference", "TaskFixArms", "TaskFixHead", "TaskTagOrientation", "TaskTagAngularVelocity", "TaskTagCompleteVelocity", "TaskTagPose", "TaskTagPose3Dof", "TaskJointsBounds", "TaskZeroVariables"}; return n[k]; }
    const char* const TAGS[] = {"Head", "CameraTop_optical_frame", "l_wrist", "r_gripper", "torso", "base_footprint"};
    struct Spec { int kind = 0; double gain = 1, k = 1; int axes = 7; std::string tag, id, part; V3 rpy = V3::Zero(); V ref; };
    template<int F> struct Goal { pik::MotionParameters p; std::map<std::string, etools::Vector6> vel; std::map<std::string, std::pair<V3, V3>> pose; double dt = 0.01; };   // velocities of tags (translation first, local); desired positions and rotations (rpy)
    template<int F> humoto::TaskSharedPointer make(const Spec& s)
    {
        typedef humoto::TaskSharedPointer P;
        switch (s.kind)
        {
            case BASECOM: return P(new pik::TaskBaseCoMTracking<F>(s.gain, s.k)); case BODYCOM: return P(new pik::TaskBodyCoMTracking<F>(s.gain, s.k, s.axes, s.id.c_str())); case BASEORIENT: return P(new pik::TaskBaseOrientation<F>(s.gain, s.k));
            case JOINTSREF: return P(new pik::TaskJointsReference<F>(s.gain, s.k)); case FIXARMS: return P(new pik::TaskFixArms<F>); case FIXHEAD: return P(new pik::TaskFixHead<F>); case TAGORIENT: return P(new pik::TaskTagOrientation<F>(s.tag, s.rpy, s.gain, s.k));
            case TAGANGVEL: return P(new pik::TaskTagAngularVelocity<F>(s.tag, s.gain, s.k)); case TAGVEL: return P(new pik::TaskTagCompleteVelocity<F>(s.tag, s.gain, s.k)); case TAGPOSE: return P(new pik::TaskTagPose<F>(s.tag, s.gain, s.k)); case TAGPOSE3: return P(new pik::TaskTagPose3Dof<F>(s.tag, s.gain, s.k));
            case BOUNDS: return P(new pik::TaskJointsBounds<F>); default: return P(new humoto::TaskZeroVariables(s.gain, s.id, s.part));
        }
    }
    template<int F> V defaultReference() { typename State<F>::GC g; return g.joint_angles_; }
    inline std::string num17(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
    inline std::string list(const V& v) { std::string s = "["; for (int i = 0; i < v.size(); ++i) s += (i ? ", " : "") + num17(v[i]); return s + "]"; }
    inline std::string yaml(const Spec& s, const std::string& pad)
    {
        std::vector<std::string> e;
        if (s.kind == FIXARMS || s.kind == FIXHEAD || s.kind == BOUNDS) return pad + "{}\n";
        e.push_back("gain: " + num17(s.gain));
        switch (s.kind)
        {
            case BASECOM: e.push_back("k_position_gain: " + num17(s.k)); break; case BODYCOM: e.push_back("k_position_gain: " + num17(s.k)); e.push_back("axis_flag: " + std::to_string(s.axes)); break;
            case BASEORIENT: e.push_back("k_orientation_gain: " + num17(s.k)); break; case JOINTSREF: e.push_back("k_position_gain: " + num17(s.k)); e.push_back("joint_angles_reference: " + list(s.ref)); break;
            case TAGORIENT: e.push_back("k_orientation_gain: " + num17(s.k)); e.push_back("tag_string_id: " + s.tag); e.push_back("reference_rpy: " + list(s.rpy)); break;
            case TAGANGVEL: e.push_back("k_angular_velocity_gain: " + num17(s.k)); e.push_back("tag_string_id: " + s.tag); break; case TAGVEL: e.push_back("k_complete_velocity_gain: " + num17(s.k)); e.push_back("tag_string_id: " + s.tag); break;
            case TAGPOSE: case TAGPOSE3: e.push_back("k_pose_gain: " + num17(s.k)); e.push_back("tag_string_id: " + s.tag); break;
            default: e.push_back("variables_id: " + s.part);
        }
        for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[sim::choose(i)]);
        std::string r; for (auto& l : e) r += pad + l + "\n"; return r;
    }
    inline Spec anySpec(const Robot& r, int kind, const V& dflt)
    {
        Spec s; s.kind = kind; s.gain = sim::chance(1, 2) ? 1 : hier::gainVal(); s.k = sim::chance(1, 2) ? 1 : 0.25 * sim::range(1, 8); s.id = className(kind); s.ref = dflt;
        if (kind == BODYCOM && sim::chance(1, 2)) s.axes = 1 + sim::choose(7);
        if (kind >= TAGORIENT && kind <= TAGPOSE3) s.tag = TAGS[sim::choose(6)];
        if (kind == TAGORIENT) s.rpy = V3(sim::num(-1, 1), sim::num(-1, 1), sim::num(-3, 3));
        if (kind == DAMP) s.part = sim::chance(1, 2) ? pik::JOINTS_VARIABLES_ID : pik::ROOT_VARIABLES_ID;
        (void)r; return s;
    }
    // rows of a task (the tree is in the configuration of the model)
    template<int F> void rows(const Spec& s, const Robot& r, const V& q, const Goal<F>& g, M& A, V& b)
    {
        const Tree& t = r.t; int n = t.nq; bool weighted = true; int tag = s.tag.empty() ? -1 : t.at(s.tag); etools::Vector6 vel; vel.setZero();
        if (g.vel.count(s.tag)) vel = g.vel.at(s.tag);
        auto select = [&](const char* const* names, int k) { A = M::Zero(k, n); b = V::Zero(k); for (int i = 0; i < k; ++i) A(i, r.root + r.joint.at(names[i])) = 1; weighted = false; };
        switch (s.kind)
        {
            case BASECOM: A = t.comJac({r.base}); b = s.k * (g.p.base_com_position_ - t.com({r.base})); if (F == PLANAR) { A.conservativeResize(2, n); b.conservativeResize(2); } break;
            case BODYCOM: { M a = t.comJac(r.body); V e = s.k * (g.p.body_com_position_ - t.com(r.body)); std::vector<int> pick; for (int i = 0; i < 3; ++i) if (s.axes & (1 << i)) pick.push_back(i); A.resize(pick.size(), n); b.resize(pick.size()); for (size_t i = 0; i < pick.size(); ++i) { A.row(i) = a.row(pick[i]); b[i] = e[pick[i]]; } break; }
            case BASEORIENT: { A = t.jac(r.foot, t.n[r.foot].p).topRows(3); b = s.k * rotationError(t.n[r.foot].R, rpyMatrix(g.p.base_orientation_rpy_)); if (F == PLANAR) { M a = A.bottomRows(1); V c = b.tail(1); A = a; b = c; } break; }
            case JOINTSREF: A = M::Zero(r.nj(), n); A.rightCols(r.nj()).setIdentity(); b = s.k * (s.ref - q.tail(r.nj())); break;
            case FIXARMS: select(ARMS, 10); break; case FIXHEAD: select(HEAD, 2); break;
            case TAGORIENT: A = t.jac(tag, t.n[tag].p).topRows(3); b = s.k * rotationError(t.n[tag].R, rpyMatrix(s.rpy)); break;
            case TAGANGVEL: A = t.jac(tag, t.n[tag].p).topRows(3); b = s.k * (t.n[tag].R * vel.tail(3)); break;
            case TAGVEL: A = t.jac(tag, t.n[tag].p); b.resize(6); b.head(3) = s.k * (t.n[tag].R * vel.tail(3)); b.tail(3) = s.k * (t.n[tag].R * vel.head(3)); break;
            case TAGPOSE: case TAGPOSE3: A = t.jac(tag, t.n[tag].p); b = V::Zero(6); if (g.pose.count(s.tag)) { b.head(3) = s.k * rotationError(t.n[tag].R, rpyMatrix(g.pose.at(s.tag).second)); b.tail(3) = s.k * (g.pose.at(s.tag).first - t.n[tag].p); } if (s.kind == TAGPOSE3) b.segment(2, 3).setZero(); break;   // (TaskTagPose3Dof: no motion except rotation about x, y and translation along z)
            default: { bool j = s.part == pik::JOINTS_VARIABLES_ID; int k = j ? r.nj() : r.root; A = M::Zero(k, n); A.middleCols(j ? r.root : 0, k).setIdentity(); b = V::Zero(k); }
        }
        if (weighted) { A *= s.gain; b *= s.gain; }
    }
    // the tasks of a level as the code assembles them against those of the tree
    template<int F> void checkLevel(const humoto::HierarchyLevel& h, const std::vector<Spec>& specs, const Robot& r, const V& q, const Goal<F>& g, const humoto::SolutionStructure& st, const char* what)
    {
        int n = r.t.nq; M H = M::Zero(n, n), A; V y = V::Zero(n), b; double scale = 1; int bounds = 0;
        for (auto& s : specs) { if (s.kind == BOUNDS) { ++bounds; continue; } rows<F>(s, r, q, g, A, b); H += A.transpose() * A; y += A.transpose() * b; scale = std::max(scale, A.squaredNorm() + (A.transpose() * b).norm()); }
        humoto::constraints::ContainerALU c; h.getAllConstraints(c, st); M CH = M::Zero(n, n); V cy = V::Zero(n); std::vector<char> seen(r.nj(), 0); V wlo = r.lo - q.tail(r.nj()), whi = r.hi - q.tail(r.nj());
        for (int i = 0; i < (int)c.getA().rows(); ++i)
        {
            M a = c.getA().row(i); double lo = c.getLowerBounds()[i], hi = c.getUpperBounds()[i];
            if (lo == hi) { CH += a.transpose() * a; cy += a.transpose() * lo; continue; }
            int at = -1; for (int k = 0; k < r.nj(); ++k) if (a(0, r.root + k) == 1 && a.squaredNorm() == 1) at = k;
            if (!bounds || at < 0 || seen[at] >= bounds) fail("wrong-task", "%s: %s: unexpected inequality in row %d: [%g, %g], norm of the row %g, single variable %d, repeated %d, bounded joints %d", modelName(F), what, i, lo, hi, a.norm(), at, at < 0 ? 0 : (int)seen[at], bounds); ++seen[at];
            if (std::fabs(lo - wlo[at]) > 1e-9 || std::fabs(hi - whi[at]) > 1e-9) fail("wrong-bounds", "%s: %s: joint %d may move by [%g, %g] instead of [%g, %g]", modelName(F), what, at, lo, hi, wlo[at], whi[at]);
        }
        for (int k = 0; k < r.nj(); ++k) if (seen[k] != bounds) fail("wrong-bounds", "%s: %s: joint %d is not bounded", modelName(F), what, k);
        std::string names; for (auto& s : specs) names += std::string(names.empty() ? "" : ", ") + className(s.kind) + (s.tag.empty() ? "" : "(" + s.tag + ")");
        if (!((CH - H).cwiseAbs().maxCoeff() <= 1e-8 * scale)) fail("wrong-task", "%s: %s: the matrices of %s differ from the Jacobians by %g", modelName(F), what, names.c_str(), off(CH, H));
        if (!((cy - y).cwiseAbs().maxCoeff() <= 1e-8 * scale)) fail("wrong-task", "%s: %s: the references of %s differ from the errors by %g", modelName(F), what, names.c_str(), off(cy, y));
    }
    template<int F> void anyGoal(Goal<F>& g, const Robot& r)
    {
        V3 b = r.t.com({r.base}), c = r.t.com(r.body); double w = sim::pick(std::vector<double>{0, 0.01, 0.3});
        for (int i = 0; i < 3; ++i) { g.p.base_com_position_[i] = b[i] + sim::num(-w, w); g.p.body_com_position_[i] = c[i] + sim::num(-w, w); }
        g.p.base_orientation_rpy_ = V3(0, 0, sim::num(-3.1, 3.1)); if (F != PLANAR && sim::chance(1, 3)) g.p.base_orientation_rpy_.head(2) = Eigen::Vector2d(sim::num(-0.3, 0.3), sim::num(-0.3, 0.3));
    }
    inline etools::Vector6 anyVelocity() { etools::Vector6 v; for (int i = 0; i < 6; ++i) v[i] = sim::chance(1, 3) ? 0 : sim::num(-0.5, 0.5); return v; }
    // desired poses of the tags after one interval of motion with the given velocities
    template<int F> void desiredPoses(pik::WholeBodyController<F>& wbc, const pik::Model<F>& m, Goal<F>& g, const Robot& r)
    {
        wbc.setTagsVelocity(g.vel); wbc.computeTagsDesiredPoseInGlobal(m); g.pose.clear();
        for (auto& v : g.vel)
        {
            int i = r.t.at(v.first); V3 w = r.t.n[i].R * v.second.tail(3) * g.dt, d = r.t.n[i].R * v.second.head(3) * g.dt; auto it = wbc.tags_desired_pose_global_.find(v.first);
            if (it == wbc.tags_desired_pose_global_.end()) fail("wrong-tag-pose", "no desired pose of %s", v.first.c_str());
            M3 R = w.norm() > 0 ? M3(Eigen::AngleAxisd(w.norm(), w.normalized()).toRotationMatrix() * r.t.n[i].R) : r.t.n[i].R; V3 p = it->second.tail(3), a = it->second.head(3);
            if (!near(p, r.t.n[i].p + d, 1e-9 * (1 + r.t.n[i].p.norm()))) fail("wrong-tag-pose", "%s: desired position of %s after %g s is wrong by %g", modelName(F), v.first.c_str(), g.dt, off(p, r.t.n[i].p + d));
            if (std::fabs(r.t.n[i].R(2, 0)) < 0.99 && (rpyMatrix(a) - R).cwiseAbs().maxCoeff() > 1e-6 + 3 * w.squaredNorm() / (1 - std::fabs(r.t.n[i].R(2, 0)))) fail("wrong-tag-pose", "%s: desired orientation of %s after %g s is wrong by %g", modelName(F), v.first.c_str(), g.dt, off(rpyMatrix(a), R));
            g.pose[v.first] = std::make_pair(p, a);
        }
    }
    // logs show what the tasks, the model and the solution contain
    template<int F> mlog::Tracked watch(const Spec& s, const humoto::TaskBase* t, size_t level)
    {
        mlog::Tracked r;
        switch (s.kind)
        {
            case JOINTSREF: r = mlog::track(dynamic_cast<const pik::TaskJointsReference<F>*>(t), level); break; case FIXARMS: r = mlog::track(dynamic_cast<const pik::TaskFixArms<F>*>(t), level); break; case FIXHEAD: r = mlog::track(dynamic_cast<const pik::TaskFixHead<F>*>(t), level); break;
            case BOUNDS: r = mlog::track(dynamic_cast<const pik::TaskJointsBounds<F>*>(t), level); break; case DAMP: r = mlog::track(dynamic_cast<const humoto::TaskZeroVariables*>(t), level); break; default: r = mlog::track(dynamic_cast<const humoto::TaskAB*>(t), level);
        }
        auto base = r.expect; r.expect = [s, base](mlog::Expect& e, const std::string& p)
        {
            using mlog::join; base(e, p); if (!s.tag.empty()) e.str(join(p, "tag_string_id"), s.tag);
            switch (s.kind)
            {
                case BODYCOM: e.num(join(p, "axis_flag"), s.axes); e.num(join(p, "k_position_gain"), s.k); break; case BASECOM: e.num(join(p, "k_position_gain"), s.k); break; case JOINTSREF: e.num(join(p, "k_position_gain"), s.k); e.mat(join(p, "joint_angles_reference"), s.ref); break;
                case TAGORIENT: e.mat(join(p, "reference_rpy"), s.rpy); e.num(join(p, "k_orientation_gain"), s.k); break; case BASEORIENT: e.num(join(p, "k_orientation_gain"), s.k); break; case TAGANGVEL: e.num(join(p, "k_angular_velocity_gain"), s.k); break;
                case TAGVEL: e.num(join(p, "k_complete_velocity_gain"), s.k); break; case TAGPOSE: case TAGPOSE3: e.num(join(p, "k_pose_gain"), s.k); break; default: break;
            }
        };
        return r;
    }
    template<int F> void stateLog(mlog::Expect& e, const std::string& p, const typename State<F>::GC& g) { e.mat(mlog::join(p, "root_pose"), g.root_pose_); e.mat(mlog::join(p, "joint_angles"), g.joint_angles_); }
    template<int F> void checkLogs(const humoto::OptimizationProblem& op, const std::vector<mlog::Tracked>& tasks, size_t levels, const pik::Model<F>& m, const V& q, const humoto::Solution& sol)
    {
        mlog::Device d; std::ostream o(&d); mlog::Names n; n.prefix = "ik"; n.index = sim::choose(3); n.custom = sim::chance(1, 2); std::string base = mlog::at(n.prefix, n.index); typename State<F>::GC g = m.getState();
        {
            humoto::Logger l(o); humoto::LogEntryName k(n.prefix); k.add((std::size_t)n.index);
            if (n.custom) { op.log(l, k, "my_problem"); m.log(l, k, "my_model"); sol.log(l, k, "my_solution"); g.log(l, k, "my_model_state"); } else { op.log(l, k); m.log(l, k); sol.log(l, k); g.log(l, k); }
        }
        if (!near(g.asVector(), q, 1e-12)) fail("wrong-state", "%s: the model has another state", modelName(F));
        mlog::Entries got = mlog::parse(d.bytes); mlog::hierarchy(got, n.custom ? base + ".my_problem" : base, tasks, levels); mlog::Expect e; stateLog<F>(e, n.of("model") + ".state", g); stateLog<F>(e, n.of("model_state"), g); e.has(n.of("model") + ".root_motion_to_wheels"); mlog::solution(e, n.of("solution"), sol); mlog::compare(got, e); sim::count("iterations logged");
    }
    template<int F> void taskRun()
    {
        Robot r(F); pik::WBCParameters par; par.control_interval_ms_ = sim::pick(std::vector<int>{10, 1, 50}); par.control_interval_ = par.control_interval_ms_ / 1000.0;
        typedef std::shared_ptr<pik::Model<F>> MP; MP m(new pik::Model<F>); loadModel(*m, r); pik::WholeBodyController<F> wbc(par); Goal<F> g; g.dt = par.control_interval_;
        struct Live { Spec s; humoto::TaskSharedPointer p; }; std::vector<Live> live; V dflt = defaultReference<F>(); humoto::OptimizationProblem op; humoto::Solution sol; std::vector<std::vector<int>> levels; int iters = sim::range(1, 6);
        for (int it = 0; it < iters; ++it)
        {
            sim::step();
            if (it && sim::chance(1, 5)) { MP k(new pik::Model<F>); loadModel(*k, r); m = k; sim::count("model replaced"); }
            else if (it && sim::chance(1, 8)) { loadModel(*m, r); sim::count("model reloaded"); }
            typename State<F>::GC gc = State<F>::any(r); m->updateState(gc); V q = gc.asVector(); checkModel(*m, r, q);
            if (it == 0 || sim::chance(2, 3)) anyGoal<F>(g, r);
            if (it == 0 || sim::chance(1, 3)) { g.vel.clear(); for (int k = sim::range(0, 3); k > 0; --k) g.vel[TAGS[sim::choose(6)]] = anyVelocity(); wbc.setTagsVelocity(g.vel); }
            if (sim::chance(1, 2)) { wbc.tags_desired_pose_global_.clear(); desiredPoses<F>(wbc, *m, g, r); }
            // the hierarchy
            if (it == 0 || sim::chance(1, 3))
            {
                if (sim::chance(1, 2)) live.clear(); levels.clear(); int L = sim::range(1, 3); op.reset(L); levels.resize(L);
                for (int l = 0; l < L; ++l) for (int k = sim::range(1, 3); k > 0; --k)
                {
                    int at = -1; for (size_t i = 0; i < live.size(); ++i) { bool used = false; for (auto& v : levels) for (int j : v) if (j == (int)i) used = true; if (!used && sim::chance(1, 2)) at = i; }
                    if (at < 0) { Live t; t.s = anySpec(r, sim::choose(NEQ + 2), dflt); t.p = make<F>(t.s); if (sim::chance(3, 4)) t.p->setDescription("task" + std::to_string(live.size())); at = live.size(); live.push_back(t); }
                    levels[l].push_back(at); op.pushTask(live[at].p, l);
                }
            }
            // tasks in use are configured anew
            for (auto& t : live) if (sim::chance(1, 6) && t.s.kind != BOUNDS)
            {
                Spec s = anySpec(r, t.s.kind, dflt); s.id = t.s.id; if (s.kind == JOINTSREF) s.ref = anyJoints(r); std::string f = sim::scratch() + "/task.yaml"; spill(f, "Section:\n" + yaml(s, "  "));
                if (s.kind == FIXARMS || s.kind == FIXHEAD) continue;
                try { Reader reader(f); static_cast<humoto::config::StrictConfigurableBase&>(*t.p).readConfig(reader, "Section", true); } catch (const std::exception& e) { fail("unexpected-error", "%s cannot be configured: %s", className(s.kind), e.what()); }
                t.s = s; sim::count("task configured anew");
            }
            int times = sim::range(1, 2);   // forming the same problem again changes nothing
            for (int k = 0; k < times; ++k)
            {
                if (sim::chance(1, 8)) { faults::allocArmNew(sim::range(1, 40)); throws([&] { wbc.update(*m, g.p); op.form(sol, *m, wbc); }); faults::allocDisarm(); sim::count("fault:memory exhausted"); }
                try { if (wbc.update(*m, g.p) != humoto::ControlProblemStatus::OK) fail("wrong-status", "update() stopped"); op.form(sol, *m, wbc); } catch (const std::exception& e) { fail("unexpected-error", "%s: an iteration failed: %s", modelName(F), e.what()); }
            }
            uint64_t sig = F; for (size_t l = 0; l < levels.size(); ++l) { std::vector<Spec> v; for (int i : levels[l]) { v.push_back(live[i].s); sig = sim::mix(sig, live[i].s.kind); } checkLevel<F>(op[l], v, r, q, g, sol, "tasks"); sig = sim::mix(sig, 100); }
            if (sim::chance(1, 4))
            {
                std::vector<mlog::Tracked> tr; std::set<std::string> ids; bool unique = true; for (size_t l = 0; l < levels.size(); ++l) for (int i : levels[l]) { unique = ids.insert(live[i].p->getDescription()).second && unique; tr.push_back(watch<F>(live[i].s, live[i].p.get(), l)); }
                if (unique) checkLogs<F>(op, tr, levels.size(), *m, q, sol);
            }
            sim::state(sig); sim::nontrivial(); for (int i = 0; i < q.size(); ++i) sim::digestDouble(q[i]);
        }
        sim::sample("tasks of the %s model over %d iterations, %zu tasks", modelName(F), iters, live.size());
    }
    void tasks() { RigidBodyDynamics::stub::multiDoF() = sim::choose(3); switch (sim::choose(3)) { case 0: taskRun<PLANAR>(); break; case 1: taskRun<TIBIA>(); break; default: taskRun<TORSO>(); } }

    // ------------------------------------------------------------ control loops
    struct Cell { virtual ~Cell() {} virtual void period() = 0; virtual void finish() = 0; };
    inline V3 rpyOf(const M3& R) { double y = std::atan2(R(1, 0), R(0, 0)), c = std::cos(y), s = std::sin(y); return V3(std::atan2(R(0, 2) * s - R(1, 2) * c, R(1, 1) * c - R(0, 1) * s), std::atan2(-R(2, 0), R(0, 0) * c + R(1, 0) * s), y); }
    // least squares with equality constraints; false if it is not well posed
    struct Exact { bool feasible = false, unique = false; V x; };
    inline Exact lexicographic(const M& A0, const V& b0, const M& A1, const V& b1)
    {
        Exact e; int n = A1.cols(); M N = M::Identity(n, n); V xp = V::Zero(n);
        if (A0.rows())
        {
            Eigen::JacobiSVD<M> d(A0, Eigen::ComputeFullU | Eigen::ComputeFullV); V sv = d.singularValues(); int rank = 0; for (int i = 0; i < sv.size(); ++i) if (sv[i] > 1e-2) ++rank; else if (sv[i] > 1e-9) return e;
            V y = d.matrixU().transpose() * b0; V z = V::Zero(n); for (int i = 0; i < rank; ++i) z[i] = y[i] / sv[i]; xp = d.matrixV() * z; N = d.matrixV().rightCols(n - rank);
            if (rank < A0.rows() || (A0 * xp - b0).cwiseAbs().maxCoeff() > 1e-9) return e;
        }
        e.feasible = true; M B = A1 * N; if (!N.cols()) { e.unique = true; e.x = xp; return e; }
        Eigen::JacobiSVD<M> d(B, Eigen::ComputeThinU | Eigen::ComputeThinV); V sv = d.singularValues(); if (B.rows() < B.cols() || sv[sv.size() - 1] < 3e-2) return e;
        e.unique = true; e.x = xp + N * d.solve(b1 - A1 * xp); return e;
    }
    template<int F> struct Ctl : Cell
    {
        typedef typename State<F>::GC GC;
        Robot r; pik::WBCParameters par; std::unique_ptr<pik::Model<F>> model; std::unique_ptr<pik::WholeBodyController<F>> wbc; std::unique_ptr<pik::ConfigurableOptimizationProblem<F>> op; humoto::Solution sol; humoto::qpoases::Solution qsol; std::unique_ptr<hier::Front> front;
        std::vector<std::vector<Spec>> levels; Goal<F> g; GC at; bool bounded = false, upright = true, saved = false, tags = false; int kind, front_kind, periods = 0, converged = 0, commands = 0, refused = 0, no; double T;

        Ctl(int number) : r(F), no(number)
        {
            par.control_interval_ms_ = sim::pick(std::vector<int>{100, 10, 20, 50}); par.control_interval_ = par.control_interval_ms_ / 1000.0; T = g.dt = par.control_interval_;
            kind = sim::choose(8); front_kind = kind == 5 || kind == 6 || kind == 7 ? sim::choose(3) : hier::KKT_LU + sim::choose(3); hierarchy(); build(); newModel(); front = hier::makeFront(front_kind); front->params(hier::Params());
            at = start(); model->updateState(at);
        }
        Spec task(int k, double gain = 1) { Spec s; s.kind = k; s.gain = gain; s.ref = defaultReference<F>(); s.id = className(k); return s; }
        void hierarchy()
        {
            Spec ref = task(JOINTSREF), damp = task(DAMP), root = task(DAMP, 0.1), fix = task(FIXARMS), head = task(FIXHEAD), base = task(BASECOM), body = task(BODYCOM), turn = task(BASEORIENT), bnd = task(BOUNDS);
            ref.k = sim::pick(std::vector<double>{0.3, 0, 1}); damp.part = pik::JOINTS_VARIABLES_ID; damp.id = "JointsDamping"; root.part = pik::ROOT_VARIABLES_ID; root.id = "RootDamping"; if (sim::chance(1, 3)) ref.gain = hier::gainVal(); if (sim::chance(1, 4)) { base.gain = hier::gainVal(); body.gain = hier::gainVal(); turn.gain = hier::gainVal(); }
            double k = sim::chance(2, 3) ? 1 : 0.5; base.k = body.k = turn.k = k; bool two = sim::chance(1, 6); if (two) body.axes = 3;
            Spec tag = task(sim::chance(1, 2) ? TAGORIENT : sim::chance(1, 2) ? TAGPOSE : sim::chance(1, 2) ? TAGVEL : TAGANGVEL); tag.tag = TAGS[sim::choose(4)]; tag.rpy = V3(0, 0.2, 0); tag.k = tag.kind == TAGVEL || tag.kind == TAGANGVEL ? T : 1;
            switch (kind)
            {
                case 0: levels = {{base, body, turn}, {ref}}; break; case 1: levels = {{body}, {base, turn, ref}}; break; case 2: levels = {{base, turn}, {body, ref}}; break; case 3: levels = {{base, turn, fix, body}, {ref}}; break;
                case 4: levels = {{base, body, turn, fix}, {damp}}; break; case 5: levels = {{base, turn, bnd}, {body, ref, root}}; break; case 6: levels = {{base, turn, fix, head, bnd}, {body, ref, root}}; break;
                default: levels = {{base, turn}, {tag, ref, root}}; tags = true;
            }
            if ((kind == 1 || kind == 2) && front_kind == hier::KKT_ELIM) front_kind = hier::KKT_QR;   // elimination is for simple objectives with a regular Hessian
            if (front_kind == hier::KKT_ELIM) levels[1].push_back(root);
            for (auto& l : levels) { for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[sim::choose(i)]); for (auto& s : l) if (s.kind == BOUNDS) bounded = true; }
        }
        void build()
        {
            op.reset(new pik::ConfigurableOptimizationProblem<F>);
            if (sim::chance(1, 2)) { op->reset(levels.size()); for (size_t l = 0; l < levels.size(); ++l) for (auto& s : levels[l]) { auto t = make<F>(s); t->setDescription(s.id); op->pushTask(t, l, className(s.kind)); } return; }
            std::string a, b, c; for (auto& l : levels) { std::string u, v; for (auto& s : l) { u += (u.empty() ? "" : ", ") + std::string(className(s.kind)); v += (v.empty() ? "" : ", ") + s.id; c += "  " + s.id + ":\n" + yaml(s, "    "); } a += (a.empty() ? "[" : ", [") + u + "]"; b += (b.empty() ? "[" : ", [") + v + "]"; }
            std::string f = sim::scratch() + "/hierarchy.yaml"; spill(f, "# a hierarchy\nHierarchy:\n  task_class_names: [" + a + "]\n  task_ids: [" + b + "]\n" + c);
            try { Reader in(f); op->readConfig(in, "Hierarchy", true); } catch (const std::exception& e) { fail("unexpected-error", "the hierarchy cannot be read: %s", e.what()); }
            sim::count("hierarchy read from file");
        }
        void newModel() { model.reset(new pik::Model<F>); loadModel(*model, r); wbc.reset(new pik::WholeBodyController<F>(par)); saved = false; }
        GC start()
        {
            GC q; int how = sim::choose(4); if (how) for (auto& j : r.joint) q.joint_angles_[j.second] = std::min(std::max(q.joint_angles_[j.second] + (how < 3 ? sim::num(-0.1, 0.1) : sim::num(-0.4, 0.4)), r.lo[j.second]), r.hi[j.second]);
            double w = sim::chance(1, 3) ? 0 : sim::num(0, 5), yaw = sim::chance(1, 3) ? 0 : sim::num(-3.1, 3.1); V3 p(sim::num(-w, w), sim::num(-w, w), 0);
            if (F != TORSO) { State<F>::place(q, r, p, V3(0, 0, yaw)); return q; }
            // the base has to stand upright: the pose of the torso follows
            State<F>::place(q, r, V3::Zero(), V3::Zero()); r.t.fk(q.asVector()); M3 R = rpyMatrix(V3(0, 0, yaw)) * r.t.n[r.foot].R.transpose(); State<F>::place(q, r, p - R * r.t.n[r.foot].p, rpyOf(R)); return q;
        }
        void goals()
        {
            r.t.fk(at.asVector()); double v = sim::pick(std::vector<double>{0.01, 0, 0.002, 0.03}); V3 b = r.t.com({r.base}), c = r.t.com(r.body); const M3& R = r.t.n[r.foot].R;
            V3 d(sim::num(-v, v), sim::num(-v, v), 0); g.p.base_com_position_ = b + d; g.p.body_com_position_ = c + d + V3(sim::num(-v, v), sim::num(-v, v), sim::num(-v, v)) * 0.5; g.p.base_orientation_rpy_ = V3(0, 0, std::atan2(R(1, 0), R(0, 0)) + sim::num(-3 * v, 3 * v));
            if (sim::chance(1, 12)) { g.p.body_com_position_ += V3(sim::num(-0.3, 0.3), 0, sim::num(-0.2, 0.2)); sim::count("fault:reference jumps"); }
            if (F == PLANAR) g.p.base_com_position_[2] = b[2];
            if (sim::chance(1, 2)) { g.vel.clear(); for (int k = sim::choose(3); k > 0; --k) g.vel[TAGS[sim::choose(6)]] = anyVelocity(); }
        }
        // one iteration from a state of the model; false if it has no solution
        bool iteration(const V& q, GC& next, V& x, bool& met)
        {
            r.t.fk(q); try { if (wbc->update(*model, g.p) != humoto::ControlProblemStatus::OK) fail("wrong-status", "update() stopped"); op->form(sol, *model, *wbc); } catch (const std::exception& e) { fail("unexpected-error", "%s: an iteration failed: %s", modelName(F), e.what()); }
            for (size_t l = 0; l < levels.size(); ++l) checkLevel<F>((*op)[l], levels[l], r, q, g, sol, "loop");
            M A[2], a; V b[2], c; for (int l = 0; l < 2; ++l) { A[l].resize(0, r.t.nq); for (auto& s : levels[l]) { if (s.kind == BOUNDS) continue; rows<F>(s, r, q, g, a, c); int k = A[l].rows(); A[l].conservativeResize(k + a.rows(), r.t.nq); b[l].conservativeResize(k + a.rows()); A[l].bottomRows(a.rows()) = a; b[l].tail(a.rows()) = c; } }
            Exact e = lexicographic(A[0], b[0], A[1], b[1]); 
            bool fits = true; if (bounded && e.unique) for (int k = 0; k < r.nj(); ++k) { double y = q[r.root + k] + e.x[r.root + k]; if (y < r.lo[k] + 1e-9 || y > r.hi[k] - 1e-9) fits = false; }
            humoto::ActiveSet as, asg; bool solved = false; std::string why;
            try { int how = front_kind == hier::QPOASES && sim::chance(1, 3) ? 3 : 0; front->solve(sol, *op, how, as, asg, sol, hier::Params()); solved = true; if (how == 3) op->processActiveSet(as); } catch (const std::exception& ex) { why = ex.what(); }
            if (!solved) { if (e.unique && fits) fail("no-motion", "%s: %s found no motion though there is one: %s", modelName(F), hier::frontName(front_kind), why.c_str()); sim::count("no solution"); return false; }
            x = sol.x_; if (x.size() != r.t.nq) fail("wrong-solution", "%s: %d variables instead of %d", modelName(F), (int)x.size(), r.t.nq); for (int i = 0; i < x.size(); ++i) if (!std::isfinite(x[i])) { if (e.unique) fail("wrong-solution", "the solution is not finite"); return false; }
            const double loose = front_kind == hier::KKT_ELIM ? 100 : 1; met = e.feasible && (fits || !bounded); double scale = 1 + (e.unique ? e.x.cwiseAbs().maxCoeff() : x.cwiseAbs().maxCoeff());
            if (e.feasible && A[0].rows() && (fits || !bounded) && (A[0] * x - b[0]).cwiseAbs().maxCoeff() > 1e-6 * loose * scale) fail("unmet-task", "%s: %s: the tasks of the first level are missed by %g", modelName(F), hier::frontName(front_kind), (A[0] * x - b[0]).cwiseAbs().maxCoeff());
            if (bounded) for (int k = 0; k < r.nj(); ++k) { double y = q[r.root + k] + x[r.root + k]; if (y < r.lo[k] - 1e-7 || y > r.hi[k] + 1e-7) fail("bound-violated", "%s: joint %d is moved to %.12g, outside of [%g, %g]", modelName(F), k, y, r.lo[k], r.hi[k]); }
            if (e.unique && fits && (x - e.x).cwiseAbs().maxCoeff() > 2e-5 * loose * scale) fail("not-optimal", "%s: %s: the motion differs from the best one by %g", modelName(F), hier::frontName(front_kind), (x - e.x).cwiseAbs().maxCoeff());
            try { next = wbc->getNextGeneralizedCoordinates(sol, *model); } catch (const std::exception& ex) { fail("unexpected-error", "next state: %s", ex.what()); }
            if (!near(next.asVector(), q + x, 1e-12)) fail("wrong-next-state", "%s: the next state is not the current one moved by the solution", modelName(F));
            if (!throws([&] { wbc->getNextGeneralizedCoordinates(sol, *model); })) fail("error-not-raised", "a solution was used twice");
            return true;
        }
        void checkErrors()
        {
            pik::MotionParameters e; model->getStateError(e, g.p); V3 b = g.p.base_com_position_ - r.t.com({r.base}), c = g.p.body_com_position_ - r.t.com(r.body), o = rotationError(r.t.n[r.foot].R, rpyMatrix(g.p.base_orientation_rpy_));
            if (!near(e.base_com_position_, b, 1e-9) || !near(e.body_com_position_, c, 1e-9) || !near(e.base_orientation_rpy_, o, 1e-9)) fail("wrong-error", "%s: errors of the state are wrong", modelName(F));
        }
        // commands: accepted exactly if the limits are met
        bool command(const GC& from, const GC& to, double dt, pik::RobotCommand& cmd, bool judge = true)
        {
            bool bad = false, unsure = false; std::string why; const V &a = from.joint_angles_, &b = to.joint_angles_;
            for (int k = 0; k < r.nj(); ++k)
            {
                double under = r.lo[k] - b[k], over = b[k] - r.hi[k], vel = std::fabs(b[k] - a[k]) / dt; if (std::isnan(b[k])) { bad = true; why = "an angle is not a number"; continue; }
                for (double v : {under, over}) if (v > POSITION_TOLERANCE * 1.01) { bad = true; why = "position of joint " + std::to_string(k); } else if (v > POSITION_TOLERANCE * 0.99) unsure = true;
                if (vel > r.vmax[k] * (1 + 1e-9)) { bad = true; why = "velocity of joint " + std::to_string(k); } else if (vel > r.vmax[k] * (1 - 1e-9)) unsure = true;
            }
            V3 v = V3::Zero(); V w = V::Zero(3); double turn = 0; bool flat = false;
            if (!bad)
            {
                r.t.fk(from.asVector()); V3 p = r.t.n[r.foot].p; M3 R = r.t.n[r.foot].R; r.t.fk(to.asVector()); const V3& p2 = r.t.n[r.foot].p; const M3& R2 = r.t.n[r.foot].R; V3 err = rotationError(R, R2); turn = err.norm();
                v << (p2[0] - p[0]) / dt, (p2[1] - p[1]) / dt, err[2] / dt; flat = std::hypot(R2(2, 0), R2(2, 1)) < 1e-9; V3 lin = R2.transpose() * V3(v[0], v[1], 0); const double yaws[] = {1.07519348146676, -1.07519348146676, -M_PI}, at[][2] = {{0.09, 0.155}, {0.09, -0.155}, {-0.17, 0}};
                if (!flat) unsure = true; else for (int i = 0; i < 3; ++i) { Eigen::Vector2d d(std::sin(yaws[i]), -std::cos(yaws[i])); w[i] = d.dot(Eigen::Vector2d(lin[0] - v[2] * at[i][1], lin[1] + v[2] * at[i][0])) / WHEEL_RADIUS; if (std::fabs(w[i]) > WHEEL_LIMIT * (1 + 1e-4)) { bad = true; why = "velocity of wheel " + std::to_string(i); } else if (std::fabs(w[i]) > WHEEL_LIMIT * (1 - 1e-4)) unsure = true; }
            }
            bool ok = false; std::string what; try { model->getRobotCommand(cmd, dt); ok = true; } catch (const std::exception& e) { what = e.what(); }
            if (!ok) ++refused; else ++commands;
            if (!judge || unsure || (!bad && !flat) || turn > 0.3) return ok;
            if (ok && bad) fail("limit-not-enforced", "%s: a command was issued although a limit is violated: %s", modelName(F), why.c_str());
            if (!ok && !bad) fail("command-refused", "%s: a command within the limits was refused: %s", modelName(F), what.c_str());
            if (!ok) return false;
            double tol = 1e-8 * (1 + v.norm()) + turn * turn * turn / dt;
            { mlog::Device d; std::ostream o(&d); bool own = sim::chance(1, 2); { humoto::Logger l(o); if (own) cmd.log(l, humoto::LogEntryName("x"), "y"); else cmd.log(l, humoto::LogEntryName("x")); } mlog::Expect e; std::string p = own ? "x.y." : "x.robot_command."; e.mat(p + "joint_angles", cmd.joint_angles_); e.mat(p + "wheel_velocities", cmd.wheel_velocities_); e.mat(p + "base_velocities", cmd.base_velocities_); e.num(p + "time_interval", cmd.time_interval_); mlog::compare(mlog::parse(d.bytes), e); }
            if (!near(cmd.joint_angles_, b, 1e-12) || cmd.time_interval_ != dt) fail("wrong-command", "%s: joints of the command are wrong", modelName(F));
            if (!((cmd.base_velocities_ - v).cwiseAbs().maxCoeff() <= tol)) fail("wrong-command", "%s: velocity of the base is wrong by %g", modelName(F), (cmd.base_velocities_ - v).cwiseAbs().maxCoeff());
            if (!((cmd.wheel_velocities_ - w).cwiseAbs().maxCoeff() <= tol / WHEEL_RADIUS + 1e-4 * w.norm())) fail("wrong-command", "%s: velocities of the wheels are wrong by %g of %g", modelName(F), (cmd.wheel_velocities_ - w).cwiseAbs().maxCoeff(), w.norm());
            return true;
        }
        void checkPositions(const GC& to)
        {
            bool bad = false, unsure = false; for (int k = 0; k < r.nj(); ++k) for (double v : {r.lo[k] - to.joint_angles_[k], to.joint_angles_[k] - r.hi[k]}) if (v > POSITION_TOLERANCE * 1.01) bad = true; else if (v > POSITION_TOLERANCE * 0.99) unsure = true;
            bool t = throws([&] { model->checkCurrentState(); }); if (!unsure && t != bad) fail(bad ? "limit-not-enforced" : "state-refused", "%s: the state is %s, but was %s", modelName(F), bad ? "outside of the limits" : "within the limits", t ? "refused" : "accepted");
        }
        void transitions(const GC& from)
        {
            GC to = from; double dt = T; int how = sim::choose(5); int k = sim::choose(r.nj()); bool bad = false; for (int i = 0; i < r.nj(); ++i) if (from.joint_angles_[i] < r.lo[i] || from.joint_angles_[i] > r.hi[i]) return;
            double room = r.vmax[k] * dt, dir = from.joint_angles_[k] - r.lo[k] > r.hi[k] - from.joint_angles_[k] ? -1 : 1;
            if (how == 4) { bool up = dir < 0; double over = sim::pick(std::vector<double>{2e-7, 1e-5, 1e-3}); to.joint_angles_[k] = up ? r.hi[k] + over : r.lo[k] - over; dt = (std::fabs(to.joint_angles_[k] - from.joint_angles_[k]) + 1e-3) * 1.5 / r.vmax[k]; bad = true; } else if (how == 0) { to.joint_angles_[k] += dir * std::min(0.9 * room, 0.4 * (r.hi[k] - r.lo[k])); } else if (how == 1) { to.joint_angles_[k] += dir * room * 1.01; bad = true; } else { V3 p; if (how == 2) { to.getRootPosition(p); p[sim::choose(2)] += 0.01 * (1 + p.norm()); to.setRootPosition(p); } else { to.getRootOrientation(p); p[2] += 0.01; to.setRootOrientation(p); } bad = true; }
            model->updateState(to); bool t = throws([&] { if (sim::chance(1, 2)) model->checkStateTransition(from, dt); else model->checkStateTransition(from, to, dt); });
            if (t != bad) fail(bad ? "limit-not-enforced" : "state-refused", "%s: a transition (%d) was %s", modelName(F), how, t ? "refused" : "accepted");
        }
        // what the robot does with a command, according to the controller
        void corrections(const GC& from, const GC& to, const pik::RobotCommand& cmd)
        {
            double t = T * sim::pick(std::vector<double>{0.5, 1, 0, -0.3, 1.2, 0.01}); GC expect = from; bool first = sim::chance(1, 2), err = false;
            if (first) model->updateState(from); else model->updateState(to);   // the second form does not depend on the current state
            if (t > 0 && F == PLANAR) { V3 p, a; expect.getRootPosition(p); expect.getRootOrientation(a); p += t * V3(cmd.base_velocities_[0], cmd.base_velocities_[1], 0); a[2] += t * cmd.base_velocities_[2]; State<F>::place(expect, r, p, a); expect.joint_angles_ += (to.joint_angles_ - from.joint_angles_) * (t / T); }
            try { if (first) model->correct(cmd, t); else model->correct(from, cmd, t); } catch (const std::exception& e) { err = true; if (F == PLANAR || t <= 0) fail("unexpected-error", "correct() failed: %s", e.what()); }
            if (F != PLANAR) { if (t > 0 && !err) fail("error-not-raised", "an unsupported correction was accepted"); if (err) { model->updateState(from); return; } }
            if (!near(model->getState().asVector(), expect.asVector(), 1e-9)) fail("wrong-correction", "%s: the state corrected by %g s is wrong by %g", modelName(F), t, off(model->getState().asVector(), expect.asVector()));
            checkModel(*model, r, expect.asVector());
            if (F == PLANAR && t == T) { r.t.fk(to.asVector()); V3 p = r.t.n[r.foot].p; M3 R = r.t.n[r.foot].R; r.t.fk(from.asVector()); double turn = rotationError(r.t.n[r.foot].R, R).norm(); if (!near(model->getBasePosition(), p, 1e-8) || (model->getBaseOrientation() - R).cwiseAbs().maxCoeff() > 1e-8 + turn * turn * turn) fail("wrong-correction", "a command executed for its whole time does not lead to the planned state"); }
        }
        void restart()
        {
            std::string f = sim::scratch() + "/state" + std::to_string(no) + ".yaml", h = sim::scratch() + "/problem" + std::to_string(no) + ".yaml"; sim::count("fault:crash and restart"); bool keep = sim::chance(1, 2);
            try { { Writer w(f); at.writeConfig(w); } if (keep) { Writer w(h); op->writeConfig(w); } } catch (const std::exception& e) { fail("unexpected-error", "the state cannot be written: %s", e.what()); }
            GC back = State<F>::any(r); try { Reader in(f); back.readConfig(in, true); } catch (const std::exception& e) { fail("unexpected-error", "the state cannot be read: %s", e.what()); }
            if (!near(back.asVector(), at.asVector(), 1e-13)) fail("state-lost", "%s: the state changed while it was stored by %g", modelName(F), off(back.asVector(), at.asVector()));
            if (keep) { op.reset(new pik::ConfigurableOptimizationProblem<F>); try { Reader in(h); op->readConfig(in, true); } catch (const std::exception& e) { fail("unexpected-error", "the hierarchy which was written cannot be read: %s", e.what()); } sim::count("hierarchy written and read"); }
            else build();
            newModel(); sol = humoto::Solution(); front = hier::makeFront(front_kind); front->params(hier::Params()); model->updateState(at); if (tags) g.pose.clear();
        }
        void period()
        {
            ++periods; if (periods > 1 && sim::chance(1, 8)) restart();
            if (!saved) { pik::RobotCommand c; if (!throws([&] { model->getRobotCommand(c, T); })) fail("error-not-raised", "a command was computed though no state was saved"); }
            goals(); model->updateState(at); checkModel(*model, r, at.asVector()); checkPositions(at); model->saveCurrentState(); saved = true;
            desiredPoses<F>(*wbc, *model, g, r); for (auto& p : wbc->tags_desired_pose_global_) if (!g.pose.count(p.first)) g.pose[p.first] = std::make_pair(V3(p.second.tail(3)), V3(p.second.head(3)));
            GC cur = at, next; V x; bool met = false; int limit = sim::pick(std::vector<int>{15, 1, 3, 6}), it = 0; bool ok = true;
            for (; it < limit && ok; ++it)
            {
                sim::step();
                if (sim::chance(1, 25)) { faults::allocArmNew(sim::range(1, 60)); throws([&] { wbc->update(*model, g.p); op->form(sol, *model, *wbc); }); faults::allocDisarm(); sim::count("fault:memory exhausted"); }
                ok = iteration(cur.asVector(), next, x, met); M3 turn = rpyMatrix(g.p.base_orientation_rpy_) * r.t.n[r.foot].R.transpose(); if (turn.trace() < 2) met = false;   // (the error of orientation is the sine of the angle)
                if (!ok) break;
                for (auto& s : levels[0]) if (s.kind == FIXARMS || s.kind == FIXHEAD) { const char* const* nm = s.kind == FIXARMS ? ARMS : HEAD; for (int i = 0; i < (s.kind == FIXARMS ? 10 : 2); ++i) if (std::fabs(x[r.root + r.joint[nm[i]]]) > (front_kind == hier::KKT_ELIM ? 1e-4 : 1e-7)) fail("fixed-joint-moved", "%s: joint %s is moved by %g", modelName(F), nm[i], x[r.root + r.joint[nm[i]]]); }
                cur = next; model->updateState(cur); checkModel(*model, r, cur.asVector()); checkErrors();
                // what remains of the errors after a step is of the second order
                double l1 = x.cwiseAbs().sum(), e = 0; M a; V b; for (auto& s : levels[0]) if (s.kind != BOUNDS && s.k == 1) { Spec u = s; u.gain = 1; rows<F>(u, r, cur.asVector(), g, a, b); if (b.size()) { if (sim::verbose()) { std::ostringstream o; o << b.transpose(); sim::event("%s: %s", className(s.kind), o.str().c_str()); } e = std::max(e, b.cwiseAbs().maxCoeff()); } }
                if (sim::verbose()) { std::ostringstream o; o << x.transpose(); sim::event("x %s", o.str().c_str()); }
                if (met && l1 < 0.5 && e > 1.5 * l1 * l1 + (front_kind == hier::KKT_ELIM ? 2e-4 : 2e-6)) fail("no-convergence", "%s: the references of the first level are missed by %g after a step of %g", modelName(F), e, l1); if (met && e < 1e-6) ++converged;
                if (x.cwiseAbs().maxCoeff() < 1e-12) { ++it; break; }
            }
            GC target = ok ? cur : at; int twist = sim::choose(10); const double edge = sim::pick(std::vector<double>{5e-8, 2e-7, 1e-6, 1e-3}); int j = sim::choose(r.nj());
            if (twist == 0) { target.joint_angles_[j] = sim::chance(1, 2) ? r.lo[j] - edge : r.hi[j] + edge; sim::count("fault:joint moved over its limit"); } else if (twist == 1) { target.joint_angles_[j] = NAN; sim::count("fault:angle which is not a number"); } else if (twist == 2) { target.joint_angles_[j] = at.joint_angles_[j] + (sim::chance(1, 2) ? 1 : -1) * r.vmax[j] * T * sim::pick(std::vector<double>{0.999, 1.001}); sim::count("fault:joint moved at its limit"); }
            else if (twist == 3) { V3 p; target = at; target.getRootPosition(p); double a = sim::num(0, 6.28), v = WHEEL_LIMIT * WHEEL_RADIUS * sim::num(0.9, 1.3) * T; p += V3(v * std::cos(a), v * std::sin(a), 0); target.setRootPosition(p); sim::count("fault:base moved fast"); }
            model->updateState(target); if (twist != 1) checkPositions(target);
            pik::RobotCommand cmd; bool issued = command(at, target, T, cmd);
            if (issued && sim::chance(1, 3)) corrections(at, target, cmd);
            if (sim::chance(1, 5)) transitions(at);
            if (issued) { if (sim::chance(1, 10)) { sim::count("fault:command lost"); } else { at = target; if (sim::chance(1, 4)) { for (int k = 0; k < r.nj(); ++k) at.joint_angles_[k] = std::min(std::max(at.joint_angles_[k] + sim::num(-1e-3, 1e-3), r.lo[k]), r.hi[k]); sim::count("fault:disturbed"); } } }
            for (int k = 0; k < r.nj(); ++k) at.joint_angles_[k] = std::min(std::max(at.joint_angles_[k], r.lo[k]), r.hi[k]);
            for (int i = 0; i < r.t.nq; ++i) sim::digestDouble(at.asVector()[i]); sim::simTime(T); sim::state(sim::mix(sim::mix(F * 16 + kind, front_kind), it * 4 + issued)); sim::nontrivial();
        }
        void finish() { sim::sample("%s: hierarchy %d with %s, %d periods, %d commands, %d refused, %d converged", modelName(F), kind, hier::frontName(front_kind), periods, commands, refused, converged); }
    };
    // ------------------------------------------------------------ defaults
    template<class T> std::string dump(const T& o) { std::string f = sim::scratch() + "/dump.yaml"; { Writer w(f); o.writeConfig(w); } return slurp(f); }
    template<class T> void loadNothing(T& o, const char* what)
    {
        std::string f = sim::scratch() + "/nothing.yaml"; spill(f, "Unrelated:\n  value: 1\n");
        try { Reader in(f); o.readConfig(in, false); } catch (const std::exception& e) { fail("unexpected-error", "%s: defaults cannot be loaded: %s", what, e.what()); }
    }
    inline void derived(const pik::WBCParameters& p, const char* what) { if (std::fabs(p.control_interval_ - p.control_interval_ms_ / 1000.0) > 1e-12 * (1 + p.control_interval_)) fail("stale-derived-value", "%s: the control interval is %g s instead of %g ms", what, p.control_interval_, (double)p.control_interval_ms_); }
    inline void derived(const pik::MotionParameters&, const char*) {}
    // an object which was used must get the same defaults as a new one, whatever was in its memory
    template<class T> void defaultParameters(const char* what)
    {
        typename std::aligned_storage<sizeof(T), 64>::type a, b; memset(&a, 0xff, sizeof a); memset(&b, 0x41, sizeof b); T* x = new (&a) T; T* y = new (&b) T; std::string first = dump(*x), second = dump(*y);
        if (first != second) fail("default-not-set", "%s: defaults depend on the contents of memory", what);
        std::string text = first; for (char& c : text) if (c >= '1' && c <= '9' && sim::chance(1, 3)) c = '1' + sim::choose(9);
        std::string f = sim::scratch() + "/changed.yaml"; spill(f, text); throws([&] { Reader in(f); x->readConfig(in, false); });
        loadNothing(*x, what); if (dump(*x) != first) fail("default-not-set", "%s: values of an earlier load are kept as defaults", what);
        derived(*x, what); derived(*y, what); std::string g = sim::scratch() + "/changed.yaml"; spill(g, text); if (!throws([&] { Reader in(g); x->readConfig(in, true); })) derived(*x, what);
        x->~T(); y->~T();
    }
    template<class T> void defaultTask(T x, T y, const char* what)
    {
        loadNothing(x, what); loadNothing(y, what); if (dump(x) != dump(y)) fail("default-not-set", "%s: defaults depend on the earlier contents of the task", what);
    }
    template<int F> void defaults()
    {
        sim::step(); auto n = [] { return sim::grid(1, 9, 8); }; const char* a = TAGS[sim::choose(6)]; V3 w(n(), n(), n());   // (a link has no default, neither has its orientation)
        switch (sim::choose(10))
        {
            case 0: defaultParameters<pik::WBCParameters>("WBCParameters"); break;
            case 1: defaultParameters<pik::MotionParameters>("MotionParameters"); break;
            case 2: defaultTask(pik::TaskBaseCoMTracking<F>(n(), n()), pik::TaskBaseCoMTracking<F>(n(), n()), "TaskBaseCoMTracking"); break;
            case 3: defaultTask(pik::TaskBodyCoMTracking<F>(n(), n(), sim::range(1, 7)), pik::TaskBodyCoMTracking<F>(n(), n(), sim::range(1, 7)), "TaskBodyCoMTracking"); break;
            case 4: defaultTask(pik::TaskBaseOrientation<F>(n(), n()), pik::TaskBaseOrientation<F>(n(), n()), "TaskBaseOrientation"); break;
            case 5: defaultTask(pik::TaskJointsReference<F>(n(), n()), pik::TaskJointsReference<F>(n(), n()), "TaskJointsReference"); break;
            case 6: defaultTask(pik::TaskTagOrientation<F>(a, w, n(), n()), pik::TaskTagOrientation<F>(a, w, n(), n()), "TaskTagOrientation"); break;
            case 7: defaultTask(pik::TaskTagAngularVelocity<F>(a, n(), n()), pik::TaskTagAngularVelocity<F>(a, n(), n()), "TaskTagAngularVelocity"); break;
            case 8: defaultTask(pik::TaskTagCompleteVelocity<F>(a, n(), n()), pik::TaskTagCompleteVelocity<F>(a, n(), n()), "TaskTagCompleteVelocity"); break;
            default: defaultTask(pik::TaskTagPose<F>(a, n(), n()), pik::TaskTagPose<F>(a, n(), n()), "TaskTagPose");
        }
        { typename State<F>::GC x, y; for (int i = 0; i < x.joint_angles_.size(); ++i) x.joint_angles_[i] = n(); loadNothing(x, "GeneralizedCoordinates"); if (dump(x) != dump(y)) fail("default-not-set", "%s: GeneralizedCoordinates: values are kept as defaults", modelName(F)); }
        sim::nontrivial(); sim::sample("defaults of the parameters and tasks of the %s model", modelName(F));
    }
    void loops()
    {
        RigidBodyDynamics::stub::multiDoF() = sim::choose(3); std::vector<std::unique_ptr<Cell>> cells; int n = sim::range(1, 2); if (sim::chance(1, 8)) n = 3;
        for (int i = 0; i < n; ++i) switch (sim::choose(3)) { case 0: cells.emplace_back(new Ctl<PLANAR>(i)); break; case 1: cells.emplace_back(new Ctl<TIBIA>(i)); break; default: cells.emplace_back(new Ctl<TORSO>(i)); }
        int total = sim::range(1, 6 * n); for (int k = 0; k < total; ++k) cells[sim::choose(n)]->period();
        for (auto& c : cells) c->finish();
    }
}
