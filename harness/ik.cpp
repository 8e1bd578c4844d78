// C24: inverse kinematics: the bridge to RBDL and module pepper_ik.
#include "humoto/config_yaml.h"
#include "solve_world.h"
#include "humoto/pepper_ik.h"
#include "ik_tree.h"
#include <fstream>
#include <unistd.h>
namespace ik
{
    using sim::fail;
    std::string repo() { const char* r = getenv("HUMOTO_REPO"); return r ? r : "/repo"; }
    std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); if (!i) sim::harnessError("cannot read %s", f.c_str()); return o.str(); }
    void spill(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; o.close(); if (!o) sim::harnessError("cannot write %s", f.c_str()); }
    bool near(const M& a, const M& b, double tol) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.size(); ++i) if (!(std::fabs(a.data()[i] - b.data()[i]) <= tol * (1 + std::fabs(b.data()[i])))) return false; return true; }
    double off(const M& a, const M& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return -1; return a.size() ? (a - b).cwiseAbs().maxCoeff() : 0; }
    template<class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

    // ------------------------------------------------------------ kinematics of the bridge
    std::string num6(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }
    double coord(double r) { return sim::chance(1, 3) ? 0 : std::round(sim::num(-r, r) * 1e6) / 1e6; }
    std::string triple(double r) { double a = coord(r), b = coord(r), c = coord(r); return num6(a) + " " + num6(b) + " " + num6(c); }
    std::string randomRobot(bool floating)
    {
        int links = sim::range(2, 9); std::vector<std::string> parts; std::vector<std::string> names;
        static const char* pool[] = {"torso", "a", "Zlink", "b_2", "arm-left", "link_10", "link_2", "Head", "q", "foot", "m", "N"};
        int shift = sim::choose(12); for (int i = 0; i < links; ++i) names.push_back(pool[(i * 5 + shift) % 12]);
        std::vector<std::string> joints; std::string s; bool any_floating = false;
        for (int i = 0; i < links; ++i)
        {
            bool massless = i == 0 ? !floating || sim::chance(1, 3) : sim::chance(1, 5);
            std::string l = "  <link name=\"" + names[i] + "\"";
            if (massless) l += sim::chance(1, 2) ? "/>\n" : "></link>\n";
            else l += ">\n    <inertial>\n      <mass value=\"" + num6(0.25 * sim::range(1, 20)) + "\"/>\n      <origin rpy=\"0 0 0\" xyz=\"" + triple(0.3) + "\"/>\n    </inertial>\n  </link>\n";
            parts.push_back(l);
            if (i == 0) continue;
            static const char* types[] = {"revolute", "fixed", "prismatic", "continuous", "revolute", "fixed", "planar", "floating"};
            int t = sim::choose(8); if (t == 7 && (any_floating || floating || i > 1)) t = 0; if (t == 7) any_floating = true; if (t == 6 && sim::chance(1, 2)) t = 4;
            int parent = sim::chance(1, 2) ? i - 1 : sim::choose(i);
            std::string axis = sim::chance(1, 2) ? sim::pick(std::vector<std::string>{"1 0 0", "0 1 0", "0 0 1", "0 0 -1", "0 -1 0"}) : "0.3 " + num6(sim::num(-1, 1)) + " 0.5";
            std::string j = "  <joint name=\"" + std::string(1, char('a' + sim::choose(26))) + std::to_string(i) + "\" type=\"" + types[t] + "\">\n    <parent link=\"" + names[parent] + "\"/>\n    <child link=\"" + names[i] + "\"/>\n";
            if (!sim::chance(1, 6)) j += "    <origin rpy=\"" + triple(3) + "\" xyz=\"" + triple(0.5) + "\"/>\n";
            j += "    <axis xyz=\"" + axis + "\"/>\n  </joint>\n"; joints.push_back(j);
        }
        std::vector<std::string> all = parts; if (sim::chance(1, 2)) all.insert(all.begin(), joints.begin(), joints.end()); else all.insert(all.end(), joints.begin(), joints.end());
        s = "<?xml version=\"1.0\"?>\n<!-- robot -->\n<robot name=\"r\">\n"; for (auto& e : all) s += e; return s + "</robot>\n";
    }
    const char* pepperFile(int k) { static const char* f[] = {"pepper_fixedwheels.urdf", "pepper_fixedwheels_roottibia.urdf", "pepper_fixedwheels_roottibia_planar.urdf"}; return f[k]; }
    V randomConfig(const Tree& t)
    {
        V q(t.nq); int how = sim::choose(4); for (int i = 0; i < t.nq; ++i) q[i] = how == 0 ? 0 : how == 1 ? sim::num(-0.3, 0.3) : sim::num(-3, 3);
        if (sim::chance(1, 10)) q *= 10; return q;
    }
    // a robot in a file, the model loaded from it and what is kept between updates
    struct Rig
    {
        humoto::rbdl::Model model; Tree tree; V q; bool loaded = false;
        std::map<int, humoto::rbdl::TagLinkPtr> links; std::map<int, std::pair<V3, humoto::rbdl::TagPointPtr>> points; std::map<int, humoto::rbdl::TagPointPtr> coms; std::vector<std::pair<std::vector<int>, humoto::rbdl::TagPartialCoMPtr>> partial; humoto::rbdl::TagCoMPtr com;
        void forget() { links.clear(); points.clear(); coms.clear(); partial.clear(); com.reset(); loaded = false; }
    };
    void loadRig(Rig& g, int gen)
    {
        bool pepper = sim::chance(1, 4), floating = true; std::string text;
        if (pepper) { int k = sim::choose(3); text = slurp(repo() + "/modules/pepper_ik/config/" + pepperFile(k)); floating = k != 2; } else { floating = sim::chance(1, 2); text = randomRobot(floating); }
        std::string file = sim::scratch() + "/robot" + std::to_string(gen % 2) + ".urdf"; spill(file, text);
        RigidBodyDynamics::stub::multiDoF() = sim::choose(3); g.forget();
        humoto::rbdl::ModelParameters par; par.floating_base_ = floating;
        // attempts which fail
        int fault = sim::choose(6);
        if (fault == 1) { sim::count("fault:missing file"); if (!throws([&] { g.model.load(par, sim::scratch() + "/missing.urdf"); })) fail("error-not-raised", "a missing description of a robot was loaded"); }
        if (fault == 2) { sim::count("fault:damaged file"); spill(sim::scratch() + "/torn.urdf", text.substr(0, text.size() * sim::range(1, 9) / 10)); if (!throws([&] { g.model.load(par, sim::scratch() + "/torn.urdf"); })) fail("error-not-raised", "a torn description of a robot was loaded"); }
        if (fault == 3) { sim::count("fault:read error"); faults::disk().read_fail_at = sim::range(0, (int)text.size() - 12); bool t = throws([&] { g.model.load(par, file); }); faults::diskReset(); if (!t) fail("error-not-raised", "a description of a robot was loaded in spite of a read error"); }
        if (fault == 4) { sim::count("fault:memory exhausted"); faults::allocArmNew(sim::range(1, 60)); bool t = throws([&] { g.model.load(par, file); }); faults::allocDisarm(); (void)t; }
        if (fault == 5) { faults::disk().max_read = sim::range(1, 900); faults::disk().eintr_every = sim::chance(1, 4) ? 0 : sim::range(2, 4); }
        try { if (sim::chance(1, 4)) { g.model.model_parameters_ = par; g.model.load(file); } else g.model.load(par, file); } catch (const std::exception& e) { fail("unexpected-error", "load() failed: %s", e.what()); }
        faults::diskReset();
        urdf_mini::Robot r; if (!urdf_mini::parse(text, r)) sim::harnessError("the description of the robot cannot be parsed"); g.tree.build(r, floating); g.loaded = true;
        if ((int)g.model.getDOFNumber() != g.tree.nq) fail("wrong-dof", "%zu degrees of freedom instead of %d", g.model.getDOFNumber(), g.tree.nq);
    }
    void checkRig(Rig& g)
    {
        Tree& t = g.tree; const humoto::rbdl::Model& m = g.model; M J; namespace h = humoto::rbdl; const double tol = 1e-9; double big = 1 + g.q.cwiseAbs().sum();
        for (int k = sim::range(1, 6); k > 0; --k)
        {
            int i = sim::choose(t.n.size()); const char* nm = t.n[i].name.c_str();
            switch (sim::choose(6))
            {
                case 0:   // a link
                {
                    if (!g.links[i]) g.links[i] = m.getLinkTag(nm); h::TagLinkPtr tag = g.links[i];
                    if (!near(m.getTagPosition(tag), t.n[i].p, tol * big)) fail("wrong-position", "position of link %s is wrong by %g", nm, off(m.getTagPosition(tag), t.n[i].p));
                    if (!near(m.getTagOrientation(tag), t.n[i].R, tol * big)) fail("wrong-orientation", "orientation of link %s is wrong by %g", nm, off(m.getTagOrientation(tag), t.n[i].R));
                    humoto::rigidbody::RigidBodyPose pose = m.getTagPose(tag); if (!near(pose.position_, t.n[i].p, tol * big) || !near(rpyMatrix(pose.rpy_), t.n[i].R, 1e-6 * big)) fail("wrong-pose", "pose of link %s is wrong", nm);
                    M R = t.jac(i, t.n[i].p);
                    m.getTagJacobian<h::SpatialType::COMPLETE>(J, tag); if (!near(J, R, tol * big)) fail("wrong-jacobian", "Jacobian of link %s is wrong by %g", nm, off(J, R));
                    m.getTagJacobian<h::SpatialType::TRANSLATION>(J, tag); if (!near(J, R.bottomRows(3), tol * big)) fail("wrong-jacobian", "translational Jacobian of link %s is wrong by %g", nm, off(J, R.bottomRows(3)));
                    m.getTagJacobian<h::SpatialType::ROTATION>(J, tag); if (!near(J, R.topRows(3), tol * big)) fail("wrong-jacobian", "rotational Jacobian of link %s is wrong by %g", nm, off(J, R.topRows(3)));
                    if (t.moves(i) && !near(V::Constant(1, m.getTagMass(tag)), V::Constant(1, t.n[i].m), tol)) fail("wrong-mass", "mass of link %s is %g instead of %g", nm, m.getTagMass(tag), t.n[i].m);
                    break;
                }
                case 1:   // a point
                {
                    if (!g.points.count(i)) { V3 l(coord(0.7), coord(0.7), coord(0.7)); g.points[i] = std::make_pair(l, m.getPointTag(nm, l)); }
                    V3 p = t.point(i, g.points[i].first); h::TagPointPtr tag = g.points[i].second;
                    if (!near(m.getTagPosition(tag), p, tol * big)) fail("wrong-position", "position of a point of link %s is wrong by %g", nm, off(m.getTagPosition(tag), p));
                    if (!near(m.getTagOrientation(tag), t.n[i].R, tol * big)) fail("wrong-orientation", "orientation of a point of link %s is wrong", nm);
                    humoto::rigidbody::RigidBodyPose pose = m.getTagPose(tag); if (!near(pose.position_, p, tol * big) || !near(rpyMatrix(pose.rpy_), t.n[i].R, 1e-6 * big)) fail("wrong-pose", "pose of a point of link %s is wrong", nm);
                    M R = t.jac(i, p);
                    m.getTagJacobian<h::SpatialType::COMPLETE>(J, tag); if (!near(J, R, tol * big)) fail("wrong-jacobian", "Jacobian of a point of link %s is wrong by %g", nm, off(J, R));
                    m.getTagJacobian<h::SpatialType::TRANSLATION>(J, tag); if (!near(J, R.bottomRows(3), tol * big)) fail("wrong-jacobian", "translational Jacobian of a point of link %s is wrong", nm);
                    break;
                }
                case 2:   // centre of mass of a link and everything attached to it
                {
                    if (!t.moves(i) || t.n[i].m <= 0) break;
                    if (!g.coms[i]) g.coms[i] = m.getLinkCoMTag(nm); if (!near(m.getTagPosition(g.coms[i]), t.n[i].c, tol * big)) fail("wrong-com", "centre of mass of link %s is wrong by %g", nm, off(m.getTagPosition(g.coms[i]), t.n[i].c));
                    m.getTagJacobian<h::SpatialType::TRANSLATION>(J, g.coms[i]); if (!near(J, t.jac(i, t.n[i].c).bottomRows(3), tol * big)) fail("wrong-jacobian", "Jacobian of the centre of mass of link %s is wrong", nm);
                    break;
                }
                case 3:   // of several links
                {
                    if (g.partial.size() < 3)
                    {
                        std::vector<int> v; std::vector<std::string> names; for (int k : t.moving()) if (sim::chance(1, 2)) v.push_back(k); for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[sim::choose(k)]);
                        if (v.empty() || t.mass(v) <= 0) break;
                        for (int k : v) names.push_back(t.n[k].name); g.partial.emplace_back(v, m.getCoMTag(names));
                    }
                    auto& c = g.partial[sim::choose(g.partial.size())];
                    if (!near(m.getTagPosition(c.second), t.com(c.first), tol * big)) fail("wrong-com", "centre of mass of %zu links is wrong by %g", c.first.size(), off(m.getTagPosition(c.second), t.com(c.first)));
                    m.getTagJacobian(J, c.second); if (!near(J, t.comJac(c.first), tol * big)) fail("wrong-jacobian", "Jacobian of the centre of mass of %zu links is wrong by %g", c.first.size(), off(J, t.comJac(c.first)));
                    if (!near(V::Constant(1, m.getTagMass(c.second)), V::Constant(1, t.mass(c.first)), tol)) fail("wrong-mass", "mass of %zu links is %g instead of %g", c.first.size(), m.getTagMass(c.second), t.mass(c.first));
                    break;
                }
                case 4:   // of the robot
                {
                    std::vector<int> v = t.moving(); if (v.empty() || t.mass(v) <= 0) break; if (!g.com) g.com = m.getCoMTag();
                    if (!near(m.getTagPosition(g.com), t.com(v), tol * big)) fail("wrong-com", "centre of mass of the robot is wrong by %g", off(m.getTagPosition(g.com), t.com(v)));
                    m.getTagJacobian(J, g.com); if (!near(J, t.comJac(v), tol * big)) fail("wrong-jacobian", "Jacobian of the centre of mass of the robot is wrong by %g", off(J, t.comJac(v)));
                    if (!near(V::Constant(1, m.getTagMass(g.com)), V::Constant(1, t.mass(v)), tol)) fail("wrong-mass", "mass of the robot is %g instead of %g", m.getTagMass(g.com), t.mass(v));
                    break;
                }
                default:  // what does not exist
                {
                    std::string bad = std::string(nm) + "_"; if (t.at(bad) >= 0) break; int how = sim::choose(4); const std::vector<std::string> two = {t.n[sim::choose(t.n.size())].name, bad};
                    if (how == 3 && !t.moves(t.at(two[0]))) how = 0;
                    if (!throws([&] { switch (how) { case 0: m.getLinkTag(bad); break; case 1: m.getPointTag(bad, V3::Zero()); break; case 2: m.getLinkCoMTag(bad); break; default: m.getCoMTag(two); } })) fail("error-not-raised", "a tag of a link that does not exist was created");
                    sim::count("fault:unknown link");
                }
            }
        }
        sim::nontrivial(); sim::state(sim::mix(t.n.size() * 64 + t.nq, RigidBodyDynamics::stub::multiDoF()));
    }
    void kinematics()
    {
        Rig g; int loads = sim::range(1, 3);
        for (int l = 0; l < loads; ++l)
        {
            loadRig(g, l); int updates = sim::range(1, 6);
            for (int u = 0; u < updates; ++u)
            {
                sim::step(); g.q = randomConfig(g.tree);
                if (sim::chance(1, 8)) { V other = randomConfig(g.tree); faults::allocArmNew(sim::range(1, 20)); throws([&] { g.model.update(other); }); faults::allocDisarm(); sim::count("fault:memory exhausted"); }
                try { g.model.update(g.q); } catch (const std::exception& e) { fail("unexpected-error", "update() failed: %s", e.what()); }
                g.tree.fk(g.q); for (int i = 0; i < g.q.size(); ++i) sim::digestDouble(g.q[i]);
                try { checkRig(g); } catch (const std::exception& e) { fail("unexpected-error", "a query of the model failed: %s", e.what()); }
            }
        }
        sim::sample("kinematics: %d loads, %zu links, %d degrees of freedom", loads, g.tree.n.size(), g.tree.nq);
    }
}
#include "ik_wbc.h"
namespace ik
{
    void c24() { switch (sim::choose(7)) { case 0: kinematics(); break; case 6: switch (sim::choose(3)) { case 0: defaults<PLANAR>(); break; case 1: defaults<TIBIA>(); break; default: defaults<TORSO>(); } break; case 1: same(); break; case 2: case 3: tasks(); break; default: loops(); } }
    sim::Scenario s24("C24", "kinematic trees, least squares problems and limits computed from the URDF files alone", c24);
}
