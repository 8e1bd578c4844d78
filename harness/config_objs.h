// Configurable objects of humoto behind one interface, with their expected entries.
#pragma once
#ifdef CFG_YAML
#include "humoto/config_yaml.h"
#else
#include "humoto/config_msgpack.h"
#endif
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
#include "harness/cfgnode.h"
#include "sim/faults.h"
#include <memory>
#include <map>
#include <functional>
#include <unistd.h>
#ifdef CFG_YAML
typedef humoto::config::yaml::Reader Reader;
typedef humoto::config::yaml::Writer Writer;
#define CFG_IS_YAML true
#else
typedef humoto::config::msgpack::Reader Reader;
typedef humoto::config::msgpack::Writer Writer;
#define CFG_IS_YAML false
#endif

// ---------------- a client's own configurable classes ----------------
namespace client
{
    struct Color { enum Type { RED = 0, GREEN = 1, BLUE = -7, LARGE = 100000 }; };
    class Inner : public humoto::config::StrictConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Inner"
        #define HUMOTO_CONFIG_CONSTRUCTOR Inner
        #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_COMPOUND_(m) HUMOTO_CONFIG_SCALAR_(s) HUMOTO_CONFIG_COMPOUND_(v)
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
        public:
            Eigen::MatrixXd m_; std::string s_; Eigen::VectorXd v_;
            int finalized_;
            Inner() { finalized_ = 0; setDefaults(); }
            void setDefaults() { m_ = Eigen::MatrixXd::Constant(2, 3, 0.5); s_ = "inner default"; v_.setZero(2); }
            void finalize() { ++finalized_; }
    };
    class Base : public humoto::config::RelaxedConfigurableBase
    {
        #define HUMOTO_CONFIG_SECTION_ID "Base"
        #define HUMOTO_CONFIG_CONSTRUCTOR Base
        #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_SCALAR_(flag) HUMOTO_CONFIG_SCALAR_(number) HUMOTO_CONFIG_ENUM_(color) HUMOTO_CONFIG_COMPOUND_(fixed)
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
        public:
            bool flag_; int number_; Color::Type color_; Eigen::Matrix<double, 2, 3> fixed_;
            Base() { setDefaults(); }
            void setDefaults() { flag_ = true; number_ = -5; color_ = Color::GREEN; fixed_.setConstant(-1); }
    };
    class Big : public Base
    {
        #define HUMOTO_CONFIG_SECTION_ID "Big"
        #define HUMOTO_CONFIG_CONSTRUCTOR Big
        #define HUMOTO_CONFIG_ENTRIES HUMOTO_CONFIG_PARENT_CLASS(Base) HUMOTO_CONFIG_COMPOUND_(names) HUMOTO_CONFIG_COMPOUND_(reals) HUMOTO_CONFIG_COMPOUND_(indices) \
            HUMOTO_CONFIG_MEMBER_CLASS(inner_, "first") HUMOTO_CONFIG_MEMBER_CLASS(other_, "second") HUMOTO_CONFIG_SCALAR(raw) HUMOTO_CONFIG_SCALAR_(count) HUMOTO_CONFIG_COMPOUND_(square)
        #include HUMOTO_CONFIG_DEFINE_ACCESSORS
        public:
            std::vector<std::vector<std::string> > names_; std::vector<double> reals_; humoto::IndexVector indices_;
            Inner inner_, other_; double raw; std::size_t count_; Eigen::Matrix3d square_;
            Big() { setDefaults(); }
            void setDefaults() { Base::setDefaults(); names_.clear(); reals_.assign(3, 0.25); indices_.setZero(1); inner_.setDefaults(); other_.setDefaults(); raw = 17; count_ = 3; square_.setIdentity(); }
    };
    class Obstacle : public humoto::obstacle_avoidance::ObstacleBase
    {
        public:
            void updateConstraints(const humoto::ControlProblem&, const humoto::Solution&, const double) {}
            void resetConstraints(const humoto::ControlProblem&) {}
    };
}

// ---------------- value <-> entry ----------------
template<class S, int R, int F> Node toNode(const Eigen::Matrix<S, R, 1, F>& v) { Node n = Node::arr(); for (int i = 0; i < v.size(); ++i) n.a.push_back(std::is_floating_point<S>::value ? Node::dbl(v[i]) : Node::integer((int64_t)v[i])); return n; }
template<class S, int R, int C, int F> Node toNode(const Eigen::Matrix<S, R, C, F>& v)
{
    Node n = Node::map(); n.add("cols", Node::integer(v.cols())).add("rows", Node::integer(v.rows()));
    Node d = Node::arr(); for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) d.a.push_back(Node::dbl(v(i, j)));
    return n.add("data", d);
}
inline Node toNode(double v) { return Node::dbl(v); }
inline Node toNode(int v) { return Node::integer(v); }
inline Node toNode(std::size_t v) { return Node::uinteger(v); }
inline Node toNode(std::ptrdiff_t v) { return Node::integer(v); }
inline Node toNode(bool v) { return Node::boolean(v); }
inline Node toNode(const std::string& v) { return Node::str(v); }
template<class T> Node toNode(const std::vector<T>& v) { Node n = Node::arr(); for (auto& e : v) n.a.push_back(toNode(e)); return n; }

// ---------------- generation ----------------
inline double anyDouble()
{
#ifdef CFG_YAML   // numbers are written with 15 digits, which is exact for numbers with up to 15 digits
    double v = 0;
    switch (sim::choose(6))
    {
        case 0: v = sim::range(0, 9); break;
        case 1: v = -sim::range(0, 1000) / 8.0; break;
        case 2: case 3: v = sim::num(-2, 2); break;
        case 4: v = sim::num(-1, 1) * std::pow(10.0, sim::range(-300, 300)); break;
        default: { static const double s[] = {0.1, -0.0, 1e-300, 4294967296.0, -2147483649.0, 1e22, 900719925474099.0, 255}; v = s[sim::choose(8)]; }
    }
    char b[64]; snprintf(b, sizeof b, "%.15g", v); v = std::strtod(b, nullptr);
    return v != 0 && std::fabs(v) < 1e-305 ? 0 : v;
#endif
    switch (sim::choose(8))
    {
        case 0: return sim::range(0, 9);
        case 1: return -sim::range(0, 1000) / 8.0;
        case 2: case 3: case 4: return sim::num(-2, 2);
        case 5: return sim::num(-1, 1) * std::pow(10.0, sim::range(-300, 300));
        case 6: { static const double s[] = {0.1, -0.0, 1e-310, 4294967296.0, -2147483649.0, 1e22, 9007199254740993.0, 255}; return s[sim::choose(8)]; }
        default: { uint32_t k = sim::choose(4); return k == 0 ? NAN : k == 1 ? HUGE_VAL : k == 2 ? -HUGE_VAL : 5e-324; }
    }
}
inline int anyLength(bool small) { switch (sim::choose(small ? 5 : 8)) { case 0: return sim::range(0, 4); case 1: return 15; case 2: return 16; case 3: return 17; case 4: return sim::range(0, 40); case 5: return 255; case 6: return 256; default: return !CFG_IS_YAML && sim::chance(1, 20) ? 65536 : 31; } }
inline std::string anyString()
{
#ifdef CFG_YAML   // printable characters
    switch (sim::choose(5))
    {
        case 0: { static const char* w[] = {"x", "", "name", "gain", "rows", "left_foot_state", "null", "~", "true", "12"}; return w[sim::choose(10)]; }
        case 1: { static const char* w[] = {"with space and \"quotes\"\n\tnext", "a: b", "- x", "# no comment", "it's", "[1, 2", "x # y", "\\", "{", " lead", "trail ", "&a", "*a", "!t", "%d", "@", "`", ", "}; return w[sim::choose(18)]; }
        case 2: return std::string(31 + sim::choose(300), 'a');
        default: { std::string s; int n = sim::range(0, 12); for (int i = 0; i < n; ++i) s += (char)(32 + sim::choose(95)); return s; }
    }
#endif
    switch (sim::choose(6))
    {
        case 0: { static const char* w[] = {"x", "", "name", "gain", "rows", "left_foot_state"}; return w[sim::choose(6)]; }
        case 1: return std::string("with space and \"quotes\"\n\t") + (char)0 + "nul";
        case 2: return std::string(31 + sim::choose(3), 'a');
        case 3: return std::string(254 + sim::choose(4), 'b');
        case 4: return sim::chance(1, 10) ? std::string(65534 + sim::choose(4), 'c') : std::string("\xc3\xa9\xff");
        default: { std::string s; int n = sim::range(0, 12); for (int i = 0; i < n; ++i) s += (char)sim::choose(256); return s; }
    }
}
inline void gen(double& v) { v = anyDouble(); }
inline void gen(int& v) { uint32_t k = sim::choose(8); v = k == 0 ? 0 : k == 1 ? INT32_MAX : k == 2 ? INT32_MIN : k == 3 ? -1 : k == 4 ? 127 + (int)sim::choose(3) : k == 5 ? -(int)sim::choose(70000) : (int)sim::choose(70000); }
inline void gen(std::size_t& v) { uint32_t k = sim::choose(6); v = k == 0 ? 0 : k == 1 ? 127 + sim::choose(3) : k == 2 ? 65535 + sim::choose(3) : k == 3 ? 4294967295ull + sim::choose(3) : k == 4 ? ~0ull - sim::choose(2) : sim::choose(5000); }
inline void gen(std::ptrdiff_t& v) { uint32_t k = sim::choose(5); v = k == 0 ? -1 : k == 1 ? -(int64_t)sim::choose(100000) : k == 2 ? INT64_MAX : k == 3 ? INT64_MIN : (int64_t)sim::choose(100000); }
inline void gen(bool& v) { v = sim::choose(2); }
inline void gen(std::string& v) { v = anyString(); }
template<class S, int R, int F> void gen(Eigen::Matrix<S, R, 1, F>& v) { if (R == Eigen::Dynamic) v.resize(anyLength(false)); for (int i = 0; i < v.size(); ++i) v[i] = std::is_floating_point<S>::value ? (S)(v.size() > 300 ? i * 0.5 : anyDouble()) : (S)sim::choose(70000); }
template<class S, int R, int C, int F> void gen(Eigen::Matrix<S, R, C, F>& v) { v.resize(R == Eigen::Dynamic ? sim::range(0, 6) : R, C == Eigen::Dynamic ? sim::range(0, 6) : C); for (int i = 0; i < v.size(); ++i) v.data()[i] = anyDouble(); }
template<class T> void gen(std::vector<T>& v) { v.resize(anyLength(true)); for (size_t i = 0; i < v.size(); ++i) { T t; gen(t); v[i] = t; } }
template<class E> void genEnum(E& v, std::initializer_list<int> l) { std::vector<int> x(l); v = (E)x[sim::choose(x.size())]; }

// ---------------- fields of the classes ----------------
template<class T> struct Fields;   // static void visit(T&, F&); enums are given with their values
#define ENUM_STANCE {0, 1, 2, 3, 4}
template<> struct Fields<humoto::rigidbody::PointMassState> { typedef humoto::rigidbody::PointMassState T; static const char* id() { return "PointMassState"; } template<class F> static void visit(T& o, F& f) { f("position", o.position_); f("velocity", o.velocity_); f("acceleration", o.acceleration_); } };
template<> struct Fields<humoto::rigidbody::RotaryState> { typedef humoto::rigidbody::RotaryState T; static const char* id() { return "RotaryState"; } template<class F> static void visit(T& o, F& f) { f("rpy", o.rpy_); f("angular_velocity", o.angular_velocity_); f("angular_acceleration", o.angular_acceleration_); } };
template<> struct Fields<humoto::rigidbody::RigidBodyPose> { typedef humoto::rigidbody::RigidBodyPose T; static const char* id() { return "RigidBodyPose"; } template<class F> static void visit(T& o, F& f) { f("position", o.position_); f("rpy", o.rpy_); } };
template<> struct Fields<humoto::rigidbody::RigidBodyState> { typedef humoto::rigidbody::RigidBodyState T; static const char* id() { return "RigidBodyState"; } template<class F> static void visit(T& o, F& f) { Fields<humoto::rigidbody::PointMassState>::visit(o, f); Fields<humoto::rigidbody::RotaryState>::visit(o, f); } };
template<> struct Fields<client::Obstacle> { typedef client::Obstacle T; static const char* id() { return "ObstacleBase"; } template<class F> static void visit(T& o, F& f) { Fields<humoto::rigidbody::RigidBodyState>::visit(o, f); } };
template<> struct Fields<humoto::walking::StanceFSMParameters>
{
    typedef humoto::walking::StanceFSMParameters T; static const char* id() { return "StanceFSMParameters"; }
    template<class F> static void visit(T& o, F& f)
    {
        f("ss_duration_ms", o.ss_duration_ms_); f("tds_duration_ms", o.tds_duration_ms_); f("first_stance_duration_ms", o.first_stance_duration_ms_); f("last_stance_duration_ms", o.last_stance_duration_ms_); f("num_steps", o.num_steps_);
        f.en("first_stance", o.first_stance_, ENUM_STANCE); f.en("first_ss_type", o.first_ss_type_, ENUM_STANCE); f.en("last_stance", o.last_stance_, ENUM_STANCE);
    }
};
template<> struct Fields<humoto::wpg04::WalkParameters>
{
    typedef humoto::wpg04::WalkParameters T; static const char* id() { return "WalkParameters"; }
    template<class F> static void visit(T& o, F& f)
    {
        f("com_velocity", o.com_velocity_); f("first_stance_com_velocity", o.first_stance_com_velocity_); f("last_stance_com_velocity", o.last_stance_com_velocity_); f("step_height", o.step_height_); f("theta_increment", o.theta_increment_);
        Fields<humoto::walking::StanceFSMParameters>::visit(o, f);
    }
};
template<> struct Fields<humoto::Solution> { typedef humoto::Solution T; static const char* id() { return "Solution"; } template<class F> static void visit(T& o, F& f) { f("x", o.x_); } };
template<class P> struct BaseParams { template<class F> static void visit(P& o, F& f) { f("crash_on_any_failure", o.crash_on_any_failure_); f("solve_two_levels_as_qp", o.solve_two_levels_as_qp_); } };
template<> struct Fields<humoto::kktsolver::SolverParameters> { typedef humoto::kktsolver::SolverParameters T; static const char* id() { return "SolverParameters"; } template<class F> static void visit(T& o, F& f) { BaseParams<T>::visit(o, f); } };
template<> struct Fields<humoto::quadprogpp::SolverParameters> { typedef humoto::quadprogpp::SolverParameters T; static const char* id() { return "SolverParameters"; } template<class F> static void visit(T& o, F& f) { BaseParams<T>::visit(o, f); f("regularization_factor", o.regularization_factor_); } };
struct QPmadP {}; struct QPoasesP {};
template<> struct Fields<humoto::qpmad::SolverParameters>
{
    typedef humoto::qpmad::SolverParameters T; static const char* id() { return "SolverParameters"; }
    template<class O, class F> static void opt(O& o, F& f) { f.en("hessian_type", o.hessian_type_, {0, 1, 2}); f("tolerance", o.tolerance_); f("max_iter", o.max_iter_); }
    template<class F> static void visit(T& o, F& f) { BaseParams<T>::visit(o, f); f("regularization_factor", o.regularization_factor_); f.sub("QPmadParameters", [&](F& g) { opt(o.options_, g); }); }
};
template<> struct Fields<humoto::qpoases::SolverParameters>
{
    typedef humoto::qpoases::SolverParameters T; static const char* id() { return "SolverParameters"; }
    template<class O, class F> static void opt(O& o, F& f)
    {
        f.en("enableRamping", o.enableRamping, {0, 1}); f.en("enableFarBounds", o.enableFarBounds, {0, 1}); f.en("enableFlippingBounds", o.enableFlippingBounds, {0, 1}); f.en("enableRegularisation", o.enableRegularisation, {0, 1});
        f.en("enableFullLITests", o.enableFullLITests, {0, 1}); f.en("enableNZCTests", o.enableNZCTests, {0, 1}); f("enableDriftCorrection", o.enableDriftCorrection); f("enableCholeskyRefactorisation", o.enableCholeskyRefactorisation);
        f.en("enableEqualities", o.enableEqualities, {0, 1}); f("terminationTolerance", o.terminationTolerance); f("boundTolerance", o.boundTolerance); f("boundRelaxation", o.boundRelaxation); f("epsNum", o.epsNum); f("epsDen", o.epsDen);
        f("maxPrimalJump", o.maxPrimalJump); f("maxDualJump", o.maxDualJump); f("initialRamping", o.initialRamping); f("finalRamping", o.finalRamping); f("initialFarBounds", o.initialFarBounds); f("growFarBounds", o.growFarBounds);
        f.en("initialStatusBounds", o.initialStatusBounds, {-1, 0, 1}); f("epsFlipping", o.epsFlipping); f("numRegularisationSteps", o.numRegularisationSteps); f("epsRegularisation", o.epsRegularisation); f("numRefinementSteps", o.numRefinementSteps);
        f("epsIterRef", o.epsIterRef); f("epsLITests", o.epsLITests); f("epsNZCTests", o.epsNZCTests); f("rcondSMin", o.rcondSMin); f.en("enableInertiaCorrection", o.enableInertiaCorrection, {0, 1}); f.en("enableDropInfeasibles", o.enableDropInfeasibles, {0, 1});
        f("dropBoundPriority", o.dropBoundPriority); f("dropEqConPriority", o.dropEqConPriority); f("dropIneqConPriority", o.dropIneqConPriority);
    }
    template<class F> static void visit(T& o, F& f) { BaseParams<T>::visit(o, f); f("max_number_of_iterations", o.max_number_of_iterations_); f("max_cpu_time", o.max_cpu_time_); f.sub("QPoasesParameters", [&](F& g) { opt(o.options_, g); }); }
};
template<> struct Fields<humoto::wpg04::MPCParameters>
{
    typedef humoto::wpg04::MPCParameters T; static const char* id() { return "MPCParameters"; }
    template<class F> static void visit(T& o, F& f) { f("preview_horizon_length", o.preview_horizon_length_); f("sampling_time_ms", o.sampling_time_ms_); f("subsampling_time_ms", o.subsampling_time_ms_); f("tds_sampling_time_ms", o.tds_sampling_time_ms_); }
};
template<> struct Fields<humoto::wpg04::ModelState>
{
    typedef humoto::wpg04::ModelState T; static const char* id() { return "ModelState"; }
    template<class F> static void visit(T& o, F& f)
    {
        f.en("stance_type", o.stance_type_, ENUM_STANCE); f.en("next_stance_type", o.next_stance_type_, ENUM_STANCE);
        f.sub("com_state", [&](F& g) { Fields<humoto::rigidbody::PointMassState>::visit(o.com_state_, g); });
        f.sub("left_foot_state", [&](F& g) { Fields<humoto::rigidbody::RigidBodyState>::visit(o.feet_.getLeft(), g); });
        f.sub("right_foot_state", [&](F& g) { Fields<humoto::rigidbody::RigidBodyState>::visit(o.feet_.getRight(), g); });
    }
};
template<> struct Fields<humoto::pepper_mpc::RobotParameters>
{
    typedef humoto::pepper_mpc::RobotParameters T; static const char* id() { return "RobotParameters"; }
    template<class F> static void visit(T& o, F& f) { f("base_radius", o.base_radius_); f("max_nominal_base_velocity", o.max_nominal_base_velocity_); f("max_nominal_base_acceleration", o.max_nominal_base_acceleration_); f("max_base_velocity", o.max_base_velocity_); f("max_base_acceleration", o.max_base_acceleration_); f("body_bounds", o.body_bounds_); }
};
template<> struct Fields<humoto::pepper_mpc::MotionParameters>
{
    typedef humoto::pepper_mpc::MotionParameters T; static const char* id() { return "MotionParameters"; }
    template<class F> static void visit(T& o, F& f) { f("base_velocity", o.base_velocity_); f("base_position", o.base_position_); f("base_angular_velocity", o.base_angular_velocity_); f.en("motion_mode", o.motion_mode_, {0, 1, 2}); f("duration_ms", o.duration_ms_); }
};
template<> struct Fields<humoto::pepper_mpc::MPCParameters>
{
    typedef humoto::pepper_mpc::MPCParameters T; static const char* id() { return "MPCParameters"; }
    template<class F> static void visit(T& o, F& f) { f("preview_horizon_length", o.preview_horizon_length_); f("sampling_time_ms", o.sampling_time_ms_); f("subsampling_time_ms", o.subsampling_time_ms_); }
};
template<> struct Fields<humoto::pepper_mpc::ModelState>
{
    typedef humoto::pepper_mpc::ModelState T; static const char* id() { return "ModelState"; }
    template<class F> static void visit(T& o, F& f)
    {
        f.sub("base_state", [&](F& g) { Fields<humoto::rigidbody::RigidBodyState>::visit(o.base_state_, g); }); f.sub("body_state", [&](F& g) { Fields<humoto::rigidbody::PointMassState>::visit(o.body_state_, g); });
        f("base_mass", o.base_mass_); f("body_mass", o.body_mass_);
    }
};
template<> struct Fields<client::Inner> { typedef client::Inner T; static const char* id() { return "Inner"; } template<class F> static void visit(T& o, F& f) { f("m", o.m_); f("s", o.s_); f("v", o.v_); } };
template<> struct Fields<client::Big>
{
    typedef client::Big T; static const char* id() { return "Big"; }
    template<class F> static void visit(T& o, F& f)
    {
        f("flag", o.flag_); f("number", o.number_); f.en("color", o.color_, {0, 1, -7, 100000}); f("fixed", o.fixed_); f("names", o.names_); f("reals", o.reals_); f("indices", o.indices_);
        f.sub("first", [&](F& g) { Fields<client::Inner>::visit(o.inner_, g); }); f.sub("second", [&](F& g) { Fields<client::Inner>::visit(o.other_, g); }); f("raw", o.raw); f("count", o.count_); f("square", o.square_);
    }
};
// classes whose members are private: a shadow with the same entries
struct FootShadow { double max_step_len, min_feet_dist, max_feet_dist, feet_dist_default, foot_length, foot_width; };
template<> struct Fields<FootShadow> { typedef FootShadow T; template<class F> static void visit(T& o, F& f) { f("max_step_len", o.max_step_len); f("min_feet_dist", o.min_feet_dist); f("max_feet_dist", o.max_feet_dist); f("feet_dist_default", o.feet_dist_default); f("foot_length", o.foot_length); f("foot_width", o.foot_width); } };

struct ToTree
{
    Node n = Node::map();
    template<class V> void operator()(const char* k, V& v) { n.add(k, toNode(v)); }
    template<class V> void en(const char* k, V& v, std::initializer_list<int>) { n.add(k, Node::integer((int64_t)v)); }
    template<class G> void sub(const char* k, G g) { ToTree t; g(t); n.add(k, t.n); }
};
// storage kind of every entry, by path
struct Kinds
{
    std::map<std::string, std::string> k; std::string p;
    template<class S, int R, int F> void of(const std::string& n, Eigen::Matrix<S, R, 1, F>&) { if (R != Eigen::Dynamic) k[n] = "fixed vector"; }
    template<class S, int R, int C, int F> void of(const std::string& n, Eigen::Matrix<S, R, C, F>&) { k[n] = R != Eigen::Dynamic && C != Eigen::Dynamic ? "fixed matrix" : "matrix"; }
    void of(const std::string& n, int&) { k[n] = "int"; }
    void of(const std::string& n, std::size_t&) { k[n] = "size_t"; }
    template<class V> void of(const std::string&, V&) {}
    template<class V> void operator()(const char* n, V& v) { of(p + "." + n, v); }
    template<class V> void en(const char* n, V&, std::initializer_list<int>) { k[p + "." + n] = "enum"; }
    template<class G> void sub(const char* n, G g) { std::string s = p; p += std::string(".") + n; g(*this); p = s; }
};
struct Randomize
{
    template<class V> void operator()(const char*, V& v) { gen(v); }
    template<class V> void en(const char*, V& v, std::initializer_list<int> l) { genEnum(v, l); }
    template<class G> void sub(const char*, G g) { g(*this); }
};

// ---------------- derived quantities ----------------
typedef std::vector<double> Vals;
template<class M> void put(Vals& v, const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(m(i, j)); }
inline double D(const Node& n, const char* k) { const Node* e = n.find(k); return e ? (e->t == Node::DBL ? e->d : e->big ? (double)(uint64_t)e->i : (double)e->i) : NAN; }
template<class T> struct Derived { static void get(const T&, Vals&) {} static void expect(const Node&, Vals&) {} static void fix(T&) {} };
inline void box(Vals& v, double r) { double b = r / std::sqrt(2.0); v.insert(v.end(), {-b, b, -b, b}); }
template<> struct Derived<humoto::pepper_mpc::RobotParameters>
{
    static void get(const humoto::pepper_mpc::RobotParameters& o, Vals& v) { put(v, o.getCoPBounds()); put(v, o.getNominalBaseVelocityBounds()); put(v, o.getNominalBaseAccelerationBounds()); put(v, o.getBodyBounds()); }
    static void expect(const Node& n, Vals& v) { box(v, D(n, "base_radius")); box(v, D(n, "max_nominal_base_velocity")); box(v, D(n, "max_nominal_base_acceleration")); for (auto& e : n.find("body_bounds")->find("data")->a) v.push_back(e.t == Node::DBL ? e.d : (double)e.i); }
    static void fix(humoto::pepper_mpc::RobotParameters&) {}
};
template<> struct Derived<humoto::pepper_mpc::MPCParameters>
{
    static void get(const humoto::pepper_mpc::MPCParameters& o, Vals& v) { v.push_back(o.getSamplingTime()); v.push_back(o.getSubsamplingTime()); }
    static void expect(const Node& n, Vals& v) { v.push_back(D(n, "sampling_time_ms") / 1000.); v.push_back(D(n, "subsampling_time_ms") / 1000.); }
    static void fix(humoto::pepper_mpc::MPCParameters&) {}
};
template<> struct Derived<humoto::wpg04::MPCParameters>
{
    static void get(const humoto::wpg04::MPCParameters& o, Vals& v) { v.push_back(o.getSubsamplingTime()); }
    static void expect(const Node& n, Vals& v) { v.push_back(D(n, "subsampling_time_ms") / 1000.); }
    static void fix(humoto::wpg04::MPCParameters& o) { o.subsampling_time_ms_ = sim::range(1, 200); o.sampling_time_ms_ = o.subsampling_time_ms_ * sim::range(1, 10); o.tds_sampling_time_ms_ = o.subsampling_time_ms_ * sim::range(1, 10); }
};
template<> struct Derived<humoto::walking::RobotFootParameters>
{
    typedef humoto::walking::RobotFootParameters T;
    static void get(const T& o, Vals& v)
    {
        using humoto::LeftOrRight; using humoto::walking::FootBoundsType;
        etools::Matrix2 R = etools::Matrix2::Identity(); etools::Vector2 z = etools::Vector2::Zero();
        put(v, o.getSSCoPBounds()); put(v, o.getADSCoPBounds());
        for (auto side : {LeftOrRight::LEFT, LeftOrRight::RIGHT})
        {
            put(v, o.getFootBounds(side, FootBoundsType::WITH_RESPECT_TO_SS)); put(v, o.getFootBounds(side, FootBoundsType::WITH_RESPECT_TO_ADS));
            put(v, o.getFootPositionFromADS(side, R, z)); put(v, o.getADSPositionFromFoot(side, R, z));
        }
    }
    static void expect(const Node& n, Vals& v)
    {
        double l = D(n, "foot_length") / 2, w = D(n, "foot_width") / 2, f = D(n, "feet_dist_default") / 2, t = (D(n, "foot_width") + D(n, "feet_dist_default")) / 2, s = D(n, "max_step_len"), lo = D(n, "min_feet_dist"), hi = D(n, "max_feet_dist");
        v.insert(v.end(), {-l, l, -w, w, -l, l, -t, t});
        v.insert(v.end(), {-s, s, lo, hi, 0, 0, f, f, 0, f, 0, -f});
        v.insert(v.end(), {-s, s, -hi, -lo, 0, 0, -f, -f, 0, -f, 0, f});
    }
    static void fix(T&) {}
};
inline std::string diffVals(const Vals& a, const Vals& b)
{
    if (a.size() != b.size()) return "number of derived values";
    for (size_t i = 0; i < a.size(); ++i)
    {
        double x = a[i], y = b[i];
        if (std::isnan(x) && std::isnan(y)) continue;
        if (x == y || std::fabs(x - y) <= 1e-12 * std::max(std::fabs(x), std::fabs(y)) + 1e-308) continue;
        // overflow in one of two equivalent formulas
        if ((!std::isfinite(x) || !std::isfinite(y)) && std::max(std::isfinite(x) ? std::fabs(x) : 0, std::isfinite(y) ? std::fabs(y) : 0) > 1e306) continue;
        return "derived value " + std::to_string(i) + ": " + std::to_string(x) + " instead of " + std::to_string(y);
    }
    return "";
}

// ---------------- one interface ----------------
enum How { READER_DEFAULT, READER_NODE, FILE_DEFAULT, FILE_NODE, CONSTRUCTOR };
struct IObj
{
    std::string cls, section; bool has_defaults = true, has_ctor = true, is_problem = false;
    virtual ~IObj() {}
    virtual std::unique_ptr<IObj> fresh() const = 0;
    virtual void randomize() = 0;
    virtual Node tree() = 0;                                                          // entries as seen through the members (or a fault-free write)
    virtual Vals derived() const = 0;
    virtual std::map<std::string, std::string> kinds() { return std::map<std::string, std::string>(); }
    virtual Vals expect(const Node&) const = 0;
    virtual void write(Writer&, const std::string* node) const = 0;
    virtual void writeFile(const std::string& file, const std::string* node) const = 0;
    virtual void read(Reader&, const std::string* node, bool strict, bool ctor) = 0;
    virtual void readFile(const std::string& file, const std::string* node, bool strict) = 0;
};
template<class O> Node treeByWriting(const O& o)
{
    faults::Disk saved = faults::disk(); faults::DiskStats st = faults::diskStats(); faults::disk() = faults::Disk();
    std::string f = sim::scratch() + "/tree.msg"; o.template writeConfig<Writer>(f); std::vector<Node> v; bool ok = decodeAll(slurp(f), v);
    faults::disk() = saved; faults::diskStats() = st;
    if (!ok || v.size() != 1 || v[0].t != Node::MAP || v[0].m.size() != 1) { Node bad = Node::map(); bad.add("<not decodable>", Node()); return bad; }
    return v[0].m[0].second;
}
template<class T, bool CTOR> struct Construct { static void go(T& o, Reader& r, const std::string* n, bool s) { if (n) { T t(r, *n, s); o = t; } else { T t(r, s); o = t; } } };
template<class T> struct Construct<T, false> { static void go(T& o, Reader& r, const std::string* n, bool s) { if (n) o.readConfig(r, *n, s); else o.readConfig(r, s); } };
template<class T, bool CTOR = true> struct Obj : IObj
{
    T o;
    Obj(const char* c) { cls = c; section = Fields<T>::id(); has_ctor = CTOR; }
    std::unique_ptr<IObj> fresh() const override { auto p = std::unique_ptr<Obj>(new Obj(cls.c_str())); p->has_defaults = has_defaults; return std::move(p); }
    void randomize() override { Randomize r; Fields<T>::visit(o, r); Derived<T>::fix(o); }
    Node tree() override { ToTree t; Fields<T>::visit(o, t); return t.n; }
    std::map<std::string, std::string> kinds() override { Kinds k; Fields<T>::visit(o, k); return k.k; }
    Vals derived() const override { Vals v; Derived<T>::get(o, v); return v; }
    Vals expect(const Node& n) const override { Vals v; Derived<T>::expect(n, v); return v; }
    void write(Writer& w, const std::string* n) const override { if (n) o.writeConfig(w, *n); else o.writeConfig(w); }
    void writeFile(const std::string& f, const std::string* n) const override { if (n) o.template writeConfig<Writer>(f, *n); else o.template writeConfig<Writer>(f); }
    void read(Reader& r, const std::string* n, bool strict, bool ctor) override { if (ctor) Construct<T, CTOR>::go(o, r, n, strict); else if (n) o.readConfig(r, *n, strict); else o.readConfig(r, strict); }
    void readFile(const std::string& f, const std::string* n, bool strict) override { if (n) o.template readConfig<Reader>(f, *n, strict); else o.template readConfig<Reader>(f, strict); }
};
struct FootObj : IObj
{
    typedef humoto::walking::RobotFootParameters T; T o;
    FootObj() { cls = "walking::RobotFootParameters"; section = "RobotFootParameters"; }
    std::unique_ptr<IObj> fresh() const override { return std::unique_ptr<IObj>(new FootObj); }
    void randomize() override
    {
        FootShadow s; Randomize r; Fields<FootShadow>::visit(s, r); ToTree t; Fields<FootShadow>::visit(s, t);
        std::string f = sim::scratch() + "/foot.msg"; Node root = Node::map(); root.add(section, t.n); spew(f, encode(root)); o.readConfig<Reader>(f);
        Node back = tree(); std::string d = diff(t.n, back); if (!d.empty()) sim::failStr("entry-not-preserved", cls + ": entry " + d + " changed by reading and writing");
    }
    Node tree() override { Node n = treeByWriting(o); for (auto& e : n.m) { if (e.second.t == Node::INT) e.second = Node::dbl(e.second.asDouble()); if (e.second.t == Node::RAW) e.second = Node::dbl(std::strtod(e.second.s.c_str(), nullptr)); } return n; }
    Vals derived() const override { Vals v; Derived<T>::get(o, v); return v; }
    Vals expect(const Node& n) const override { Vals v; Derived<T>::expect(n, v); return v; }
    void write(Writer& w, const std::string* n) const override { if (n) o.writeConfig(w, *n); else o.writeConfig(w); }
    void writeFile(const std::string& f, const std::string* n) const override { if (n) o.writeConfig<Writer>(f, *n); else o.writeConfig<Writer>(f); }
    void read(Reader& r, const std::string* n, bool strict, bool ctor) override { if (ctor) Construct<T, true>::go(o, r, n, strict); else if (n) o.readConfig(r, *n, strict); else o.readConfig(r, strict); }
    void readFile(const std::string& f, const std::string* n, bool strict) override { if (n) o.readConfig<Reader>(f, *n, strict); else o.readConfig<Reader>(f, strict); }
};

// ---------------- task hierarchies ----------------
struct TaskKind { const char* name; std::function<humoto::TaskSharedPointer(Node&)> make; };
template<class T> humoto::TaskSharedPointer gainTask(Node& n) { double g = anyDouble(); n.add("gain", Node::dbl(g)); return humoto::TaskSharedPointer(new T(g)); }
template<class T> humoto::TaskSharedPointer setGainTask(Node& n) { double g = anyDouble(); n.add("gain", Node::dbl(g)); T* t = new T; t->setGain(g); return humoto::TaskSharedPointer(t); }
template<class T> humoto::TaskSharedPointer plainTask(Node& n) { return humoto::TaskSharedPointer(new T); }
inline std::vector<TaskKind> coreTasks()
{
    return {
        {"TaskZeroVariables", [](Node& n) { double g = anyDouble(); std::string id = anyString(); n.add("gain", Node::dbl(g)); n.add("variables_id", Node::str(id)); return humoto::TaskSharedPointer(new humoto::TaskZeroVariables(g, "zero", id)); }},
        {"TaskZeroSelectedVariables", [](Node& n) { humoto::IndexVector I; gen(I); if (I.size() > 300) I.resize(300); double g = anyDouble(); n.add("gain", Node::dbl(g)); n.add("variables_indices", toNode(I)); return humoto::TaskSharedPointer(new humoto::TaskZeroSelectedVariables(I, g)); }},
        {"TaskInfeasibleInequality", gainTask<humoto::TaskInfeasibleInequality>},
    };
}
inline std::vector<TaskKind> wpgTasks()
{
    auto v = coreTasks(); v.erase(v.begin(), v.end());
    using namespace humoto::wpg04;
    v.push_back({"TaskCoMVelocity", gainTask<TaskCoMVelocity>}); v.push_back({"TaskCoPVelocity", gainTask<TaskCoPVelocity>}); v.push_back({"TaskTerminalConstraint", gainTask<TaskTerminalConstraint>});
    v.push_back({"TaskCoPPosition", [](Node& n) { double g = anyDouble(); auto* t = new TaskCoPPosition(g); n.add("gain", Node::dbl(g)); std::string id = sim::chance(1, 2) ? "CoP" : anyString(); t->setVariablesID(id); n.add("variables_id", Node::str(id)); return humoto::TaskSharedPointer(t); }});
    v.push_back({"TaskFootstepBounds", [](Node& n) { bool b = sim::choose(2); n.add("fix_footsteps", Node::boolean(b)); return humoto::TaskSharedPointer(new TaskFootstepBounds(b)); }});
    v.push_back({"TaskCoPBounds", plainTask<TaskCoPBounds>});
    return v;
}
inline std::vector<TaskKind> pepperTasks()
{
    using namespace humoto::pepper_mpc; std::vector<TaskKind> v;
    v.push_back({"TaskBaseAccelerationBounds", setGainTask<TaskBaseAccelerationBounds>}); v.push_back({"TaskBaseJerkMinimization", gainTask<TaskBaseJerkMinimization>}); v.push_back({"TaskBasePositionReference", gainTask<TaskBasePositionReference>});
    v.push_back({"TaskBaseVelocityBounds", plainTask<TaskBaseVelocityBounds>}); v.push_back({"TaskBaseVelocityReference", gainTask<TaskBaseVelocityReference>});
    v.push_back({"TaskBodyJerkMinimization", [](Node& n) { double g = anyDouble(); auto* t = new TaskBodyJerkMinimization(g); n.add("gain", Node::dbl(g)); std::string id = anyString(); t->setVariablesID(id); n.add("variables_id", Node::str(id)); return humoto::TaskSharedPointer(t); }});
    v.push_back({"TaskBodyPositionBounds", setGainTask<TaskBodyPositionBounds>}); v.push_back({"TaskBodyPositionReference", gainTask<TaskBodyPositionReference>}); v.push_back({"TaskCoPCentering", gainTask<TaskCoPCentering>}); v.push_back({"TaskCoPPositionBounds", setGainTask<TaskCoPPositionBounds>});
    return v;
}
struct SummaryBuf { std::string s; };
template<class T> struct ProblemObj : IObj
{
    T o; std::vector<TaskKind> kinds; Node expected; bool known = false;
    ProblemObj(const char* c, const std::vector<TaskKind>& k) : kinds(k) { cls = c; section = "OptimizationProblem"; is_problem = true; has_ctor = false; has_defaults = false; }
    std::unique_ptr<IObj> fresh() const override { return std::unique_ptr<IObj>(new ProblemObj(cls.c_str(), kinds)); }
    void randomize() override
    {
        int levels = sim::range(1, 4), id = 0; o.reset(levels);
        Node names = Node::arr(), ids = Node::arr(); std::vector<std::pair<std::string, Node>> tasks;
        for (int l = 0; l < levels; ++l)
        {
            names.a.push_back(Node::arr()); ids.a.push_back(Node::arr()); int k = sim::range(0, 5);
            for (int j = 0; j < k; ++j)
            {
                const TaskKind& kind = sim::pick(kinds); Node n = Node::map(); auto t = kind.make(n);
                std::string desc = sim::chance(1, 4) ? std::string(sim::choose(40), 'n') + std::to_string(id++) : std::string(kind.name) + "_" + std::to_string(id++);
                t->setDescription(desc); o.pushTask(t, l, kind.name);
                names.a.back().a.push_back(Node::str(kind.name)); ids.a.back().a.push_back(Node::str(desc)); tasks.emplace_back(desc, n);
            }
        }
        expected = Node::map(); expected.add("task_class_names", names).add("task_ids", ids); for (auto& t : tasks) expected.add(t.first, t.second);
        known = true;
    }
    Node tree() override { return known ? expected : treeByWriting(o); }
    // structure of the hierarchy: which task, of which type, at which place
    Vals derived() const override
    {
        Vals v; v.push_back(o.getNumberOfLevels());
        for (size_t i = 0; i < o.getNumberOfLevels(); ++i) { v.push_back(-1); for (auto& t : o[i].tasks_) { uint64_t h = 7; for (char c : t.ptr_->getDescription()) h = h * 31 + (unsigned char)c; v.push_back((double)(h % 1000003)); v.push_back((double)t.ptr_->getType()); } }
        return v;
    }
    Vals expect(const Node& n) const override { return Vals(); }
    void write(Writer& w, const std::string* n) const override { if (n) o.writeConfig(w, *n); else o.writeConfig(w); }
    void writeFile(const std::string& f, const std::string* n) const override { if (n) o.template writeConfig<Writer>(f, *n); else o.template writeConfig<Writer>(f); }
    void read(Reader& r, const std::string* n, bool strict, bool) override { known = false; if (n) o.readConfig(r, *n, strict); else o.readConfig(r, strict); }
    void readFile(const std::string& f, const std::string* n, bool strict) override { known = false; if (n) o.template readConfig<Reader>(f, *n, strict); else o.template readConfig<Reader>(f, strict); }
};

inline std::unique_ptr<IObj> makeObj(uint32_t k)
{
    switch (k)
    {
        case 0: return std::unique_ptr<IObj>(new Obj<humoto::rigidbody::PointMassState>("rigidbody::PointMassState"));
        case 1: return std::unique_ptr<IObj>(new Obj<humoto::rigidbody::RotaryState>("rigidbody::RotaryState"));
        case 2: return std::unique_ptr<IObj>(new Obj<humoto::rigidbody::RigidBodyPose>("rigidbody::RigidBodyPose"));
        case 3: return std::unique_ptr<IObj>(new Obj<humoto::rigidbody::RigidBodyState>("rigidbody::RigidBodyState"));
        case 4: return std::unique_ptr<IObj>(new Obj<humoto::walking::StanceFSMParameters>("walking::StanceFSMParameters"));
        case 5: return std::unique_ptr<IObj>(new FootObj);
        case 6: return std::unique_ptr<IObj>(new Obj<humoto::wpg04::WalkParameters>("wpg04::WalkParameters"));
        case 7: return std::unique_ptr<IObj>(new Obj<humoto::wpg04::MPCParameters>("wpg04::MPCParameters"));
        case 8: return std::unique_ptr<IObj>(new Obj<humoto::wpg04::ModelState>("wpg04::ModelState"));
        case 9: return std::unique_ptr<IObj>(new Obj<humoto::pepper_mpc::RobotParameters>("pepper_mpc::RobotParameters"));
        case 10: return std::unique_ptr<IObj>(new Obj<humoto::pepper_mpc::MotionParameters>("pepper_mpc::MotionParameters"));
        case 11: return std::unique_ptr<IObj>(new Obj<humoto::pepper_mpc::MPCParameters>("pepper_mpc::MPCParameters"));
        case 12: return std::unique_ptr<IObj>(new Obj<humoto::pepper_mpc::ModelState>("pepper_mpc::ModelState"));
        case 13: { auto p = std::unique_ptr<IObj>(new Obj<humoto::Solution>("Solution")); p->has_defaults = false; return p; }
        case 14: return std::unique_ptr<IObj>(new Obj<humoto::kktsolver::SolverParameters>("kktsolver::SolverParameters"));
        case 15: return std::unique_ptr<IObj>(new Obj<humoto::quadprogpp::SolverParameters>("quadprogpp::SolverParameters"));
        case 16: { auto p = std::unique_ptr<IObj>(new Obj<humoto::qpmad::SolverParameters>("qpmad::SolverParameters")); return p; }
        case 17: return std::unique_ptr<IObj>(new Obj<humoto::qpoases::SolverParameters>("qpoases::SolverParameters"));
        case 18: return std::unique_ptr<IObj>(new Obj<client::Obstacle, false>("obstacle_avoidance::ObstacleBase"));
        case 19: return std::unique_ptr<IObj>(new Obj<client::Inner>("client::Inner"));
        case 20: case 21: return std::unique_ptr<IObj>(new Obj<client::Big>("client::Big"));
        case 22: return std::unique_ptr<IObj>(new ProblemObj<humoto::ConfigurableOptimizationProblem>("ConfigurableOptimizationProblem", coreTasks()));
        case 23: return std::unique_ptr<IObj>(new ProblemObj<humoto::wpg04::ConfigurableOptimizationProblem>("wpg04::ConfigurableOptimizationProblem", wpgTasks()));
        default: return std::unique_ptr<IObj>(new ProblemObj<humoto::pepper_mpc::ConfigurableOptimizationProblem>("pepper_mpc::ConfigurableOptimizationProblem", pepperTasks()));
    }
}
enum { KINDS = 25 };
