// Included by two translation units: the threaded build of the library and the unthreaded one.
#include "humoto/humoto.h"
#include "humoto/rigid_body.h"
#include "harness/logger_iface.h"
#include "sim/faults.h"

namespace
{
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> MatRM;
    typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> MatCM;

    MatCM dense(const Val& v)
    {
        MatCM m(v.rows, v.cols);
        for (int i = 0; i < v.rows; ++i) for (int j = 0; j < v.cols; ++j) m(i, j) = v.d[i * v.cols + j];
        return m;
    }
    // arms the allocation fault around the logging call only
    struct Arm
    {
        bool on; uint64_t* failed;
        Arm(uint64_t n, bool p, uint64_t* f) : on(n > 0), failed(f) { if (on) faults::allocArm(n, p); }
        ~Arm() { if (on) { uint64_t k = faults::allocDisarm(); if (failed) *failed = k; } }
    };
#define CALL(expr) do { Arm arm_(fa, pers, failed); IN_SYSTEM; expr; } while (0)

    template<class L> void doLog(L& logger, Val& v, uint64_t fa, bool pers, uint64_t* failed)
    {
        humoto::LogEntryName name;
        if (!v.parts.empty())
        {
            std::size_t k = 0;
            if (v.ctor == 0 && v.parts[0].kind != 2) { name = humoto::LogEntryName(v.parts[0].s.c_str()); k = 1; }
            else if (v.ctor == 1 && v.parts[0].kind != 2) { name = humoto::LogEntryName(v.parts[0].s); k = 1; }
            for (; k < v.parts.size(); ++k)
            {
                if (v.parts[k].kind == 0) name.add(v.parts[k].s);
                else if (v.parts[k].kind == 1) name.add(v.parts[k].s.c_str());
                else name.add(v.parts[k].i);
            }
        }
        switch (v.kind)
        {
            case K_INT: { int x = (int)v.i; CALL(logger.log(name, x)); x = ~x; break; }
            case K_SIZE: { std::size_t x = (std::size_t)v.i; CALL(logger.log(name, x)); x = ~x; break; }
            case K_DOUBLE: CALL(logger.log(name, v.d[0])); break;
            case K_STRING: CALL(logger.log(name, v.s)); break;
            case K_CSTR: { const char* p = v.s.c_str(); CALL(logger.log(name, p)); break; }
            case K_VECD: CALL(logger.log(name, v.d)); break;
            case K_VECSZ: CALL(logger.log(name, v.z)); break;
            case K_MATX: { MatCM m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_MATX_ROWMAJOR: { MatRM m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_VEC3: { Eigen::Vector3d m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_MAT3: { Eigen::Matrix3d m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_MAT23_ROWMAJOR: { Eigen::Matrix<double, 2, 3, Eigen::RowMajor> m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_MAP: { Eigen::Map<MatRM> m(v.d.data(), v.rows, v.cols); CALL(logger.log(name, m)); break; }
            case K_BLOCK: { MatCM b(v.rows + 2, v.cols + 3); b.setConstant(99); b.block(1, 2, v.rows, v.cols) = dense(v); CALL(logger.log(name, b.block(1, 2, v.rows, v.cols))); b.setConstant(-7); break; }
            case K_TRANSPOSE: { MatCM b = dense(v).transpose(); CALL(logger.log(name, b.transpose())); b.setConstant(-7); break; }
            case K_SUM: { MatCM b = dense(v); CALL(logger.log(name, b + b)); b.setConstant(-7); break; }
            case K_ROWVEC: { Eigen::RowVectorXd m = dense(v); CALL(logger.log(name, m)); m.setConstant(-7); break; }
            case K_INDEXVEC: { humoto::IndexVector m(v.z.size()); for (std::size_t i = 0; i < v.z.size(); ++i) m(i) = (unsigned)v.z[i]; CALL(logger.log(name, m)); m.setConstant(7); break; }
            case K_RAW_STRING: CALL(logger.log(v.s)); break;
            case K_RAW_CSTR: { const char* p = v.s.c_str(); CALL(logger.log(p)); break; }
            case K_RAW_DOUBLE: CALL(logger.log(v.d[0])); break;
            case K_RAW_INT: { int x = (int)v.i; CALL(logger.log(x)); x = ~x; break; }
            case K_RAW_MATX: { MatCM m = dense(v); CALL(logger.log(m)); m.setConstant(-7); break; }
            case K_RAW_VEC3: { Eigen::Vector3d m = dense(v); CALL(logger.log(m)); m.setConstant(-7); break; }
            case K_STATE:
            {
                humoto::rigidbody::RigidBodyState st;
                for (int i = 0; i < 3; ++i) { st.position_(i) = v.d[i]; st.rpy_(i) = v.d[3 + i]; st.velocity_(i) = v.d[6 + i]; st.angular_velocity_(i) = v.d[9 + i]; st.acceleration_(i) = v.d[12 + i]; st.angular_acceleration_(i) = v.d[15 + i]; }
                CALL(st.log(logger, name, v.s));
                break;
            }
            case K_POINTMASS:
            {
                humoto::rigidbody::PointMassState st;
                for (int i = 0; i < 3; ++i) { st.position_(i) = v.d[i]; st.velocity_(i) = v.d[3 + i]; st.acceleration_(i) = v.d[6 + i]; }
                CALL(st.log(logger, name, v.s));
                break;
            }
            case K_SOLUTION:
            {
                humoto::Solution s;
                humoto::SolutionStructure ss;
                ss.addSolutionPart("A", 2); ss.addSolutionPart("B", v.rows);
                s.initialize(ss);
                for (int i = 0; i < 2 + v.rows; ++i) s.x_(i) = v.d[i];
                CALL(s.log(logger, name, v.s));
                break;
            }
        }
    }

    struct Impl : ILogger
    {
        humoto::Logger* logger;
        Impl(int mode, std::ostream* o, const std::string& f, int ms)
        {
            IN_SYSTEM;
#ifdef HUMOTO_USE_THREADS_FOR_LOGGING
            if (mode == 0) logger = new humoto::Logger();
            else if (mode == 1) logger = new humoto::Logger(*o, ms);
            else logger = new humoto::Logger(f, ms);
#else
            if (mode == 0) logger = new humoto::Logger();
            else if (mode == 1) logger = new humoto::Logger(*o);
            else logger = new humoto::Logger(f);
#endif
        }
        ~Impl() { IN_SYSTEM; delete logger; }
        void log(Val& v, uint64_t fa, bool pers, uint64_t* failed) { doLog(*logger, v, fa, pers, failed); }
#ifdef HUMOTO_USE_THREADS_FOR_LOGGING
        void initialize(std::ostream& o, int ms) { IN_SYSTEM; logger->initialize(o, ms); }
        void initialize(const std::string& f, int ms) { IN_SYSTEM; logger->initialize(f, ms); }
#else
        void initialize(std::ostream& o, int) { logger->initialize(o); }
        void initialize(const std::string& f, int) { logger->initialize(f); }
#endif
    };
}
