// Stand-in for the part of RBDL used by humoto: kinematic trees and their forward kinematics.
// Spatial vectors: rotation first. Bodies fixed to others are merged with them, as in RBDL.
#pragma once
#include <cmath>
#include <limits>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/StdVector>

namespace RigidBodyDynamics
{
    namespace Math
    {
        typedef Eigen::Vector3d Vector3d;
        typedef Eigen::Matrix3d Matrix3d;
        typedef Eigen::VectorXd VectorNd;
        typedef Eigen::MatrixXd MatrixNd;
        typedef Eigen::Matrix<double, 6, 1> SpatialVector;
        typedef Eigen::Matrix<double, 6, 6> SpatialMatrix;
        typedef Eigen::Matrix<double, 6, 3> Matrix63;

        inline Matrix3d VectorCrossMatrix(const Vector3d &v) { Matrix3d m; m << 0., -v[2], v[1], v[2], 0., -v[0], -v[1], v[0], 0.; return m; }

        struct SpatialTransform
        {
            Matrix3d E; Vector3d r;
            SpatialTransform() : E(Matrix3d::Identity()), r(Vector3d::Zero()) {}
            SpatialTransform(const Matrix3d &rotation, const Vector3d &translation) : E(rotation), r(translation) {}
            SpatialVector apply(const SpatialVector &v) const
            {
                SpatialVector out; Vector3d w = v.head<3>(), l = v.tail<3>() - r.cross(Vector3d(v.head<3>()));
                out.head<3>() = E * w; out.tail<3>() = E * l; return out;
            }
            SpatialVector applyTranspose(const SpatialVector &f) const
            {
                SpatialVector out; Vector3d l = E.transpose() * f.tail<3>();
                out.head<3>() = E.transpose() * f.head<3>() + r.cross(l); out.tail<3>() = l; return out;
            }
            SpatialTransform inverse() const { return SpatialTransform(E.transpose(), -E * r); }
            SpatialMatrix toMatrix() const
            {
                SpatialMatrix m; m.setZero();
                m.topLeftCorner<3, 3>() = E; m.bottomLeftCorner<3, 3>() = -E * VectorCrossMatrix(r); m.bottomRightCorner<3, 3>() = E; return m;
            }
            SpatialTransform operator*(const SpatialTransform &X) const { return SpatialTransform(E * X.E, X.r + X.E.transpose() * r); }
        };
    }

    enum JointType { JointTypeUndefined = 0, JointTypeRevolute, JointTypePrismatic, JointTypeEulerXYZ, JointTypeTranslationXYZ, JointTypeFixed, JointTypeCustom };

    struct Joint
    {
        JointType mJointType = JointTypeUndefined; unsigned int mDoFCount = 0; unsigned int q_index = 0; unsigned int custom_joint_index = 0;
        Math::SpatialVector axis = Math::SpatialVector::Zero();
    };
    struct Body { double mMass = 0; Math::Vector3d mCenterOfMass = Math::Vector3d::Zero(); };
    struct FixedBody { double mMass = 0; Math::Vector3d mCenterOfMass = Math::Vector3d::Zero(); unsigned int mMovableParent = 0; Math::SpatialTransform mParentTransform, mBaseTransform; };
    struct SpatialRigidBodyInertia { double m = 0; Math::Vector3d h = Math::Vector3d::Zero(); };

    struct CustomJoint
    {
        unsigned int mDoFCount = 0; Math::MatrixNd S;
        int kind = 0;   // 0: translation XYZ and rotations about X, Y, Z; 1: translation XY and rotation about Z
        CustomJoint(int k) : mDoFCount(k == 0 ? 6 : 3), kind(k) { S.setZero(6, mDoFCount); }
        void jcalc(Math::SpatialTransform &X, const double *q);
    };

    namespace stub
    {
        // representation of joints with several degrees of freedom: 0 chains of simple joints, 1 joints with three degrees of freedom, 2 custom joints
        inline int &multiDoF() { static int mode = 0; return mode; }
        inline Math::Matrix3d rot(const Math::Vector3d &a, double q) { return Eigen::AngleAxisd(q, a).toRotationMatrix(); }
        inline void eulerXYZ(const double *q, Math::Matrix3d &E, Math::Matrix3d &W)
        {
            Math::Matrix3d X = rot(Math::Vector3d::UnitX(), q[0]), Y = rot(Math::Vector3d::UnitY(), q[1]), Z = rot(Math::Vector3d::UnitZ(), q[2]);
            E = (X * Y * Z).transpose();
            W.col(0) = Z.transpose() * Y.transpose() * Math::Vector3d::UnitX(); W.col(1) = Z.transpose() * Math::Vector3d::UnitY(); W.col(2) = Math::Vector3d::UnitZ();
        }
    }

    inline void CustomJoint::jcalc(Math::SpatialTransform &X, const double *q)
    {
        Math::Matrix3d W; S.setZero(6, mDoFCount);
        if (kind == 0) {
            stub::eulerXYZ(q + 3, X.E, W); X.r << q[0], q[1], q[2];
            S.block(3, 0, 3, 3) = X.E; S.block(0, 3, 3, 3) = W;
        } else {
            X.E = stub::rot(Math::Vector3d::UnitZ(), q[2]).transpose(); X.r << q[0], q[1], 0;
            S.block(3, 0, 3, 2) = X.E.leftCols(2); S(2, 2) = 1;
        }
    }

    struct Model
    {
        std::vector<unsigned int> lambda;
        std::vector<Body> mBodies;
        std::vector<Joint> mJoints;
        std::vector<Math::SpatialVector, Eigen::aligned_allocator<Math::SpatialVector> > S;
        std::vector<Math::Matrix63, Eigen::aligned_allocator<Math::Matrix63> > multdof3_S;
        std::vector<CustomJoint> custom_;
        std::vector<CustomJoint *> mCustomJoints;   // points into custom_
        std::vector<Math::SpatialTransform> X_T, X_base;
        std::vector<SpatialRigidBodyInertia> I;
        std::vector<FixedBody> mFixedBodies;
        std::map<std::string, unsigned int> mBodyNameMap;
        unsigned int fixed_body_discriminator = std::numeric_limits<unsigned int>::max() / 2;
        unsigned int q_size = 0, qdot_size = 0, dof_count = 0;

        Model()
        {
            lambda.push_back(0); mBodies.push_back(Body()); mJoints.push_back(Joint()); S.push_back(Math::SpatialVector::Zero()); multdof3_S.push_back(Math::Matrix63::Zero());
            X_T.push_back(Math::SpatialTransform()); X_base.push_back(Math::SpatialTransform()); I.push_back(SpatialRigidBodyInertia()); mBodyNameMap["ROOT"] = 0;
        }
        Model(const Model &o) { *this = o; }
        Model &operator=(const Model &o)
        {
            lambda = o.lambda; mBodies = o.mBodies; mJoints = o.mJoints; S = o.S; multdof3_S = o.multdof3_S; custom_ = o.custom_; X_T = o.X_T; X_base = o.X_base; I = o.I;
            mFixedBodies = o.mFixedBodies; mBodyNameMap = o.mBodyNameMap; q_size = o.q_size; qdot_size = o.qdot_size; dof_count = o.dof_count; relink(); return *this;
        }
        void relink() { mCustomJoints.clear(); for (CustomJoint &c : custom_) mCustomJoints.push_back(&c); }

        unsigned int GetBodyId(const char *name) const { auto i = mBodyNameMap.find(name); return i == mBodyNameMap.end() ? std::numeric_limits<unsigned int>::max() : i->second; }
        bool IsFixedBodyId(unsigned int id) const { return id >= fixed_body_discriminator && id < std::numeric_limits<unsigned int>::max() && id - fixed_body_discriminator < mFixedBodies.size(); }
        bool IsBodyId(unsigned int id) const { return (id > 0 && id < mBodies.size()) || IsFixedBodyId(id); }

        void name(const std::string &n, unsigned int id)
        {
            if (n.empty()) return;
            if (mBodyNameMap.count(n)) { std::cerr << "Error: Body with name '" << n << "' already exists!" << std::endl; abort(); }
            mBodyNameMap[n] = id;
        }
        unsigned int AddBody(unsigned int parent, const Math::SpatialTransform &frame, Joint joint, const Body &body, const std::string &body_name, int custom_kind = -1)
        {
            Math::SpatialTransform to_movable; unsigned int movable = parent;
            if (IsFixedBodyId(parent)) { movable = mFixedBodies[parent - fixed_body_discriminator].mMovableParent; to_movable = mFixedBodies[parent - fixed_body_discriminator].mParentTransform; }
            Math::SpatialTransform X = frame * to_movable;
            if (joint.mJointType == JointTypeFixed) {
                FixedBody f; f.mMass = body.mMass; f.mCenterOfMass = body.mCenterOfMass; f.mMovableParent = movable; f.mParentTransform = X;
                Body &p = mBodies[movable]; double m = p.mMass + body.mMass;
                if (m > 0) p.mCenterOfMass = (p.mMass * p.mCenterOfMass + body.mMass * (X.E.transpose() * body.mCenterOfMass + X.r)) / m;
                p.mMass = m;
                mFixedBodies.push_back(f);
                unsigned int id = fixed_body_discriminator + mFixedBodies.size() - 1;
                name(body_name, id); return id;
            }
            joint.q_index = q_size;
            if (joint.mJointType == JointTypeCustom) { joint.custom_joint_index = custom_.size(); custom_.push_back(CustomJoint(custom_kind)); relink(); joint.mDoFCount = custom_.back().mDoFCount; q_size += joint.mDoFCount; joint.mDoFCount = 0; }
            else q_size += joint.mDoFCount;
            qdot_size = dof_count = q_size;
            lambda.push_back(movable); mBodies.push_back(body); mJoints.push_back(joint); S.push_back(joint.axis); multdof3_S.push_back(Math::Matrix63::Zero());
            X_T.push_back(X); X_base.push_back(Math::SpatialTransform()); I.push_back(SpatialRigidBodyInertia());
            unsigned int id = mBodies.size() - 1;
            name(body_name, id); return id;
        }
    };

    inline void UpdateKinematicsCustom(Model &m, const Math::VectorNd *Q, const Math::VectorNd *, const Math::VectorNd *)
    {
        if (!Q) return;
        for (std::size_t i = 1; i < m.mBodies.size(); ++i) {
            const Joint &j = m.mJoints[i];
            const double *q = Q->data() + j.q_index;
            Math::SpatialTransform XJ; Math::Matrix3d W;
            switch (j.mJointType) {
                case JointTypeRevolute: XJ.E = stub::rot(j.axis.head<3>(), *q).transpose(); m.S[i] = j.axis; break;
                case JointTypePrismatic: XJ.r = *q * j.axis.tail<3>(); m.S[i] = j.axis; break;
                case JointTypeEulerXYZ: stub::eulerXYZ(q, XJ.E, W); m.multdof3_S[i].setZero(); m.multdof3_S[i].topRows<3>() = W; break;
                case JointTypeTranslationXYZ: XJ.r << q[0], q[1], q[2]; m.multdof3_S[i].setZero(); m.multdof3_S[i].bottomRows<3>().setIdentity(); break;
                case JointTypeCustom: m.mCustomJoints[j.custom_joint_index]->jcalc(XJ, q); break;
                default: break;
            }
            m.X_base[i] = XJ * m.X_T[i] * m.X_base[m.lambda[i]];
        }
    }
}
