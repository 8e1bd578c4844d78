// Kinematic trees as described by URDF files, without the code under test: poses, centres of mass and Jacobians.
#pragma once
#include "rbdl/urdf_mini.h"
#include <Eigen/Dense>
#include <cmath>
#include <map>
#include <string>
#include <vector>
namespace ik
{
    typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
    inline M3 rpyMatrix(const V3& a) { return (Eigen::AngleAxisd(a[2], V3::UnitZ()) * Eigen::AngleAxisd(a[1], V3::UnitY()) * Eigen::AngleAxisd(a[0], V3::UnitX())).toRotationMatrix(); }
    inline V3 v3(const double* p) { return V3(p[0], p[1], p[2]); }
    struct Dof { bool rot; V3 axis; };
    struct Node
    {
        std::string name, joint; int parent = -1, q = 0; V3 xyz = V3::Zero(), com = V3::Zero(); M3 R0 = M3::Identity(); std::vector<Dof> dofs; double mass = 0, lower = 0, upper = 0, velocity = 0; bool limited = false;
        // configuration
        M3 R; V3 p; std::vector<V3> axis, origin;
        // merged inertial data of the links that move together with this one
        double m = 0; V3 c = V3::Zero();
    };
    struct Tree
    {
        std::vector<Node> n; std::map<std::string, int> id; int nq = 0;
        int at(const std::string& name) const { auto i = id.find(name); return i == id.end() ? -1 : i->second; }
        bool moves(int i) const { return !n[i].dofs.empty(); }
        int carrier(int i) const { while (i >= 0 && !moves(i)) i = n[i].parent; return i; }   // -1: does not move
        void add(const urdf_mini::Robot& r, const std::string& link, int parent, const urdf_mini::Joint* j, bool floating)
        {
            Node k; const urdf_mini::Link& l = r.links.at(link); k.name = link; k.parent = parent; k.mass = l.mass; k.com = v3(l.com); k.q = nq;
            const V3 X = V3::UnitX(), Y = V3::UnitY(), Z = V3::UnitZ();
            if (j)
            {
                k.joint = j->name; k.xyz = v3(j->xyz); k.R0 = rpyMatrix(v3(j->rpy)); k.limited = j->limited; k.lower = j->lower; k.upper = j->upper; k.velocity = j->velocity;
                V3 a = v3(j->axis); if (a.norm() > 0) a.normalize();
                if (j->type == "revolute" || j->type == "continuous") k.dofs = {{true, a}};
                else if (j->type == "prismatic") k.dofs = {{false, a}};
                else if (j->type == "planar") k.dofs = {{false, X}, {false, Y}, {true, Z}};
                floating = j->type == "floating";
            }
            if (floating) k.dofs = {{false, X}, {false, Y}, {false, Z}, {true, X}, {true, Y}, {true, Z}};
            nq += k.dofs.size(); int me = n.size(); n.push_back(k); id[link] = me;
            std::map<std::string, const urdf_mini::Joint*> sub; for (auto& q : r.joints) if (q.parent == link) sub[q.name] = &q;
            for (auto& s : sub) add(r, s.second->child, me, s.second, false);
        }
        void build(const urdf_mini::Robot& r, bool floating_base)
        {
            n.clear(); id.clear(); nq = 0; for (auto& j : r.joints) if (j.type == "floating") floating_base = false;
            add(r, r.root, -1, nullptr, floating_base);
        }
        void fk(const V& q)
        {
            for (Node& k : n)
            {
                M3 Rp = M3::Identity(); V3 pp = V3::Zero(); if (k.parent >= 0) { Rp = n[k.parent].R; pp = n[k.parent].p; }
                k.R = Rp * k.R0; k.p = pp + Rp * k.xyz; k.axis.clear(); k.origin.clear(); k.m = 0; k.c.setZero();
                for (size_t i = 0; i < k.dofs.size(); ++i) { k.axis.push_back(k.R * k.dofs[i].axis); if (k.dofs[i].rot) k.R = k.R * Eigen::AngleAxisd(q[k.q + i], k.dofs[i].axis).toRotationMatrix(); else k.p += k.axis.back() * q[k.q + i]; k.origin.push_back(k.p); }
            }
            for (size_t i = 0; i < n.size(); ++i) { int c = carrier(i); if (c >= 0) { n[c].m += n[i].mass; n[c].c += n[i].mass * point(i, n[i].com); } }
            for (Node& k : n) if (k.m > 0) k.c /= k.m; else k.c = k.p;   // in the global frame
        }
        V3 point(int i, const V3& local) const { return n[i].p + n[i].R * local; }
        // Jacobian of a point given in the global frame, which moves with link i; rotation first
        M jac(int i, const V3& p) const
        {
            M J = M::Zero(6, nq);
            for (; i >= 0; i = n[i].parent) for (size_t d = 0; d < n[i].dofs.size(); ++d)
            {
                const V3& a = n[i].axis[d]; if (n[i].dofs[d].rot) { J.block(0, n[i].q + d, 3, 1) = a; J.block(3, n[i].q + d, 3, 1) = a.cross(p - n[i].origin[d]); } else J.block(3, n[i].q + d, 3, 1) = a;
            }
            return J;
        }
        double mass(const std::vector<int>& k) const { double m = 0; for (int i : k) m += n[i].m; return m; }
        V3 com(const std::vector<int>& k) const { V3 c = V3::Zero(); for (int i : k) c += n[i].m * n[i].c; return c / mass(k); }
        M comJac(const std::vector<int>& k) const { M J = M::Zero(3, nq); for (int i : k) J += n[i].m * jac(i, n[i].c).bottomRows(3); return J / mass(k); }
        std::vector<int> moving() const { std::vector<int> k; for (size_t i = 0; i < n.size(); ++i) if (moves(i)) k.push_back(i); return k; }
    };
    // sin(angle) * axis of the rotation from one orientation to another, in the global frame
    inline V3 rotationError(const M3& from, const M3& to) { M3 e = to * from.transpose(); return V3(e(2, 1) - e(1, 2), e(0, 2) - e(2, 0), e(1, 0) - e(0, 1)) / 2; }
}
