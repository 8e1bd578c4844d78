// Stand-in for the URDF reader of RBDL.
#pragma once
#include "../../rbdl.h"
#include "../../urdf_mini.h"

namespace RigidBodyDynamics
{
    namespace Addons
    {
        inline Joint simple(JointType t, const Math::Vector3d &axis)
        {
            Joint j; j.mJointType = t; j.mDoFCount = 1;
            if (t == JointTypeRevolute) j.axis.head<3>() = axis.normalized(); else j.axis.tail<3>() = axis.normalized();
            return j;
        }
        inline Joint three(JointType t) { Joint j; j.mJointType = t; j.mDoFCount = 3; return j; }
        inline unsigned int addMulti(Model *m, unsigned int parent, const Math::SpatialTransform &frame, const Body &b, const std::string &name, bool planar)
        {
            const Math::Vector3d X = Math::Vector3d::UnitX(), Y = Math::Vector3d::UnitY(), Z = Math::Vector3d::UnitZ();
            const Math::SpatialTransform id; Body none; Joint c;
            if (stub::multiDoF() == 2) { c.mJointType = JointTypeCustom; return m->AddBody(parent, frame, c, b, name, planar ? 1 : 0); }
            if (!planar && stub::multiDoF() == 1) { unsigned int k = m->AddBody(parent, frame, three(JointTypeTranslationXYZ), none, ""); return m->AddBody(k, id, three(JointTypeEulerXYZ), b, name); }
            unsigned int k = m->AddBody(parent, frame, simple(JointTypePrismatic, X), none, "");
            k = m->AddBody(k, id, simple(JointTypePrismatic, Y), none, "");
            if (!planar) {
                k = m->AddBody(k, id, simple(JointTypePrismatic, Z), none, "");
                k = m->AddBody(k, id, simple(JointTypeRevolute, X), none, "");
                k = m->AddBody(k, id, simple(JointTypeRevolute, Y), none, "");
            }
            return m->AddBody(k, id, simple(JointTypeRevolute, Z), b, name);
        }
        inline bool addLink(Model *m, const urdf_mini::Robot &r, const std::string &link, unsigned int id)
        {
            std::map<std::string, const urdf_mini::Joint *> subs;     // the reader visits joints in the order of their names
            for (const urdf_mini::Joint &j : r.joints) if (j.parent == link) subs[j.name] = &j;
            for (auto &s : subs) {
                const urdf_mini::Joint &j = *s.second; const urdf_mini::Link &l = r.links.at(j.child);
                Body b; b.mMass = l.mass; b.mCenterOfMass << l.com[0], l.com[1], l.com[2];
                Math::Matrix3d R = stub::rot(Math::Vector3d::UnitZ(), j.rpy[2]) * stub::rot(Math::Vector3d::UnitY(), j.rpy[1]) * stub::rot(Math::Vector3d::UnitX(), j.rpy[0]);
                Math::SpatialTransform frame(R.transpose(), Math::Vector3d(j.xyz[0], j.xyz[1], j.xyz[2]));
                Math::Vector3d axis(j.axis[0], j.axis[1], j.axis[2]);
                unsigned int k;
                if (j.type == "revolute" || j.type == "continuous") k = m->AddBody(id, frame, simple(JointTypeRevolute, axis), b, l.name);
                else if (j.type == "prismatic") k = m->AddBody(id, frame, simple(JointTypePrismatic, axis), b, l.name);
                else if (j.type == "fixed") { Joint f; f.mJointType = JointTypeFixed; k = m->AddBody(id, frame, f, b, l.name); }
                else if (j.type == "floating") k = addMulti(m, id, frame, b, l.name, false);
                else if (j.type == "planar") k = addMulti(m, id, frame, b, l.name, true);
                else return false;
                if (!addLink(m, r, l.name, k)) return false;
            }
            return true;
        }
        inline bool URDFReadFromFile(const char *filename, Model *model, bool floating_base, bool)
        {
            urdf_mini::Robot r;
            if (!urdf_mini::parseFile(filename, r)) return false;
            bool has_floating = false;
            for (const urdf_mini::Joint &j : r.joints) if (j.type == "floating") has_floating = true;
            const urdf_mini::Link &l = r.links.at(r.root);
            Body b; b.mMass = l.mass; b.mCenterOfMass << l.com[0], l.com[1], l.com[2];
            unsigned int id;
            if (floating_base && !has_floating) id = addMulti(model, 0, Math::SpatialTransform(), b, l.name, false);
            else { Joint f; f.mJointType = JointTypeFixed; id = model->AddBody(0, Math::SpatialTransform(), f, b, l.name); }
            return addLink(model, r, r.root, id);
        }
    }
}
