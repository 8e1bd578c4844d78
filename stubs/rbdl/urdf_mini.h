// Parser of the subset of URDF used by humoto: links with inertial data, joints.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace urdf_mini
{
    struct Element { std::string name; std::map<std::string, std::string> attr; std::vector<Element> sub;
        const Element *find(const char *n) const { for (const Element &e : sub) if (e.name == n) return &e; return nullptr; }
        std::string get(const char *n, const char *dflt = "") const { auto i = attr.find(n); return i == attr.end() ? dflt : i->second; } };
    struct Link { std::string name; double mass = 0; double com[3] = {0, 0, 0}; };
    struct Joint { std::string name, type, parent, child; double xyz[3] = {0, 0, 0}, rpy[3] = {0, 0, 0}, axis[3] = {1, 0, 0};
        bool limited = false; double lower = 0, upper = 0, velocity = 0; };
    struct Robot { std::map<std::string, Link> links; std::vector<Joint> joints; std::string root; };

    class Xml
    {
        const std::string &s; std::size_t p = 0; int depth = 0;
        void misc()
        {
            for (;;) {
                while (p < s.size() && isspace((unsigned char)s[p])) ++p;
                if (s.compare(p, 4, "<!--") == 0) { std::size_t e = s.find("-->", p); if (e == std::string::npos) throw 1; p = e + 3; }
                else if (s.compare(p, 2, "<?") == 0) { std::size_t e = s.find("?>", p); if (e == std::string::npos) throw 1; p = e + 2; }
                else return;
            }
        }
        std::string ident() { std::size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr_(s[p]))) ++p; if (b == p) throw 1; return s.substr(b, p - b); }
        static bool strchr_(char c) { return c == '_' || c == ':' || c == '-' || c == '.'; }
        Element element()
        {
            if (++depth > 50) throw 1;
            Element e;
            if (p >= s.size() || s[p] != '<') throw 1;
            ++p; e.name = ident();
            for (;;) {
                while (p < s.size() && isspace((unsigned char)s[p])) ++p;
                if (p >= s.size()) throw 1;
                if (s[p] == '/') { if (p + 1 >= s.size() || s[p + 1] != '>') throw 1; p += 2; --depth; return e; }
                if (s[p] == '>') { ++p; break; }
                std::string k = ident();
                if (p >= s.size() || s[p] != '=') throw 1;
                ++p;
                if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) throw 1;
                char q = s[p++]; std::size_t z = s.find(q, p);
                if (z == std::string::npos) throw 1;
                e.attr[k] = s.substr(p, z - p); p = z + 1;
            }
            for (;;) {
                misc();
                if (p + 1 >= s.size()) throw 1;
                if (s[p] == '<' && s[p + 1] == '/') { p += 2; if (ident() != e.name) throw 1; if (p >= s.size() || s[p] != '>') throw 1; ++p; --depth; return e; }
                if (s[p] != '<') { while (p < s.size() && s[p] != '<') ++p; continue; }
                e.sub.push_back(element());
            }
        }
    public:
        explicit Xml(const std::string &text) : s(text) {}
        Element parse() { misc(); Element e = element(); misc(); if (p != s.size()) throw 1; return e; }
    };

    inline void vec3(const std::string &t, double *v)
    {
        std::istringstream is(t);
        for (int i = 0; i < 3; ++i) if (!(is >> v[i])) throw 1;
    }
    inline bool parse(const std::string &text, Robot &r)
    {
        try {
            r = Robot();
            Element top = Xml(text).parse();
            if (top.name != "robot") return false;
            for (const Element &e : top.sub) {
                if (e.name == "link") {
                    Link l; l.name = e.get("name");
                    if (const Element *in = e.find("inertial")) {
                        if (const Element *m = in->find("mass")) l.mass = strtod(m->get("value", "0").c_str(), nullptr);
                        if (const Element *o = in->find("origin")) vec3(o->get("xyz", "0 0 0"), l.com);
                    }
                    if (r.links.count(l.name)) return false;
                    r.links[l.name] = l;
                } else if (e.name == "joint") {
                    Joint j; j.name = e.get("name"); j.type = e.get("type");
                    const Element *p = e.find("parent"), *c = e.find("child");
                    if (!p || !c) return false;
                    j.parent = p->get("link"); j.child = c->get("link");
                    if (const Element *o = e.find("origin")) { vec3(o->get("xyz", "0 0 0"), j.xyz); vec3(o->get("rpy", "0 0 0"), j.rpy); }
                    if (const Element *a = e.find("axis")) vec3(a->get("xyz", "1 0 0"), j.axis);
                    if (const Element *l = e.find("limit")) { j.limited = true; j.lower = strtod(l->get("lower", "0").c_str(), nullptr); j.upper = strtod(l->get("upper", "0").c_str(), nullptr); j.velocity = strtod(l->get("velocity", "0").c_str(), nullptr); }
                    r.joints.push_back(j);
                }
            }
            std::map<std::string, int> parents;
            for (const Joint &j : r.joints) { if (!r.links.count(j.parent) || !r.links.count(j.child)) return false; if (parents[j.child]++) return false; }
            for (const auto &l : r.links) if (!parents.count(l.first)) { if (!r.root.empty()) return false; r.root = l.first; }
            return !r.root.empty();
        } catch (int) { return false; }
    }
    inline bool parseFile(const char *filename, Robot &r)
    {
        std::ifstream in(filename, std::ios::binary);
        if (!in) return false;
        std::ostringstream os; os << in.rdbuf();
        if (in.bad()) return false;
        return parse(os.str(), r);
    }
}
