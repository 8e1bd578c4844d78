// Logs as a program which loads them sees them: entries of an m-file, and what is expected there.
#pragma once
#include "sim/sim.h"
#include <Eigen/Core>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstdlib>
#include <streambuf>
namespace mlog
{
    typedef Eigen::MatrixXd M;
    struct Value { bool text = false, any = false; std::string s; M m; };
    typedef std::map<std::string, Value> Entries;
    struct Expect
    {
        std::vector<std::pair<std::string, Value>> e;
        template<class D> void mat(const std::string& n, const Eigen::MatrixBase<D>& m) { Value v; v.m = m.template cast<double>(); e.push_back({n, v}); }
        void num(const std::string& n, double d) { Value v; v.m = M::Constant(1, 1, d); e.push_back({n, v}); }
        void str(const std::string& n, const std::string& s) { Value v; v.text = true; v.s = s; e.push_back({n, v}); }
        template<class C> void vec(const std::string& n, const C& c) { Value v; v.m.resize(c.size(), 1); for (size_t i = 0; i < c.size(); ++i) v.m(i, 0) = (double)c[i]; e.push_back({n, v}); }
        void has(const std::string& n) { Value v; v.any = true; e.push_back({n, v}); }
        void ints(const std::string& n, const std::vector<int>& c) { vec(n, c); }
    };
    inline std::string join(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "." + b; }
    inline std::string at(const std::string& a, size_t i) { return a + "{" + std::to_string(i + 1) + "}"; }
    inline bool identifier(const std::string& n)
    {   // name(.name|{index})*
        bool start = true; if (n.empty()) return false;
        for (size_t i = 0; i < n.size(); ++i)
        {
            char c = n[i];
            if (c == '.') { if (start) return false; start = true; continue; }
            if (c == '{') { if (start) return false; size_t k = n.find('}', i); if (k == std::string::npos || k == i + 1) return false; for (size_t j = i + 1; j < k; ++j) if (!isdigit((unsigned char)n[j])) return false; if (n[i + 1] == '0') return false; i = k; if (i + 1 < n.size() && n[i + 1] != '.' && n[i + 1] != '{') return false; continue; }
            if (!(isalpha((unsigned char)c) || c == '_' || (!start && isdigit((unsigned char)c)))) return false; start = false;
        }
        return !start;
    }
    // complete: nothing may be cut; otherwise what follows the last whole entry is ignored
    inline Entries parse(const std::string& t, bool complete = true)
    {
        Entries r; size_t p = 0;
        auto bad = [&](const char* why, size_t at) { if (complete) sim::fail("malformed-log", "%s at byte %zu of the log: \"%.120s\"", why, at, t.substr(at, 120).c_str()); };
        while (p < t.size())
        {
            size_t q = t.find(" = ", p), start = p; if (q == std::string::npos || t.find('\n', p) < q) { bad("no entry", p); return r; }
            std::string n = t.substr(p, q - p); if (!identifier(n)) { bad("not a name of an entry", p); return r; }
            p = q + 3; Value v;
            if (p < t.size() && t[p] == '\'') { size_t k = t.find("';\n", p + 1); if (k == std::string::npos) { bad("text does not end", p); return r; } v.text = true; v.s = t.substr(p + 1, k - p - 1); p = k + 3; }
            else
            {
                if (t.compare(p, 4, "...\n") == 0) p += 4; size_t end; bool matrix = p < t.size() && t[p] == '[';
                end = matrix ? t.find("];\n", p) : t.find(";\n", p); if (end == std::string::npos) { bad("value does not end", start); return r; }
                std::string body = matrix ? t.substr(p + 1, end - p - 1) : t.substr(p, end - p); p = end + (matrix ? 3 : 2);
                std::vector<std::vector<double>> rows; const char* c = body.c_str(); rows.emplace_back();
                for (;;)
                {
                    while (*c == ' ' || *c == '\n') ++c; if (!*c) break; char* e; double d = strtod(c, &e); if (e == c) { bad("not a number", start); return r; } rows.back().push_back(d); c = e;
                    while (*c == ' ') ++c; if (*c == ';') { rows.emplace_back(); ++c; } else if (*c == ',') ++c; else if (*c) { bad("not a matrix", start); return r; }
                }
                if (rows.size() == 1 && rows[0].empty()) rows.clear();
                if (!matrix && !(rows.size() == 1 && rows[0].size() == 1)) { bad("not a value", start); return r; }
                v.m.resize(rows.size(), rows.empty() ? 0 : rows[0].size());
                for (size_t i = 0; i < rows.size(); ++i) { if (rows[i].size() != rows[0].size()) { bad("rows of different lengths", start); return r; } for (size_t j = 0; j < rows[i].size(); ++j) v.m(i, j) = rows[i][j]; }
            }
            if (r.count(n)) sim::fail("entry-repeated", "the log has two entries %s: the first is lost when it is loaded", n.c_str());
            r[n] = v;
        }
        return r;
    }
    inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 2e-14 * std::fabs(b); }
    inline void compare(const Entries& got, const Expect& want)
    {
        for (auto& w : want.e)
        {
            auto it = got.find(w.first); const char* n = w.first.c_str(); if (it == got.end()) sim::fail("entry-missing", "the log has no entry %s", n);
            const Value &g = it->second, &x = w.second; sim::count("entries compared"); if (x.any) continue;
            if (g.text != x.text) sim::fail("entry-wrong", "%s is %s", n, g.text ? "text" : "not text");
            if (x.text) { if (g.s != x.s) sim::fail("entry-wrong", "%s is '%s' instead of '%s'", n, g.s.c_str(), x.s.c_str()); continue; }
            if (x.m.size() == 0) { if (g.m.size()) sim::fail("entry-wrong", "%s is not empty", n); continue; }
            if (g.m.rows() != x.m.rows() || g.m.cols() != x.m.cols()) sim::fail("entry-wrong", "%s has %d x %d elements instead of %d x %d", n, (int)g.m.rows(), (int)g.m.cols(), (int)x.m.rows(), (int)x.m.cols());
            for (int i = 0; i < x.m.rows(); ++i) for (int j = 0; j < x.m.cols(); ++j) if (!same(g.m(i, j), x.m(i, j))) sim::fail("entry-wrong", "element (%d, %d) of %s is %.17g instead of %.17g", i, j, n, g.m(i, j), x.m(i, j));
        }
    }
    // an output device which stores, and may fail for good after some bytes
    struct Device : std::streambuf
    {
        std::string bytes; int64_t fail_at = -1; bool failed = false;
        std::streamsize put(const char* s, std::streamsize n) { std::streamsize k = n; if (fail_at >= 0 && (int64_t)bytes.size() + k > fail_at) k = std::max<int64_t>(0, fail_at - (int64_t)bytes.size()); bytes.append(s, k); if (k < n) failed = true; return k; }
        std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n); }
        int overflow(int c) override { char b = (char)c; return put(&b, 1) == 1 ? c : EOF; }
    };
    // names given by the user, or the default ones
    struct Names { std::string prefix; int index = -1; bool custom = false, fresh = false; std::string of(const char* d) const { std::string p = prefix; if (index >= 0) p = at(p, index); return join(p, custom ? std::string("my_") + d : std::string(d)); } };
}
