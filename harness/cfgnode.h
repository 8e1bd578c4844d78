// Reference model of a configuration file: a tree of entries with its own
// encoder and decoder, independent of humoto and of the msgpack library.
#pragma once
#include "sim/sim.h"
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <fstream>
struct Node
{
    enum T { NIL, BOOL, INT, DBL, STR, ARR, MAP, RAW /* text of a scalar whose type is not known */ } t = NIL;
    bool b = false; int64_t i = 0; bool big = false; /* i holds an uint64 above INT64_MAX */ double d = 0; std::string s;
    std::vector<Node> a; std::vector<std::pair<Node, Node>> m;
    static Node boolean(bool v) { Node n; n.t = BOOL; n.b = v; return n; }
    static Node integer(int64_t v) { Node n; n.t = INT; n.i = v; return n; }
    static Node uinteger(uint64_t v) { Node n; n.t = INT; n.i = (int64_t)v; n.big = v > (uint64_t)INT64_MAX; return n; }
    static Node dbl(double v) { Node n; n.t = DBL; n.d = v; return n; }
    static Node str(const std::string& v) { Node n; n.t = STR; n.s = v; return n; }
    static Node arr() { Node n; n.t = ARR; return n; }
    static Node map() { Node n; n.t = MAP; return n; }
    double asDouble() const { return t == DBL ? d : big ? (double)(uint64_t)i : (double)i; }
    Node& add(const std::string& k, const Node& v) { m.emplace_back(str(k), v); return *this; }
    const Node* find(const std::string& k) const { for (auto& e : m) if (e.first.t == STR && e.first.s == k) return &e.second; return nullptr; }
    Node* find(const std::string& k) { for (auto& e : m) if (e.first.t == STR && e.first.s == k) return &e.second; return nullptr; }
};

inline bool sameDouble(double x, double y) { return (std::isnan(x) && std::isnan(y)) || x == y; }

inline int rawBool(const std::string& w) { return w == "true" || w == "True" || w == "yes" || w == "on" || w == "y" ? 1 : w == "false" || w == "False" || w == "no" || w == "off" || w == "n" ? 0 : -1; }
inline bool rawEquals(const Node& x, const std::string& s)
{
    char* e = nullptr;
    switch (x.t)
    {
        case Node::BOOL: return rawBool(s) == (x.b ? 1 : 0);
        case Node::INT: if (x.big) { return s == std::to_string((uint64_t)x.i); } return s == std::to_string(x.i);
        case Node::DBL: { double v = std::strtod(s.c_str(), &e); return e && *e == 0 && e != s.c_str() && sameDouble(v, x.d); }
        case Node::STR: return x.s == s;
        case Node::RAW:
        {
            if (x.s == s) return true;
            char* f = nullptr; double a = std::strtod(x.s.c_str(), &e), b = std::strtod(s.c_str(), &f); if (e && f && e != x.s.c_str() && f != s.c_str() && !*e && !*f) return sameDouble(a, b);
            return rawBool(s) >= 0 && rawBool(s) == rawBool(x.s);
        }
        default: return false;
    }
}

// Equality of values, regardless of the order of the entries of a map.
// Returns the path of the first difference, or "".
inline std::string diff(const Node& x, const Node& y, const std::string& path = "")
{
    std::string here = path.empty() ? "<root>" : path;
    if (x.t == Node::RAW || y.t == Node::RAW) return (y.t == Node::RAW ? rawEquals(x, y.s) : rawEquals(y, x.s)) ? "" : here + " (" + (x.t == Node::RAW ? x.s : y.s) + ")";
    if (x.t != y.t)
    {
        if (x.t == Node::INT && y.t == Node::DBL && x.asDouble() == y.d) return "";
        if (x.t == Node::DBL && y.t == Node::INT && y.asDouble() == x.d) return "";
        return here + " (type)";
    }
    switch (x.t)
    {
        case Node::BOOL: return x.b == y.b ? "" : here;
        case Node::INT: return x.i == y.i && x.big == y.big ? "" : here;
        case Node::DBL: return sameDouble(x.d, y.d) ? "" : here + " (" + sim::hexDouble(x.d) + " / " + sim::hexDouble(y.d) + ")";
        case Node::STR: return x.s == y.s ? "" : here;
        case Node::ARR:
            if (x.a.size() != y.a.size()) return here + " (length)";
            for (size_t i = 0; i < x.a.size(); ++i) { auto s = diff(x.a[i], y.a[i], path + "[" + std::to_string(i) + "]"); if (!s.empty()) return s; }
            return "";
        case Node::MAP:
            for (auto& e : x.m) { const Node* o = y.find(e.first.s); if (!o) return path + "." + e.first.s + " (missing)"; auto s = diff(e.second, *o, path + "." + e.first.s); if (!s.empty()) return s; }
            if (x.m.size() != y.m.size()) return here + " (number of entries)";
            return "";
        default: return "";
    }
}

// ---- encoder: any of the valid encodings of a value ----
struct Encoder
{
    std::string out; bool vary = false;
    void be(uint64_t v, int n) { for (int k = n - 1; k >= 0; --k) out += (char)(v >> (8 * k)); }
    void size(size_t n, int fix_max, int fix, int c8, int c16, int c32)
    {
        if (n <= (size_t)fix_max) out += (char)(fix | n);
        else if (c8 >= 0 && n < 256) { out += (char)c8; be(n, 1); }
        else if (n < 65536) { out += (char)c16; be(n, 2); }
        else { out += (char)c32; be(n, 4); }
    }
    void put(const Node& n)
    {
        switch (n.t)
        {
            case Node::NIL: out += (char)0xc0; break;
            case Node::BOOL: out += (char)(n.b ? 0xc3 : 0xc2); break;
            case Node::INT:
                if (n.big || n.i >= 0)
                {
                    uint64_t v = (uint64_t)n.i; int w = v < 128 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v <= 0xffffffffull ? 3 : 4;
                    if (vary && w < 4) w += sim::choose(5 - w);
                    if (w == 0) out += (char)v; else { out += (char)(0xcb + w); be(v, 1 << (w - 1)); }
                }
                else
                {
                    int64_t v = n.i; int w = v >= -32 ? 0 : v >= -128 ? 1 : v >= -32768 ? 2 : v >= -2147483648ll ? 3 : 4;
                    if (vary && w < 4) w += sim::choose(5 - w);
                    if (w == 0) out += (char)v; else { out += (char)(0xcf + w); be((uint64_t)v, 1 << (w - 1)); }
                }
                break;
            case Node::DBL: { uint64_t u; std::memcpy(&u, &n.d, 8); out += (char)0xcb; be(u, 8); break; }
            case Node::STR: size(n.s.size(), 31, 0xa0, 0xd9, 0xda, 0xdb); out += n.s; break;
            case Node::ARR: size(n.a.size(), 15, 0x90, -1, 0xdc, 0xdd); for (auto& e : n.a) put(e); break;
            case Node::MAP:
            {
                size(n.m.size(), 15, 0x80, -1, 0xde, 0xdf);
                std::vector<size_t> o; for (size_t i = 0; i < n.m.size(); ++i) o.push_back(i);
                if (vary) for (size_t i = o.size(); i > 1; --i) { size_t j = i - 1 - sim::choose(i); std::swap(o[i - 1], o[j]); }
                for (size_t i : o) { put(n.m[i].first); put(n.m[i].second); }
                break;
            }
        }
    }
};
#ifndef CFG_YAML
inline std::string encode(const Node& n, bool vary = false) { Encoder e; e.vary = vary; e.put(n); return e.out; }
#endif

// ---- decoder ----
struct Decoder
{
    const std::string& in; size_t p; bool ok = true; int depth = 0;
    Decoder(const std::string& s, size_t pos = 0) : in(s), p(pos) {}
    uint64_t be(int n) { if (p + n > in.size()) { ok = false; return 0; } uint64_t v = 0; for (int k = 0; k < n; ++k) v = v << 8 | (unsigned char)in[p++]; return v; }
    std::string bytes(size_t n) { if (n > in.size() - p) { ok = false; return ""; } std::string s = in.substr(p, n); p += n; return s; }
    Node get()
    {
        Node n; if (++depth > 64) ok = false;
        uint8_t c = be(1); if (!ok) return n;
        auto arr = [&](size_t k) { n.t = Node::ARR; for (size_t i = 0; i < k && ok; ++i) n.a.push_back(get()); };
        auto map = [&](size_t k) { n.t = Node::MAP; for (size_t i = 0; i < k && ok; ++i) { Node key = get(); n.m.emplace_back(key, get()); } };
        if (c < 0x80) n = Node::integer(c);
        else if (c < 0x90) map(c & 15);
        else if (c < 0xa0) arr(c & 15);
        else if (c < 0xc0) n = Node::str(bytes(c & 31));
        else switch (c)
        {
            case 0xc0: break;
            case 0xc2: n = Node::boolean(false); break;
            case 0xc3: n = Node::boolean(true); break;
            case 0xc4: case 0xd9: n = Node::str(bytes(be(1))); break;
            case 0xc5: case 0xda: n = Node::str(bytes(be(2))); break;
            case 0xc6: case 0xdb: n = Node::str(bytes(be(4))); break;
            case 0xca: { uint32_t u = be(4); float f; std::memcpy(&f, &u, 4); n = Node::dbl(f); break; }
            case 0xcb: { uint64_t u = be(8); double f; std::memcpy(&f, &u, 8); n = Node::dbl(f); break; }
            case 0xcc: n = Node::uinteger(be(1)); break; case 0xcd: n = Node::uinteger(be(2)); break; case 0xce: n = Node::uinteger(be(4)); break; case 0xcf: n = Node::uinteger(be(8)); break;
            case 0xd0: n = Node::integer((int8_t)be(1)); break; case 0xd1: n = Node::integer((int16_t)be(2)); break; case 0xd2: n = Node::integer((int32_t)be(4)); break; case 0xd3: n = Node::integer((int64_t)be(8)); break;
            case 0xdc: arr(be(2)); break; case 0xdd: arr(be(4)); break; case 0xde: map(be(2)); break; case 0xdf: map(be(4)); break;
            default: ok = false; if (c >= 0xe0) { ok = true; n = Node::integer((int8_t)c); }
        }
        --depth;
        return n;
    }
};
#ifndef CFG_YAML
inline bool decodeAll(const std::string& s, std::vector<Node>& out)
{
    size_t p = 0; out.clear();
    while (p < s.size()) { Decoder d(s, p); Node n = d.get(); if (!d.ok) return false; out.push_back(n); p = d.p; }
    return true;
}
#else
#include "harness/cfgyaml.h"
#endif
inline std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void spew(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }
