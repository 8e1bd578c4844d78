// YAML text of the reference model of a configuration file: its own encoder
// (any of many equivalent layouts); decoding goes through the stand-in of yaml-cpp.
#pragma once
#include "yaml-cpp/yaml.h"
#include <sstream>
struct YamlText
{
    bool vary; int width;
    YamlText(bool v) : vary(v) { width = v ? sim::range(1, 5) : 2; }
    std::string str(const std::string& s)
    {
        bool single = vary && sim::choose(4) == 0; for (char c : s) if (c == '\n' || c == '\t' || c == '\r') single = false;
        if (single) { std::string r = "'"; for (char c : s) { if (c == '\'') r += '\''; r += c; } return r + "'"; }
        bool simple = vary && !s.empty() && isalpha((unsigned char)s[0]) && sim::choose(2); for (char c : s) if (!isalnum((unsigned char)c) && c != '_') simple = false;
        if (simple && !YAML::Text::isNull(s)) return s;
        std::string r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else { if (c == '"' || c == '\\') r += '\\'; r += c; } } return r + "\"";
    }
    std::string scalar(const Node& n)
    {
        switch (n.t)
        {
            case Node::BOOL: { static const char* t[] = {"true", "yes", "on", "True", "y"}; static const char* f[] = {"false", "no", "off", "False", "n"}; int k = vary ? sim::choose(5) : 0; return n.b ? t[k] : f[k]; }
            case Node::INT: return n.big ? std::to_string((uint64_t)n.i) : std::to_string(n.i);
            case Node::DBL: { char b[64]; static const char* f[] = {"%.15g", "%.17g", "%.16e", "%.15g"}; snprintf(b, sizeof b, f[vary ? sim::choose(4) : 0], n.d); return std::isinf(n.d) ? (n.d > 0 ? ".inf" : "-.inf") : std::isnan(n.d) ? ".nan" : b; }
            case Node::STR: return str(n.s);
            case Node::RAW: return n.s;
            default: return "~";
        }
    }
    std::vector<size_t> order(const Node& n) { std::vector<size_t> o; for (size_t i = 0; i < n.m.size(); ++i) o.push_back(i); if (vary) for (size_t i = o.size(); i > 1; --i) { size_t j = i - 1 - sim::choose(i); std::swap(o[i - 1], o[j]); } return o; }
    std::string pad() { return vary && sim::choose(8) == 0 ? " " : ""; }
    std::string flow(const Node& n)
    {
        std::string s;
        if (n.t == Node::ARR) { s = "[" + pad(); for (size_t i = 0; i < n.a.size(); ++i) s += flow(n.a[i]) + (i + 1 < n.a.size() ? (vary && i % 20 == 19 ? ",\n    " : ", ") : ""); return s + pad() + "]"; }
        if (n.t == Node::MAP) { s = "{" + pad(); bool first = true; for (size_t i : order(n)) { if (!first) s += ", "; first = false; s += str(n.m[i].first.s) + ": " + flow(n.m[i].second); } return s + "}"; }
        return scalar(n);
    }
    void block(const Node& n, int indent, std::string& out)
    {
        for (size_t i : order(n))
        {
            const Node& v = n.m[i].second;
            if (vary && sim::choose(16) == 0) out += sim::choose(2) ? "\n" : std::string(indent, ' ') + "# comment: [\n";
            out += std::string(indent, ' ') + str(n.m[i].first.s) + ":";
            if (v.t == Node::MAP && !v.m.empty() && !(vary && sim::choose(5) == 0)) { out += "\n"; block(v, indent + width, out); }
            else if (v.t == Node::ARR && !v.a.empty() && v.a.size() < 50 && vary && sim::choose(4) == 0) { out += "\n"; int in = indent + (sim::choose(2) ? width : 0); for (auto& e : v.a) out += std::string(in, ' ') + "- " + flow(e) + "\n"; }
            else out += " " + flow(v) + (vary && sim::choose(20) == 0 ? "  # comment" : "") + "\n";
        }
    }
};
inline std::string encode(const Node& n, bool vary = false) { YamlText t(vary); std::string s; t.block(n, 0, s); return s; }
inline Node fromYaml(const YAML::Node& y)
{
    Node n;
    switch (y.Type())
    {
        case YAML::NodeType::Scalar: n.t = Node::RAW; y.GetScalar(n.s); break;
        case YAML::NodeType::Sequence: n = Node::arr(); for (size_t i = 0; i < y.size(); ++i) n.a.push_back(fromYaml(y[i])); break;
        case YAML::NodeType::Map: n = Node::map(); for (auto& e : y.entries()) n.add(e.first, fromYaml(*e.second)); break;
        default: break;
    }
    return n;
}
// one map with a single entry per object, as in the binary format
inline bool decodeAll(const std::string& s, std::vector<Node>& out)
{
    out.clear(); Node root;
    try { std::istringstream in(s); YAML::Parser p(in); YAML::Node y; if (!p.GetNextDocument(y)) return true; root = fromYaml(y); } catch (const std::exception&) { return false; }
    if (root.t != Node::MAP) return false;
    for (auto& e : root.m) { Node m = Node::map(); m.add(e.first.s, e.second); out.push_back(m); }
    return true;
}
