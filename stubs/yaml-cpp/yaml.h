// Stand-in for yaml-cpp (old interface, 0.3) for the simulation: a subset of
// YAML which covers what humoto writes and what the reference encoder writes.
#pragma once
#include <string>
#include <vector>
#include <istream>
#include <sstream>
#include <stdexcept>
#include <memory>
#include <limits>
#include <type_traits>
#include <cstring>
namespace YAML
{
    struct Exception : std::runtime_error { Exception(const std::string& m) : std::runtime_error("yaml-cpp: " + m) {} };
    struct ParserException : Exception { ParserException(const std::string& m) : Exception(m) {} };
    struct RepresentationException : Exception { RepresentationException(const std::string& m) : Exception(m) {} };
    struct InvalidScalar : RepresentationException { InvalidScalar() : RepresentationException("invalid scalar") {} };
    struct KeyNotFound : RepresentationException { KeyNotFound() : RepresentationException("key not found") {} };
    struct BadDereference : RepresentationException { BadDereference() : RepresentationException("bad dereference") {} };
    struct NodeType { enum value { Null, Scalar, Sequence, Map }; };

    inline bool Convert(const std::string& s, std::string& v) { v = s; return true; }
    inline bool Convert(const std::string& s, bool& v)
    {
        static const char* t[] = {"y", "yes", "true", "on"}; static const char* f[] = {"n", "no", "false", "off"}; std::string l; for (char c : s) l += (char)tolower(c);
        for (auto w : t) if (l == w) { v = true; return true; }
        for (auto w : f) if (l == w) { v = false; return true; }
        return false;
    }
    template<class T> typename std::enable_if<std::is_arithmetic<T>::value, bool>::type Convert(const std::string& s, T& v)
    {
        std::stringstream in(s); in.unsetf(std::ios::dec);
        if ((in >> v) && (in >> std::ws).eof()) return true;
        if (std::numeric_limits<T>::has_infinity)
        {
            if (s == ".inf" || s == "+.inf" || s == ".Inf" || s == ".INF") { v = std::numeric_limits<T>::infinity(); return true; }
            if (s == "-.inf" || s == "-.Inf" || s == "-.INF") { v = -std::numeric_limits<T>::infinity(); return true; }
            if (s == ".nan" || s == ".NaN" || s == ".NAN") { v = std::numeric_limits<T>::quiet_NaN(); return true; }
        }
        return false;
    }

    class Node
    {
        friend class Parser; friend struct Text;
        NodeType::value type_; std::string scalar_; std::vector<std::unique_ptr<Node> > seq_; std::vector<std::pair<std::string, std::unique_ptr<Node> > > map_;
        Node(const Node&); Node& operator=(const Node&);
        const Node* at(std::size_t i) const { return i < seq_.size() ? seq_[i].get() : nullptr; }
    public:
        Node() : type_(NodeType::Null) {}
        NodeType::value Type() const { return type_; }
        std::size_t size() const { return type_ == NodeType::Sequence ? seq_.size() : type_ == NodeType::Map ? map_.size() : 0; }
        void clear() { type_ = NodeType::Null; scalar_.clear(); seq_.clear(); map_.clear(); }
        bool GetScalar(std::string& s) const { if (type_ == NodeType::Scalar) { s = scalar_; return true; } if (type_ == NodeType::Null) { s = "~"; return true; } return false; }
        const std::vector<std::pair<std::string, std::unique_ptr<Node> > >& entries() const { return map_; }   // for the harness only
        const Node* FindValue(const std::string& key) const
        {
            if (type_ == NodeType::Null || type_ == NodeType::Scalar) throw BadDereference();
            if (type_ == NodeType::Map) for (auto& e : map_) if (e.first == key) return e.second.get();
            return nullptr;
        }
        const Node* FindValue(const char* key) const { return FindValue(std::string(key)); }
        const Node& operator[](const std::string& key) const { const Node* n = FindValue(key); if (!n) throw KeyNotFound(); return *n; }
        const Node& operator[](const char* key) const { return (*this)[std::string(key)]; }
        template<class I> typename std::enable_if<std::is_integral<I>::value, const Node&>::type operator[](I i) const
        {
            if (type_ == NodeType::Null || type_ == NodeType::Scalar) throw BadDereference();
            const Node* n = type_ == NodeType::Sequence && i >= 0 ? at((std::size_t)i) : nullptr; if (!n) throw KeyNotFound(); return *n;
        }
    };
    template<class T> inline void operator>>(const Node& n, T& v) { std::string s; if (!n.GetScalar(s) || !Convert(s, v)) throw InvalidScalar(); }
    template<class T> inline void operator>>(const Node& n, std::vector<T>& v) { v.clear(); v.resize(n.size()); for (std::size_t i = 0; i < n.size(); ++i) n[i] >> v[i]; }

    // ---- parser ----
    struct Text
    {
        const std::string& s; std::size_t p = 0; int depth = 0;
        Text(const std::string& t) : s(t) {}
        bool end() const { return p >= s.size(); }
        char at(std::size_t i) const { return i < s.size() ? s[i] : '\0'; }
        bool blankAt(std::size_t i) const { return i >= s.size() || s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r'; }
        int column() const { std::size_t b = p; while (b > 0 && s[b - 1] != '\n') --b; return (int)(p - b); }
        [[noreturn]] void fail(const char* m) const { throw ParserException(std::string(m) + " at byte " + std::to_string(p)); }
        void skip()   // blanks, line ends and comments
        {
            while (!end())
            {
                if (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r') ++p;
                else if (s[p] == '#' && (p == 0 || blankAt(p - 1))) while (!end() && s[p] != '\n') ++p;
                else break;
            }
        }
        void skipLine() { while (!end() && (s[p] == ' ' || s[p] == '\t')) ++p; if (at(p) == '#' && (p == 0 || blankAt(p - 1))) while (!end() && s[p] != '\n') ++p; }
        std::string quoted()
        {
            char q = s[p++]; std::string r;
            for (;; ++p)
            {
                if (end()) fail("end of file in a quoted scalar");
                if (q == '\'' && s[p] == '\'') { if (at(p + 1) == '\'') { r += '\''; ++p; continue; } break; }
                if (q == '"' && s[p] == '"') break;
                if (q == '"' && s[p] == '\\')
                {
                    ++p; char c = at(p);
                    switch (c)
                    {
                        case 'n': r += '\n'; break; case 't': r += '\t'; break; case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'r': r += '\r'; break; case '0': r += '\0'; break;
                        case 'x': { if (p + 2 >= s.size()) fail("bad escape"); r += (char)std::stoi(s.substr(p + 1, 2), nullptr, 16); p += 2; break; }
                        default: fail("unknown escape");
                    }
                    continue;
                }
                r += s[p];
            }
            ++p; return r;
        }
        std::string plain(bool flow)
        {
            std::size_t b = p;
            while (!end())
            {
                char c = s[p];
                if (c == '\n' || c == '\r') break;
                if (c == ':' && (blankAt(p + 1) || (flow && strchr(",[]{}", at(p + 1))))) break;
                if (c == '#' && p > b && blankAt(p - 1)) break;
                if (flow && strchr(",[]{}", c)) break;
                ++p;
            }
            std::size_t e = p; while (e > b && blankAt(e - 1)) --e;
            if (e == b) fail("scalar expected");
            if (strchr("&*!|>%@`", s[b])) { p = b; fail("unsupported indicator"); }
            return s.substr(b, e - b);
        }
        static bool isNull(const std::string& v) { return v == "~" || v == "null" || v == "Null" || v == "NULL"; }
        void scalar(Node& n, bool flow) { bool q = s[p] == '"' || s[p] == '\''; n.scalar_ = q ? quoted() : plain(flow); n.type_ = !q && isNull(n.scalar_) ? NodeType::Null : NodeType::Scalar; }
        void flow(Node& n)
        {
            if (++depth > 64) fail("too deep");
            char open = s[p], close = open == '[' ? ']' : '}'; ++p; n.type_ = open == '[' ? NodeType::Sequence : NodeType::Map;
            for (;;)
            {
                skip(); if (end()) fail("end of file in a flow collection");
                if (s[p] == close) { ++p; break; }
                std::unique_ptr<Node> v(new Node);
                if (open == '{')
                {
                    std::string k = s[p] == '"' || s[p] == '\'' ? quoted() : plain(true); skip(); if (at(p) != ':') fail("':' expected"); ++p; skip();
                    if (end()) fail("end of file in a flow collection");
                    if (s[p] != ',' && s[p] != '}') value(*v); n.map_.emplace_back(k, std::move(v));
                }
                else { value(*v); n.seq_.push_back(std::move(v)); }
                skip(); if (at(p) == ',') { ++p; continue; }
                if (at(p) != close) fail("',' expected");
            }
            --depth;
        }
        void value(Node& n) { if (s[p] == '[' || s[p] == '{') flow(n); else scalar(n, true); }
        // is there "key:" here?
        bool isKey()
        {
            std::size_t b = p; bool r = false;
            if (!end() && s[p] != '[' && s[p] != '{') { try { if (s[p] == '"' || s[p] == '\'') quoted(); else plain(false); while (at(p) == ' ' || at(p) == '\t') ++p; r = at(p) == ':' && blankAt(p + 1); } catch (const ParserException&) {} }
            p = b; return r;
        }
        bool dash() const { return at(p) == '-' && blankAt(p + 1); }
        void block(Node& n, int indent)
        {
            if (++depth > 64) fail("too deep");
            skip(); int col = column();
            if (end() || col < indent) { --depth; return; }
            if (dash())
            {
                n.type_ = NodeType::Sequence;
                while (skip(), !end() && column() == col && dash()) { ++p; std::unique_ptr<Node> v(new Node); block(*v, col + 1); n.seq_.push_back(std::move(v)); }
                if (!end() && column() > col) fail("bad indentation");
            }
            else if (isKey())
            {
                n.type_ = NodeType::Map;
                while (skip(), !end() && column() == col)
                {
                    if (!isKey()) fail("key expected");
                    std::string k = s[p] == '"' || s[p] == '\'' ? quoted() : plain(false); while (at(p) != ':') ++p; ++p; skipLine();
                    std::unique_ptr<Node> v(new Node);
                    if (!end() && s[p] != '\n' && s[p] != '\r') { if (s[p] == '[' || s[p] == '{') flow(*v); else { scalar(*v, false); } endOfValue(); }
                    else { skip(); if (!end() && (column() > col || (column() == col && dash()))) block(*v, column() > col ? col + 1 : col); }
                    n.map_.emplace_back(k, std::move(v));
                }
                if (!end() && column() > col) fail("bad indentation");
            }
            else if (s[p] == '[' || s[p] == '{') { flow(n); endOfValue(); }
            else { scalar(n, false); endOfValue(); }
            --depth;
        }
        void endOfValue() { skipLine(); if (!end() && s[p] != '\n' && s[p] != '\r') fail("unexpected text after a value"); }
    };
    class Parser
    {
        std::string text_; bool done_ = true; Parser(const Parser&); Parser& operator=(const Parser&);
    public:
        Parser() {}
        explicit Parser(std::istream& in) { Load(in); }
        void Load(std::istream& in)
        {
            text_.clear(); done_ = false; char buf[2048];   // like yaml-cpp, past the formatted input of the stream
            for (;;) { std::streamsize k = in.rdbuf()->sgetn(buf, sizeof(buf)); if (k <= 0) break; text_.append(buf, (std::size_t)k); }
        }
        bool GetNextDocument(Node& n)
        {
            n.clear(); if (done_) return false;
            done_ = true; Text t(text_); t.skip(); if (text_.compare(t.p, 3, "---") == 0 && t.blankAt(t.p + 3)) { t.p += 3; t.skip(); }
            if (t.end()) return false;
            t.block(n, 0); t.skip(); if (!t.end()) t.fail("unexpected text");
            return true;
        }
    };

    // ---- emitter ----
    enum EMITTER_MANIP { Auto, Flow, Block, BeginDoc, EndDoc, BeginSeq, EndSeq, BeginMap, EndMap, Key, Value, Newline };
    inline std::string quote(const std::string& s)
    {
        bool simple = !s.empty() && !Text::isNull(s) && (isalpha((unsigned char)s[0]) || s[0] == '_') && s.back() != ' ';
        for (char c : s) if (!isalnum((unsigned char)c) && c != '_' && c != ' ' && c != '.' && c != '-') simple = false;
        if (simple) return s;
        std::string r = "\"";
        for (char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
            else if ((unsigned char)c < 32) { static const char* h = "0123456789abcdef"; r += "\\x"; r += h[(unsigned char)c >> 4]; r += h[c & 15]; } else r += c;
        return r + "\"";
    }
    class Emitter
    {
        struct Group { bool map, flow, key = false; int indent; bool empty = true; };
        std::string out_; std::vector<Group> st_; bool flow_next_ = false, good_ = true; int precision_ = 6; Emitter(const Emitter&); Emitter& operator=(const Emitter&);
        void bad() { good_ = false; }
        // place before an item
        void before(bool nested_block)
        {
            if (st_.empty()) return;
            Group& g = st_.back();
            if (g.flow) { if (g.map && !g.key) { if (!g.empty) out_ += ", "; g.empty = false; } else if (g.map) out_ += ": "; else { if (!g.empty) out_ += ", "; g.empty = false; } }
            else if (g.map && !g.key) { if (!g.empty || g.indent > 0) out_ += "\n"; out_.append(g.indent, ' '); g.empty = false; }
            else if (g.map) out_ += nested_block ? ":" : ": ";
            else { out_ += "\n"; out_.append(g.indent, ' '); out_ += "- "; g.empty = false; }
        }
        void after() { if (!st_.empty() && st_.back().map) st_.back().key = !st_.back().key; }
        void begin(bool map)
        {
            bool flow = flow_next_ || (!st_.empty() && st_.back().flow); flow_next_ = false;
            if (!st_.empty() && st_.back().map && !st_.back().key) { bad(); return; }
            before(!flow); Group g; g.map = map; g.flow = flow; g.indent = st_.empty() ? 0 : st_.back().indent + 2; st_.push_back(g); if (flow) out_ += map ? "{" : "[";
        }
        void finish(bool map)
        {
            if (st_.empty() || st_.back().map != map || st_.back().key) { bad(); return; }
            Group g = st_.back(); st_.pop_back(); if (g.flow) out_ += map ? "}" : "]"; else if (g.empty) out_ += map ? " {}" : " []"; after();
        }
    public:
        Emitter() {}
        bool good() const { return good_; }
        const char* c_str() const { return out_.c_str(); }
        std::size_t size() const { return out_.size(); }
        bool SetDoublePrecision(int n) { if (n < 0 || n > 2 * std::numeric_limits<double>::digits10 + 1) return false; precision_ = n; return true; }
        Emitter& atom(const std::string& s) { if (!good_) return *this; before(false); out_ += s; after(); return *this; }
        template<class T> Emitter& number(T v) { std::stringstream s; s.precision(precision_); s << v; return atom(s.str()); }
        Emitter& manip(EMITTER_MANIP m)
        {
            if (!good_) return *this;
            switch (m)
            {
                case BeginMap: begin(true); break; case EndMap: finish(true); break; case BeginSeq: begin(false); break; case EndSeq: finish(false); break;
                case Flow: flow_next_ = true; break; case Newline: out_ += "\n"; break;
                case Key: if (st_.empty() || !st_.back().map || st_.back().key) bad(); break;
                case Value: if (st_.empty() || !st_.back().map || !st_.back().key) bad(); break;
                default: break;
            }
            return *this;
        }
    };
    inline Emitter& operator<<(Emitter& e, EMITTER_MANIP m) { return e.manip(m); }
    inline Emitter& operator<<(Emitter& e, const std::string& s) { return e.atom(quote(s)); }
    inline Emitter& operator<<(Emitter& e, const char* s) { return e.atom(quote(s)); }
    inline Emitter& operator<<(Emitter& e, bool v) { return e.atom(v ? "true" : "false"); }
    inline Emitter& operator<<(Emitter& e, int v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, unsigned int v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, short v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, long v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, unsigned long v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, long long v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, unsigned long long v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, float v) { return e.number(v); }
    inline Emitter& operator<<(Emitter& e, double v) { return e.number(v); }
    template<class T> inline Emitter& operator<<(Emitter& e, const std::vector<T>& v) { e << BeginSeq; for (auto& x : v) e << x; return e << EndSeq; }
}
