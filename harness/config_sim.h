// Simulation of configuration storage: C05-C08 (binary format), C23 (YAML, when included by config_yaml.cpp).
#include "harness/config_objs.h"
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <cerrno>

#if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:max_allocation_size_mb=256:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:abort_on_error=1:quarantine_size_mb=8:malloc_context_size=0:verify_asan_link_order=0"; }
#endif
namespace
{
    typedef std::unique_ptr<IObj> P;
    std::string file() { return sim::scratch() + "/c.msg"; }
    struct Item { P o; std::string name; bool custom; Node tree; };
    uint64_t hashStr(const std::string& s) { uint64_t h = 5; for (char c : s) h = h * 131 + (unsigned char)c; return h; }

    std::vector<Item> makeItems(int lo, int hi)
    {
        int n = sim::range(lo, hi); std::vector<Item> v; std::set<std::string> used;
        for (int i = 0; i < n; ++i)
        {
            Item it; it.o = makeObj(sim::choose(KINDS)); it.o->randomize(); it.name = it.o->section; it.custom = false;
            if (sim::chance(1, 2) || used.count(it.name)) { it.custom = true; it.name = sim::chance(1, 4) ? anyString() : "node_" + std::to_string(i); if (used.count(it.name)) it.name = "unique node " + std::to_string(i); }
            used.insert(it.name); it.tree = it.o->tree();
            sim::event("object %s as '%s'", it.o->cls.c_str(), it.name.c_str()); sim::state(sim::mix(hashStr(it.o->cls), hashStr(encode(it.tree))));
            v.push_back(std::move(it));
        }
        return v;
    }
    const std::string* nodeArg(const Item& it) { return it.custom || sim::chance(1, 3) ? &it.name : nullptr; }
    std::string encodeItems(const std::vector<Item>& v, bool vary)
    {
        std::string s; for (auto& it : v) { Node r = Node::map(); r.add(it.name, it.tree); s += encode(r, vary); } return s;
    }
    // the file holds exactly the given objects
    std::string fileMatches(const std::vector<Item>& v)
    {
        std::vector<Node> d; if (!decodeAll(slurp(file()), d)) return "the file is incomplete";
        if (d.size() != v.size()) return "the file holds " + std::to_string(d.size()) + " of " + std::to_string(v.size()) + " objects";
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (d[i].t != Node::MAP || d[i].m.size() != 1 || d[i].m[0].first.s != v[i].name) return "node " + v[i].name + " of " + v[i].o->cls + " is missing";
            std::string s = diff(v[i].tree, d[i].m[0].second); if (!s.empty()) return v[i].o->cls + ": entry " + s;
        }
        return "";
    }
    void writeItems(const std::vector<Item>& v)
    {
        if (v.size() == 1 && sim::chance(1, 2)) { v[0].o->writeFile(file(), nodeArg(v[0])); return; }
        Writer w(file()); for (auto& it : v) it.o->write(w, nodeArg(it));
    }
    // derived quantities are compared for values that do not overflow on the way
    bool tame(const Node& n)
    {
        if (n.t == Node::DBL) return std::fabs(n.d) < 1e100;
        for (auto& e : n.a) if (!tame(e)) return false;
        for (auto& e : n.m) if (!tame(e.second)) return false;
        return true;
    }
    void checkRestored(IObj& r, const Item& it, const char* what)
    {
        std::string s = diff(it.tree, r.tree());
        if (!s.empty()) sim::failStr("entry-not-restored", it.o->cls + ": " + what + ": entry " + s + " differs");
        if (!tame(it.tree)) return;
        Vals d = r.derived(); s = diffVals(d, it.o->is_problem ? it.o->derived() : r.expect(it.tree));
        if (!s.empty()) sim::failStr("derived-not-restored", it.o->cls + ": " + what + ": " + s);
    }
    void healthyButSlow()
    {
        if (sim::chance(1, 3)) { faults::disk().max_chunk = sim::range(1, 400); sim::count("fault:short_write_limit"); }
        if (sim::chance(1, 3)) { faults::disk().max_read = sim::range(1, 400); sim::count("fault:short_read_limit"); }
        if (sim::chance(1, 4)) { faults::disk().eintr_every = sim::range(2, 5); sim::count("fault:eintr"); }
    }

    // ------------------------------------------------------------------ C05
    void c05()
    {
        faults::diskReset(); healthyButSlow();
        auto v = makeItems(1, 4);
        if (sim::chance(2, 3))
        {
            writeItems(v); std::string e = fileMatches(v); if (!e.empty()) sim::failStr("written-differs", e);
            sim::event("written by humoto");
        }
        else { std::string s = encodeItems(v, true); faults::diskReset(); spew(file(), s); healthyButSlow(); sim::event("written by the reference encoder"); }
        // the process restarts: nothing but the file survives
        std::vector<size_t> order; for (size_t i = 0; i < v.size(); ++i) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[i - 1 - sim::choose(i)]);
        std::unique_ptr<Reader> shared(sim::chance(1, 2) ? new Reader(file()) : nullptr);
        for (int rep = sim::chance(1, 5) ? 2 : 1; rep > 0; --rep) for (size_t i : order)
        {
            P r = v[i].o->fresh(); if (sim::chance(1, 3) && !r->is_problem) { r->randomize(); sim::event("into a used object"); }
            bool strict = !sim::chance(1, 3);
            const std::string* n = nodeArg(v[i]);
            if (shared) r->read(*shared, n, strict, sim::chance(1, 3));
            else if (sim::chance(1, 2)) r->readFile(file(), n, strict);
            else { Reader q(file()); r->read(q, n, strict, sim::chance(1, 2)); }
            checkRestored(*r, v[i], "read back");
            // second generation
            if (sim::chance(1, 3))
            {
                std::string f2 = sim::scratch() + "/d.msg"; r->writeFile(f2, nullptr); P q = r->fresh(); q->readFile(f2, nullptr, true); checkRestored(*q, v[i], "second generation");
                unlink(f2.c_str());
            }
            sim::step();
        }
        sim::nontrivial(); sim::sample("%d objects, first %s, %d bytes", (int)v.size(), v[0].o->cls.c_str(), (int)slurp(file()).size());
    }
#ifndef CFG_YAML
    sim::Scenario s05("C05", "random configurable objects of every class, several per file, written, restarted, read through every entry point", c05);
#endif

    // ------------------------------------------------------------------ C06
    void c06()
    {
        faults::diskReset(); auto v = makeItems(1, 3);
        size_t total = encodeItems(v, false).size();
        for (int round = sim::range(1, 3); round > 0; --round)
        {
            faults::diskReset(); faults::Disk& d = faults::disk();
            switch (sim::choose(6))
            {
                case 0: d.capacity = sim::choose(total + 2); d.error = ENOSPC; sim::count("fault:disk_full"); break;
                case 1: d.capacity = sim::choose(total + 2); d.error = EIO; sim::count("fault:write_error"); break;
                case 2: d.capacity = sim::choose(total + 2); d.error = sim::chance(1, 2) ? ENOSPC : EIO; d.then_recovers = true; sim::count("fault:transient_write_error"); break;
                case 3: d.capacity = 0; d.error = EIO; sim::count("fault:dead_disk"); break;
                case 4: d.open_fails = true; d.open_errno = sim::chance(1, 2) ? EACCES : EMFILE; d.open_fail_at = sim::chance(1, 2) ? 1 : 0; sim::count("fault:open_failure"); break;
                default: break;
            }
            if (sim::chance(1, 2)) { d.max_chunk = sim::range(1, 300); sim::count("fault:short_write_limit"); }
            if (sim::chance(1, 3)) { d.eintr_every = sim::range(2, 4); sim::count("fault:eintr"); }
            if (sim::chance(1, 4)) { std::string junk(sim::choose(3000), 'j'); faults::Disk save = d; faults::diskReset(); spew(file(), junk); faults::diskReset(); faults::disk() = save; }
            bool ok = true;
            try { writeItems(v); } catch (const std::exception& e) { ok = false; sim::event("write failed: %s", e.what()); }
            bool faulty = faults::diskStats().failed_writes || faults::diskStats().failed_opens;
            sim::event("write %s, %d faults", ok ? "succeeded" : "failed", (int)(faults::diskStats().failed_writes + faults::diskStats().failed_opens));
            faults::diskReset();
            if (ok) { std::string e = fileMatches(v); if (!e.empty()) sim::failStr("failed-write-reported-as-success", "the write returned normally, but " + e); }
            else if (!faulty) sim::fail("write-fails-without-reason", "the write failed although the disk accepted everything");
            if (faulty) sim::nontrivial();
            sim::step();
        }
        // the disk is healthy again: the next write works
        writeItems(v); std::string e = fileMatches(v); if (!e.empty()) sim::failStr("written-differs", "after the faults stopped: " + e);
        sim::sample("%s and %d more, %d bytes", v[0].o->cls.c_str(), (int)v.size() - 1, (int)total);
#ifndef CFG_YAML   // text which was cut can be a valid text
        // power is lost before all bytes are on the disk
        std::string s = slurp(file()); size_t cut = sim::choose(s.size()); spew(file(), s.substr(0, cut)); sim::count("fault:torn_file");
        std::vector<Node> whole; size_t p = 0; while (p < cut) { std::string t = s.substr(0, cut); Decoder d(t, p); Node n = d.get(); if (!d.ok) break; whole.push_back(n); p = d.p; }
        for (size_t i = whole.size(); i < v.size(); ++i)
        {
            P r = v[i].o->fresh(); bool ok = true;
            try { r->readFile(file(), nodeArg(v[i]), true); } catch (const std::exception&) { ok = false; }
            if (ok) sim::failStr("torn-file-accepted", v[i].o->cls + ": a file cut after " + std::to_string(cut) + " of " + std::to_string(s.size()) + " bytes was read without an error");
        }
#endif
    }
#ifndef CFG_YAML
    sim::Scenario s06("C06", "writes with a disk that fails at random bytes and calls, then recovers; torn files", c06);
#endif

    // ------------------------------------------------------------------ C07
    // entries of the tree agree with what the file says
    std::string agrees(const Node& t, const Node& f, const std::string& path = "")
    {
        if (t.t == Node::MAP)
        {
            if (f.t != Node::MAP) return path + " (not a node)";
            for (auto& e : t.m) { const Node* o = f.find(e.first.s); if (!o) return path + "." + e.first.s + " (not in the file)"; auto s = agrees(e.second, *o, path + "." + e.first.s); if (!s.empty()) return s; }
            return "";
        }
        if (t.t == Node::ARR && f.t == Node::ARR)
        {
            if (t.a.size() != f.a.size()) return path + " (length)";
            for (size_t i = 0; i < t.a.size(); ++i) { auto s = agrees(t.a[i], f.a[i], path + "[" + std::to_string(i) + "]"); if (!s.empty()) return s; }
            return "";
        }
        if (t.t == Node::DBL && f.t == Node::INT) { double x = f.big ? (double)(uint64_t)f.i : (double)f.i; return x == t.d ? "" : path; }
        if (t.t == Node::INT && f.t == Node::INT && f.i < 0 && t.i == (int64_t)(uint32_t)f.i) return "";   // enumeration with an unsigned representation
        return diff(t, f, path);
    }
    struct Place { std::string path; Node* node; Node* parent; size_t index; };
    void places(Node& n, const std::string& path, std::vector<Place>& out)
    {
        if (n.t == Node::MAP) for (size_t i = 0; i < n.m.size(); ++i) { out.push_back({path + "." + n.m[i].first.s, &n.m[i].second, &n, i}); places(n.m[i].second, path + "." + n.m[i].first.s, out); }
        if (n.t == Node::ARR) for (size_t i = 0; i < n.a.size() && i < 4; ++i) { size_t k = i < 2 ? i : n.a.size() - (4 - i); if (k < i) continue; out.push_back({path + "[]", &n.a[k], &n, k}); places(n.a[k], path + "[]", out); }
    }
    Node otherType(const Node& n)
    {
#ifdef CFG_YAML   // scalars have no types of their own
        bool string = n.t == Node::STR, scalar = n.t != Node::ARR && n.t != Node::MAP; Node r;
        switch (sim::choose(4))
        {
            case 0: if (n.t != Node::ARR) { r = Node::arr(); for (int k = sim::range(0, 3); k > 0; --k) r.a.push_back(Node::dbl(k)); return r; }
            case 1: if (n.t != Node::MAP) { r = Node::map(); for (int k = sim::range(0, 2); k > 0; --k) r.add("k" + std::to_string(k), Node::dbl(k)); return r; }
            case 2: if (!string) return r;
            default: if (!scalar) return sim::choose(2) ? Node::dbl(sim::range(-3, 3)) : Node::str("text"); if (n.t == Node::DBL || n.t == Node::INT) return sim::choose(2) ? Node::str("text") : Node::boolean(sim::choose(2)); if (n.t == Node::BOOL) return sim::choose(2) ? Node::str("text") : Node::dbl(sim::range(-3, 3)); return Node::arr();
        }
#endif
        for (;;)
        {
            Node r;
            switch (sim::choose(7))
            {
                case 0: r = Node::str(anyString()); break;
                case 1: break;
                case 2: r = Node::boolean(sim::choose(2)); break;
                case 3: r = Node::arr(); for (int k = sim::range(0, 3); k > 0; --k) r.a.push_back(Node::dbl(k)); break;
                case 4: r = Node::map(); for (int k = sim::range(0, 2); k > 0; --k) r.add("k" + std::to_string(k), Node::dbl(k)); break;
                case 5: r = Node::dbl(sim::num(-3, 3)); break;
                default: r = Node::integer(sim::range(-5, 300)); break;
            }
            if (r.t == n.t || (n.t == Node::DBL && r.t == Node::INT)) continue;
            return r;
        }
    }
    // A single structural damage that strict reading has to notice.
    std::string damageForSure(Item& it)
    {
        std::vector<Place> ps; places(it.tree, "", ps); std::map<std::string, std::string> kinds = it.o->kinds();
        if (ps.empty()) return "";
        for (int attempt = 0; attempt < 20; ++attempt)
        {
            Place p = sim::pick(ps); std::string kind = kinds.count(p.path) ? kinds[p.path] : "";
            if (it.o->is_problem && sim::chance(1, 2) && (p.path.find(".task_ids") == 0 || p.path.find(".task_class_names") == 0))
            {
                if (p.node->t == Node::ARR) { if (p.node->a.empty() || sim::choose(2)) p.node->a.push_back(p.path.back() == ']' ? Node::str("TaskUnknown") : Node::arr()); else p.node->a.pop_back(); return "entry " + p.path + " has another length"; }
                if (p.node->t == Node::STR) { p.node->s = "Unknown" + p.node->s; return "entry " + p.path + " names something unknown"; }
            }
            switch (sim::choose(5))
            {
                case 0: if (p.parent->t == Node::MAP) { p.parent->m.erase(p.parent->m.begin() + p.index); return "entry " + p.path + " removed"; } break;
                case 1:
                    if (p.node->t == Node::MAP && p.node->m.empty()) break;
                    if (CFG_IS_YAML && p.node->t == Node::ARR && p.path.back() == ']') break;   // nested vectors are left to yaml-cpp, which does not look at the type
                    *p.node = otherType(*p.node); return "entry " + p.path + " has another type";
                case 2:
                    if (kind == "fixed vector") { int n = p.node->a.size(); if (sim::choose(2)) p.node->a.resize(n + sim::range(1, 3), Node::dbl(1)); else p.node->a.resize(sim::choose(n)); return "entry " + p.path + " has another length"; }
                    break;
                case 3:
                    if (kind == "fixed matrix" || kind == "matrix")
                    {
                        Node* rows = p.node->find("rows"); Node* cols = p.node->find("cols"); Node* data = p.node->find("data"); Node before = *p.node;
                        switch (sim::choose(5))
                        {
                            case 0: data->a.resize(sim::choose(data->a.size() + 3), Node::dbl(1)); break;
                            case 1: { static const int64_t w[] = {-1, 0, 1, 2, 3, 4, 7, 1ll << 32, 1ll << 62, INT64_MIN, -2}; (sim::choose(2) ? rows : cols)->i = w[sim::choose(11)]; break; }
                            case 2: rows->i = -rows->i; cols->i = -cols->i; break;
                            case 3: std::swap(rows->i, cols->i); break;
                            default: { static const int64_t w[] = {1ll << 32, 1ll << 33, 1ll << 62, -(1ll << 32), 1ll << 60}; rows->i = w[sim::choose(5)]; cols->i = w[sim::choose(5)]; }
                        }
                        int64_t r = rows->i, c = cols->i; bool consistent = r >= 0 && c >= 0 && (c == 0 || r <= (1ll << 40)) && (r == 0 || c <= (1ll << 40)) && (__int128)r * c == (int64_t)data->a.size();
                        bool same = diff(before, *p.node).empty();
                        if (same || (consistent && kind == "matrix")) { *p.node = before; break; }
                        return "entry " + p.path + " has an inconsistent shape";
                    }
                    break;
                default:
                    if (kind == "int" || kind == "enum") { static const int64_t w[] = {1ll << 31, 1ll << 32, (1ll << 32) + 1, INT64_MAX, -(1ll << 31) - 1, INT64_MIN, 1ll << 40}; *p.node = Node::integer(w[sim::choose(7)]); return "entry " + p.path + " does not fit"; }
                    if (kind == "size_t" && !CFG_IS_YAML) { *p.node = Node::integer(-1 - (int)sim::choose(300)); return "entry " + p.path + " does not fit"; }
            }
        }
        return "";
    }
    void randomDamage(std::string& s)
    {
        for (int k = sim::range(1, 4); k > 0; --k)
        {
            size_t at = s.empty() ? 0 : sim::choose(s.size());
            switch (sim::choose(9))
            {
                case 0: s.resize(at); sim::count("fault:truncation"); break;
                case 1: if (!s.empty()) s[at] ^= (char)(1 << sim::choose(8)); sim::count("fault:bit_flip"); break;
                case 2: if (!s.empty()) s[at] = (char)sim::choose(256); sim::count("fault:byte_overwrite"); break;
                case 3: s.insert(at, 1, (char)sim::choose(256)); sim::count("fault:byte_insert"); break;
                case 4: { size_t n = std::min<size_t>(sim::choose(20) + 1, s.size() - at); s.erase(at, n); sim::count("fault:bytes_lost"); break; }
                case 5: { size_t n = std::min<size_t>(sim::choose(512) + 1, s.size() - at); for (size_t i = 0; i < n; ++i) s[at + i] = 0; sim::count("fault:zeroed_block"); break; }
                case 6: { static const char* h[] = {"\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xdd\x00\x10\x00\x00", "\xdf\x7f\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff", "\xdc\xff\xff", "\x80", "\x90", "\xc0", "\xc1", "\xd4\x01\x02", "\x81\xc0\xc0", "\x81\x05\x80", "\x82"}; static const size_t l[] = {5, 5, 5, 5, 5, 5, 5, 3, 1, 1, 1, 1, 3, 3, 3, 1};
                          uint32_t q = sim::choose(16); std::string t(h[q], l[q]); if (sim::choose(2)) s.insert(at, t); else s.replace(at, std::min(l[q], s.size() - at), t); sim::count("fault:hostile_header"); break; }
                case 7: s.insert(sim::choose(2) ? 0 : s.size(), std::string(1 + sim::choose(4), (char)(sim::choose(3) == 0 ? 0x80 : sim::choose(256)))); sim::count("fault:junk_around"); break;
                default: { size_t from = s.empty() ? 0 : sim::choose(s.size()); std::string t = s.substr(from, sim::choose(60)); s.insert(at, t); sim::count("fault:block_duplicated"); }
            }
        }
    }
    bool readSomehow(IObj& r, const Item& it, bool strict)
    {
        bool ok = true; const std::string* n = it.custom ? &it.name : nullptr;
        try { if (sim::chance(1, 2)) r.readFile(file(), n, strict); else { Reader q(file()); r.read(q, n, strict, sim::chance(1, 3)); } }
        catch (const std::exception& e) { ok = false; sim::event("rejected: %.200s", e.what()); }
        return ok;
    }
    void usable(IObj& r, const Item& it)
    {
        std::string f2 = sim::scratch() + "/e.msg"; Node t; std::vector<Node> d;
        try { t = r.tree(); r.writeFile(f2, nullptr); } catch (const std::exception&) { if (r.is_problem) return; throw; }   // an empty hierarchy cannot be written
        if (!decodeAll(slurp(f2), d) || d.size() != 1 || !diff(t, d[0].m[0].second).empty()) sim::failStr("malformed-object", it.o->cls + ": the object read from a damaged file cannot be written back");
        unlink(f2.c_str());
    }
    void c07()
    {
#if !__has_feature(address_sanitizer)
        struct rlimit rl = {384u << 20, 384u << 20}; setrlimit(RLIMIT_AS, &rl);   // hostile sizes meet a bounded memory
#endif
        faults::diskReset(); auto v = makeItems(1, 2); size_t i = sim::choose(v.size()); Item& it = v[i];
        P r = it.o->fresh(); bool strict = !sim::chance(1, 3); sim::nontrivial();
        uint32_t how = sim::choose(8); if (CFG_IS_YAML && how == 5) how = 0;   // text which was cut can be a valid text
        switch (how)
        {
            case 0: case 1: case 2:     // one entry is wrong
            {
                Node before = it.tree; std::string what = damageForSure(it); if (what.empty()) return;
                sim::event("%s", what.c_str()); sim::sample("%s: %s", it.o->cls.c_str(), what.c_str());
                sim::count(what.find("removed") != std::string::npos ? "fault:entry_removed" : what.find("type") != std::string::npos ? "fault:entry_of_another_type" : what.find("length") != std::string::npos ? "fault:entry_of_another_length" : what.find("shape") != std::string::npos ? "fault:entry_of_another_shape" : "fault:entry_out_of_range"); spew(file(), encodeItems(v, true));
                bool ok = readSomehow(*r, it, strict);
                if (ok && strict) sim::failStr("damage-not-reported", it.o->cls + ": " + what + ", but strict reading succeeded");
                if (ok) usable(*r, it);
                break;
            }
            case 3: case 4:             // anything
            {
                if (CFG_IS_YAML || sim::chance(1, 3))
                {
                    std::vector<Place> ps; places(it.tree, "", ps);
                    for (int k = sim::range(1, 3); k > 0 && !ps.empty(); --k)
                    {
                        Place p = sim::pick(ps); static const int64_t w[] = {0, 0, 1, CFG_IS_YAML ? 2 : -1, 7, INT64_MAX, 1ll << 31};
                        if (p.node->t == Node::INT) { p.node->i = w[sim::choose(7)]; p.node->big = false; } else if (p.node->t == Node::DBL) p.node->d = anyDouble(); else if (p.node->t == Node::STR) p.node->s = anyString();
                    }
                    sim::count("fault:values_changed");
                }
                std::string s = encodeItems(v, sim::choose(2)); if (!CFG_IS_YAML && sim::chance(4, 5)) randomDamage(s);
                spew(file(), s);
                bool ok = readSomehow(*r, it, strict);
                if (ok)
                {
                    usable(*r, it);
                    // what was read is what the file says
                    size_t p = 0; bool judged = true; const Node* found = nullptr; std::vector<Node> d; d.reserve(10000);
#ifdef CFG_YAML
                    judged = decodeAll(s, d); for (auto& n : d) if (!found && n.m[0].first.s == it.name && n.m[0].second.t == Node::MAP) found = &n.m[0].second;
#else
                    while (p < s.size() && d.size() < 9000) { Decoder q(s, p); Node n = q.get(); if (!q.ok) { judged = false; break; } d.push_back(n); p = q.p; if (!found && n.t == Node::MAP && n.m.size() && n.m[0].first.t == Node::STR && n.m[0].first.s == it.name && n.m[0].second.t == Node::MAP) found = &d.back().m[0].second; }
#endif
                    if (strict && judged)
                    {
                        std::string e = found ? agrees(r->tree(), *found) : std::string(" (no such node)");
                        if (!e.empty()) sim::failStr("garbage-read", it.o->cls + ": strict reading of a damaged file succeeded, but entry " + e + " is not what the file says");
                    }
                }
                break;
            }
            case 5:                     // torn file
            {
                std::string s = encodeItems(v, false); Node rt = Node::map(); size_t start = 0; for (size_t k = 0; k < i; ++k) { Node q = Node::map(); q.add(v[k].name, v[k].tree); start += encode(q).size(); }
                Node q = Node::map(); q.add(it.name, it.tree); size_t end = start + encode(q).size();
                size_t cut = sim::choose(end); spew(file(), s.substr(0, cut)); sim::count("fault:truncation");
                if (readSomehow(*r, it, true)) sim::failStr("torn-file-accepted", it.o->cls + ": a file cut after " + std::to_string(cut) + " of " + std::to_string(end) + " bytes was read without an error");
                break;
            }
            case 6:                     // missing, unreadable
            {
                spew(file(), encodeItems(v, false));
                switch (sim::choose(5))
                {
                    case 0: unlink(file().c_str()); sim::count("fault:missing_file"); break;
                    case 1: unlink(file().c_str()); mkdir(file().c_str(), 0700); sim::count("fault:directory_instead_of_file"); break;
                    case 2: spew(file(), ""); sim::count("fault:empty_file"); break;
                    case 3: faults::disk().open_fails = true; faults::disk().open_errno = sim::chance(1, 2) ? EACCES : ENFILE; sim::count("fault:open_failure"); break;
                    default: it.name += "?"; it.custom = true; sim::count("fault:missing_node");
                }
                bool ok = readSomehow(*r, it, true);
                faults::diskReset(); rmdir(file().c_str());
                if (ok) sim::failStr("missing-not-reported", it.o->cls + ": strict reading succeeded although there was nothing to read");
                break;
            }
            default:                    // read error
            {
                std::string s = encodeItems(v, false); spew(file(), s); size_t at = sim::choose(s.size()); faults::disk().read_fail_at = at;
                if (sim::chance(1, 2)) faults::disk().max_read = sim::range(1, 300);
                sim::count("fault:read_error"); bool ok = readSomehow(*r, it, strict); bool hit = faults::diskStats().failed_reads; faults::diskReset();
                if (ok && hit) sim::failStr("read-error-not-reported", it.o->cls + ": reading succeeded although the disk failed at byte " + std::to_string(at) + " of " + std::to_string(s.size()));
            }
        }
        // the damage has no effect on later reads
        auto w = makeItems(1, 1); faults::diskReset(); spew(file(), encodeItems(w, false)); P q = w[0].o->fresh(); q->readFile(file(), &w[0].name, true); checkRestored(*q, w[0], "after damaged files");
        sim::step();
    }
#ifndef CFG_YAML
    sim::Scenario s07("C07", "damaged, torn, hostile, missing and unreadable files", c07);
#endif

    // ------------------------------------------------------------------ C08
    void removeSome(Node& n, bool& nested, std::vector<std::string>& removed, const std::string& path = "")
    {
        for (size_t k = 0; k < n.m.size();)
        {
            std::string here = path + "." + n.m[k].first.s; Node& c = n.m[k].second;
            bool matrix = c.t == Node::MAP && c.find("data") && c.find("rows");
            if (sim::chance(1, 4)) { removed.push_back(here); if (!path.empty()) nested = true; n.m.erase(n.m.begin() + k); continue; }
            if (c.t == Node::MAP && !matrix) removeSome(c, nested, removed, here);
            ++k;
        }
    }
    // files are looked for by their names, then where the library is installed (HUMOTO_DEFAULT_CONFIG_PREFIX, see run.py)
    void inScratch()
    {
        int d = open(sim::scratch().c_str(), O_RDONLY | O_DIRECTORY); if (d < 0 || dup2(d, 777) != 777 || fchdir(777)) sim::harnessError("no scratch directory"); close(d);
    }
    void c08()
    {
        faults::diskReset(); inScratch();
        P used = makeObj(sim::choose(KINDS)); sim::event("class %s", used->cls.c_str());
        std::unique_ptr<Reader> rd; int loads = sim::range(2, 6); bool problem = used->is_problem;
        if (sim::chance(1, 2) || problem) used->randomize();
        // several files, one object each and an unrelated one; some are incomplete, some damaged
        struct F { Item it; std::vector<std::string> removed; bool nested = false, damaged = false; Item other; std::unique_ptr<Reader> rd; std::string path; };
        std::vector<F> files(sim::range(1, 3));
        for (size_t k = 0; k < files.size(); ++k)
        {
            F& f = files[k]; int place = sim::choose(4); f.path = (place ? "" : sim::scratch() + "/") + "f" + std::to_string(k); f.it.o = used->fresh(); f.it.o->randomize(); f.it.tree = f.it.o->tree(); f.it.name = used->section; f.it.custom = false;
            f.other.o = makeObj(sim::choose(13)); f.other.o->randomize(); f.other.tree = f.other.o->tree(); f.other.name = "other node"; f.other.custom = true;
            if (!problem && sim::chance(2, 3)) removeSome(f.it.tree, f.nested, f.removed);
            if (sim::chance(1, 4)) { Item tmp; tmp.o = f.it.o->fresh(); tmp.tree = f.it.tree; tmp.name = f.it.name; std::vector<std::string> before = f.removed; std::string what = damageForSure(tmp); if (what.size() && what.find("removed") == std::string::npos) { f.it.tree = tmp.tree; f.damaged = true; sim::event("file %d: %s", (int)k, what.c_str()); } }
            Node a = Node::map(); a.add(f.it.name, f.it.tree); Node b = Node::map(); b.add(f.other.name, f.other.tree);
            spew(place == 3 ? "installed_" + f.path : f.path, sim::choose(2) ? encode(a, true) + encode(b) : encode(b) + encode(a, true));
            if (place == 3) { sim::count("file installed with the library"); sim::event("file %d: installed", (int)k); } else if (place && sim::chance(1, 2)) { Node c = Node::map(); P o = used->fresh(); o->randomize(); c.add(f.it.name, o->tree()); spew("installed_" + f.path, encode(c, true)); sim::count("another file of the same name installed"); }
            f.rd.reset(new Reader(f.path));
            for (auto& p : f.removed) sim::event("file %d: entry %s missing", (int)k, p.c_str());
        }
        sim::sample("%s, %d loads from %d files, first file misses %d entries", used->cls.c_str(), loads, (int)files.size(), (int)files[0].removed.size());
        for (int l = 0; l < loads; ++l)
        {
            F& f = files[sim::choose(files.size())]; bool strict = sim::chance(1, 2), by_file = sim::chance(1, 3), missing_node = sim::chance(1, 6); std::string node = missing_node ? "no such node" : f.it.name;
            sim::event("load %d: file %d, %s%s%s", l, (int)(&f - &files[0]), strict ? "strict" : "relaxed", by_file ? ", by name" : "", missing_node ? ", missing node" : "");
            auto load = [&](IObj& o, Reader* r) { try { if (r) o.read(*r, &node, strict, false); else o.readFile(f.path, &node, strict); return true; } catch (const std::exception& e) { sim::event("  failed: %.120s", e.what()); return false; } };
            P clean = used->fresh(); P reference = used->fresh(); Node defaults = problem ? Node::map() : reference->tree();
            std::unique_ptr<Reader> own(new Reader(f.path));
            bool ok_used = load(*used, by_file ? nullptr : f.rd.get()), ok_clean = load(*clean, own.get());
            if (ok_used != ok_clean) sim::failStr("result-depends-on-history", used->cls + ": the same load " + (ok_used ? "succeeds" : "fails") + " for a used object or reader and " + (ok_clean ? "succeeds" : "fails") + " for a new one");
            bool must_fail = (strict && (missing_node || !f.removed.empty() || f.damaged));
            if (must_fail && ok_clean) sim::failStr("missing-not-reported", used->cls + ": strict reading of an incomplete file succeeded");
            if (!must_fail && !f.damaged && f.removed.empty() && !ok_clean && !(problem && missing_node)) sim::failStr("complete-file-rejected", used->cls + ": reading failed");
            sim::step();
            if (!ok_used) { sim::count("fault:failed_load"); continue; }
            if (problem && missing_node) continue;
            bool defaults_known = used->has_defaults || (f.removed.empty() && !missing_node);
            Node tu = used->tree(), tc = clean->tree();
            if (defaults_known) { std::string s = diff(tc, tu); if (!s.empty()) sim::failStr("result-depends-on-history", used->cls + ": entry " + s + " differs between loading into a new and a used object"); }
            if (!f.damaged)
            {
                // entries present in the file
                if (!missing_node) { std::string s = agrees(f.it.tree, tu); if (!s.empty()) sim::failStr("entry-not-taken", used->cls + ": entry " + s + " does not have the file's value"); }
                // entries missing from it: defaults (checked against a new object at the top level, where the class itself defines them)
                if (defaults_known && !problem)
                {
                    for (auto& e : defaults.m) { if (!missing_node && f.it.tree.find(e.first.s)) continue; if (e.second.t == Node::MAP && !e.second.find("data")) continue; const Node* got = tu.find(e.first.s); std::string s = got ? diff(e.second, *got) : "missing"; if (!s.empty()) sim::failStr("not-the-default", used->cls + ": entry " + e.first.s + " is missing from the file and does not have its default value: " + s); }
                    std::string s = tame(tu) ? diffVals(used->derived(), clean->derived()) : ""; if (!s.empty()) sim::failStr("result-depends-on-history", used->cls + ": " + s);
                }
                if (defaults_known && !problem && tame(tu)) { std::string s = diffVals(used->derived(), used->expect(tu)); if (!s.empty()) sim::failStr("derived-not-updated", used->cls + ": " + s); }
                if (problem) { std::string s = diffVals(used->derived(), f.it.o->derived()); if (!s.empty()) sim::failStr("result-depends-on-history", used->cls + ": " + s); }
            }
            // the reader can still be used for another object
            if (sim::chance(1, 2)) { P o = f.other.o->fresh(); o->read(*f.rd, &f.other.name, true, false); checkRestored(*o, f.other, "with a reader used before"); }
            sim::nontrivial();
        }
        for (auto& f : files) { P o = f.other.o->fresh(); try { o->read(*f.rd, &f.other.name, true, false); } catch (const std::exception& e) { sim::failStr("reader-disturbed", std::string("a complete node cannot be read after earlier loads: ") + e.what()); } checkRestored(*o, f.other, "with a reader used before"); }
    }
#ifdef CFG_YAML
    void c23()
    {
        switch (sim::choose(5))
        {
            case 0: case 1: c05(); break;
            case 2: c06(); break;
            case 3: c07(); break;
            default: c08();
        }
    }
    sim::Scenario s23("C23", "configurable objects of every class in YAML: restarts, failing disks, damaged files, sequences of loads", c23);
#else
    sim::Scenario s08("C08", "sequences of complete, partial, missing and failing loads into one object", c08);
#endif
}
