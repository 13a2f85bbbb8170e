// C07: the trie store is a keyed map; its traversals visit each prefix once; failures leave it as it was.
#include "sut.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/graph_util.hpp"
using namespace sim;
using namespace sim_ds;

namespace {
struct Item { u64 v = 0; std::string s; bool operator==(const Item& o) const { return v == o.v && s == o.s; } };
using TI = graph_util::Trie<u64>; using TS = graph_util::Trie<Item, uint32_t>;
struct Obj { std::unique_ptr<TI> a; std::unique_ptr<TS> b; std::map<std::string, u64> m; bool lost = false; bool on() const { return a || b; } };
Obj obj[2];
Item item(u64 v) { Item i; i.v = v; i.s = std::string(v % 40, (char)('a' + v % 7)); return i; }
std::string key_of(const Plan& p, i64 k) {
    Rng r((u64)p.get("keyseed") * 77777 + (u64)k);
    i64 alpha = p.get("alpha"); u64 mx = (u64)std::max<i64>(1, p.get("len"));
    std::string base = text_of(mx + 1, alpha, p.get("shape"), (u64)p.get("keyseed"));
    std::string s = base.substr(0, r.below(mx + 1)); if (r.chance(2, 3)) { u64 n = r.below(4 + (u64)p.get("tail")); for (u64 i = 0; i < n; i++) s += (char)letter(r, alpha); }
    for (auto& c : s) if (!c) c = 1;
    if (p.get("nul")) { for (auto& c : s) if (r.chance(1, 4)) c = 0; if (r.chance(1, 6)) s += '\0'; }
    return s;
}
// the nodes of the trie: distinct prefixes of the keys, each key followed by its leaf label '\0'
struct Want { u64 nodes = 0, keys = 0; std::map<size_t, u64> per_depth; std::vector<std::pair<std::string, bool>> dfs; };
Want want_of(const Obj& o) {
    Want w; std::set<std::string> pre; pre.insert("");
    for (auto& kv : o.m) { std::string k = kv.first + '\0'; for (size_t i = 1; i <= k.size(); i++) pre.insert(k.substr(0, i)); }
    // byte order of the prefixes is depth-first order: '\0' comes directly after its prefix, then longer prefixes
    for (auto& s : pre) { bool key = !s.empty() && s.back() == 0 && o.m.count(s.substr(0, s.size() - 1)); w.dfs.push_back({s, key}); w.per_depth[s.size()]++; w.keys += key; }
    w.nodes = w.dfs.size(); return w;
}
// which prefix each node stands for, by following the labels from the root
template <class T> std::map<const void*, std::string> names_of(const T& t) {
    std::map<const void*, std::string> names;
    must("edge walk", [&] {
        std::vector<std::pair<const typename T::node_type*, std::string>> st{{&t.root(), ""}};
        while (!st.empty()) { auto [nd, s] = st.back(); st.pop_back(); if (!names.emplace(nd, s).second || names.size() > 3000000) break; nd->for_each_edge([&](uint8_t c, auto target) { st.push_back({&t.node(target), s + (char)c}); }); }
    });
    return names;
}
// what a visitor may do with the trie it is shown, or with another one: walk it, give up half way, look keys up
struct Nest { i64 at = -1; int what = 0; u64 nodes = 0, seen = 0; bool ran = false; };
template <class T> void nested(const T& in, Nest& ne) {
    auto count = [&](const auto&, size_t) { if (++ne.seen > ne.nodes + 5) return; if ((ne.what & 4) && ne.seen == ne.nodes / 2 + 1) throw UserThrow{}; };
    try { if (ne.what & 1) in.bfs(count); else in.dfs(count); } catch (const UserThrow&) {}
    ne.ran = true;
}
template <class T> void walks(const Obj& o, const T& t, i64 throw_at, bool bfs, const char* when, Nest ne = Nest{}, const T* other = nullptr, u64 other_nodes = 0) {
    Want w = want_of(o); std::vector<std::pair<size_t, bool>> seen; i64 k = 0; auto names = names_of(t); std::vector<const std::string*> path; bool named = true;
    const T& inner = other && (ne.what & 2) ? *other : t; ne.nodes = &inner == &t ? w.nodes : other_nodes; if (w.nodes) ne.at %= (i64)w.nodes;
    auto visit = [&](const auto& n, size_t depth) { if (k == ne.at) nested(inner, ne); Unscope u; seen.push_back({depth, n.terminal()}); auto it = names.find(&n); if (it == names.end()) named = false; else path.push_back(&it->second); if (k++ == throw_at) { count_fault("visitor_throw"); throw UserThrow{}; } };
    Out out = sut([&] { if (bfs) t.bfs(visit); else t.dfs(visit); });
    if (throw_at >= 0 && (u64)throw_at < w.nodes) { CHECK(out == Out::user_throw, "swallowed", std::string(when) + ": the visitor's exception did not reach the caller"); }
    else CHECK(out == Out::ok, "unexpected-exception", "walk threw " + last_out().what);
    if (ne.ran) { probe("walk_within_a_walk"); EQ("nodes visited by a walk begun in a visitor", ne.seen, ne.what & 4 ? std::min<u64>(ne.nodes, ne.nodes / 2 + 1) : ne.nodes, when); }
    u64 expect = throw_at >= 0 ? std::min<u64>(w.nodes, (u64)throw_at + 1) : w.nodes;
    EQ(bfs ? "nodes visited breadth first" : "nodes visited depth first", seen.size(), expect, when);
    if (named) { // each node is the prefix it should be: every prefix once, a node before and next to its siblings' order
        std::set<std::string> once; for (auto* q : path) if (!once.insert(*q).second) fail("wrong-answer", std::string(when) + ": prefix " + hex(*q) + " visited twice");
        for (size_t i = 0; i < path.size(); i++) {
            const std::string& q = *path[i]; bool key = !q.empty() && q.back() == 0 && o.m.count(q.substr(0, q.size() - 1));
            if (seen[i].first == q.size() && seen[i].second == key) continue;
            EQ("depth of a visited prefix", seen[i].first, q.size(), std::string(when) + " prefix " + hex(q)); EQ("visited as a complete key", seen[i].second, key, std::string(when) + " prefix " + hex(q));
        }
        if (!bfs) for (size_t i = 0; i < path.size(); i++) { // the parent is the previous visit or one of its ancestors
            const std::string& q = *path[i]; bool ok = i ? !q.empty() && path[i - 1]->compare(0, q.size() - 1, q, 0, q.size() - 1) == 0 && path[i - 1]->size() >= q.size() - 1 : q.empty();
            if (!ok) fail("wrong-answer", std::string(when) + ": depth-first visit " + S(i) + " is prefix " + hex(q) + " after " + (i ? hex(*path[i - 1]) : "nothing"));
        }
        else if (expect == w.nodes) {
            std::map<std::string, size_t> at; for (size_t i = 0; i < path.size(); i++) at[*path[i]] = i;
            size_t prev = 0; // index of the parent of the previous visit: parents come in the order they were visited, so children are contiguous
            for (size_t i = 1; i < path.size(); i++) { size_t par = at[path[i]->substr(0, path[i]->size() - 1)]; if (par >= i || par < prev) fail("wrong-answer", std::string(when) + ": breadth-first visit " + S(i) + " (" + hex(*path[i]) + ") separates the children of a parent"); prev = par; }
        }
    }
    {
        std::map<size_t, u64> pd; u64 keys = 0;
        for (size_t i = 0; i < seen.size(); i++) { if (bfs && i && seen[i].first < seen[i - 1].first) fail("wrong-answer", std::string(when) + ": breadth-first walk went back from level " + S(seen[i - 1].first) + " to " + S(seen[i].first)); pd[seen[i].first]++; keys += seen[i].second; }
        if (expect == w.nodes) { CHECK(pd == w.per_depth, "wrong-answer", std::string(when) + ": walk saw another number of prefixes per level"); EQ("complete keys seen", keys, w.keys, when); }
    }
}
template <class T> void walk_edges(const Obj& o, const T& t, const char* when) {
    // follow the labels from the root: the strings spelled to complete nodes are exactly the keys
    std::vector<std::string> got; u64 n = 0;
    must("edge walk", [&] {
        std::vector<std::pair<const typename T::node_type*, std::string>> st{{&t.root(), ""}};
        while (!st.empty()) {
            auto [nd, s] = st.back(); st.pop_back(); n++; if (n > 3000000) break;
            if (nd->terminal()) got.push_back(s);
            nd->for_each_edge([&](uint8_t c, auto target) { st.push_back({&t.node(target), s + (char)c}); });
        }
    });
    std::vector<std::string> want; for (auto& kv : o.m) want.push_back(kv.first + '\0');
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    CHECK(got == want, "wrong-answer", std::string(when) + ": labels to complete nodes spell " + S(got.size()) + " keys, inserted " + S(want.size()));
    EQ("size", value("size", [&] { return (u64)t.size(); }), want_of(o).nodes, when);
}
bool find(Obj& o, const std::string& k, u64& v) {
    bool hit = false;
    must("traverse", [&] { if (o.a) { auto* p = o.a->traverse(k); hit = p; if (p) v = *p; } else { auto* p = o.b->traverse(k); hit = p; if (p) { v = p->v; if (!(*p == item(p->v))) v = ~0ull; } } });
    return hit;
}
void check_key(Obj& o, const std::string& k, const char* when) {
    u64 v = 0; bool hit = find(o, k, v); auto it = o.m.find(k);
    if (hit != (it != o.m.end())) fail("wrong-answer", std::string(when) + ": key " + hex(k) + (hit ? " found but never inserted" : " is lost"));
    if (hit && v != it->second) EQ("item", v, it->second, std::string(when) + " key=" + hex(k));
}
void check_all(Obj& o, const Plan& p, const char* when) {
    if (!o.on() || o.lost) return;
    for (auto& kv : o.m) { check_key(o, kv.first, when); check_key(o, kv.first + "a", when); if (!kv.first.empty()) check_key(o, kv.first.substr(0, kv.first.size() - 1), when); }
    for (i64 k = 0; k < std::min<i64>(p.get("nkeys"), 12000); k++) check_key(o, key_of(p, k), when);
    if (o.a) walk_edges(o, *o.a, when); else walk_edges(o, *o.b, when);
}
void run(Run& r) {
    const Plan& p = r.plan; i64 nk = std::max<i64>(1, p.get("nkeys", 10)); if (p.get("large") || p.get("many")) large_run();
    r.drive([&](const Op& op) {
        Obj& o = obj[op.arg(0) & 1]; Obj& d = obj[1 - (op.arg(0) & 1)];
        if (op.name == "new") {
            o.a.reset(); o.b.reset(); o.m.clear(); o.lost = false; r.arm(op);
            Out out = sut([&] { if (op.arg(1) & 1) o.a.reset(new TI()); else o.b.reset(new TS()); }); bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "construction threw"); return;
        }
        if (!o.on() || o.lost) return;
        std::string k = key_of(p, op.arg(1) % nk);
        if (op.name == "insert") {
            u64 v = (u64)op.arg(2); Item it = item(v); u64 stored = 0; bool gave = false;
            std::string buf = "##" + k + "##"; std::string_view view(buf.data() + 2, k.size());   // a key inside a larger buffer
            if (op.arg(3) && o.b && !o.m.empty()) { // the key is a view of the string of a stored item
                auto at = std::next(o.m.begin(), (long)((u64)op.arg(3) % o.m.size())); const std::string& in = item(at->second).s;
                must("traverse", [&] { auto* q = o.b->traverse(at->first); if (q) view = q->s; }); k = in; CHECK(view == k, "wrong-answer", "the item of " + hex(at->first) + " is another"); probe("key_is_a_stored_item");
            }
            r.arm(op);
            Out out = sut([&] { if (o.a) { auto* q = o.a->insert(view, v); gave = q; if (q) stored = *q; } else { auto* q = o.b->insert(view, it); gave = q; if (q) stored = (*q == it) ? v : ~0ull; } });
            bool f = alloc_fired(); disarm_alloc();
            if (out == Out::ok) { if (o.m.count(k)) probe("key_inserted_again"); o.m[k] = v; CHECK(gave && stored == v, "wrong-answer", "insert of " + hex(k) + " returned something else than the item"); check_key(o, k, "after insert"); }
            else { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "insert threw " + last_out().what); probe("insert_failed"); if (o.m.count(k) && o.b) { u64 g = 0; if (find(o, k, g) && g != o.m[k]) fail("wrong-answer", "a failed insert changed the item of " + hex(k)); } check_all(o, p, "after a failed insert"); }
        } else if (op.name == "bulk") { // many keys in a row
            u64 first = (u64)op.arg(1), n = (u64)op.arg(2), done = 0; std::vector<std::string> ks; for (u64 i = 0; i < n; i++) ks.push_back(key_of(p, (i64)((first + i) % (u64)nk)));
            r.arm(op); Out out = sut([&] { for (; done < n; done++) { u64 v = first + done; if (o.a) o.a->insert(ks[done], v); else { Item it = item(v); o.b->insert(ks[done], it); } } });
            bool f = alloc_fired(); disarm_alloc(); CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "insert threw " + last_out().what);
            for (u64 i = 0; i < done; i++) o.m[ks[i]] = first + i;
            if (out != Out::ok) probe("insert_failed"); if (value("size", [&] { return o.a ? (u64)o.a->size() : (u64)o.b->size(); }) > 65536) probe("large_trie"); check_all(o, p, "after many insertions");
        } else if (op.name == "again") { // keys inserted again and again
            Rng q((u64)op.arg(2)); u64 w = 1 + q.below(std::min<u64>((u64)nk, 12));
            for (u64 c = (u64)op.arg(1); c > 0; c--) { std::string k2 = key_of(p, (i64)q.below(w)); u64 v = q.below(100000); Item it = item(v); must("insert", [&] { if (o.a) o.a->insert(k2, v); else o.b->insert(k2, it); }); o.m[k2] = v; }
            check_all(o, p, "after the same keys many times"); probe("hundreds_of_insertions_of_a_key");
        } else if (op.name == "find") check_key(o, k, "lookup");
        else if (op.name == "walk") {
            i64 at = op.arg(2) < 0 ? -1 : op.arg(2) % 60; const Fault* f = r.fault(op.id, "visitor_throw"); at = f ? f->n : -1;
            Nest ne; u64 dn = 0; if (op.arg(2) > 0) { ne.at = (i64)Rng((u64)op.arg(2)).below(200); ne.what = (int)op.arg(2) & 7; if (d.on() && !d.lost) dn = want_of(d).nodes; }
            if (o.a) walks(o, *o.a, at, op.arg(1) & 1, "walk", ne, dn ? d.a.get() : nullptr, dn); else walks(o, *o.b, at, op.arg(1) & 1, "walk", ne, dn ? d.b.get() : nullptr, dn);
            if (at >= 0) check_all(o, p, "after an interrupted walk");
        } else if (op.name == "bfs_nomem") {
            // a breadth-first walk that runs out of memory reports it and leaves the trie as it was
            u64 n = 0; auto visit = [&](const auto&, size_t) { n++; };
            r.arm(op); Out out = sut([&] { if (o.a) o.a->bfs(visit); else o.b->bfs(visit); }); bool f = alloc_fired(); disarm_alloc();
            CHECK(out == Out::ok || (f && out == Out::bad_alloc), "unexpected-exception", "walk threw");
            if (out != Out::ok) check_all(o, p, "after a walk without memory"); else EQ("nodes visited breadth first", n, want_of(o).nodes);
        } else if (op.name == "copy") {
            int how = (int)(op.arg(2) % 4); if ((bool)o.a != (bool)d.a || !d.on()) how &= 2;
            std::unique_ptr<TI> a; std::unique_ptr<TS> b; r.arm(op);
            Out out = sut([&] {
                if (o.a) { if (how == 0) a.reset(new TI(*o.a)); else if (how == 1) *d.a = *o.a; else if (how == 2) a.reset(new TI(std::move(*o.a))); else *d.a = std::move(*o.a); }
                else { if (how == 0) b.reset(new TS(*o.b)); else if (how == 1) *d.b = *o.b; else if (how == 2) b.reset(new TS(std::move(*o.b))); else *d.b = std::move(*o.b); }
            });
            bool f = alloc_fired(); disarm_alloc();
            if (out != Out::ok) { CHECK(f && out == Out::bad_alloc, "unexpected-exception", "copy threw"); if (how & 1) d.lost = true; if (how >= 2) o.lost = true; else check_all(o, p, "source of a failed copy"); return; }
            if (!(how & 1)) { d.a = std::move(a); d.b = std::move(b); }
            d.m = o.m; d.lost = false; if (how >= 2) { o.a.reset(); o.b.reset(); o.m.clear(); }
            check_all(d, p, "after copy or move");
        } else if (op.name == "all") { check_all(o, p, "full comparison"); check_all(d, p, "other trie"); }
    });
    for (auto& o : obj) { check_all(o, p, "at the end"); if (o.on() && !o.lost) { if (o.a) { walks(o, *o.a, -1, true, "at the end"); walks(o, *o.a, -1, false, "at the end"); } else { walks(o, *o.b, -1, true, "at the end"); walks(o, *o.b, -1, false, "at the end"); } } }
    u64 before = heap().live_blocks; (void)before;
    for (auto& o : obj) { o.a.reset(); o.b.reset(); }
}
void gen(Rng& r, Plan& p, int tier) {
    p.cfg["keyseed"] = (i64)r.below(1000000); p.cfg["alpha"] = r.range(0, 6); p.cfg["nul"] = r.chance(1, 6); p.cfg["shape"] = r.range(0, 5); p.cfg["len"] = r.one_of<i64>({1, 2, 4, 8, 20}); i64 nk = r.one_of<i64>({1, 3, 10, 25, 60}); p.cfg["nkeys"] = nk;
    if (r.chance(1, 250)) { // tens of thousands of nodes
        p.cfg["large"] = 1; p.cfg["nul"] = 0; p.cfg["alpha"] = r.range(2, 6); p.cfg["tail"] = 8; nk = p.cfg["nkeys"] = 5000 + (i64)r.below(7000); if (r.chance(1, 6)) { p.cfg["alpha"] = 5; p.cfg["len"] = 2; p.cfg["tail"] = 1; nk = p.cfg["nkeys"] = 90000 + (i64)r.below(20000); } p.add(-1, "new", {0, r.range(0, 1)});
        i64 first = 0; while (first < nk) { i64 k = 1 + (i64)r.below(nk > 20000 ? 60000 : 9000); p.add(-1, "bulk", {0, first, k}); if (r.chance(1, 3)) p.fault(p.ops.back().id, "alloc", r.range(1, 4000), 0); first += k; }
        for (int i = 0; i < 12; i++) p.add(-1, i % 3 ? "find" : "insert", {0, (i64)r.below((u64)nk), (i64)r.below(100000)});
        if (r.chance(1, 2)) p.add(-1, "copy", {0, 0, r.range(0, 3)});
        p.random_sched(r, false); return;
    }
    if (r.chance(1, 80)) { if (r.chance(1, 20)) p.cfg["many"] = 1; p.add(-1, "new", {0, r.range(0, 1)}); p.add(-1, "again", {0, p.get("many") ? 66000 + (i64)r.below(9000) : 250 + (i64)r.below(3000), (i64)r.below(1u << 30)}); p.add(-1, "walk", {0, r.range(0, 1), 0}); p.random_sched(r, false); return; }
    if (r.chance(1, 40)) { // keys of hundreds of bytes
        p.cfg["len"] = r.one_of<i64>({260, 300, 520, 700}); nk = p.cfg["nkeys"] = 1 + (i64)r.below(8);
    }
    p.add(-1, "new", {0, r.range(0, 1)}); u64 n = 2 + r.below(tier ? 150 : 70); bool two = r.chance(1, 5);
    for (u64 i = 0; i < n; i++) {
        int s = two ? (int)r.below(2) : 0; u64 x = r.below(20);
        if (x < 11) p.add(-1, "insert", {s, (i64)r.below((u64)nk), (i64)r.below(100000), r.chance(1, 8) ? r.range(1, 1000) : 0});
        else if (x < 14) p.add(-1, "find", {s, (i64)r.below((u64)nk)});
        else if (x < 17) { auto& o = p.add(-1, "walk", {s, r.range(0, 1), r.chance(1, 4) ? r.range(1, 100000) : 0}); if (r.chance(1, 2)) p.fault(o.id, "visitor_throw", (i64)r.size(r.chance(1, 2) ? 8 : 120)); }
        else if (x < 18) { auto& o = p.add(-1, "bfs_nomem", {s}); p.fault(o.id, "alloc", r.range(1, 4), r.chance(1, 2)); }
        else if (x < 19) { p.add(-1, "copy", {s, 0, r.range(0, 3)}); two = true; }
        else p.add(-1, "all", {s});
    }
    if (r.chance(4, 5)) for (u64 k = 1 + r.below(6); k > 0; k--) p.fault(r.pick(p.ops).id, r.chance(2, 3) ? "allocw" : "alloc", r.range(1, r.chance(1, 3) ? 25 : 5), r.chance(1, 3));
    if (r.chance(1, 4)) { u64 a = r.below(p.ops.size()); for (u64 i = a; i < p.ops.size() && i < a + 30; i++) if (p.ops[i].name == "insert") p.fault(p.ops[i].id, "alloc", r.range(1, 12), 0); }
    p.random_sched(r, false);
}
} // namespace
const Property sim::kProperty = {"C07", gen, run};
