// Worlds of multipolygon relations with known areas: what is generated and what is to come out.
#ifndef VERIF_MPWORLD_HPP
#define VERIF_MPWORLD_HPP
#include "area_all.hpp"
#include <set>
using namespace areas;

// ---- what is generated
struct GR { Ring pts; std::vector<int64_t> ids; int parent; int pair = -1; bool touch = false; };  // open rings, child after parent
struct W { Obj o; std::vector<P> pos; int ring; };
struct Rel { Obj o; std::vector<int> rings; std::set<int64_t> ways; bool mp; };
struct World { std::vector<GR> rings; std::vector<W> ways; std::vector<Rel> rels; int64_t next_id = 1; bool shared_touch = false; std::vector<std::pair<P, P>> gaps; std::vector<int> nways; };

struct Maker {
    Ctx& c; World& w; int32_t bx, by, scale; bool touching; int forced = 1;
    P at(int cx, int cy, int jx = 0, int jy = 0) { return P{bx + (cx * 10 + jx) * scale, by + (cy * 10 + jy) * scale}; }
    int rect(int x0, int y0, int x1, int y1, int parent, int straight = -1) { // straight: side without points in between (0 bottom, 1 right, 2 top, 3 left)
        GR g; g.parent = parent; auto j = [&]() { return (int)c.upto(8) - 4; }; bool busy = c.chance(50); auto keep = [&](int side) { return busy && side != straight && c.chance(35); };
        g.pts.push_back(at(x0, y0)); for (int x = x0 + 1; x < x1; ++x) if (keep(0)) g.pts.push_back(at(x, y0, 0, j())); g.pts.push_back(at(x1, y0)); for (int y = y0 + 1; y < y1; ++y) if (keep(1)) g.pts.push_back(at(x1, y, j(), 0));
        g.pts.push_back(at(x1, y1)); for (int x = x1 - 1; x > x0; --x) if (keep(2)) g.pts.push_back(at(x, y1, 0, j())); g.pts.push_back(at(x0, y1)); for (int y = y1 - 1; y > y0; --y) if (keep(3)) g.pts.push_back(at(x0, y, j(), 0));
        for (size_t i = 0; i < g.pts.size(); ++i) g.ids.push_back(w.next_id++); w.rings.push_back(g); return (int)w.rings.size() - 1;
    }
    void inside(int x0, int y0, int x1, int y1, int parent, int depth) {
        // a hole that touches its ring in one point
        if (touching && c.chance(15)) { GR& r = w.rings[parent]; for (size_t i = 1; i < r.pts.size(); ++i) { P p = r.pts[i]; if (p.y <= at(0, y0).y && p.y > at(0, y0, 0, -10).y && p.x > at(x0, 0).x && p.x < at(x1, 0).x) { GR t; t.parent = parent; t.touch = true; bool same = c.chance(50); t.pts = {p, P{p.x + scale, p.y + 5 * scale}, P{p.x - scale, p.y + 5 * scale}}; t.ids = {same ? r.ids[i] : w.next_id++, w.next_id++, w.next_id++}; w.shared_touch |= same; c.label("hole touching its outer ring"); w.rings.push_back(t); break; } } }
        if (depth < 6) fill(x0 + 1, y0 + 1, x1 - 1, y1 - 1, parent, depth + 1);
    }
    void fill(int x0, int y0, int x1, int y1, int parent, int depth) {
        int wd = x1 - x0, h = y1 - y0; if (wd < 1 || h < 1 || w.rings.size() > 14) return;
        size_t k = forced ? 1 : c.weighted({12, 50, 28, 6, 4}); if (k >= 3 && !touching) k = 1; if (k >= 3 && (wd < 4 || h < 4)) k = 1; if (k == 2 && wd < 3 && h < 3) k = 1; forced = 0;
        switch (k) {
            case 0: return;
            case 1: { auto m = [&](int room) { return room > 0 ? (int)c.upto(std::min(room, 3)) : 0; }; int a = m(wd - 1), b = m(wd - 1 - a), d = m(h - 1), e = m(h - 1 - d); int r = rect(x0 + a, y0 + d, x1 - b, y1 - e, parent); inside(x0 + a, y0 + d, x1 - b, y1 - e, r, depth); return; }
            case 2: if (wd >= h) { int s = x0 + 1 + c.upto(wd - 3 > 0 ? wd - 3 : 0); fill(x0, y0, s, y1, parent, depth); fill(s + 1, y0, x1, y1, parent, depth); } else { int s = y0 + 1 + c.upto(h - 3 > 0 ? h - 3 : 0); fill(x0, y0, x1, s, parent, depth); fill(x0, s + 1, x1, y1, parent, depth); } return;
            case 3: { int xm = x0 + 2 + c.upto(wd - 4), ym = y0 + 2 + c.upto(h - 4); int a = rect(x0, y0, xm, ym, parent), b = rect(xm, ym, x1, y1, parent); P p = at(xm, ym); bool same = c.chance(50); if (same) for (size_t i = 0; i < w.rings[a].pts.size(); ++i) if (w.rings[a].pts[i] == p) w.rings[b].ids[0] = w.rings[a].ids[i]; w.shared_touch |= same; c.label(same ? "rings touching in a node" : "rings touching in a point"); inside(x0, y0, xm, ym, a, depth); inside(xm, ym, x1, y1, b, depth); return; }
            default: { int xm = x0 + 2 + c.upto(wd - 4); int a = rect(x0, y0, xm, y1, parent, 1), b = rect(xm, y0, x1, y1, parent, 3); w.rings[a].pair = b; w.rings[b].pair = a; bool same = c.chance(70);
                // the common edge may have points in between
                if (c.chance(50)) { Ring mid; for (int y = y0 + 1; y < y1; ++y) if (c.chance(40)) mid.push_back(at(xm, y, (int)c.upto(8) - 4, 0)); auto ins = [&](GR& g, Ring pts, P from) { size_t i = 0; while (!(g.pts[i] == from)) ++i; g.pts.insert(g.pts.begin() + i + 1, pts.begin(), pts.end()); std::vector<int64_t> n; for (size_t k = 0; k < pts.size(); ++k) n.push_back(w.next_id++); g.ids.insert(g.ids.begin() + i + 1, n.begin(), n.end()); }; ins(w.rings[a], mid, at(xm, y0)); std::reverse(mid.begin(), mid.end()); ins(w.rings[b], mid, at(xm, y1)); c.label_if(!mid.empty(), "common edge with points in between"); } for (size_t i = 0; same && i < w.rings[a].pts.size(); ++i) for (size_t j = 0; j < w.rings[b].pts.size(); ++j) if (w.rings[a].pts[i] == w.rings[b].pts[j]) w.rings[b].ids[j] = w.rings[a].ids[i]; inside(x0, y0, xm, y1, a, depth); inside(xm, y0, x1, y1, b, depth); return; }
        }
    }
};
inline void attributes(Ctx& c, Obj& o) { if (c.chance(40)) return; o.version = c.upto(50); o.changeset = c.upto(1000000); o.timestamp = c.chance(80) ? 1 + c.upto(2000000000) : 0; o.uid = c.upto(5000); o.user = c.pick(std::vector<std::string>{"", "a", "Jürgen", "x y"}); if (c.chance(10)) o.endtime = 1 + c.upto(2000000000); if (c.chance(10)) o.visible = false; }
inline std::vector<Tag> gen_tags(Ctx& c, int kind) { // 0 none, 1 only ignored ones, 2.. others
    std::vector<Tag> t; if (kind && c.chance(kind == 1 ? 90 : 30)) t.push_back(Tag{"created_by", c.pick(std::vector<std::string>{"JOSM", "x"})}); if (kind && c.chance(20)) t.push_back(Tag{"source", c.pick(std::vector<std::string>{"bing", "y"})}); if (kind && c.chance(20)) t.push_back(Tag{"note", "n"}); static const std::vector<std::vector<Tag>> T = {{{"landuse", "forest"}}, {{"natural", "water"}}, {{"landuse", "forest"}, {"name", "Wald"}}, {{"landuse", "grass"}}, {{"building", "house"}}, {{"building", "yes"}, {"name", "A"}, {"note:de", "b"}}, {{"types", "x"}}}; if (kind >= 2) for (auto& x : c.pick(T)) t.push_back(x); if (t.size() > 1 && c.chance(30)) std::reverse(t.begin(), t.end()); return t;
}
inline int tag_kind(Ctx& c) { return (int)c.weighted({40, 15, 45}); }

inline void make_world(Ctx& c, World& w, bool touching, bool files, bool gaps) {
    static const std::vector<int32_t> S = {1000, 1, 10, 100, 10000, 12345}; int32_t s = gaps ? 1000 : c.pick(S), lim = 90000000; Maker m{c, w, (int32_t)c.range(-lim, lim), (int32_t)c.range(-lim, lim), s, touching}; if (!gaps && c.chance(20)) { m.bx = c.range(-1790000000, 1700000000); m.by = c.range(-890000000, 800000000); } int size = 3 + c.upto(37); m.fill(0, 0, size, size, -1, 0);
    c.desc << "scale " << s << " rings " << w.rings.size() << "; ";
    // the rings are cut into ways
    std::set<int64_t> used; std::vector<Tag> common = gen_tags(c, 2); w.nways.assign(w.rings.size(), 0);
    auto way_id = [&]() { int64_t id; do id = c.chance(20) ? -1 - (int64_t)c.upto(3000) : 1 + (int64_t)c.upto(c.chance(80) ? 3000 : 1LL << 40); while (!used.insert(id).second); return id; };
    for (size_t r = 0; r < w.rings.size(); ++r) {
        GR& g = w.rings[r]; size_t n = g.pts.size(); std::set<size_t> cut; cut.insert(c.upto(n - 1)); if (g.pair < 0 && c.chance(60)) do cut.insert(c.upto(n - 1)); while (c.more(50)); std::vector<size_t> k(cut.begin(), cut.end()); int style = c.weighted({35, 35, 30}); int gap = -1;
        if (gaps && c.chance(40)) { size_t e = c.upto(n - 1); cut.insert(e); cut.insert((e + 1) % n); k.assign(cut.begin(), cut.end()); for (size_t i = 0; i < k.size(); ++i) if (k[i] == e) gap = (int)i; }
        for (size_t i = 0; i < k.size(); ++i) {
            size_t a = k[i], b = i + 1 < k.size() ? k[i + 1] : k[0] + n; ++w.nways[r]; if ((int)i == gap) { w.gaps.emplace_back(g.pts[a % n], g.pts[b % n]); c.desc << "ring " << r << " lacks " << a % n << "-" << b % n << "; "; continue; }
            W y; y.ring = (int)r; y.o.kind = 1; y.o.id = way_id(); for (size_t j = a; j <= b; ++j) { y.o.refs.push_back(g.ids[j % n]); y.pos.push_back(g.pts[j % n]); if (!touching && c.chance(3)) { y.o.refs.push_back(j < b && j > a && c.chance(70) ? w.next_id++ : g.ids[j % n]); y.pos.push_back(g.pts[j % n]); c.label("repeated position"); } }
            if (c.chance(50)) { std::reverse(y.o.refs.begin(), y.o.refs.end()); std::reverse(y.pos.begin(), y.pos.end()); } attributes(c, y.o); y.o.tags = style == 0 ? std::vector<Tag>() : style == 1 ? common : gen_tags(c, tag_kind(c)); w.ways.push_back(y);
        }
    }
    // some more ways that belong to no ring of a relation
    while (c.chance(25)) { W y; y.ring = -1; y.o.kind = 1; y.o.id = way_id(); size_t n = c.upto(5); for (size_t i = 0; i < n; ++i) { y.o.refs.push_back(w.next_id++); y.pos.push_back(P{m.bx + (int32_t)c.upto(400) * s, m.by + (int32_t)c.upto(400) * s}); } if (n > 1 && c.chance(60)) { y.o.refs.push_back(y.o.refs[0]); y.pos.push_back(y.pos[0]); } y.o.tags = gen_tags(c, tag_kind(c)); attributes(c, y.o); w.ways.push_back(y); }
    for (auto& y : w.ways) c.desc << "way " << y.o.id << " of ring " << y.ring << " " << str(Ring(y.pos)) << model::str(y.o) << "; ";
    std::set<int64_t> rused; int64_t nid = 1;
    do {
        Rel r; r.o.kind = 2; do r.o.id = c.chance(20) ? -1 - (int64_t)c.upto(500) : 1 + (int64_t)c.upto(500); while (!rused.insert(r.o.id).second); attributes(c, r.o); r.o.tags = gen_tags(c, tag_kind(c)); r.mp = c.chance(88); if (gaps) r.mp = true; Tag t{"type", r.mp ? c.pick(std::vector<std::string>{"multipolygon", "boundary"}) : c.pick(std::vector<std::string>{"route", "", "Multipolygon", "multipolygons", "multipolygo"})}; if (!t.v.empty()) r.o.tags.insert(r.o.tags.begin() + c.upto(r.o.tags.size()), t);
        bool all = c.chance(70); for (size_t i = 0; i < w.rings.size(); ++i) if (all || c.chance(50)) r.rings.push_back((int)i);
        // two outer rings with a common edge make no valid multipolygon
        auto in = [&](int x) { return std::find(r.rings.begin(), r.rings.end(), x) != r.rings.end(); }; for (size_t i = 0; i < r.rings.size();) { int x = r.rings[i], d = 0; for (int p = w.rings[x].parent; p >= 0; p = w.rings[p].parent) d += in(p); if (w.rings[x].pair >= 0 && in(w.rings[x].pair) && d % 2 == 0) r.rings.erase(r.rings.begin() + i), i = 0; else ++i; }
        if (gaps) { r.rings.clear(); for (size_t i = 0; i < w.rings.size(); ++i) r.rings.push_back((int)i); }
        for (auto& y : w.ways) if (y.ring >= 0 && in(y.ring)) { r.o.members.push_back(Member{'w', y.o.id, c.pick(std::vector<std::string>{"outer", "inner", "", "enclave"})}); r.ways.insert(y.o.id); }
        while (c.chance(20)) { r.o.members.push_back(Member{c.chance(50) ? 'n' : 'r', nid++, "label"}); } for (size_t i = r.o.members.size(); i > 1; --i) std::swap(r.o.members[i - 1], r.o.members[c.upto(i - 1)]);
        c.desc << "relation" << (r.mp ? " " : " (other) ") << model::str(r.o) << "rings "; for (int x : r.rings) c.desc << x << " "; c.desc << "; "; w.rels.push_back(r);
    } while (!gaps && c.chance(40));
}

// ---- what is to come out
typedef std::multiset<std::pair<std::string, std::string>> Tags;
inline bool ignored(const std::string& k) { return k == "type" || k == "created_by" || k == "source" || k == "note"; }
inline Tags all_tags(const Obj& o) { Tags t; for (auto& x : o.tags) t.insert({x.k, x.v}); return t; }
inline Tags real_tags(const Obj& o) { Tags t; for (auto& x : o.tags) if (!ignored(x.k)) t.insert({x.k, x.v}); return t; }
struct Want { int64_t id; Obj o; std::vector<Tags> tags; Multi geom; bool exact = false, none = false; }; // exact: as the way has it; none: a position is not known
struct Got { int64_t id, orig; bool from_way; Obj o; Tags tags; Multi geom; bool none = false; };
inline Ring closed(Ring r) { r.push_back(r[0]); return r; }

inline bool expect(World& w, const Rel& r, std::vector<Want>& out) { // false if it cannot be built
    auto in = [&](int x) { return std::find(r.rings.begin(), r.rings.end(), x) != r.rings.end(); };
    std::map<int, int> depth, cont; std::map<int, std::vector<const W*>> ways; for (int x : r.rings) { depth[x] = 0; cont[x] = -1; for (int p = w.rings[x].parent; p >= 0; p = w.rings[p].parent) if (in(p)) { if (cont[x] < 0) cont[x] = p; ++depth[x]; } } for (auto& y : w.ways) if (y.ring >= 0) ways[y.ring].push_back(&y);
    Want a; a.o = r.o; a.id = r.o.id * 2 + (r.o.id > 0 ? 1 : -1); int outers = 0; for (int x : r.rings) { outers += depth[x] % 2 == 0; for (auto* y : ways[x]) a.o.timestamp = std::max(a.o.timestamp, y->o.timestamp); }
    std::map<int, size_t> where; for (int x : r.rings) if (depth[x] % 2 == 0) { where[x] = a.geom.size(); a.geom.push_back(Poly{turned(closed(w.rings[x].pts), true)}); }
    for (int x : r.rings) if (depth[x] % 2) {
        GR& g = w.rings[x]; Ring h = closed(g.pts); if (g.pair >= 0 && in(g.pair)) { if (g.pair < x) continue; // the two are one hole: walk around both, leaving out the common edge
            GR& q = w.rings[g.pair]; auto shared = [&](P p) { return std::find(g.pts.begin(), g.pts.end(), p) != g.pts.end() && std::find(q.pts.begin(), q.pts.end(), p) != q.pts.end(); }; auto path = [&](const Ring& v) { size_t n = v.size(); Ring o; for (size_t i = 0; i < n; ++i) if (shared(v[i]) && !shared(v[(i + 1) % n])) { size_t j = i; do o.push_back(v[j % n]); while (!shared(v[++j % n])); o.push_back(v[j % n]); break; } return o; }; // from one end of the common edge round to the other
            Ring p = path(g.pts), u = path(q.pts); if (p.back() == u.back()) std::reverse(u.begin(), u.end()); h = p; h.insert(h.end(), u.begin() + 1, u.end()); }
        a.geom[where[cont[x]]].push_back(turned(h, false));
    }
    for (int x : r.rings) if (depth[x] % 2 && w.nways[x] == 1) { const W* y = ways[x][0]; Tags t = real_tags(y->o); if (t.empty() || t == real_tags(r.o)) continue; int p = cont[x]; if (w.nways[p] == 1 && real_tags(ways[p][0]->o) == t) continue; Want e; e.id = y->o.id * 2; e.o = y->o; e.tags = {all_tags(y->o)}; e.geom = {Poly{turned(closed(w.rings[x].pts), true)}}; out.push_back(e); }
    Tags base = all_tags(r.o), rr = real_tags(r.o); if (rr.empty()) { for (int x : r.rings) if (depth[x] % 2 == 0) for (auto* y : ways[x]) { Tags t = real_tags(y->o); if (t.empty()) continue; Tags u = base; u.insert(t.begin(), t.end()); a.tags.push_back(u); } if (a.tags.empty()) a.tags.push_back(base); }
    else { Tags u = base; if (outers == 1) for (int x : r.rings) if (depth[x] == 0 && w.nways[x] == 1) for (auto& t : real_tags(ways[x][0]->o)) { bool have = false; for (auto& b : rr) have |= b.first == t.first; if (!have) u.insert(t); } a.tags.push_back(u); }
    out.push_back(a); return true;
}
inline bool simple_area(const Obj& o) { return o.refs.size() >= 4 && o.refs.front() == o.refs.back(); }
inline std::string show(const Tags& t) { std::string s; for (auto& x : t) s += x.first + "=" + x.second + " "; return s; }

inline void compare(Ctx& c, std::vector<Got> got, std::vector<Want> want) {
    for (auto& x : want) { size_t i = 0; while (i < got.size() && got[i].id != x.id) ++i; if (i == got.size()) c.fail("area " + std::to_string(x.id) + " is missing (" + std::to_string(got.size()) + " areas built)"); Got g = got[i]; got.erase(got.begin() + i); std::string n = "area " + std::to_string(x.id) + ": ";
        c.eq(g.orig, x.o.id, n + "original id"); c.eq(g.from_way, x.o.kind == 1, n + "made from a way"); Obj a = g.o, b = x.o; for (Obj* o : {&a, &b}) { o->kind = 0; o->id = 0; o->tags.clear(); o->refs.clear(); o->members.clear(); } if (a != b) c.fail(n + model::diff(a, b)); if (std::find(x.tags.begin(), x.tags.end(), g.tags) == x.tags.end()) c.fail(n + "tags are " + show(g.tags) + "instead of " + show(x.tags[0]));
        c.eq(g.none, x.none, n + "has no geometry"); if (x.exact) { if (g.geom != x.geom) c.fail(n + "geometry is " + str(g.geom) + " instead of " + str(x.geom)); } else if (canonical(g.geom) != canonical(x.geom)) c.fail(n + "geometry is " + str(canonical(g.geom)) + " instead of " + str(canonical(x.geom))); }
    if (!got.empty()) c.fail("area " + std::to_string(got[0].id) + " should not be there: " + str(got[0].geom));
}
// the ways in the file, and what they and the relations become
inline std::vector<Want> plan(Ctx& c, World& w, std::vector<size_t>& order, bool can_miss) {
    int64_t missing = 0; if (can_miss && !w.ways.empty() && c.chance(15)) { missing = w.ways[c.upto(w.ways.size() - 1)].o.id; c.desc << "way " << missing << " is not in the file; "; c.label("member way missing"); } for (size_t i = 0; i < w.ways.size(); ++i) if (w.ways[i].o.id != missing) order.push_back(i);
    if (can_miss && !w.ways.empty() && c.chance(12)) { const W& y = w.ways[c.upto(w.ways.size() - 1)]; if (!y.o.refs.empty()) { int64_t id = y.o.refs[c.upto(y.o.refs.size() - 1)]; c.desc << "node " << id << " has no position; "; c.label("node without position"); for (auto& q : w.ways) for (size_t k = 0; k < q.pos.size(); ++k) if (q.o.refs[k] == id) q.pos[k] = P{UNDEF, UNDEF}; } } auto unknown = [](const W& y) { return std::find(y.pos.begin(), y.pos.end(), P{UNDEF, UNDEF}) != y.pos.end(); };
    std::vector<Want> want; for (auto& r : w.rels) { if (!r.mp) { c.label("other relation"); continue; } if (r.rings.empty() || (missing && r.ways.count(missing))) continue; bool known = true; for (auto& y : w.ways) known &= !r.ways.count(y.o.id) || !unknown(y); if (!known) { c.label("relation with a node without position"); c.nontrivial(); continue; } expect(w, r, want); c.nontrivial(r.ways.size() > 1); c.label(r.rings.size() == 1 ? "one ring" : r.rings.size() < 4 ? "2-3 rings" : "4 or more rings"); int deep = 0; for (int x : r.rings) { int d = 0; for (int p = w.rings[x].parent; p >= 0; p = w.rings[p].parent) d += std::find(r.rings.begin(), r.rings.end(), p) != r.rings.end(); deep = std::max(deep, d); } c.label("depth " + std::to_string(deep)); }
    for (size_t i : order) { auto& y = w.ways[i]; bool member = false; for (auto& r : w.rels) member |= r.mp && r.ways.count(y.o.id); if (!member && simple_area(y.o)) { Want e; e.id = y.o.id * 2; e.o = y.o; e.tags = {all_tags(y.o)}; e.none = unknown(y); if (!e.none) e.geom = {Poly{Ring(y.pos)}}; e.exact = true; c.label_if(e.none, "area of a way with a node without position"); want.push_back(e); c.label("area from a way"); } } return want;
}
inline void shuffle(Ctx& c, std::vector<size_t>& v) { if (c.chance(60)) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.upto(i - 1)]); }
#endif
