// Bounding boxes contain exactly the extent of their points.
// LIBS: pbf xml
// FLAGS: -fwrapv
// TOOLS: osmium_find_bbox
#include "io.hpp"
#include "turns.hpp"
#include "pbfcodec.hpp"
#include "tool.hpp"
#include <osmium/osm/bounds.hpp>
#include <osmium/handler/find_bbox.hpp>
using namespace model;
typedef Osmium::OSM::Position Pos; typedef Osmium::OSM::Bounds Bounds;

RULE("a case counts as non-trivial if there are at least two different defined positions; distinct by description");

struct P { int32_t x, y; bool def() const { return x != UNDEF && y != UNDEF; } };
static int32_t coord(Ctx& c) { switch (c.weighted({40, 30, 20, 10})) { case 0: return (int32_t)c.range(-20, 20); case 1: return (int32_t)c.range(-2147483648LL, 2147483646); case 2: return (int32_t)c.range(-1800000000, 1800000000); default: { static const std::vector<int32_t> b = {0, -1, 1, 2147483646, 2147483645, -2147483647 - 1, -2147483647, 1800000000, -1800000000, 900000000, -900000000}; return c.pick(b); } } }
static P point(Ctx& c) { switch (c.weighted({88, 6, 3, 3})) { case 0: return P{coord(c), coord(c)}; case 1: return P{UNDEF, UNDEF}; case 2: return P{UNDEF, coord(c)}; default: return P{coord(c), UNDEF}; } }
static Box extent(const std::vector<P>& v) { Box b; int64_t x1 = INT64_MAX, x2 = INT64_MIN, y1 = INT64_MAX, y2 = INT64_MIN; for (auto& p : v) if (p.def()) { b.def = true; x1 = std::min<int64_t>(x1, p.x); x2 = std::max<int64_t>(x2, p.x); y1 = std::min<int64_t>(y1, p.y); y2 = std::max<int64_t>(y2, p.y); } if (b.def) { b.x1 = x1; b.x2 = x2; b.y1 = y1; b.y2 = y2; } return b; }
static bool spread(const std::vector<P>& v) { const P* f = nullptr; for (auto& p : v) if (p.def()) { if (f && (f->x != p.x || f->y != p.y)) return true; f = &p; } return false; }
SCENARIO(sequences, 20000, 1500000) {
    std::vector<P> v; while (c.more(85)) { v.push_back(point(c)); c.desc << v.back().x << "," << v.back().y << " "; } c.nontrivial(spread(v)); bool undef = false; for (auto& p : v) undef |= !p.def(); c.label_if(undef, "undefined positions"); c.label_if(!extent(v).def, "no defined position");
    Bounds b; c.check(!b.defined(), "new bounds are defined"); std::vector<P> sofar;
    for (auto& p : v) { Bounds& r = b.extend(Pos(p.x, p.y)); c.check(&r == &b, "extend returns something else"); sofar.push_back(p); c.eq(from(b), extent(sofar), "bounds after " + std::to_string(sofar.size()) + " positions"); }
    // any order, and copies
    auto w = v; for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[c.upto(i - 1)]); Bounds s; for (auto& p : w) s.extend(Pos(p.x, p.y)); c.eq(from(s), extent(v), "bounds of the positions in another order"); Bounds k(b); k.extend(Pos(5, 5)); c.eq(from(b), extent(v), "bounds after a copy was extended"); Bounds t; for (auto& p : v) t.extend(Pos(p.x, p.y)).extend(Pos(p.x, p.y)); c.eq(from(t), extent(v), "bounds with every position twice");
    if (b.defined()) { Bounds m; m.extend(b.top_right()).extend(b.bottom_left()); c.eq(from(m), extent(v), "bounds made from the corners"); }
}
// the search over a file sees the nodes and nothing else
struct Spy : Osmium::Handler::FindBbox { size_t others = 0, finals = 0; void before_ways() { ++others; } void way(const shared_ptr<Osmium::OSM::Way const>&) { ++others; } void before_relations() { ++others; } void relation(const shared_ptr<Osmium::OSM::Relation const>&) { ++others; } void final() { ++finals; } };
static std::vector<Obj> gen_file(Ctx& c, int type = OSM) { GenOpts g; g.xml_text = true; g.history = type != OSM; g.sub_more = 20; g.more = c.pick(std::vector<unsigned>{50, 80, 90}); g.valid_lonlat = c.chance(80); auto v = gen_objs(c, g); for (auto& o : v) { if (o.version > 2147483647u) o.version = 1; if (o.uid <= 0) { o.uid = 0; o.user = ""; } } return v; }
static std::vector<P> points(const std::vector<Obj>& v) { std::vector<P> r; for (auto& o : v) if (o.kind == 0) r.push_back(P{o.x, o.y}); return r; }
SCENARIO(handler, 2000, 100000) { auto v = gen_file(c, c.chance(60) ? OSM : HISTORY); for (auto& o : v) c.desc << o << "; "; c.nontrivial(spread(points(v))); Data d; d.objs = v; Osmium::Handler::FindBbox h; bool stopped = false, nodes = false; for (auto& o : v) nodes |= o.kind == 0; try { feed(h, d); } catch (Osmium::Handler::StopReading) { stopped = true; } c.eq(stopped, nodes, "asks to stop after the nodes"); c.eq(from(h.bounds()), extent(points(v)), "bounds found"); }
SCENARIO(two_handlers, 1500, 60000) { std::vector<Obj> v[2]; Osmium::Handler::FindBbox a, b; for (auto& x : v) { x = gen_file(c, c.chance(60) ? OSM : HISTORY); for (auto& o : x) c.desc << o << "; "; c.desc << "| "; } Data d, e; d.objs = v[0]; e.objs = v[1]; c.nontrivial(spread(points(v[0])) && spread(points(v[1]))); turns::Later<Osmium::Handler::FindBbox> l(b); feed(l, e); turns::feed_both(c, a, d, l, false); c.eq(from(a.bounds()), extent(points(v[0])), "bounds found"); c.eq(from(b.bounds()), extent(points(v[1])), "bounds found by the other handler"); }
SCENARIO(files, 1000, 50000) {
    int type = c.weighted({60, 20, 20}); auto v = gen_file(c, type); for (auto& o : v) c.desc << o << "; "; c.nontrivial(spread(points(v))); bool deleted = false; for (auto& o : v) deleted |= o.kind == 0 && !o.visible; c.label_if(deleted, "deleted nodes"); int enc = c.upto(3); if (enc >= GZ && c.chance(70)) enc -= 2; std::string p = c.path("in"); bool nodes = false, rest = false; for (auto& o : v) (o.kind == 0 ? nodes : rest) = true; c.desc << enc;
    if (enc == PBF && type == OSM) { // what follows the block after the last node need not even be readable
        std::string s = pbf::simple_file(v, 1 + c.upto(4), 2, c.chance(50), false, false); if (nodes && rest && c.chance(50)) { size_t more = 1 + c.upto(60); std::string junk; for (size_t i = 0; i < more; ++i) junk += (char)c.upto(255); bool two = false; { size_t kinds = 0; for (auto& o : v) kinds |= 1 << o.kind; two = kinds; } if (two) { s += std::string("\x7f\x7f\x7f\x7f", 4) + junk; c.label("unreadable end"); } }
        spit(p, s); } else { WOpts w; w.enc = enc; w.type = type; Data d; d.objs = v; write_file(p, d, w); }
    Spy h; read_file(p, type, enc, h); c.eq(from(h.bounds()), extent(points(v)), "bounds found"); if (nodes) c.eq(h.others, (size_t)0, "calls for ways and relations"); c.eq(h.finals, (size_t)1, "final calls"); unlink(p.c_str());
}
SCENARIO(tool, 200, 6000) {
    int type = c.weighted({60, 20, 20}); auto v = gen_file(c, type); for (auto& o : v) c.desc << o << "; "; c.nontrivial(spread(points(v))); static const std::vector<std::string> S[] = {{".osm.pbf", ".osm", ".osm.gz", ".osm.bz2"}, {".osh.pbf", ".osh", ".osh.gz", ".osh.bz2"}, {".osc", ".osc", ".osc.gz", ".osc.bz2"}}; int enc = c.upto(3); if (type == CHANGE && enc == PBF) enc = XML; WOpts w; w.enc = enc; w.type = type; Data d; d.objs = v; std::string p = c.path("in" + S[type][enc]); write_file(p, d, w); auto r = tool::run("osmium_find_bbox", {p}); c.eq(r.status, 0, "status of the tool"); unlink(p.c_str()); Box b = extent(points(v)); double g[4]; int n = -1;
    c.check(sscanf(r.out.c_str(), "minlon=%lf minlat=%lf maxlon=%lf maxlat=%lf %n", g, g + 1, g + 2, g + 3, &n) == 4 && n == (int)r.out.size(), "output is " + show(r.out)); if (!b.def) return; int32_t want[4] = {b.x1, b.y1, b.x2, b.y2}; for (int i = 0; i < 4; ++i) { double x = want[i] / 1e7; c.check(fabs(g[i] - x) <= fabs(x) * 6e-6 + 1e-12, "number " + std::to_string(i + 1) + " of " + r.out + " should be " + std::to_string(x)); }
}
