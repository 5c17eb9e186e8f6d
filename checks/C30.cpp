// Multipolygon relations are assembled into the areas they describe.
// LIBS: pbf xml geosc shp gdal
// GEOS: old
// TOOLS: osmium_mpdump
// FLAGS: -fsanitize=address -DOSMIUM_WITH_DEBUG
#include "area_all.hpp"
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/ogr_multipolygon.hpp>
#include <osmium/geometry/shplib.hpp>
#include "mpworld.hpp"
#include "io.hpp"
#include "tool.hpp"
using namespace areas; namespace G = Osmium::Geometry;

RULE("a case counts as non-trivial if a relation with at least two rings or two ways is built or refused for a stated reason; distinct by description");
ASSUME("the library needs the GEOS of its time, which is not installed: it is built against a stand-in with that interface (fw/oldgeos), which leaves validity, containment and polygonizing to the installed GEOS");
ASSUME("the ways of a relation form rings that do not cross; ids are not zero; where the members are no rings at all, only validity, origin and orientation of what is built are fixed");

static struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } } nullbuf;
static struct Quiet { Quiet() { pbt::worker_init() = [] { std::cerr.rdbuf(&nullbuf); }; } } quiet;

// ---- running it
struct Sink : public Capture { std::vector<shared_ptr<Osmium::OSM::Area const>> list; void area(const shared_ptr<Osmium::OSM::Area const>& a) { list.push_back(a); } };
static shared_ptr<Osmium::OSM::Way> way_of(const W& y) { auto o = make_shared<Osmium::OSM::Way>(); set_common(*o, y.o); for (size_t i = 0; i < y.pos.size(); ++i) o->nodes().add(Osmium::OSM::WayNode(y.o.refs[i], Osmium::OSM::Position(y.pos[i].x, y.pos[i].y))); return o; }
static Got got(Ctx& c, const Osmium::OSM::Area& a) { Got g; c.check(a.type() == AREA, "type of an area"); get_common(g.o, a); g.id = a.id(); g.orig = a.orig_id(); g.from_way = a.from_way(); g.tags = all_tags(g.o); try { G::MultiPolygon m(a); c.eq(m.id(), a.id(), "id of the geometry"); std::ostringstream o; o << m.as_WKT(); g.geom = parse(c, o.str()); } catch (const G::IllegalGeometry&) { g.none = true; } return g; }
static bool same(const Got& a, const Got& b) { return a.none == b.none && a.id == b.id && a.o == b.o && a.tags == b.tags && a.geom == b.geom && a.orig == b.orig && a.from_way == b.from_way; }
template <class F> static void forms(Ctx& c, const Osmium::OSM::Area& a, const Multi& m, F) {
    G::MultiPolygon p(a); for (int srid = 0; srid < 2; ++srid) { std::ostringstream t, b, h; t << p.as_WKT(srid); c.check(parse(c, t.str(), srid) == m, "text form"); b << p.as_WKB(srid); std::string e = wkb(m, srid); if (b.str() != e) c.fail("binary form" + std::string(srid ? " with SRID" : "") + " is " + hex(b.str()).substr(0, 80) + " instead of " + hex(e).substr(0, 80)); h << p.as_HexWKB(srid); c.check(h.str() == hex(e), "hexadecimal form"); }
    std::unique_ptr<OGRMultiPolygon> o(G::create_ogr_geometry(p)); c.eq((size_t)o->getNumGeometries(), m.size(), "polygons of the OGR geometry"); for (size_t i = 0; i < m.size(); ++i) { const OGRPolygon* q = (const OGRPolygon*)o->getGeometryRef(i); c.eq((size_t)q->getNumInteriorRings() + 1, m[i].size(), "rings of an OGR polygon"); for (size_t k = 0; k < m[i].size(); ++k) { const OGRLinearRing* l = k ? q->getInteriorRing(k - 1) : q->getExteriorRing(); c.eq((size_t)l->getNumPoints(), m[i][k].size(), "points of an OGR ring"); for (size_t j = 0; j < m[i][k].size(); ++j) if (l->getX(j) != deg(m[i][k][j].x) || l->getY(j) != deg(m[i][k][j].y)) c.fail("point of an OGR ring"); } }
    SHPObject* s = G::create_shp_object(p); std::string err; std::vector<Ring> parts; for (auto& q : m) for (auto& r : q) parts.push_back(r); size_t n = 0; if (s->nSHPType != SHPT_POLYGON || s->nParts != (int)parts.size()) err = "parts of the shape"; else { for (size_t i = 0; i < parts.size() && err.empty(); ++i) { if (s->panPartStart[i] != (int)n) err = "start of a part"; if (s->panPartType[i] != SHPP_RING) err = "type of a part"; for (auto& q : parts[i]) { if ((int)n >= s->nVertices || s->padfX[n] != deg(q.x) || s->padfY[n] != deg(q.y)) { err = "point of the shape"; break; } ++n; } } if (err.empty() && (int)n != s->nVertices) err = "number of points of the shape"; } SHPDestroyObject(s); c.check(err.empty(), err);
    const G::Geometry& base = p; SHPObject* s2 = G::create_shp_object(base); bool ok = s2 && s2->nParts == (int)parts.size() && s2->nVertices == (int)n; SHPDestroyObject(s2); c.check(ok, "shape made through the base class");
}
// a builder of one's own takes the place of the usual one
static std::vector<int64_t> built;
struct OwnBuilder : public Osmium::MultiPolygon::Builder { int64_t id; OwnBuilder(const Osmium::Relations::RelationInfo& info, bool repair) : Osmium::MultiPolygon::Builder(info, repair), id(info.relation()->id()) {} std::vector<shared_ptr<Osmium::OSM::Area>>& build() { built.push_back(id); return Osmium::MultiPolygon::Builder::build(); } };
template <class A> static void run_with(Ctx& c, World& w, bool repair, const std::vector<size_t>& order, Sink& sink, int debug) {
    A as(sink, repair); as.set_debug_level(debug); auto& p1 = as.handler_pass1(); bool stopped = w.rels.empty(); Osmium::OSM::Meta meta; p1.init(meta); if (!w.rels.empty()) { p1.before_relations(); for (auto& r : w.rels) p1.relation(to_relation(r.o)); try { p1.after_relations(); } catch (const Osmium::Handler::StopReading&) { stopped = true; } } p1.final(); c.check(stopped, "the first pass goes on after the relations");
    auto& p2 = as.handler_pass2(); p2.init(meta); if (!order.empty()) { p2.before_ways(); for (size_t i : order) p2.way(way_of(w.ways[i])); p2.after_ways(); } if (!w.rels.empty()) { p2.before_relations(); for (auto& r : w.rels) p2.relation(to_relation(r.o)); p2.after_relations(); } p2.final();
    // everything else is passed on
    std::vector<Obj> all; for (size_t i : order) all.push_back(w.ways[i].o); for (auto& r : w.rels) all.push_back(r.o); c.eq(sink.events, expected_events(all), "events passed on"); for (size_t i = 0; i < all.size(); ++i) if (sink.objs[i] != all[i]) c.fail("object passed on: " + model::diff(sink.objs[i], all[i]));
}
// member ways that are in the file more than once
static void repeat(Ctx& c, World& w, std::vector<size_t>& order) {
    if (!c.chance(10)) return; std::vector<size_t> m; for (size_t i : order) for (auto& r : w.rels) if (r.mp && r.ways.count(w.ways[i].o.id)) { m.push_back(i); break; }
    if (!m.empty()) do { size_t i = m[c.upto(m.size() - 1)]; order.insert(order.begin() + c.upto(order.size()), i); c.desc << "way " << w.ways[i].o.id << " again; "; c.label("member way repeated in the file"); } while (c.more(50));
}
static void run(Ctx& c, World& w, bool repair, const std::vector<size_t>& order, Sink& sink, int debug = 0) {
    if (!c.chance(25)) { run_with<Osmium::MultiPolygon::Assembler<Sink>>(c, w, repair, order, sink, debug); return; }
    c.label("own builder"); c.desc << "own builder "; built.clear(); run_with<Osmium::MultiPolygon::Assembler<Sink, OwnBuilder>>(c, w, repair, order, sink, debug);
    std::set<int64_t> have; for (size_t i : order) have.insert(w.ways[i].o.id); std::multiset<int64_t> want, got(built.begin(), built.end());
    for (auto& r : w.rels) { std::string type; for (auto& t : r.o.tags) if (t.k == "type") { type = t.v; break; } if (type != "multipolygon" && type != "boundary") continue; bool any = false, all = true; for (auto& m : r.o.members) if (m.type == 'w') { any = true; all = all && have.count(m.ref); } if (!any) got.erase(r.o.id); else if (all) want.insert(r.o.id); }
    c.check(got == want, "the builder given was asked to build " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " complete relations");
}
static void full(Ctx& c, bool touching) {
    long before = oldgeos::geom::live(); {
        World w; make_world(c, w, touching, false, false); std::vector<size_t> order; auto want = plan(c, w, order, true); shuffle(c, order); repeat(c, w, order); bool repair = c.chance(50); c.desc << (repair ? "repair " : "");
        if (repair && c.chance(20)) for (auto& r : w.rels) if (!r.o.members.empty()) { Member m = c.pick(r.o.members); if (m.type == 'w') { r.o.members.push_back(m); c.label("member twice, repair"); } }
        Sink s; run(c, w, repair, order, s); std::vector<Got> g; for (auto& a : s.list) { auto b = a; if (c.chance(50)) { auto d = make_shared<Osmium::OSM::Area>(*a); b = d; } g.push_back(got(c, *b)); } compare(c, g, want);
        for (size_t i = 0; i < s.list.size(); ++i) { // copies are independent of what they were made from
            Got a = got(c, *s.list[i]); c.check(same(a, g[i]), "area differs from its copy"); { Osmium::OSM::Area d(*s.list[i]), e(*s.list[s.list.size() - 1 - i]); e = d; e = e; c.check(same(got(c, d), a) && same(got(c, e), a), "copied or assigned area differs"); Osmium::OSM::Way y; y.id(1); Osmium::OSM::Area f(y); f = e; c.check(same(got(c, f), a), "assigned area differs"); Osmium::OSM::Area h(y); e = h; c.check(e.id() == 2 && e.tags().size() == 0, "area assigned from an empty one"); } c.check(same(got(c, *s.list[i]), a), "area changed with its copy"); if (!a.none) forms(c, *s.list[i], a.geom, 0); }
    }
    c.eq(oldgeos::geom::live() - before, 0L, "geometries left behind");
}
SCENARIO(nested_rings, 12000, 500000) { full(c, false); }
SCENARIO(touching_rings, 6000, 250000) { full(c, true); }

SCENARIO(gaps, 4000, 150000) { // open rings: refused, or closed by straight lines where asked for
    long before = oldgeos::geom::live(); {
        World w; make_world(c, w, false, false, true); std::vector<size_t> order; auto want = plan(c, w, order, false); shuffle(c, order); repeat(c, w, order); bool repair = c.chance(70), clear = true; c.desc << (repair ? "repair " : ""); std::vector<P> ends; for (auto& g : w.gaps) { ends.push_back(g.first); ends.push_back(g.second); } auto dist = [](P a, P b) { return std::hypot((double)a.x - b.x, (double)a.y - b.y); };
        for (size_t i = 0; i < ends.size(); ++i) for (size_t j = 0; j < ends.size(); ++j) if (j / 2 != i / 2 && dist(ends[i], ends[j]) < 2 * dist(ends[i], ends[i ^ 1])) clear = false; c.label(w.gaps.empty() ? "no gap" : w.gaps.size() == 1 ? "one gap" : "several gaps"); if (!clear) { c.label("gap not obvious"); throw pbt::Discard(); }
        if (!repair && !w.gaps.empty()) { std::vector<Want> rest; for (auto& x : want) if (x.exact) rest.push_back(x); want = rest; c.nontrivial(); } Sink s; run(c, w, repair, order, s); std::vector<Got> g; for (auto& a : s.list) g.push_back(got(c, *a)); compare(c, g, want);
    }
    c.eq(oldgeos::geom::live() - before, 0L, "geometries left behind");
}

// members that need not be rings at all
SCENARIO(broken, 20000, 800000) {
    long before = oldgeos::geom::live(); {
        World w; size_t nn = 2 + c.upto(8); std::vector<P> node; bool tiny = c.chance(50); for (size_t i = 0; i < nn; ++i) node.push_back(i && c.chance(8) ? node[c.upto(i - 1)] : c.chance(3) ? P{UNDEF, UNDEF} : P{(int32_t)c.upto(tiny ? 3 : 30) * 100000, (int32_t)c.upto(tiny ? 3 : 30) * 100000}); size_t nw = 1 + c.upto(5);
        for (size_t i = 0; i < nw; ++i) { W y; y.ring = 0; y.o.kind = 1; y.o.id = i + 1; size_t n = c.upto(7); for (size_t k = 0; k < n; ++k) { size_t x = k && c.chance(5) ? y.o.refs.back() - 1 : c.upto(nn - 1); y.o.refs.push_back(x + 1); } if (n > 2 && c.chance(50)) y.o.refs.push_back(y.o.refs[0]); for (auto r : y.o.refs) y.pos.push_back(node[r - 1]); y.o.tags = gen_tags(c, tag_kind(c)); w.ways.push_back(y); c.desc << "way " << y.o.id << " "; for (size_t k = 0; k < y.pos.size(); ++k) c.desc << y.o.refs[k] << "@" << y.pos[k].x / 100000 << "," << y.pos[k].y / 100000 << " "; c.desc << "; "; }
        size_t nr = 1 + c.upto(1); for (size_t i = 0; i < nr; ++i) { Rel r; r.o.kind = 2; r.o.id = i + 1; r.mp = true; r.o.tags = gen_tags(c, tag_kind(c)); r.o.tags.push_back(Tag{"type", "multipolygon"}); for (auto& y : w.ways) if (c.chance(85)) { r.o.members.push_back(Member{'w', y.o.id, "x"}); r.ways.insert(y.o.id); } if (c.chance(15) && !r.o.members.empty()) r.o.members.push_back(r.o.members[0]); w.rels.push_back(r); c.desc << model::str(r.o); }
        bool repair = c.chance(50); c.desc << (repair ? "repair" : ""); std::vector<size_t> order; for (size_t i = 0; i < nw; ++i) order.push_back(i); shuffle(c, order); Sink s; run(c, w, repair, order, s); size_t built = 0; std::set<int64_t> seen;
        for (auto& a : s.list) {
            if (a->from_way()) { const W* y = nullptr; for (auto& q : w.ways) if (q.o.id == a->orig_id()) y = &q; c.check(y, "area from a way that does not exist"); bool member = false; for (auto& r : w.rels) member |= r.ways.count(y->o.id) > 0; if (!member) { c.check(simple_area(y->o), "area from a way that is not closed"); continue; } } else { c.check(seen.insert(a->id()).second, "area of a relation built twice"); ++built; }
            Got g = got(c, *a); c.check(valid(g.geom), "invalid multipolygon " + str(g.geom)); for (auto& p : g.geom) for (size_t i = 0; i < p.size(); ++i) c.check(area2(p[i]) == 0 || (area2(p[i]) < 0) == (i == 0), "direction of a ring in " + str(g.geom));
            std::set<std::pair<P, P>> edges; std::set<P> points; for (auto& y : w.ways) for (size_t i = 0; i < y.pos.size(); ++i) { points.insert(y.pos[i]); if (i) { edges.insert({y.pos[i - 1], y.pos[i]}); edges.insert({y.pos[i], y.pos[i - 1]}); } } for (auto& p : g.geom) for (auto& r : p) for (size_t i = 0; i < r.size(); ++i) { c.check(points.count(r[i]), "point that belongs to no way in " + str(g.geom)); if (i && !repair) c.check(edges.count({r[i - 1], r[i]}), "edge that belongs to no way in " + str(g.geom)); }
        }
        c.label(built ? "something built" : "nothing built"); c.nontrivial();
    }
    c.eq(oldgeos::geom::live() - before, 0L, "geometries left behind");
}

// the program that lists all areas of a file
SCENARIO(mpdump, 150, 4000) {
    World w; make_world(c, w, false, true, false); std::vector<size_t> order; auto want = plan(c, w, order, true); shuffle(c, order); repeat(c, w, order); Data d; std::map<int64_t, P> pos; WOpts o; o.enc = c.chance(50) ? PBF : XML; for (size_t i : order) for (size_t k = 0; k < w.ways[i].pos.size(); ++k) if (w.ways[i].pos[k].x != UNDEF) pos[w.ways[i].o.refs[k]] = w.ways[i].pos[k]; bool neg = c.chance(20), lack = false; for (auto& y : w.ways) for (auto& q : y.pos) lack |= q.x == UNDEF; if (lack) neg = false; /* for negative ids nodes that are missing are not detected */ auto id = [&](int64_t x) { return neg && x % 3 == 0 ? -x : x; };
    for (auto& p : pos) { Obj n; n.id = id(p.first); n.x = p.second.x; n.y = p.second.y; d.objs.push_back(n); } for (size_t i : order) { Obj y = w.ways[i].o; for (auto& r : y.refs) r = id(r); d.objs.push_back(normalise(y, o)); } for (auto& r : w.rels) d.objs.push_back(normalise(r.o, o)); std::string f = c.path(o.enc == PBF ? "a.osm.pbf" : "a.osm"); write_file(f, d, o); auto r = tool::run("osmium_mpdump", {f}); for (auto& x : want) if (x.none && r.status == 1000 + SIGABRT) c.check(r.err.find("IllegalGeometry") == r.err.npos, "osmium_mpdump ends at an area made from a way with nodes without position: " + show(r.err, 300), "mpdump-without-position"); c.eq(r.status, 0, "exit status of osmium_mpdump (" + show(r.err, 300) + ")");
    std::vector<Got> got; std::istringstream in(r.out); std::string l; std::multiset<int64_t> short_of, ignored; while (std::getline(in, l)) { if (l.find("Some member ways missing") != l.npos) { std::istringstream t(l.substr(l.find(':') + 1)); int64_t i; while (t >> i) short_of.insert(i); } if (l.find("Ignored non-way member") == 0) ignored.insert(strtoll(l.substr(l.rfind(' ') + 1).c_str(), nullptr, 10)); if (l.compare(0, 5, "Area ")) continue; Got g; char from[20] = ""; long long a = 0, b = 0; unsigned v = 0; long long ts = 0; int uid = 0, n = 0; sscanf(l.c_str(), "Area from %19s id=%lld (orig_id=%lld) version=%u timestamp=%lld uid=%d user=%n", from, &a, &b, &v, &ts, &uid, &n); c.check(n > 0, "line " + show(l, 200)); g.id = a; g.orig = b; g.from_way = !strcmp(from, "way"); g.o.version = v; g.o.timestamp = ts; g.o.uid = uid; g.o.user = l.substr(n); std::getline(in, l); c.check(l.compare(0, 2, "  ") == 0, "geometry line"); g.geom = parse(c, l.substr(2)); while (std::getline(in, l) && l.compare(0, 2, "  ") == 0) { size_t e = l.find('='); g.tags.insert({l.substr(2, e - 2), l.substr(e + 1)}); } got.push_back(g); }
    // relations without all of their ways, and members that are not used, are reported
    std::set<int64_t> there; for (size_t i : order) there.insert(w.ways[i].o.id); for (auto& q : w.rels) { size_t ways = 0, lost = 0, other = 0; if (q.mp) for (auto& m : q.o.members) if (m.type == 'w') { ++ways; lost += !there.count(m.ref); } else ++other; std::string n = "relation " + std::to_string(q.o.id); if (lost && !order.empty()) { c.label("incomplete relation reported"); c.check(short_of.count(q.o.id) == 1, n + " lacks ways and is not reported"); } else if (ways && !lost) c.check(!short_of.count(q.o.id), n + " is reported to lack ways"); c.eq(ignored.count(q.o.id), other, "members reported as ignored of " + n); }
    want.erase(std::remove_if(want.begin(), want.end(), [](const Want& x) { return x.none; }), want.end()); for (auto& x : want) { x.o = normalise(x.o, o); Obj n; n.kind = x.o.kind; n.id = x.o.id; n.version = x.o.version; n.timestamp = x.o.timestamp; n.uid = x.o.uid; n.user = x.o.user; x.o = n; } compare(c, got, want);
}
