// Geometries are written as exact, standard WKT and (E)WKB.
// LIBS: pbf xml gdal geosc
// GEOS: old
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <new>
#include "oldgeos.hpp"
#include "model.hpp"
#include <osmium/geometry/point.hpp>
#include <osmium/geometry/linestring.hpp>
#include <osmium/geometry/polygon.hpp>
#include <osmium/geometry/null.hpp>
#include <osmium/geometry/ogr.hpp>
#include <osmium/geometry/geos.hpp>
#include <iomanip>
using namespace model;
namespace G = Osmium::Geometry; typedef Osmium::OSM::Position Pos;

RULE("a case counts as non-trivial if the geometry has at least two different positions or a coordinate with seven decimals; distinct by description");
ASSUME("a linestring has at least one node; the output stream is not set to hexadecimal floating point, a field width or another locale");

struct P { int32_t x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } };
static int32_t coord(Ctx& c) { switch (c.weighted({20, 35, 30, 15})) { case 0: return (int32_t)c.range(-12, 12); case 1: return (int32_t)c.range(-2147483648LL, 2147483647); case 2: return (int32_t)c.range(-1800000000, 1800000000); default: { static const std::vector<int32_t> b = {0, -1, 1, 2147483647, 2147483646, -2147483647 - 1, 1800000000, -1800000000, 900000000, -900000000, 1799999999, -1799999999, 1234567891, 1000000001, 999999999, 10000000, 9999999, 100, 99999, -99999, 1000, 999}; return c.pick(b); } } }
static P point(Ctx& c) { P p; p.x = coord(c); p.y = coord(c); return p; }
static double deg(int32_t v) { return v / 10000000.0; }
static std::vector<P> rev(std::vector<P> v) { std::reverse(v.begin(), v.end()); return v; }

// ---- parser for the text form
struct Wkt { std::string kind; bool srid = false; std::vector<std::vector<P>> rings; };
static bool number(const std::string& s, size_t& i, int32_t& v, std::string& err) { const char* b = s.c_str() + i; char* e; double d = strtod(b, &e); if (e == b) { err = "number expected at " + s.substr(i, 20); return false; } long double n = (long double)d * 10000000.0L; long double r = roundl(n); if (fabsl(n - r) > 1e-5L || fabsl(r) > 2147483648.0L) { err = "number " + std::string(b, (const char*)e) + " is no coordinate"; return false; } std::string t(b, (const char*)e); for (char ch : t) if (!strchr("+-.0123456789eE", ch)) { err = "number written as " + t; return false; } v = (int32_t)r; i = e - s.c_str(); return true; }
static Wkt parse(Ctx& c, const std::string& s) {
    Wkt w; size_t i = 0; std::string err; auto lit = [&](const char* t) { size_t n = strlen(t); if (s.compare(i, n, t)) return false; i += n; return true; }; auto list = [&]() { std::vector<P> v; if (!lit("(")) { err = "( expected"; return v; } do { P p; if (!number(s, i, p.x, err)) return v; if (!lit(" ")) { err = "blank expected"; return v; } if (!number(s, i, p.y, err)) return v; v.push_back(p); } while (lit(",")); if (!lit(")")) err = ") expected"; return v; };
    if (lit("SRID=4326;")) w.srid = true; for (const char* k : {"POINT", "LINESTRING", "POLYGON"}) if (lit(k)) { w.kind = k; break; } if (w.kind.empty()) err = "unknown kind"; else if (w.kind == "POLYGON") { if (!lit("(")) err = "( expected"; else { do w.rings.push_back(list()); while (err.empty() && lit(",")); if (err.empty() && !lit(")")) err = ") expected"; } } else w.rings.push_back(list()); if (err.empty() && i != s.size()) err = "surplus text"; c.check(err.empty(), "text " + show(s, 200) + " is not valid: " + err); return w;
}
// ---- encoder for the binary form
static void put32(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); }
static void putd(std::string& s, double d) { uint64_t v; memcpy(&v, &d, 8); for (int i = 0; i < 8; ++i) s += (char)(v >> 8 * i); }
static std::string wkb(int kind, const std::vector<P>& v, bool srid) { std::string s = "\x01"; put32(s, kind | (srid ? 0x20000000 : 0)); if (srid) put32(s, 4326); if (kind == 3) put32(s, 1); if (kind != 1) put32(s, v.size()); for (auto& p : v) { putd(s, deg(p.x)); putd(s, deg(p.y)); } return s; }
static std::string hex(const std::string& s) { std::string r; for (unsigned char ch : s) { r += "0123456789ABCDEF"[ch >> 4]; r += "0123456789ABCDEF"[ch & 15]; } return r; }
// a stream that was used for something else before
static void dirty(Ctx& c, std::ostream& o) { if (c.chance(40)) { o.precision(c.upto(20)); if (c.chance(30)) o << std::fixed; else if (c.chance(30)) o << std::scientific; if (c.chance(20)) o << std::hex; if (c.chance(20)) o << std::uppercase; if (c.chance(20)) o << std::showpos; if (c.chance(20)) o << std::showpoint; c.desc << " stream " << o.precision() << "/" << o.flags(); c.label("stream in another state"); } }
template <class T> static std::string text(Ctx& c, const T& what) { std::ostringstream o; dirty(c, o); o << what; return o.str(); }

static void forms(Ctx& c, const G::Geometry& g, int kind, const std::vector<P>& want, int64_t id) {
    static const char* K[] = {"", "POINT", "LINESTRING", "POLYGON"}; c.eq(g.id(), id, "id of the geometry");
    for (int srid = 0; srid < 2; ++srid) {
        std::string t = text(c, g.as_WKT(srid)); Wkt w = parse(c, t); c.eq(w.kind, std::string(K[kind]), "kind in " + show(t, 200)); c.eq(w.srid, srid == 1, "SRID in " + show(t, 200)); c.eq(w.rings.size(), (size_t)1, "parts of " + show(t, 200)); if (w.rings[0] != want) { size_t i = 0; while (i < want.size() && i < w.rings[0].size() && want[i] == w.rings[0][i]) ++i; c.fail("position " + std::to_string(i) + " of " + std::to_string(want.size()) + " is wrong in " + show(t, 300)); }
        std::string b = text(c, g.as_WKB(srid)), e = wkb(kind, want, srid); if (b != e) { size_t i = 0; while (i < b.size() && i < e.size() && b[i] == e[i]) ++i; c.fail("binary form differs at byte " + std::to_string(i) + " (" + std::to_string(b.size()) + " bytes instead of " + std::to_string(e.size()) + "): " + hex(b).substr(0, 300)); } std::string h = text(c, g.as_HexWKB(srid)); c.check(h == hex(e), "hexadecimal form is " + show(h, 300) + " instead of " + show(hex(e), 300));
    }
    c.check(text(c, g.as_WKB()) == wkb(kind, want, false) && text(c, g.as_HexWKB()) == hex(wkb(kind, want, false)), "default forms have an SRID"); c.check(!parse(c, text(c, g.as_WKT())).srid, "default text has an SRID");
    { std::ostringstream t, b, h, ts, bs, hs; g.write_to_stream(t, g.as_WKT()); g.write_to_stream(b, g.as_WKB()); g.write_to_stream(h, g.as_HexWKB()); g.write_to_stream(ts, g.as_WKT(), true); g.write_to_stream(bs, g.as_WKB(), true); g.write_to_stream(hs, g.as_HexWKB(), true); c.check(!parse(c, t.str()).srid && parse(c, t.str()).rings[0] == want && parse(c, ts.str()).srid && parse(c, ts.str()).rings[0] == want && b.str() == wkb(kind, want, false) && bs.str() == wkb(kind, want, true) && h.str() == hex(wkb(kind, want, false)) && hs.str() == hex(wkb(kind, want, true)), "forms written by write_to_stream"); }
    // several in one stream
    std::ostringstream o; o << g.as_WKT() << "\n" << g.as_HexWKB(true) << "\n" << g.as_WKT(true); std::string s = o.str(), want2 = hex(wkb(kind, want, true)); size_t n = s.find('\n'), m = s.rfind('\n'); c.check(n != std::string::npos && m > n && s.substr(n + 1, m - n - 1) == want2, "hexadecimal form after the text form"); c.check(parse(c, s.substr(0, n)).rings[0] == want && parse(c, s.substr(m + 1)).rings[0] == want, "text form in a stream used before");
}
static void same_ogr(Ctx& c, const OGRLineString* l, const std::vector<P>& want) { c.eq(l->getNumPoints(), (int)want.size(), "points of the OGR geometry"); for (size_t i = 0; i < want.size(); ++i) if (l->getX(i) != deg(want[i].x) || l->getY(i) != deg(want[i].y)) c.fail("point " + std::to_string(i) + " of the OGR geometry differs"); }
static bool known(const std::vector<P>& v) { for (auto& p : v) if (p.x == 2147483647 || p.y == 2147483647) return false; return true; }
// other libraries' geometries: the same points, or an exception if a position is not known
template <class G, class F> static void ogr(Ctx& c, const G& g, const std::vector<P>& want, F look) { try { std::unique_ptr<typename std::remove_pointer<decltype(Osmium::Geometry::create_ogr_geometry(g))>::type> o(Osmium::Geometry::create_ogr_geometry(g)); c.check(known(want), "OGR geometry with a position that is not known"); look(o.get()); } catch (const Osmium::Geometry::IllegalGeometry&) { c.check(!known(want), "no OGR geometry made"); c.label("position not known"); } }
static void same_geos(Ctx& c, const oldgeos::geom::CoordinateSequence* s, const std::vector<P>& want) { c.eq(s->getSize(), want.size(), "points of the GEOS geometry"); for (size_t i = 0; i < want.size(); ++i) if (s->getX(i) != deg(want[i].x) || s->getY(i) != deg(want[i].y)) c.fail("point " + std::to_string(i) + " of the GEOS geometry differs"); }
template <class G, class F> static void geos_(Ctx& c, const G& g, const std::vector<P>& want, bool makeable, F look) { if (!known(want)) return; try { std::unique_ptr<oldgeos::geom::Geometry> o(Osmium::Geometry::create_geos_geometry(g)); c.check(makeable, "GEOS geometry GEOS cannot make"); c.eq(o->getSRID(), 4326, "SRID of the GEOS geometry"); look(o.get()); } catch (const oldgeos::util::GEOSException&) { c.check(!makeable, "no GEOS geometry made"); c.label("refused by GEOS"); } }
static std::vector<P> gen_list(Ctx& c) { std::vector<P> v; do v.push_back(!v.empty() && c.chance(10) ? v[c.upto(v.size() - 1)] : point(c)); while (c.more(c.thorough ? 90 : 80)); return v; }
static void describe(Ctx& c, const std::vector<P>& v) { bool d = false; for (auto& p : v) { c.desc << p.x << "," << p.y << " "; d |= !(p == v[0]) || p.x % 10 || p.y % 10; } c.nontrivial(d); }

SCENARIO(points, 40000, 2000000) {
    P p = point(c); int64_t id = c.chance(50) ? 0 : c.range(-1000000000000LL, 1000000000000LL); describe(c, {p}); c.desc << "id " << id; Osmium::OSM::Node n; n.id(id); n.position(Pos(p.x, p.y)); G::Point a(Pos(p.x, p.y), id), b(n); forms(c, a, 1, {p}, id); forms(c, b, 1, {p}, id); c.check(a.lon() == deg(p.x) && a.lat() == deg(p.y) && a.position() == Pos(p.x, p.y), "coordinates of the point"); c.eq(G::Point(Pos(1, 2)).id(), (osm_object_id_t)0, "default id"); ogr(c, b, {p}, [&](const OGRPoint* o) { c.check(o->getX() == deg(p.x) && o->getY() == deg(p.y), "coordinates of the OGR point"); }); geos_(c, b, {p}, true, [&](const oldgeos::geom::Geometry* g) { auto o = dynamic_cast<const oldgeos::geom::Point*>(g); c.check(o && o->getX() == deg(p.x) && o->getY() == deg(p.y), "coordinates of the GEOS point"); });
}
SCENARIO(linestrings, 15000, 600000) {
    auto v = gen_list(c); bool r = c.chance(50); int64_t id = c.range(-5, 1000000000000LL); describe(c, v); c.desc << (r ? "reverse " : "") << "id " << id; c.label_if(r, "reverse"); Osmium::OSM::Way w; w.id(id); int64_t k = 1; for (auto& p : v) w.nodes().add(Osmium::OSM::WayNode(k++, Pos(p.x, p.y))); auto want = r ? rev(v) : v;
    G::LineString a(w, r), b(w.nodes(), r, id), d(w.nodes()); forms(c, a, 2, want, id); forms(c, b, 2, want, id); forms(c, d, 2, v, 0); c.eq(a.reverse(), r, "reverse flag"); ogr(c, a, want, [&](const OGRLineString* o) { same_ogr(c, o, want); }); geos_(c, b, want, want.size() != 1, [&](const oldgeos::geom::Geometry* g) { auto o = dynamic_cast<const oldgeos::geom::LineString*>(g); c.check(o, "kind of GEOS geometry"); same_geos(c, o->getCoordinatesRO(), want); }); for (size_t i = 0; i < v.size(); ++i) c.check(a[i].position() == Pos(v[i].x, v[i].y), "the geometry's own list changed"); for (size_t i = 0; i < v.size(); ++i) c.check(w.nodes()[i].position() == Pos(v[i].x, v[i].y), "the nodes of the way changed");
}
SCENARIO(polygons, 15000, 600000) {
    auto v = gen_list(c); bool r = c.chance(50); int64_t id = c.range(-5, 1000000000000LL); bool close = !c.chance(25); Osmium::OSM::Way w; w.id(id); int64_t k = 1; std::vector<int64_t> ids; for (auto& p : v) { ids.push_back(c.chance(10) && !ids.empty() ? ids[c.upto(ids.size() - 1)] : k++); (void)p; } if (close) { ids.push_back(ids[0]); v.push_back(c.chance(90) ? v[0] : point(c)); } else if (v.size() > 1 && c.chance(50)) v.back() = v[0];
    for (size_t i = 0; i < v.size(); ++i) w.nodes().add(Osmium::OSM::WayNode(ids[i], Pos(v[i].x, v[i].y))); describe(c, v); c.desc << "nodes "; for (auto i : ids) c.desc << i << " "; c.desc << (r ? "reverse " : "") << "id " << id; bool closed = ids.front() == ids.back(); c.label(closed ? "closed" : "not closed"); c.label_if(r, "reverse");
    if (!closed) { for (int how = 0; how < 3; ++how) { bool thrown = false; try { if (how == 0) G::Polygon p(w, r); else if (how == 1) G::Polygon p(w.nodes(), r, id); else { G::Polygon p(w); std::ostringstream o; o << p.as_WKT(); } } catch (const G::RingNotClosed&) { thrown = true; } c.check(thrown, "polygon made from a way that is not closed"); } return; }
    auto want = r ? rev(v) : v; G::Polygon a(w, r), b(w.nodes(), r, id); forms(c, a, 3, want, id); forms(c, b, 3, want, id); ogr(c, a, want, [&](const OGRPolygon* o) { c.eq(o->getNumInteriorRings(), 0, "inner rings"); same_ogr(c, o->getExteriorRing(), want); }); geos_(c, b, want, want.size() > 3 && want.front() == want.back(), [&](const oldgeos::geom::Geometry* g) { auto o = dynamic_cast<const oldgeos::geom::Polygon*>(g); c.check(o, "kind of GEOS geometry"); c.eq(o->getNumInteriorRing(), (size_t)0, "inner rings"); same_geos(c, o->getExteriorRing()->getCoordinatesRO(), want); });
    // a polygon and the linestring of the same way agree
    G::LineString l(w, r); std::string p = text(c, a.as_WKB()).substr(9), q = text(c, l.as_WKB()).substr(5); c.check(p == q, "polygon and linestring of the same way have different points");
}
SCENARIO(long_lines, 40, 1500) { pbt::u64 seed = c.upto(~0ULL); Bulk b{seed}; size_t n = c.chance(20) ? c.pick(std::vector<size_t>{32767, 65534, 65535, 65536, 65537, 131073}) : 200 + b.upto(5000); std::vector<P> v; for (size_t i = 0; i < n; ++i) v.push_back(P{(int32_t)b.next(), (int32_t)b.next()}); bool r = c.chance(50), poly = c.chance(50); c.desc << n << " nodes, seed " << seed << (r ? " reverse" : "") << (poly ? " polygon" : ""); c.nontrivial(); if (poly) v.push_back(v[0]); Osmium::OSM::Way w; w.id(5); for (size_t i = 0; i < v.size(); ++i) w.nodes().add(Osmium::OSM::WayNode(poly && i + 1 == v.size() ? 1 : i + 1, Pos(v[i].x, v[i].y))); auto want = r ? rev(v) : v; if (poly) { G::Polygon g(w, r); forms(c, g, 3, want, 5); ogr(c, g, want, [&](const OGRPolygon* o) { same_ogr(c, o->getExteriorRing(), want); }); } else { G::LineString g(w, r); forms(c, g, 2, want, 5); ogr(c, g, want, [&](const OGRLineString* o) { same_ogr(c, o, want); }); } }
SCENARIO(null_geometry, 200, 2000) { G::Null n; c.desc << "null"; c.check(text(c, n.as_WKT(c.chance(50))).empty() && text(c, n.as_WKB(c.chance(50))).empty() && text(c, n.as_HexWKB(c.chance(50))).empty(), "the null geometry writes something"); c.eq(n.id(), (osm_object_id_t)0, "id"); }
