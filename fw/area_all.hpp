// The library with areas, for checks built against the stand-in for the GEOS of its time (header line "GEOS: old").
#ifndef VERIF_AREA_ALL_HPP
#define VERIF_AREA_ALL_HPP
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <new>
#include "oldgeos.hpp"
#include <osmium/osm/area.hpp>
#include "model.hpp"
#include <osmium/geometry/multipolygon.hpp>

namespace areas {
using namespace model;
struct P { int32_t x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } bool operator!=(const P& o) const { return !(*this == o); } bool operator<(const P& o) const { return x != o.x ? x < o.x : y < o.y; } };
typedef std::vector<P> Ring;                // closed: the first point is repeated at the end
typedef std::vector<Ring> Poly;             // outer ring, then the holes
typedef std::vector<Poly> Multi;

inline double deg(int32_t v) { return v / 10000000.0; }
// twice the signed area, exact; negative for clockwise rings
inline __int128 area2(const Ring& r) { __int128 s = 0; for (size_t i = 0; i + 1 < r.size(); ++i) s += (__int128)r[i].x * r[i + 1].y - (__int128)r[i + 1].x * r[i].y; return s; }
inline Ring turned(Ring r, bool clockwise) { if ((area2(r) < 0) != clockwise) std::reverse(r.begin(), r.end()); return r; }
// the same ring starting elsewhere is the same
inline Ring from_least(Ring r) { if (r.size() < 2) return r; r.pop_back(); std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end()); r.push_back(r[0]); return r; }
inline Multi canonical(Multi m) { for (auto& p : m) { for (auto& r : p) r = from_least(r); if (p.size() > 1) std::sort(p.begin() + 1, p.end()); } std::sort(m.begin(), m.end()); return m; }
inline std::string str(const Ring& r) { std::ostringstream o; o << "("; for (auto& p : r) o << p.x << "," << p.y << " "; o << ")"; return o.str(); }
inline std::string str(const Multi& m) { std::ostringstream o; for (auto& p : m) { o << "["; for (auto& r : p) o << str(r); o << "]"; } return o.str(); }

// the text form of a multipolygon
inline Multi parse(Ctx& c, const std::string& s, bool srid = false) {
    Multi m; size_t i = 0; bool bad = false; auto lit = [&](const char* t) { size_t n = strlen(t); if (s.compare(i, n, t)) return false; i += n; return true; };
    auto num = [&](int32_t& v) { const char* b = s.c_str() + i; char* e; double d = strtod(b, &e); if (e == b) { bad = true; return; } double r = std::round(d * 1e7); if (std::fabs(r) > 2147483648.0 || r / 1e7 != d) bad = true; v = (int32_t)r; i = e - s.c_str(); };
    if (srid && !lit("SRID=4326;")) c.fail("no SRID in " + show(s, 100)); if (!lit("MULTIPOLYGON (")) c.fail("no multipolygon: " + show(s, 100));
    do { if (!lit("(")) { bad = true; break; } Poly p; do { if (!lit("(")) { bad = true; break; } Ring r; do { P q{0, 0}; num(q.x); if (bad || !lit(" ")) { bad = true; break; } num(q.y); r.push_back(q); } while (!bad && lit(", ")); if (!bad && !lit(")")) bad = true; p.push_back(r); } while (!bad && lit(", ")); if (!bad && !lit(")")) bad = true; m.push_back(p); } while (!bad && lit(", "));
    if (bad || !lit(")") || i != s.size()) c.fail("text of the multipolygon is wrong: " + show(s, 300)); return m;
}
inline std::string wkb(const Multi& m, bool srid) {
    std::string s; auto u = [&](uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); }; auto d = [&](double x) { uint64_t v; memcpy(&v, &x, 8); for (int i = 0; i < 8; ++i) s += (char)(v >> 8 * i); };
    s += '\1'; u(6 | (srid ? 0x20000000 : 0)); if (srid) u(4326); u(m.size()); for (auto& p : m) { s += '\1'; u(3); u(p.size()); for (auto& r : p) { u(r.size()); for (auto& q : r) { d(deg(q.x)); d(deg(q.y)); } } } return s;
}
inline std::string hex(const std::string& s) { std::string r; for (unsigned char ch : s) { r += "0123456789ABCDEF"[ch >> 4]; r += "0123456789ABCDEF"[ch & 15]; } return r; }
// valid by the rules for simple features, as judged by GEOS from scratch
inline bool valid(const Multi& m) { oldgeos::geom::init_c(); auto ring = [](const Ring& r) { GEOSCoordSequence* s = GEOSCoordSeq_create(r.size(), 2); for (size_t i = 0; i < r.size(); ++i) { GEOSCoordSeq_setX(s, i, deg(r[i].x)); GEOSCoordSeq_setY(s, i, deg(r[i].y)); } return GEOSGeom_createLinearRing(s); }; std::vector<GEOSGeometry*> ps; for (auto& p : m) { std::vector<GEOSGeometry*> h; for (size_t i = 1; i < p.size(); ++i) h.push_back(ring(p[i])); ps.push_back(GEOSGeom_createPolygon(ring(p[0]), h.data(), h.size())); } GEOSGeometry* g = GEOSGeom_createCollection(::GEOS_MULTIPOLYGON, ps.data(), ps.size()); bool ok = GEOSisValid(g) == 1; GEOSGeom_destroy(g); return ok; }
} // namespace areas
#endif
