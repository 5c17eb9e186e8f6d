// Distances on the sphere are correct and behave like a metric.
// LIBS: pbf xml
#include "model.hpp"
#include <osmium/geometry/haversine.hpp>
#include <cmath>
using namespace model;
typedef Osmium::OSM::Position Pos; namespace H = Osmium::Geometry::Haversine;

RULE("a case counts as non-trivial if at least two positions differ in both coordinates; distinct by description");
ASSUME("positions are on earth: longitude within 180, latitude within 90 degrees");

static const long double PI = 3.14159265358979323846264338327950288L, RADIUS = 6372797.560856L;
static int32_t lon(Ctx& c) { switch (c.weighted({50, 30, 20})) { case 0: return (int32_t)c.range(-1800000000, 1800000000); case 1: return (int32_t)c.range(-100, 100); default: return c.pick(std::vector<int32_t>{0, 1800000000, -1800000000, 900000000, -900000000, 1, -1, 1799999999, -1799999999}); } }
static int32_t lat(Ctx& c) { switch (c.weighted({50, 30, 20})) { case 0: return (int32_t)c.range(-900000000, 900000000); case 1: return (int32_t)c.range(-100, 100); default: return c.pick(std::vector<int32_t>{0, 900000000, -900000000, 899999999, -899999999, 1, -1, 450000000}); } }
struct P { int32_t x, y; };
static P near(Ctx& c, P p) { // related to a position: same, close, antipodal, nearly antipodal, other side of the date line
    auto cl = [](int64_t v, int64_t l) { return (int32_t)(v > l ? l : v < -l ? -l : v); }; int64_t e = c.chance(50) ? (int64_t)c.range(-50, 50) : (int64_t)c.range(-100000, 100000), f = c.chance(50) ? (int64_t)c.range(-50, 50) : (int64_t)c.range(-100000, 100000); int64_t ax = p.x > 0 ? (int64_t)p.x - 1800000000 : (int64_t)p.x + 1800000000;
    switch (c.upto(4)) { case 0: return p; case 1: return P{cl(p.x + e, 1800000000), cl(p.y + f, 900000000)}; case 2: return P{(int32_t)ax, -p.y}; case 3: return P{cl(ax + e, 1800000000), cl(-(int64_t)p.y + f, 900000000)}; default: return P{-p.x, p.y}; }
}
static P gen(Ctx& c, const std::vector<P>& v) { P p; if (!v.empty() && c.chance(40)) p = near(c, v[c.upto(v.size() - 1)]); else { p.x = lon(c); p.y = lat(c); } c.desc << p.x << "," << p.y << " "; return p; }
// angle between the two directions, by cross and dot product
static void dir(P p, long double* d) { long double a = p.x * PI / 1800000000.0L, b = p.y * PI / 1800000000.0L; d[0] = cosl(b) * cosl(a); d[1] = cosl(b) * sinl(a); d[2] = sinl(b); }
static long double oracle(P p, P q) { long double a[3], b[3]; dir(p, a); dir(q, b); long double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0], dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; return RADIUS * atan2l(sqrtl(x * x + y * y + z * z), dot); }
// a formula in doubles has little to offer where it is flat: near antipodes one unit in the last place is centimetres
static long double tol(long double d) { long double rest = PI * RADIUS - d; if (rest < 1) rest = 1; long double flat = RADIUS * 1e-14L * (RADIUS / rest); if (flat > 1) flat = 1; return 1e-7L + d * 1e-12L + flat; }
static Pos pos(P p) { return Pos(p.x, p.y); }
static std::string s(long double d) { char b[60]; snprintf(b, sizeof b, "%.12Lg", d); return b; }
static void finite(Ctx& c, double d, const char* what) { c.check(std::isfinite(d) && d >= 0, std::string(what) + " is " + std::to_string(d)); }

static void pair(Ctx& c, P a, P b) {
    c.nontrivial(a.x != b.x && a.y != b.y); double d = H::distance(pos(a), pos(b)), e = H::distance(pos(b), pos(a)); long double w = oracle(a, b); finite(c, d, "distance"); c.label(w < 1 ? "below a metre" : PI * RADIUS - w < 1000 ? "nearly antipodal" : "other");
    c.check(fabsl(d - w) <= tol(w), "distance is " + s(d) + ", expected " + s(w)); c.check(d == e, "distance is " + s(d) + " one way and " + s(e) + " the other"); if (a.x == b.x && a.y == b.y) c.eq(d, 0.0, "distance of a position from itself"); if (w > 1e-6L) c.check(d > 0, "different places have no distance");
    double f = H::distance(a.x / 1e7, a.y / 1e7, b.x / 1e7, b.y / 1e7); c.check(f == d || fabsl(f - d) <= tol(w), "distance of numbers is " + s(f) + ", of positions " + s(d)); double g = H::distance(pos(P{-a.x, a.y}), pos(P{-b.x, b.y})), h = H::distance(pos(P{a.x, -a.y}), pos(P{b.x, -b.y})); c.check(fabsl(g - d) <= 2 * tol(w) && fabsl(h - d) <= 2 * tol(w), "distance changes when mirrored");
}
SCENARIO(two_positions, 1000000, 30000000) { std::vector<P> v; v.push_back(gen(c, v)); v.push_back(gen(c, v)); pair(c, v[0], v[1]); }
// where the formula is nearly one, rounding decides
SCENARIO(antipodes, 1500000, 40000000) { P a; a.x = c.chance(80) ? (int32_t)c.range(-1799999999, 1799999999) : lon(c); a.y = c.chance(80) ? (int32_t)c.range(-899999998, 899999998) : lat(c); int64_t x = a.x > 0 ? (int64_t)a.x - 1800000000 : (int64_t)a.x + 1800000000, y = -(int64_t)a.y; if (c.chance(30)) x += c.range(-2, 2); y += c.range(-2, 2); if (llabs(x) > 1800000000 || llabs(y) > 900000000) throw pbt::Discard(); P b{(int32_t)x, (int32_t)y}; c.desc << a.x << "," << a.y << " " << b.x << "," << b.y; pair(c, a, b); }
SCENARIO(triangle, 400000, 10000000) {
    std::vector<P> v; for (int i = 0; i < 3; ++i) v.push_back(gen(c, v)); c.nontrivial(v[0].x != v[1].x && v[0].y != v[1].y && v[2].x != v[1].x); double ab = H::distance(pos(v[0]), pos(v[1])), bc = H::distance(pos(v[1]), pos(v[2])), ac = H::distance(pos(v[0]), pos(v[2])); c.check(ac <= ab + bc + tol(ab) + tol(bc) + tol(ac), "direct way of " + s(ac) + " is longer than the detour of " + s(ab) + " and " + s(bc));
}
SCENARIO(lengths, 100000, 2000000) {
    std::vector<P> v; while (c.more(88)) v.push_back(gen(c, v)); c.nontrivial(v.size() > 2); Osmium::OSM::WayNodeList l, r; int64_t id = 1; for (auto& p : v) l.add(Osmium::OSM::WayNode(id++, pos(p))); for (size_t i = v.size(); i > 0; --i) r.add(Osmium::OSM::WayNode(id++, pos(v[i - 1]))); long double w = 0, t = 0; double sum = 0; for (size_t i = 1; i < v.size(); ++i) { long double d = oracle(v[i - 1], v[i]); w += d; t += tol(d) + 1e-15L * w; sum += H::distance(pos(v[i - 1]), pos(v[i])); }
    double a = H::distance(l), b = H::distance(r); finite(c, a, "length"); c.check(fabsl(a - w) <= t + 1e-9L, "length is " + s(a) + ", expected " + s(w)); c.check(fabsl(a - sum) <= 1e-9L + 1e-13L * w * v.size(), "length is " + s(a) + ", the sum of the distances is " + s(sum)); c.check(fabsl(a - b) <= 1e-9L + 1e-13L * w * v.size(), "length changes on reversal from " + s(a) + " to " + s(b)); if (v.size() < 2) c.eq(a, 0.0, "length of fewer than two nodes");
}
