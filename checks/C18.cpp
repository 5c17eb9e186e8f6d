// Positions keep seven decimal places exactly and order consistently.
// LIBS: pbf xml
// FLAGS: -fwrapv
#include "model.hpp"
#include <osmium/osm/segment.hpp>
#include <osmium/osm/undirected_segment.hpp>
#include <cmath>
using namespace model;
typedef Osmium::OSM::Position Pos; typedef Osmium::OSM::Segment Seg; typedef Osmium::OSM::UndirectedSegment USeg;

RULE("a case counts as non-trivial if a coordinate has a fraction that is not a power of two, or two of the positions compared share a coordinate; distinct by description");
ASSUME("values outside the range of 32 bit coordinates are not stored");

static int32_t coord(Ctx& c) { switch (c.weighted({25, 45, 20, 10})) { case 0: return (int32_t)c.range(-9, 9); case 1: return (int32_t)c.range(-2147483648LL, 2147483646); case 2: return (int32_t)c.range(-1800000000, 1800000000); default: { static const std::vector<int32_t> b = {0, -1, 1, 2147483646, 2147483645, -2147483647 - 1, -2147483647, 1800000000, -1800000000, 900000000, -900000000, 1799999999, 89999999, 10000000, 9999999, 10000001, 39062, 39063}; return c.pick(b); } } }
// the decimal text of a coordinate, made of integers only
static std::string decimal(int32_t v) { int64_t a = v < 0 ? -(int64_t)v : v; char b[40]; snprintf(b, sizeof b, "%s%lld.%07lld", v < 0 ? "-" : "", (long long)(a / 10000000), (long long)(a % 10000000)); return b; }
static double parse(const std::string& s) { return strtod(s.c_str(), nullptr); }

SCENARIO(seven_decimals, 600000, 20000000) {
    int32_t x = coord(c), y = coord(c); c.desc << x << "," << y; c.nontrivial(x % 78125 || y % 78125); double lon = parse(decimal(x)), lat = parse(decimal(y));
    auto same = [&](const Pos& p, const char* how) { c.check(p.x() == x && p.y() == y, std::string(how) + ": " + decimal(x) + "," + decimal(y) + " becomes " + std::to_string(p.x()) + "," + std::to_string(p.y())); c.check(p.lon() == lon && p.lat() == lat, std::string(how) + ": " + decimal(x) + "," + decimal(y) + " reads back as another number than the nearest double"); c.check(p.defined(), std::string(how) + ": position is undefined"); };
    same(Pos(x, y), "from fixed point"); same(Pos((int64_t)x, (int64_t)y), "from 64 bit fixed point"); same(Pos(lon, lat), "from floating point"); { Pos p; p.lon(lon); c.check(!p.defined(), "position with longitude only is defined"); p.lat(lat); same(p, "from single coordinates"); } { Pos p; p.y(y); c.check(!p.defined(), "position with y only is defined"); p.x(x); same(p, "from single fixed point coordinates"); } { Pos p(1, 2); p.lat(lat).lon(lon); same(p, "overwritten"); Pos q(p); same(q, "copied"); q.x(0); same(p, "after its copy was changed"); } 
    { Osmium::OSM::Node n; n.position(Pos(lon, lat)); same(n.position(), "of a node"); c.check(n.lon() == lon && n.lat() == lat, "coordinates of a node"); }
    // with fewer decimals, and from the text people write
    int64_t step = 1; for (int d = c.upto(7); d > 0; --d) step *= 10; int32_t r = (int32_t)(x / step * step); std::string t = decimal(r); if (t.find('.') != std::string::npos) { while (t.back() == '0') t.pop_back(); if (t.back() == '.') t.pop_back(); } Pos p(parse(t), 0.0); c.eq(p.x(), r, "x from " + t);
}
SCENARIO(rounding, 600000, 20000000) {
    // any double whose rounded value can be stored
    double v; switch (c.weighted({40, 25, 20, 15})) { case 0: v = (double)c.range(-214748364, 214748364) / 1e6 + (double)c.range(-1000000000000LL, 1000000000000LL) / 1e19; break; case 1: { double k = (double)coord(c); v = (k + (c.chance(50) ? 0.5 : -0.5) + (double)c.range(-1000, 1000) * 1e-6) / 1e7; break; } case 2: v = (double)c.range(-54975, 54975) / 256; break; default: { v = ldexp((double)c.range(-(1LL << 52), 1LL << 52), -(int)c.range(45, 200)); break; } }
    long double e = (long double)v * 10000000.0L; if (!(fabsl(e) < 2147483646.0L)) throw pbt::Discard(); char b[60]; snprintf(b, sizeof b, "%.17g", v); c.desc << b; c.nontrivial(v != floor(v)); c.label_if(fabsl(e - floorl(e) - 0.5L) < 1e-6L, "half a step");
    Pos p(v, -v); long double dist = fabsl((long double)p.x() - e); c.check(dist <= 0.5L + 1e-6L, std::string("longitude ") + b + " is stored as " + std::to_string(p.x()) + ", not as the nearest step"); c.eq((int64_t)p.y(), -(int64_t)p.x(), std::string("latitude of the opposite sign of ") + b); Pos q; q.lon(v); q.lat(-v); c.check(q == p, "setting single coordinates rounds differently"); Pos again(p.lon(), p.lat()); c.check(again == p, "reading and storing again changes the position");
    // storing is monotone
    double w = nextafter(v, 1000); Pos m(w, 0.0); c.check(m.x() >= p.x(), std::string("the next larger double after ") + b + " is stored as something smaller");
}
SCENARIO(undefined, 5000, 200000) {
    int32_t x = coord(c), y = coord(c); c.desc << x << "," << y; c.nontrivial(x == y || x % 7); c.check(!Pos().defined(), "a new position is defined"); Pos a; a.x(x); c.check(!a.defined(), "position with only x is defined"); Pos b; b.y(y); c.check(!b.defined(), "position with only y is defined"); a.y(y); c.check(a.defined(), "position with both is undefined"); b.x(x); c.check(b.defined(), "position with both is undefined"); Osmium::OSM::Node n; c.check(!n.position().defined(), "a new node has a position"); c.check(Pos() == Pos(), "two undefined positions differ"); c.check(!(Pos() < Pos()), "an undefined position is smaller than itself"); c.check(!(Pos(x, y) == Pos()), "a position equals the undefined one");
}
// few distinct coordinates so that many positions share one
static std::vector<Pos> some(Ctx& c, size_t n) { std::vector<int32_t> v; for (int i = 0; i < 3; ++i) v.push_back(coord(c)); std::vector<Pos> r; for (size_t i = 0; i < n; ++i) { int32_t a = c.chance(85) ? c.pick(v) : coord(c), b = c.chance(85) ? c.pick(v) : coord(c); r.push_back(Pos(a, b)); c.desc << a << "," << b << " "; } return r; }
static int cmp(const Pos& a, const Pos& b) { if (a.x() != b.x()) return a.x() < b.x() ? -1 : 1; if (a.y() != b.y()) return a.y() < b.y() ? -1 : 1; return 0; }
template <class T> static void order(Ctx& c, const T& a, const T& b, int want, const std::string& what) {
    c.eq(a < b, want < 0, what + " <"); c.eq(b < a, want > 0, what + " < reversed"); c.eq(a > b, want > 0, what + " >"); c.eq(a <= b, want <= 0, what + " <="); c.eq(a >= b, want >= 0, what + " >=");
}
SCENARIO(position_order, 100000, 3000000) {
    auto v = some(c, 4); bool share = false; for (auto& a : v) for (auto& b : v) { std::string w = "(" + std::to_string(a.x()) + "," + std::to_string(a.y()) + ") and (" + std::to_string(b.x()) + "," + std::to_string(b.y()) + ")"; int k = cmp(a, b); order(c, a, b, k, w); c.eq(a == b, k == 0, w + " =="); c.eq(a != b, k != 0, w + " !="); share |= &a != &b && (a.x() == b.x() || a.y() == b.y()); } c.nontrivial(share);
}
static int cmp(const Seg& a, const Seg& b) { int k = cmp(a.first(), b.first()); return k ? k : cmp(a.second(), b.second()); }
SCENARIO(segments, 60000, 2000000) {
    auto v = some(c, 6); bool share = false; std::vector<USeg> s; std::vector<Seg> d;
    for (size_t i = 0; i < 6; i += 2) {
        Pos a = v[i], b = v[i + 1]; USeg p(a, b), q(b, a); Pos lo = cmp(a, b) <= 0 ? a : b, hi = cmp(a, b) <= 0 ? b : a; c.check(p.first() == lo && p.second() == hi, "an undirected segment does not have its smaller end first"); c.check(q.first() == lo && q.second() == hi, "an undirected segment depends on the order of its ends"); c.check(p == q, "a segment and its reverse differ"); c.check(!(p != q), "a segment and its reverse differ"); order(c, p, q, 0, "a segment and its reverse"); s.push_back(p); s.push_back(q);
        Seg e(a, b), f(b, a); c.check(e.first() == a && e.second() == b, "ends of a directed segment"); c.eq(e == f, cmp(a, b) == 0, "directed segment equals its reverse"); c.eq(e != f, cmp(a, b) != 0, "directed segment differs from its reverse"); d.push_back(e); d.push_back(f);
    }
    for (auto& a : s) for (auto& b : s) { int k = cmp(a, b); order(c, a, b, k, "undirected segments"); c.eq(a == b, k == 0, "undirected segments =="); c.eq(a != b, k != 0, "undirected segments !="); share |= cmp(a.first(), b.first()) == 0 && k; } for (auto& a : d) for (auto& b : d) c.eq(a == b, cmp(a, b) == 0, "directed segments =="); c.nontrivial(share); c.label_if(share, "segments with the same first end");
    std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); ++i) c.check(cmp(s[i - 1], s[i]) <= 0, "sorted segments are out of order");
}
