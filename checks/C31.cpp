// Shapefiles hold exactly the shapes and attributes that were added.
// LIBS: pbf xml geosc shp
// GEOS: old
// TOOLS: osmium_toshape
// FLAGS: -fsanitize=address
#include "area_all.hpp"
#include <osmium/geometry/null.hpp>
#include <osmium/export/shapefile.hpp>
#include "io.hpp"
#include "tool.hpp"
#include "shpread.hpp"
#include <set>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace areas; namespace G = Osmium::Geometry; namespace X = Osmium::Export;

RULE("a case counts as non-trivial if at least two records with a value are written, a limit is hit or a text is cut; distinct by description");
ASSUME("at least one attribute is set for every shape of a file with fields, as the documentation asks for; numbers are finite; writing to disk does not fail");
ASSUME("the shape library's own conventions are accepted: names of fields are cut to ten characters, numbers are written with the field's width and decimals, a missing value is blank or marked");

static struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } } nullbuf;
static struct Quiet { Quiet() { pbt::worker_init() = [] { std::cerr.rdbuf(&nullbuf); ::close(2); ::open("/dev/null", O_WRONLY); }; } } quiet;

// ---- files that are too large to be written: only their start, size and the start of every large write are kept
struct Virtual { std::string name, head; int64_t size = 0, pos = 0; };
static const size_t HEAD = 1 << 20;
static bool capture = false; static std::map<std::string, Virtual>& virt() { static std::map<std::string, Virtual> v; return v; }
static ssize_t v_write(void* p, const char* b, size_t n) { Virtual& v = *(Virtual*)p; if (v.pos < (int64_t)HEAD) { size_t m = std::min<size_t>(n, HEAD - v.pos); if (v.head.size() < v.pos + m) v.head.resize(v.pos + m); memcpy(&v.head[v.pos], b, m); } v.pos += n; v.size = std::max(v.size, v.pos); return n; }
static ssize_t v_read(void* p, char* b, size_t n) { Virtual& v = *(Virtual*)p; size_t m = v.pos < v.size ? std::min<size_t>(n, v.size - v.pos) : 0; memset(b, ' ', m); if (v.pos < (int64_t)v.head.size()) memcpy(b, &v.head[v.pos], std::min<size_t>(m, v.head.size() - v.pos)); v.pos += m; return m; }
static int v_seek(void* p, off64_t* o, int w) { Virtual& v = *(Virtual*)p; int64_t t = w == SEEK_SET ? *o : w == SEEK_CUR ? v.pos + *o : v.size + *o; if (t < 0) return -1; v.pos = *o = t; return 0; }
static FILE* v_open(const char* f, const char* m) { std::string s = f; if (!capture || (*m != 'r' && *m != 'w') || s.size() < 4) return nullptr; std::string e = s.substr(s.size() - 4); if (e != ".shp" && e != ".dbf") return nullptr; Virtual& v = virt()[s]; if (*m == 'r' && v.name.empty()) return nullptr; if (*m == 'w') v = Virtual(); v.name = s; v.pos = 0; cookie_io_functions_t io = {v_read, v_write, v_seek, nullptr}; FILE* r = fopencookie(&v, m, io); return r; }
typedef FILE* (*Opener)(const char*, const char*);
extern "C" FILE* verif_fopen(const char* f, const char* m) __asm__("fopen"); extern "C" FILE* verif_fopen64(const char* f, const char* m) __asm__("fopen64");
FILE* verif_fopen(const char* f, const char* m) { static Opener real = (Opener)dlsym(RTLD_NEXT, "fopen"); FILE* r = v_open(f, m); return r ? r : real(f, m); }
FILE* verif_fopen64(const char* f, const char* m) { static Opener real = (Opener)dlsym(RTLD_NEXT, "fopen64"); FILE* r = v_open(f, m); return r ? r : real(f, m); }


// ---- generators
static std::string utf8(Ctx& c, size_t max_chars, std::vector<std::string>* parts = nullptr) { std::string s; size_t n = c.upto(max_chars); int style = c.upto(3); for (size_t i = 0; i < n; ++i) { uint32_t u; switch (style ? c.weighted({50, 30, 12, 8}) : 0) { case 0: u = 33 + c.upto(93); if (c.chance(5)) u = ' '; break; case 1: u = c.range(0x80, 0x7ff); break; case 2: u = c.range(0x800, 0xd7ff); if (c.chance(30)) u = c.range(0xe000, 0xffff); break; default: u = c.range(0x10000, 0x10ffff); } std::string e; if (u < 0x80) e += (char)u; else if (u < 0x800) { e += (char)(0xc0 | u >> 6); e += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { e += (char)(0xe0 | u >> 12); e += (char)(0x80 | (u >> 6 & 63)); e += (char)(0x80 | (u & 63)); } else { e += (char)(0xf0 | u >> 18); e += (char)(0x80 | (u >> 12 & 63)); e += (char)(0x80 | (u >> 6 & 63)); e += (char)(0x80 | (u & 63)); } s += e; if (parts) parts->push_back(e); } return s; }
static std::string longest(const std::vector<std::string>& parts, size_t width) { std::string s; for (auto& p : parts) { if (s.size() + p.size() > width) break; s += p; } return s; }
static int32_t coord(Ctx& c) { return c.chance(70) ? (int32_t)c.range(-50, 50) * 1000 : c.chance(50) ? (int32_t)c.range(-1800000000, 1800000000) : (int32_t)c.range(-2147483648LL, 2147483646); }
static P point(Ctx& c) { P p; p.x = coord(c); p.y = coord(c); return p; }
static std::pair<double, double> pt(P p) { return {deg(p.x), deg(p.y)}; }
struct WN { int64_t ref; P p; };
static std::vector<WN> way_nodes(Ctx& c) { std::vector<WN> v; size_t n = c.weighted({3, 5, 12, 20, 60}); if (n == 4) n += c.upto(c.thorough ? 40 : 12); for (size_t i = 0; i < n; ++i) { WN w{(int64_t)i + 1, point(c)}; if (i && c.chance(12)) w = v[c.chance(60) ? i - 1 : c.upto(i - 1)]; else if (i && c.chance(12)) w.p = v[c.chance(60) ? i - 1 : c.upto(i - 1)].p; v.push_back(w); } if (n && c.chance(8)) v[c.upto(n - 1)].p = P{UNDEF, UNDEF}; if (n > 1 && c.chance(30)) v.push_back(v[0]); return v; }
// what the line looks like as a shape; false if it cannot be made
static bool line_of(const std::vector<WN>& v, bool rev, Line& l) { l.clear(); for (auto& w : v) if (w.p.x == UNDEF) return false; for (size_t i = 0; i < v.size(); ++i) if (!i || (v[i].ref != v[i - 1].ref && v[i].p != v[i - 1].p)) l.push_back(pt(v[i].p)); if (rev) std::reverse(l.begin(), l.end()); return l.size() >= 2; }
static void fill(Osmium::OSM::Way& y, const std::vector<WN>& v) { for (auto& w : v) y.nodes().add(Osmium::OSM::WayNode(w.ref, Osmium::OSM::Position(w.p.x, w.p.y))); }
static Shape shape_of(const SHPObject* s) { Shape h; if (s->nSHPType == SHPT_POINT) { h.push_back(Line{{s->padfX[0], s->padfY[0]}}); return h; } for (int i = 0; i < s->nParts; ++i) { Line l; for (int k = s->panPartStart[i], e = i + 1 < s->nParts ? s->panPartStart[i + 1] : s->nVertices; k < e; ++k) l.emplace_back(s->padfX[k], s->padfY[k]); h.push_back(l); } if (!s->nParts) { Line l; for (int k = 0; k < s->nVertices; ++k) l.emplace_back(s->padfX[k], s->padfY[k]); h.push_back(l); } return h; }
struct Own { SHPObject* s; Own(SHPObject* x) : s(x) {} ~Own() { if (s) SHPDestroyObject(s); } };

static void compare(Ctx& c, const std::vector<WN>& v, int kind, bool rev, bool base) {
    Osmium::OSM::Way y; y.id(7); fill(y, v); Line want; bool ok = line_of(v, rev, want); bool threw = false; Shape got; int type = 0;
    // for the order of ring directions nothing is promised: the order is that of the way
    try { if (kind == 1) { G::LineString g(y, rev); Own o(base ? G::create_shp_object((const G::Geometry&)g) : G::create_shp_object(g)); if (o.s) { got = shape_of(o.s); type = o.s->nSHPType; } } else { G::Polygon g(y, rev); Own o(base ? G::create_shp_object((const G::Geometry&)g) : G::create_shp_object(g)); if (o.s) { got = shape_of(o.s); type = o.s->nSHPType; } } } catch (const G::GeometryException&) { threw = true; } catch (const std::runtime_error&) { threw = true; bool miss = v.empty(); for (auto& w : v) miss |= w.p.x == UNDEF; c.check(miss, "error that all positions are missing"); }
    if (!ok) { c.label("impossible"); c.check(threw, "shape made of an impossible geometry: " + str(got)); c.nontrivial(v.size() > 1); return; } c.check(!threw, "possible geometry refused"); c.eq(type, kind == 1 ? SHPT_ARC : SHPT_POLYGON, "type"); c.check(got == Shape{want}, "shape is " + str(got) + " instead of " + str(Shape{want})); c.nontrivial(); c.label_if(want.size() < v.size(), "repeated points left out");
}
SCENARIO(objects, 30000, 1500000) {
    int kind = c.weighted({20, 40, 35, 5}); bool rev = c.chance(40), base = c.chance(40);
    if (kind == 3) { G::Null n; const G::Geometry& g = n; Own o(G::create_shp_object(g)); c.desc << "null"; c.check(!o.s, "shape made of no geometry"); return; }
    if (kind == 0) { P p = point(c); c.desc << "point " << p.x << "," << p.y; Osmium::OSM::Node n; n.id(5); n.position(Osmium::OSM::Position(p.x, p.y)); G::Point g(n); if (c.chance(5)) { Osmium::OSM::Node u; u.id(6); G::Point h(u); bool threw = false; try { Own o(base ? G::create_shp_object((const G::Geometry&)h) : G::create_shp_object(h)); } catch (const G::IllegalGeometry&) { threw = true; } c.check(threw, "shape of a node without position"); } Own o(base ? G::create_shp_object((const G::Geometry&)g) : G::create_shp_object(g)); c.check(o.s && o.s->nSHPType == SHPT_POINT && o.s->nVertices == 1, "shape of a point"); c.check(o.s->padfX[0] == deg(p.x) && o.s->padfY[0] == deg(p.y), "position of a point"); return; }
    auto v = way_nodes(c); bool closed = !v.empty() && v.front().ref == v.back().ref; for (auto& w : v) c.desc << w.ref << ":" << w.p.x << "," << w.p.y << " "; c.desc << (rev ? "reverse " : "") << (kind == 1 ? "line" : "polygon"); if (kind == 2 && !closed) { kind = 1; c.desc << " not closed"; }
    compare(c, v, kind, rev, base);
}

// more nodes than fit into 15 or 16 bits
SCENARIO(long_lines, 30, 500) {
    size_t n = c.pick(std::vector<size_t>{32766, 65534, 70000, 131070}) + c.upto(4); bool closed = c.chance(40), rev = c.chance(40); std::vector<WN> v; v.reserve(n + 1); int32_t x = c.range(-1000000, 1000000); int step = 1 + c.upto(2000); size_t rep = 2 + c.upto(9000); for (size_t i = 0; i < n; ++i) { if (i % rep) x += i * 7919 % step + 1; v.push_back(WN{(int64_t)i + 1, P{x, (int32_t)(i % 997) - 500}}); if (i && i % rep == 0) v.back() = v[i - 1]; } if (closed) v.push_back(v[0]); int kind = closed ? 2 : 1; c.desc << n << " nodes from " << v[0].p.x << " step " << step << " repeated after " << rep << (closed ? " closed" : "") << (rev ? " reverse" : ""); compare(c, v, kind, rev, c.chance(40));
}

// ---- what is expected of one value
struct Value { int state = 0; std::string raw; }; // 0 not set, 1 missing, 2 raw, 3 anything
struct Def { std::string name; int type; int width, dec; };
static char letter(int t) { return t == FTString ? 'C' : t == FTLogical ? 'L' : 'N'; }

SCENARIO(contents, 4000, 120000) {
    int type = c.pick(std::vector<int>{SHPT_POINT, SHPT_ARC, SHPT_POLYGON}); std::string dir = fresh(c), sub = c.chance(15) ? "v1.2/" : ""; if (!sub.empty()) mkdir((dir + "/" + sub).c_str(), 0755); std::string base = sub + c.pick(std::vector<std::string>{"roads", "a", "my map", "stra\xc3\x9f""e", "osm.2012", "a.b.c", "roads_1", ".hidden", "x.shp", "UPPER"}), f = dir + "/" + base; c.desc << "type " << type << " " << base << " ";
    std::vector<Def> defs; std::vector<Shape> shapes; std::vector<std::vector<Value>> vals; bool nontriv = false;
    {
        std::unique_ptr<X::Shapefile> s; if (type == SHPT_POINT) s.reset(new X::PointShapefile(f)); else if (type == SHPT_ARC) s.reset(new X::LineStringShapefile(f)); else s.reset(new X::PolygonShapefile(f));
        auto add_field = [&]() {
            Def d; size_t nl = c.weighted({4, 92, 4}); std::string name; size_t n = nl == 0 ? 0 : nl == 1 ? 1 + c.upto(10) : 12 + c.upto(5); for (size_t i = 0; i < n; ++i) name += "abcdefgXYZ_0123456789"[c.upto(19)]; d.name = name; int t = c.upto(3); d.type = std::vector<int>{FTString, FTInteger, FTDouble, FTLogical}[t]; d.width = t == 0 ? 1 + c.upto(c.chance(70) ? 20 : 254) : t == 1 ? 1 + c.upto(10) : t == 2 ? 1 + c.upto(19) : 1; if (c.chance(3)) d.width = 256 + c.upto(100); else if (c.chance(2)) d.width = -(int)c.upto(3); d.dec = t == 2 ? c.upto(std::max(0, std::min(d.width - 2, 9))) : 0;
            bool by_name = c.chance(60), unknown = by_name && c.chance(4); std::string tn = unknown ? c.pick(std::vector<std::string>{"", "String", "text", "int", "float"}) : std::vector<std::string>{"string", "integer", "double", "bool"}[t]; int width = d.width, dec = d.dec; if (by_name && t != 2) dec = c.upto(5); if (by_name && t == 3) { width = c.upto(20); d.width = 1; } c.desc << "field " << name << " " << tn << " " << width << "." << dec << "; "; bool bad_name = name.empty() || name.size() > 11, ok = !bad_name && !unknown && d.width >= 1 && d.width <= 255; bool threw = false; std::string what;
            try { if (by_name) s->add_field(name, tn, width, dec); else s->add_field(name, (DBFFieldType)d.type, d.width, dec); } catch (const std::exception& e) { threw = true; what = e.what(); if (unknown) c.check(dynamic_cast<const std::runtime_error*>(&e) && what.find(tn) != what.npos, "error for an unknown type: " + what); else if (bad_name || d.width > 255) c.check(dynamic_cast<const std::invalid_argument*>(&e), "kind of error: " + what); }
            c.check(threw == !ok, threw ? "field refused: " + what : "impossible field accepted"); c.label_if(threw, "field refused"); if (ok) { defs.push_back(d); for (auto& v : vals) v.push_back(Value()); } c.eq(s->fields().size(), defs.size(), "number of fields"); for (size_t i = 0; i < defs.size(); ++i) { auto& g = s->field(i); c.check(g.name() == defs[i].name && g.type() == defs[i].type && g.width() == defs[i].width && (g.type() != FTDouble || g.decimals() == defs[i].dec), "settings of a field"); }
        };
        while (c.more(75) && defs.size() < 12) add_field();
        size_t n = c.upto(c.thorough ? 20 : 8);
        for (size_t i = 0; i < n; ++i) {
            if (c.chance(4) && (!defs.empty() || shapes.empty())) add_field();
            if (c.chance(6)) { c.desc << "illegal; "; int wrong = type == SHPT_POINT ? SHPT_ARC : SHPT_POINT; double x = 1, y = 2; bool null = c.chance(50); SHPObject* o = null ? nullptr : SHPCreateSimpleObject(wrong, 1, &x, &y, nullptr); bool threw = false; try { s->add_geometry(o); } catch (const G::IllegalGeometry&) { threw = true; } c.check(threw, "illegal shape accepted"); c.label("illegal shape"); if (o) SHPDestroyObject(o); continue; }
            Shape h; SHPObject* o; if (type == SHPT_POINT) { P p = point(c); c.desc << "(" << p.x << "," << p.y << ") "; h.push_back(Line{pt(p)}); o = G::create_shp_object(G::Point(Osmium::OSM::Position(p.x, p.y))); }
            else { std::vector<int> start; std::vector<double> x, y; size_t parts = c.chance(60) ? 1 : 1 + c.upto(3); for (size_t k = 0; k < parts; ++k) { Line l; size_t m = 2 + c.upto(6); for (size_t q = 0; q < m; ++q) l.push_back(pt(point(c))); start.push_back(x.size()); for (auto& q : l) { x.push_back(q.first); y.push_back(q.second); } h.push_back(l); } c.desc << str(h) << " "; o = SHPCreateObject(type, -1, parts, start.data(), nullptr, x.size(), x.data(), y.data(), nullptr, nullptr); }
            s->add_geometry(o); shapes.push_back(h); vals.emplace_back(defs.size()); bool any = false;
            for (size_t k = 0; k < defs.size() || (!any && !defs.empty()); ++k) {
                if (k >= defs.size()) k = 0; Def& d = defs[k]; if (c.chance(15)) continue; any = true; Value& v = vals.back()[k]; if (c.chance(8)) { s->add_attribute(k); v.state = 1; c.desc << k << " null "; continue; } std::string raw; bool threw = false; auto call = [&](std::function<void()> fn) { try { fn(); } catch (const std::runtime_error&) { threw = true; } };
                if (d.type == FTString) { std::vector<std::string> parts; std::string t = utf8(c, c.chance(70) ? std::min(d.width, 40) : d.width + 5, &parts); int how = c.upto(3); c.desc << k << (how >= 2 ? " cut " : " ") << t << " "; switch (how) { case 0: call([&] { s->add_attribute(k, t); }); break; case 1: call([&] { s->add_attribute(k, t.c_str()); }); break; case 2: call([&] { s->add_attribute_with_truncate(k, t); }); break; default: call([&] { s->add_attribute_with_truncate(k, t.c_str()); }); } std::string w = how >= 2 ? longest(parts, d.width) : t; if (how >= 2) c.check(!threw, "cut text refused"); if ((int)w.size() > d.width) raw = "too long", raw.resize(d.width + 1, 'x'); else raw = padded(w, d.width); c.label_if(how >= 2 && w != t, "text cut"); }
                else if (d.type == FTLogical) { bool b = c.chance(50); c.desc << k << " " << b << " "; call([&] { s->add_attribute(k, b); }); raw = b ? "T" : "F"; }
                else if (d.type == FTInteger || c.chance(30)) { int b = c.chance(50) ? (int)c.range(-20, 20) : (int)c.range(-2147483648LL, 2147483647); if (c.chance(50)) { int p = 1, e = c.upto(9); while (e--) p *= 10; b = p - (int)c.upto(1); if (c.chance(40)) b = -b; } c.desc << k << " " << b << " "; call([&] { s->add_attribute(k, b); }); raw = num(b, d.width, d.type == FTInteger ? 0 : d.dec); }
                else { double b = c.chance(40) ? (double)c.range(-99999999999LL, 99999999999LL) : c.chance(50) ? c.range(-1000000, 1000000) / 1000.0 : c.range(-1000000000, 1000000000) / 3.0; c.desc << k << " " << b << " "; call([&] { s->add_attribute(k, b); }); raw = num(b, d.width, d.dec); }
                if ((int)raw.size() > d.width) { c.check(threw, "value that does not fit into the field accepted"); v.state = 3; c.label("value does not fit"); nontriv = true; } else { c.check(!threw, "value refused"); v.state = 2; v.raw = raw; }
            }
        }
        if (c.chance(50)) s->close(); if (c.chance(10)) s->close();
    }
    std::set<std::string> have, want; for (auto* d = opendir((dir + "/" + sub).c_str()); d;) { dirent* e; while ((e = readdir(d))) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") have.insert(e->d_name); closedir(d); break; } for (const char* e : {".shp", ".shx", ".dbf", ".prj", ".cpg"}) want.insert(base.substr(sub.size()) + e); if (!sub.empty()) have.erase("v1.2"); std::string list; for (auto& x : have) list += x + " "; c.check(have == want, "files are " + list);
    side_files(c, f); auto got = read_shp(c, f, type); c.eq(got.size(), shapes.size(), "number of shapes"); for (size_t i = 0; i < got.size(); ++i) if (got[i] != shapes[i]) c.fail("shape " + std::to_string(i) + " is " + str(got[i]) + " instead of " + str(shapes[i]));
    Dbf d = read_dbf(c, tool::take(f + ".dbf")); c.eq(d.fields.size(), defs.size(), "fields in .dbf"); for (size_t i = 0; i < defs.size(); ++i) c.check(d.fields[i] == FieldDef{defs[i].name.substr(0, 10), letter(defs[i].type), defs[i].width, defs[i].dec}, "field " + std::to_string(i) + " is " + d.fields[i].name + " " + d.fields[i].type + " " + std::to_string(d.fields[i].width) + "." + std::to_string(d.fields[i].dec));
    if (!defs.empty()) { c.eq((size_t)d.nrec, shapes.size(), "number of records"); for (size_t r = 0; r < vals.size(); ++r) for (size_t k = 0; k < defs.size(); ++k) { const std::string& g = d.recs[r][k]; const Value& v = vals[r][k]; if (v.state == 2 ? g != v.raw : v.state < 2 && !missing(g)) c.fail("record " + std::to_string(r) + " field " + std::to_string(k) + " is '" + show(g, 100) + "' instead of '" + show(v.raw, 100) + "'"); nontriv |= r > 0 && v.state == 2; } } c.nontrivial(nontriv); c.label(std::to_string(type));
}

// several shapefiles written in turns
SCENARIO(at_once, 600, 20000) {
    std::string dir = fresh(c); struct One { std::unique_ptr<X::Shapefile> s; int type, row = -1; std::vector<int> todo; std::vector<Shape> shapes; std::vector<std::vector<std::string>> vals; std::vector<int> widths; std::vector<bool> text; }; std::vector<One> a(2 + c.upto(1));
    for (size_t i = 0; i < a.size(); ++i) { a[i].type = c.pick(std::vector<int>{SHPT_POINT, SHPT_ARC, SHPT_POLYGON}); c.desc << "file " << a[i].type << " "; }
    size_t steps = 10 + c.upto(60); for (size_t n = 0; n < steps; ++n) { size_t i = c.upto(a.size() - 1); One& o = a[i]; c.desc << i << ":"; std::string f = dir + "/f" + std::to_string(i);
        if (!o.s) { if (o.row >= 0 || !o.shapes.empty()) continue; if (o.type == SHPT_POINT) o.s.reset(new X::PointShapefile(f)); else if (o.type == SHPT_ARC) o.s.reset(new X::LineStringShapefile(f)); else o.s.reset(new X::PolygonShapefile(f)); c.desc << "open "; }
        else if (o.widths.empty() || (o.shapes.empty() && o.widths.size() < 4 && c.chance(50))) { bool t = c.chance(60); int w = t ? 1 + c.upto(30) : 6 + c.upto(4); std::string name = "f" + std::to_string(i) + std::to_string(o.widths.size()); if (c.chance(50)) o.s->add_field(name, t ? "string" : "integer", w); else o.s->add_field(name, t ? FTString : FTInteger, w); o.widths.push_back(w); o.text.push_back(t); c.desc << "field " << t << w << " "; }
        else if (!o.todo.empty()) { int k = o.todo.back(); o.todo.pop_back(); int v = c.upto(99999); std::string x = std::to_string(v); if (o.text[k]) { x = x.substr(0, o.widths[k]); if (c.chance(50)) o.s->add_attribute(k, x); else { o.s->add_attribute_with_truncate(k, std::to_string(v)); } x = padded(x, o.widths[k]); } else { o.s->add_attribute(k, v); x = num(v, o.widths[k], 0); } o.vals.back()[k] = x; c.desc << k << "=" << v << " "; }
        else if (c.chance(4)) { o.s.reset(); o.row = 0; c.desc << "close "; }
        else { Line l; size_t m = o.type == SHPT_POINT ? 1 : 2 + c.upto(4); std::vector<double> x, y; for (size_t k = 0; k < m; ++k) { l.push_back(pt(point(c))); x.push_back(l.back().first); y.push_back(l.back().second); } o.s->add_geometry(SHPCreateSimpleObject(o.type, m, x.data(), y.data(), nullptr)); o.shapes.push_back(Shape{l}); o.vals.emplace_back(o.widths.size()); for (size_t k = 0; k < o.widths.size(); ++k) o.todo.push_back(k); c.desc << m << " points "; } }
    for (size_t i = 0; i < a.size(); ++i) { One& o = a[i]; if (!o.s && o.row < 0) continue; while (!o.todo.empty()) { int k = o.todo.back(); o.todo.pop_back(); o.s->add_attribute(k, 7); o.vals.back()[k] = o.text[k] ? "" : num(7, o.widths[k], 0); } }
    for (auto& o : a) o.s.reset(); size_t total = 0;
    for (size_t i = 0; i < a.size(); ++i) { One& o = a[i]; std::string f = dir + "/f" + std::to_string(i); struct stat st; if (o.widths.empty()) continue; (void)st; side_files(c, f); auto got = read_shp(c, f, o.type); c.check(got == o.shapes, "shapes of file " + std::to_string(i)); total += got.size(); Dbf d = read_dbf(c, tool::take(f + ".dbf")); c.eq(d.fields.size(), o.widths.size(), "fields"); for (size_t k = 0; k < d.fields.size(); ++k) c.check(d.fields[k] == FieldDef{"f" + std::to_string(i) + std::to_string(k), o.text[k] ? 'C' : 'N', o.widths[k], 0}, "field of file " + std::to_string(i)); c.eq(d.recs.size(), o.vals.size(), "records of file " + std::to_string(i)); for (size_t r = 0; r < o.vals.size(); ++r) for (size_t k = 0; k < o.widths.size(); ++k) if (!o.vals[r][k].empty() && d.recs[r][k] != o.vals[r][k]) c.fail("file " + std::to_string(i) + " record " + std::to_string(r) + " field " + std::to_string(k) + " is '" + d.recs[r][k] + "' instead of '" + o.vals[r][k] + "'"); }
    c.nontrivial(total > 2); c.label_if(total > 8, "more than eight shapes");
}

// text cut to the width of the field
SCENARIO(truncate, 8000, 200000) {
    std::string f = fresh(c) + "/t"; std::vector<int> width; std::vector<std::vector<std::string>> want; {
        X::PointShapefile s(f); size_t n = 1 + c.upto(5); for (size_t i = 0; i < n; ++i) { int w = c.chance(60) ? 1 + c.upto(6) : c.chance(50) ? 1 + c.upto(254) : 250 + c.upto(5); width.push_back(w); s.add_field("f" + std::to_string(i), c.chance(50) ? "string" : "string", w); c.desc << "width " << w << " "; }
        size_t rows = 1 + c.upto(5); for (size_t r = 0; r < rows; ++r) { s.add_geometry(G::create_shp_object(G::Point(Osmium::OSM::Position(1, 2)))); want.emplace_back(); for (size_t i = 0; i < n; ++i) { std::vector<std::string> parts; std::string t = utf8(c, c.chance(70) ? width[i] + 2 : width[i] / 2 + 1, &parts); c.desc << "'" << t << "' "; if (c.chance(50)) s.add_attribute_with_truncate(i, t); else { std::unique_ptr<char[]> copy(new char[t.size() + 1]); memcpy(copy.get(), t.c_str(), t.size() + 1); s.add_attribute_with_truncate(i, (const char*)copy.get()); } std::string l = longest(parts, width[i]); want.back().push_back(padded(l, width[i])); c.nontrivial(l != t); c.label_if(l != t, "cut"); c.label_if(l != t && l.size() < (size_t)width[i], "cut before a character of several bytes"); } }
    }
    Dbf d = read_dbf(c, tool::take(f + ".dbf")); for (size_t r = 0; r < want.size(); ++r) for (size_t k = 0; k < width.size(); ++k) if (d.recs.at(r).at(k) != want[r][k]) c.fail("text is '" + show(d.recs[r][k], 300) + "' instead of '" + show(want[r][k], 300) + "'");
}

// limits of the format
SCENARIO(limits, 150, 3000) {
    std::string f = fresh(c) + "/t"; size_t n = 0; int sum = 1; int w = c.chance(50) ? 1 + c.upto(40) : 30 + c.upto(225), tries = w < 33 ? 2100 : 65535 / w + 40; c.desc << tries << " fields of width " << w; bool full = false; {
        X::PointShapefile s(f); for (int i = 0; i < tries; ++i) { bool threw = false; try { s.add_field("f" + std::to_string(i), "string", w); } catch (const std::exception&) { threw = true; } bool fits = 33 + 32 * (n + 1) <= 65535 && sum + w <= 65535; full |= !fits; if (threw == fits && !(threw && n >= 2046)) c.fail(threw ? "field " + std::to_string(n) + " refused" : "field " + std::to_string(n) + " accepted"); if (!threw) { ++n; sum += w; } c.eq(s.fields().size(), n, "number of fields"); } s.add_geometry(G::create_shp_object(G::Point(Osmium::OSM::Position(1, 2)))); s.add_attribute((int)n - 1, std::string(w, 'x')); }
    c.nontrivial(full); Dbf d = read_dbf(c, tool::take(f + ".dbf")); c.eq(d.fields.size(), n, "fields in .dbf"); c.check(d.recs.at(0).back() == std::string(w, 'x') && d.recs[0].size() == n, "value in the last field");
}

// what cannot be opened
SCENARIO_FORK(unopenable, 200, 4000) {
    std::string dir = fresh(c), f = dir + "/t"; int k = c.upto(4); static const char* E[] = {".shp", ".shx", ".dbf", ".prj", ".cpg"}; if (c.chance(20)) { f = dir + "/none/t"; c.desc << "no directory"; } else { mkdir((f + E[k]).c_str(), 0755); mkdir((f + E[k] + "/x").c_str(), 0755); c.desc << E[k]; } c.nontrivial(); auto fds = [] { int n = 0; for (int i = 0; i < 200; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }; int before = fds(); bool threw = false; try { X::PointShapefile s(f); } catch (const std::runtime_error& e) { threw = true; c.check(std::string(e.what()).find(f) != std::string::npos, std::string("error does not name the file: ") + e.what()); } c.check(threw, "no error"); c.eq(fds(), before, "open files");
}

// more than fits into one file
SCENARIO_FORK(rollover, 6, 60) {
    std::string dir = fresh(c), base = c.pick(std::vector<std::string>{"big", "big.2012"}), f = dir + "/" + base; bool by_shapes = c.chance(50); capture = true; std::vector<FieldDef> defs{{"id", 'N', 10, 0}}; size_t total = 0; std::vector<size_t> sizes; int type;
    // other shapefiles are started while this one is written
    int others = 0; std::unique_ptr<X::PolygonShapefile> other; Shape tri{Line{{0, 0}, {0, 1}, {1, 1}, {0, 0}}}; auto start_other = [&] { capture = false; other.reset(new X::PolygonShapefile(dir + "/o" + std::to_string(others++))); other->add_field("name", "string", 5); double a[] = {0, 0, 1, 0}, b[] = {0, 1, 1, 0}; other->add_geometry(SHPCreateSimpleObject(SHPT_POLYGON, 4, a, b, nullptr)); other->add_attribute(0, "x"); capture = true; };
    if (c.chance(50)) start_other();
    if (by_shapes) {
        type = SHPT_ARC; X::LineStringShapefile s(f); s.add_field("id", "integer", 10); size_t goal = 1 + c.upto(1), over = 0; int64_t used = 100; double* x = (double*)calloc(22000000, 8); auto len = [](int64_t n) { return 8 + 44 + 4 + 16 * n; };
        while (over < goal || c.chance(40)) { int64_t nv = c.chance(85) ? 15000000 + c.upto(5000000) : 2 + c.upto(100), edge = (2147483647LL - used - 56) / 16; if (edge < 21000000 && c.chance(60)) { nv = std::max<int64_t>(2, edge + (int64_t)c.upto(2) - 1); c.desc << "edge "; } if (used + len(nv) > 2147483647LL) { ++over; used = 100; } used += len(nv); s.add_geometry(SHPCreateSimpleObject(SHPT_ARC, nv, x, x, nullptr)); s.add_attribute(0, (int)total); sizes.push_back(nv); ++total; c.desc << nv << " "; if (c.chance(20)) { c.desc << "other "; start_other(); } } free(x);
    }
    else { type = SHPT_POINT; X::PointShapefile s(f); s.add_field("id", "integer", 10); int wsum = 11; while (wsum + 255 <= 65535) { int w = c.chance(90) ? 255 : 200 + c.upto(55); s.add_field("f", "string", w); defs.push_back({"f", 'C', w, 0}); wsum += w; } size_t need = (1 + c.upto(1)) * (2147483647LL / wsum) + 10 + c.upto(300); c.desc << need << " records of " << wsum; for (; total < need; ++total) { if (total == need / 3 * 2) start_other(); s.add_geometry(G::create_shp_object(G::Point(Osmium::OSM::Position((int)total, 2)))); s.add_attribute(0, (int)total); } }
    capture = false; other.reset(); for (int i = 0; i < others; ++i) { std::string g = dir + "/o" + std::to_string(i); auto got = read_shp(c, g, SHPT_POLYGON); c.check(got.size() == 1 && got[0] == tri, "another shapefile started meanwhile"); Dbf d = read_dbf(c, tool::take(g + ".dbf")); c.check(d.recs.size() == 1 && d.recs[0].size() == 1 && d.recs[0][0] == padded("x", 5), "record of another shapefile started meanwhile"); struct stat st; c.check(stat((g + "_1.shp").c_str(), &st) != 0 && stat((g + "_2.shp").c_str(), &st) != 0, "another shapefile started meanwhile is continued"); }
    c.nontrivial(); size_t sum = 0; int files = 0; for (;; ++files) { std::string g = f + (files ? "_" + std::to_string(files) : ""); auto i = virt().find(g + ".shp"), j = virt().find(g + ".dbf"); if (i == virt().end()) break; c.check(j != virt().end(), "no " + g + ".dbf"); c.check(i->second.size <= 2147483647LL && j->second.size <= 2147483648LL, "files of " + std::to_string(i->second.size) + " and " + std::to_string(j->second.size) + " bytes"); side_files(c, g); std::string x = tool::take(g + ".shx"); c.check(x.size() >= 100 && (int)le(x, 32) == type, "header of the index"); size_t n = (x.size() - 100) / 8; Dbf d = read_dbf(c, j->second.head, false); c.check(d.fields == defs, "fields of file " + std::to_string(files)); c.eq((size_t)d.nrec, n, "records of file " + std::to_string(files)); c.check(n > 0, "empty file");
        int64_t end = d.hdr + (int64_t)n * d.reclen; c.check(j->second.size == end || j->second.size == end + 1, "size of .dbf"); c.eq((int64_t)be(i->second.head, 24) * 2, i->second.size, "size in .shp"); if ((size_t)d.hdr + 11 <= j->second.head.size()) { std::string first = j->second.head.substr(d.hdr + 1, 10); c.eq(atoi(first.c_str()), (int)sum, "first record of file " + std::to_string(files)); } if (by_shapes) for (size_t k = 0; k < n; ++k) c.check(sum + k < sizes.size() && be(x, 104 + 8 * k) * 2 == 44 + 4 + 16 * sizes[sum + k], "size of shape " + std::to_string(sum + k)); sum += n; }
    c.eq(sum, total, "shapes in all files"); c.check(files >= 2, "only one file"); c.label(by_shapes ? "by shapes" : "by records");
}

// the program that writes letter boxes and roads
SCENARIO(toshape, 200, 6000) {
    Data d; std::string dir = fresh(c); WOpts o; o.enc = c.chance(50) ? PBF : XML; std::map<int64_t, P> pos; size_t nn = c.upto(12); std::vector<int64_t> ids; std::set<int64_t> used; std::vector<Shape> boxes, roads; std::vector<std::pair<std::string, std::string>> ba, ra;
    for (size_t i = 0; i < nn; ++i) { Obj n; do { n.id = c.chance(80) ? 1 + c.upto(200) : 1 + c.upto(99998); if (c.chance(25)) n.id = -n.id; } while (!used.insert(n.id).second); P p{(int32_t)c.range(-1800000000, 1800000000), (int32_t)c.range(-900000000, 900000000)}; if (c.chance(10) && !pos.empty()) p = pos.begin()->second; n.x = p.x; n.y = p.y; std::vector<std::string> parts; bool box = c.chance(40); std::string op; if (box) n.tags.push_back(Tag{"amenity", "post_box"}); else if (c.chance(30)) n.tags.push_back(Tag{"amenity", "post"}); if (c.chance(50)) { op = utf8(c, 40, &parts); n.tags.push_back(Tag{"operator", op}); } if (c.chance(50) && n.tags.size() > 1) std::swap(n.tags[0], n.tags[1]); d.objs.push_back(n); pos[n.id] = p; ids.push_back(n.id); if (box) { boxes.push_back(Shape{Line{pt(p)}}); ba.emplace_back(num(n.id, 12, 0), longest(parts, 30)); } }
    size_t nw = c.upto(8); for (size_t i = 0; i < nw; ++i) { Obj y; y.kind = 1; y.id = c.chance(90) ? (int64_t)i + 1 : 99999999900LL + i; size_t n = c.upto(7); std::vector<WN> v; for (size_t k = 0; k < n; ++k) { int64_t id = !ids.empty() && !c.chance(5) ? c.pick(ids) : 200000 + c.upto(5); y.refs.push_back(id); v.push_back(WN{id, pos.count(id) ? pos[id] : P{UNDEF, UNDEF}}); } std::vector<std::string> parts; std::string t = utf8(c, 45, &parts); bool road = c.chance(75); if (c.chance(30)) y.tags.push_back(Tag{"name", "x"}); y.tags.push_back(Tag{road ? "highway" : "waterway", t}); d.objs.push_back(y); Line l; if (road && line_of(v, false, l)) { roads.push_back(Shape{l}); ra.emplace_back(num(y.id, 12, 0), longest(parts, 30)); } else if (road) c.label("road that cannot be drawn"); }
    c.nontrivial(boxes.size() + roads.size() > 1); for (auto& x : d.objs) c.desc << model::str(x) << "; "; std::string f = dir + (o.enc == PBF ? "/a.osm.pbf" : "/a.osm"); write_file(f, d, o); auto r = tool::run("osmium_toshape", {f}, "", "", dir); c.eq(r.status, 0, "exit status; " + show(r.err, 300));
    auto look = [&](const char* name, int type, const std::vector<Shape>& want, const std::vector<std::pair<std::string, std::string>>& attr, const char* second) { std::string g = dir + "/" + name; side_files(c, g); auto got = read_shp(c, g, type); c.eq(got.size(), want.size(), std::string("number of ") + name); for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) c.fail(std::string(name) + " " + std::to_string(i) + " is " + str(got[i]) + " instead of " + str(want[i])); Dbf t = read_dbf(c, tool::take(g + ".dbf")); c.check(t.fields == std::vector<FieldDef>{{"id", 'N', 12, 0}, {second, 'C', 30, 0}}, std::string("fields of ") + name); c.eq(t.recs.size(), attr.size(), std::string("records of ") + name); for (size_t i = 0; i < attr.size(); ++i) { c.eq(t.recs[i][0], attr[i].first, "id"); if (attr[i].second.empty() ? !missing(t.recs[i][1]) : t.recs[i][1] != padded(attr[i].second, 30)) c.fail(std::string(second) + " is '" + show(t.recs[i][1], 100) + "' instead of '" + show(attr[i].second, 100) + "'"); } };
    look("postboxes", SHPT_POINT, boxes, ba, "operator"); look("roads", SHPT_ARC, roads, ra, "type");
}
