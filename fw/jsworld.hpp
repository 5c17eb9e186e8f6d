#ifndef FW_JSWORLD_HPP
#define FW_JSWORLD_HPP
// Input files, scripts and a model of what scripts run by osmjs see and write (C32, C35)
#include "area_all.hpp"
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/handler/coordinates_for_ways.hpp>
#include "io.hpp"
#include "xmlcodec.hpp"
#include "pbfcodec.hpp"
#include "shpread.hpp"
#include "tool.hpp"
#include <set>
using namespace areas; namespace G = Osmium::Geometry;

static struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } } nullbuf;
static struct Quiet { Quiet() { pbt::worker_init() = [] { std::cerr.rdbuf(&nullbuf); }; } } quiet;

// ---- the same text in UTF-8, UTF-16 (as hex) and as Javascript literal
static std::vector<uint16_t> utf16(const std::string& s) {
    std::vector<uint16_t> r; for (size_t i = 0; i < s.size();) { unsigned char b = s[i]; int n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; uint32_t u = n == 1 ? b : b & (0xff >> (n + 1)); for (int k = 1; k < n; ++k) u = u << 6 | (s.at(i + k) & 63); i += n;
        if (u < 0x10000) r.push_back(u); else { r.push_back(0xd800 + ((u - 0x10000) >> 10)); r.push_back(0xdc00 + ((u - 0x10000) & 0x3ff)); } } return r;
}
static std::string hex4(uint16_t u) { char b[8]; snprintf(b, sizeof b, "%04x", u); return b; }
static std::string h(const std::string& s) { std::string r = "'"; for (uint16_t u : utf16(s)) r += hex4(u); return r; }
static std::string lit(const std::string& s) { std::string r = "\""; for (uint16_t u : utf16(s)) if (u >= 0x20 && u < 0x7f && u != '"' && u != '\\') r += (char)u; else r += "\\u" + hex4(u); return r + "\""; }
static std::string dbl_hex(double d) { uint64_t v; memcpy(&v, &d, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

// ---- input files
static std::string esc(const std::string& s) { std::string r; for (unsigned char ch : s) { if (ch == '<') r += "&lt;"; else if (ch == '&') r += "&amp;"; else if (ch == '"') r += "&quot;"; else if (ch < 0x20) r += "&#" + std::to_string((int)ch) + ";"; else r += (char)ch; } return r; }
static std::string fixed(int32_t v) { char b[32]; snprintf(b, sizeof b, "%s%lld.%07lld", v < 0 ? "-" : "", llabs(v) / 10000000LL, llabs(v) % 10000000LL); return b; }
static std::string xml_of(const std::vector<Obj>& v, bool history) {
    std::string s = "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\" generator=\"x\">\n"; static const char* names[] = {"node", "way", "relation"}; for (auto& o : v) {
        s += std::string("<") + names[o.kind] + " id=\"" + std::to_string(o.id) + "\" version=\"" + std::to_string(o.version) + "\" changeset=\"" + std::to_string(o.changeset) + "\""; if (o.timestamp) s += " timestamp=\"" + xmlcodec::iso(o.timestamp) + "\""; if (o.uid != -1) s += " uid=\"" + std::to_string(o.uid) + "\" user=\"" + esc(o.user) + "\""; if (history) s += o.visible ? " visible=\"true\"" : " visible=\"false\""; if (o.kind == 0 && o.defined()) s += " lon=\"" + fixed(o.x) + "\" lat=\"" + fixed(o.y) + "\""; s += ">";
        for (int64_t r : o.refs) s += "<nd ref=\"" + std::to_string(r) + "\"/>"; for (auto& m : o.members) s += std::string("<member type=\"") + (m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation") + "\" ref=\"" + std::to_string(m.ref) + "\" role=\"" + esc(m.role) + "\"/>"; for (auto& t : o.tags) s += "<tag k=\"" + esc(t.k) + "\" v=\"" + esc(t.v) + "\"/>"; s += std::string("</") + names[o.kind] + ">\n"; }
    return s + "</osm>\n";
}
struct In { std::vector<Obj> objs; bool history = false, big = false; std::string file; std::map<int64_t, P> pos; };
static const std::vector<std::string>& odd_keys() { static const std::vector<std::string> v = {"0", "1", "7", "42", "4294967294", "4294967295", "4294967296", "01", "-1", "1.5", "length", "toString", "constructor", "hasOwnProperty", "valueOf", "name", "a", ""}; return v; }
// miss: nodes that ways refer to may be missing: 0 none, 1 any, 2 those with positive ids
static In gen_in(Ctx& c, bool areas, bool history_ok, int miss = 0) {
    In in; in.history = history_ok && c.chance(25); GenOpts g; g.xml_text = true; g.valid_lonlat = true; g.undef_pos = false; g.history = false; g.max_ts = 4000000000LL; g.sub_more = c.pick(std::vector<unsigned>{45, 20, 70}); auto meta = [&](Obj& o) { for (auto& t : o.tags) if (c.chance(12)) t.k = c.pick(odd_keys()); if (in.history) o.visible = !c.chance(25); if (o.timestamp > 4000000000LL) o.timestamp = 4000000000LL; if (o.version > 2147483647u) o.version = 1; if (o.changeset < 0) o.changeset = 0; if (o.uid == 2147483647) --o.uid; if (o.uid < 0) { o.uid = -1; o.user = ""; } };
    auto id53 = [&](int64_t v) { return v > 9007199254740992LL || v < -9007199254740992LL ? v % 9007199254740992LL : v; }; bool neg = c.chance(30); int base = areas ? 0 : c.upto(2); in.big = base;
    std::set<int64_t> ids; while (c.more(90) && ids.size() < 40) { int64_t i = c.chance(85) ? 1 + (int64_t)c.upto(60) + base * 2147483640LL : -(1 + (int64_t)c.upto(60)); if (neg || i > 0) ids.insert(i); } std::vector<int64_t> v(ids.begin(), ids.end()); std::sort(v.begin(), v.end(), [](int64_t a, int64_t b) { return llabs(a) != llabs(b) ? llabs(a) < llabs(b) : a < b; });
    for (int64_t i : v) { Obj o = gen_obj(c, 0, g); o.id = i; meta(o); if (areas || c.chance(30)) { o.x = (int32_t)c.upto(40) * 100000; o.y = (int32_t)c.upto(40) * 100000; } if (in.history && !o.visible && c.chance(50)) o.x = o.y = UNDEF; if (!o.defined()) o.x = o.y = UNDEF; else in.pos[o.id] = P{o.x, o.y}; in.objs.push_back(o); }
    int64_t wid = 0; std::vector<int64_t> wids; std::vector<Obj> closed; auto way = [&](std::vector<int64_t> refs) { Obj o = gen_obj(c, 1, g); o.id = wid += 1 + c.upto(c.chance(10) ? 3000000000ULL : 3); meta(o); o.refs = refs; in.objs.push_back(o); wids.push_back(o.id); return o.id; };
    std::vector<Obj> extra; // nodes of rings, appended in order of their ids
    if (areas) { size_t rings = c.upto(5); std::vector<std::vector<int64_t>> ring; int64_t nid = 1000; std::vector<Obj> ns; for (size_t r = 0; r < rings; ++r) { int32_t x = 10000000 + (int32_t)r * 2000000, y = 10000000, w = 100000 * (2 + c.upto(6)); std::vector<int64_t> rr; for (int k = 0; k < 4; ++k) { Obj o = gen_obj(c, 0, g); o.tags.clear(); o.id = nid++; meta(o); o.x = x + (k == 1 || k == 2 ? w : 0); o.y = y + (k >= 2 ? w : 0); in.objs.push_back(o); in.pos[o.id] = P{o.x, o.y}; rr.push_back(o.id); } if (c.chance(50)) std::reverse(rr.begin(), rr.end()); ring.push_back(rr);
            if (c.chance(40)) { std::vector<int64_t> hole; for (int k = 0; k < 3; ++k) { Obj o = gen_obj(c, 0, g); o.tags.clear(); o.id = nid++; meta(o); o.x = x + w / 4 + (k == 1 ? w / 4 : 0); o.y = y + w / 4 + (k == 2 ? w / 4 : 0); in.objs.push_back(o); in.pos[o.id] = P{o.x, o.y}; hole.push_back(o.id); } ring.push_back(hole); } }
        std::vector<Member> ms; std::vector<std::vector<Member>> rels; for (auto& r : ring) { auto add = [&](int64_t id) { Member m; m.type = 'w'; m.ref = id; m.role = c.pick(std::vector<std::string>{"outer", "inner", ""}); ms.push_back(m); }; if (r.size() == 4 && c.chance(30)) { add(way({r[0], r[1], r[2]})); add(way({r[2], r[3], r[0]})); } else { auto q = r; q.push_back(q[0]); int64_t id = way(q); if (c.chance(75)) add(id); } if (c.chance(50) && !ms.empty()) { rels.push_back(ms); ms.clear(); } } if (!ms.empty()) rels.push_back(ms);
        int64_t rid = 0; std::vector<Obj> rs; for (auto& m : rels) { Obj o = gen_obj(c, 2, g); meta(o); o.id = rid += 1 + c.upto(3); o.members = m; o.tags.insert(o.tags.begin(), Tag{"type", c.pick(std::vector<std::string>{"multipolygon", "boundary", "route"})}); rs.push_back(o); }
        while (c.more(60)) { std::vector<int64_t> refs; if (v.empty()) break; while (c.more(80)) refs.push_back(c.pick(v)); if (!refs.empty() && c.chance(20)) refs.push_back(refs[0]); way(refs); } for (auto& o : rs) in.objs.push_back(o); }
    else {
        while (c.more(75)) { std::vector<int64_t> refs; bool missing = miss && c.chance(12); while ((missing || !v.empty()) && c.more(85)) { int64_t r = missing && c.chance(60) ? id53(gen_id(c, g)) : v.empty() ? 5 : c.pick(v); if (miss == 2 && r < 0 && !ids.count(r)) r = -r; refs.push_back(r); } if (!refs.empty() && c.chance(30)) refs.push_back(refs[0]); way(refs); }
        int64_t rid = 0; while (c.more(70)) { Obj o = gen_obj(c, 2, g); meta(o); o.id = rid += 1 + c.upto(c.chance(10) ? 3000000000ULL : 3); for (auto& m : o.members) m.ref = id53(m.ref); in.objs.push_back(o); }
    }
    return in;
}
static void write_in(Ctx& c, In& in, const std::string& dir, bool stdin_pbf = false) { bool pbf = stdin_pbf || c.chance(50); in.file = std::string("in") + (in.history ? ".osh" : ".osm") + (pbf ? ".pbf" : ""); spit(dir + "/" + in.file, pbf ? pbf::simple_file(in.objs, 1 + c.upto(30), 1, c.chance(60), in.history, c.chance(50), false) : xml_of(in.objs, in.history)); c.desc << in.file << " "; Data d; d.objs = in.objs; model::describe(c, d); classify(c, in.objs); }

// ---- what the script prints
static const char* LIB = R"(
function h(s){ if (s===undefined) return 'undefined'; if (typeof s!=='string') return '?'+typeof s; var r="'"; for (var i=0;i<s.length;i++) r+=('000'+s.charCodeAt(i).toString(16)).slice(-4); return r; }
function n(x){ return typeof x==='number' ? String(x) : '?'+x; }
function d(x){ if (typeof x!=='number') return '?'+x; var b=new DataView(new ArrayBuffer(8)); b.setFloat64(0,x); return ('0000000'+b.getUint32(0).toString(16)).slice(-8)+('0000000'+b.getUint32(4).toString(16)).slice(-8); }
function arr(a){ if (a===undefined) return 'undefined'; if (a instanceof Array) return '['+a.map(arr).join(',')+']'; return d(a); }
function bin(s){ if (s===undefined) return 'undefined'; var r=''; for (var i=0;i<s.length;i++) { var x=s.charCodeAt(i); r+=x>255?'?':('0'+x.toString(16)).slice(-2).toUpperCase(); } return r; }
function p(s){ print('@'+s); }
function tags(t){ var e=[]; for (var k in t) e.push(h(k)+'='+h(t[k])); e.sort(); var r=' {'+e.join(' ')+'}'; for (var i=0;i<PROBES.length;i++) r+=' '+h(t[PROBES[i]]); return r; }
function obj(o){ return n(o.id)+' '+n(o.version)+' '+h(o.timestamp)+' '+n(o.uid)+' '+h(o.user)+' '+n(o.changeset)+' '+o.visible+tags(o.tags); }
function geom(g){ return ' G '+g.toWKT()+' '+g.toWKT(false)+' '+g.toWKT(true)+' '+g.toHexWKB()+' '+g.toHexWKB(true)+' '+bin(g.toWKB())+' '+bin(g.toWKB(true))+' '+arr(g.toArray()); }
)";
static const char* CALLS = R"(
C.init = function(){ p('init'); }
C.before_nodes = function(){ p('before_nodes'); }
C.node = function(){ var s='node '+obj(this); if (this.visible) s+=' '+d(this.lon)+' '+d(this.lat)+' '+d(this.geom.lon)+' '+d(this.geom.lat)+geom(this.geom); p(s); }
C.after_nodes = function(){ p('after_nodes'); }
C.before_ways = function(){ p('before_ways'); }
C.way = function(){ var N=this.nodes, s='way '+obj(this)+' '+N.length+' ['; for (var i=0;i<N.length;i++) s+=n(N[i])+' '; s+='] '+N[N.length]+' '+N[N.length+100000000]+' '+N[4294967294]; for (var k in N) if (k!=='length') s+=' '+k; s+=' |'; for (var i=N.length;i--;) s+=' '+n(N[i]); s+=geom(this.geom)+geom(this.reverse_geom)+geom(this.polygon_geom); p(s); }
C.after_ways = function(){ p('after_ways'); }
C.before_relations = function(){ p('before_relations'); }
C.relation = function(){ var M=this.members, s='relation '+obj(this)+' '+M.length+' ['; for (var i=0;i<M.length;i++) { var m=M[i]; s+=m.type+n(m.ref)+h(m.role)+' '; } s+='] '+M[M.length]+' '+M[M.length+1000000]; for (var k in M) if (k!=='length') s+=' '+k+M[k].type; p(s); }
C.after_relations = function(){ p('after_relations'); }
C.area = function(){ p('area '+this.from+' '+obj(this)+geom(this.geom)); }
C.end = function(){ p('end'); }
)";
static const std::vector<std::string>& call_names() { static const std::vector<std::string> v = {"init", "before_nodes", "node", "after_nodes", "before_ways", "way", "after_ways", "before_relations", "relation", "after_relations", "area", "end"}; return v; }

static std::string ns(int64_t v) { return std::to_string(v); }
struct Expect {
    std::vector<std::string> probes; bool store = false;
    std::string tags(const std::vector<Tag>& t) const { auto get = [&](const std::string& k) { for (auto& x : t) if (x.k == k) return h(x.v); return std::string("undefined"); }; std::set<std::string> e; for (auto& x : t) e.insert(h(x.k) + "=" + get(x.k)); std::string r = " {"; bool first = true; for (auto& s : e) { r += (first ? "" : " ") + s; first = false; } r += "}"; for (auto& k : probes) r += " " + get(k); return r; }
    std::string obj(const Obj& o) const { return ns(o.id) + " " + ns(o.version) + " " + h(o.timestamp ? xmlcodec::iso(o.timestamp) : "") + " " + ns(o.uid) + " " + h(o.user) + " " + ns(o.changeset) + " " + (o.visible ? "true" : "false") + tags(o.tags); }
    static std::string f(int32_t v) { char b[40]; snprintf(b, sizeof b, "%.10g", deg(v)); return b; }
    static std::string le(const void* p, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { char b[4]; snprintf(b, sizeof b, "%02X", ((const unsigned char*)p)[i]); s += b; } return s; }
    static std::string u32(uint32_t v) { return le(&v, 4); }
    static std::string xy(P p) { double a[2] = {deg(p.x), deg(p.y)}; return le(a, 16); }
    static std::string pt(P p) { return "[" + dbl_hex(deg(p.x)) + "," + dbl_hex(deg(p.y)) + "]"; }
    static std::string all(const std::string& wkt, uint32_t type, const std::string& body, const std::string& arr) { std::string w = "01" + u32(type) + body, ws = "01" + u32(type | 0x20000000u) + u32(4326) + body; return " G " + wkt + " " + wkt + " SRID=4326;" + wkt + " " + w + " " + ws + " " + w + " " + ws + " " + arr; }
    static std::string none() { return " G undefined undefined undefined undefined undefined undefined undefined undefined"; }
    std::string node(const Obj& o) const { std::string s = "node " + obj(o); if (!o.visible) return s; P q{o.x, o.y}; std::string ll = " " + dbl_hex(deg(o.x)) + " " + dbl_hex(deg(o.y)); return s + ll + ll + all("POINT(" + f(o.x) + " " + f(o.y) + ")", 1, xy(q), pt(q)); }
    static std::string line(std::vector<P> v, bool rev, bool poly) { if (rev) std::reverse(v.begin(), v.end()); std::string w, b, a; for (auto& q : v) { w += (w.empty() ? "" : ",") + f(q.x) + " " + f(q.y); b += xy(q); a += (a.empty() ? "" : ",") + pt(q); } a = "[" + a + "]"; if (!poly) return all("LINESTRING(" + w + ")", 2, u32(v.size()) + b, a); return all("POLYGON((" + w + "))", 3, u32(1) + u32(v.size()) + b, "[" + a + "]"); }
    // empty if nothing is promised about the geometry
    std::string way(const Obj& o, const std::map<int64_t, P>& pos, bool& partly) const {
        std::string s = "way " + obj(o) + " " + ns(o.refs.size()) + " ["; for (int64_t r : o.refs) s += ns(r) + " "; s += "] undefined undefined undefined"; for (size_t i = 0; i < o.refs.size(); ++i) s += " " + ns(i); s += " |"; for (size_t i = o.refs.size(); i--;) s += " " + ns(o.refs[i]);
        std::vector<P> v; size_t miss = 0; for (int64_t r : o.refs) { auto it = pos.find(r); if (it == pos.end()) { ++miss; v.push_back(P{UNDEF, UNDEF}); } else v.push_back(it->second); } partly = store && miss && miss < o.refs.size(); if (!store || v.empty() || miss) return s + none() + none() + none(); bool closed = o.refs.front() == o.refs.back(); return s + line(v, false, false) + line(v, true, false) + (closed ? line(v, false, true) : none());
    }
    std::string relation(const Obj& o) const { std::string s = "relation " + obj(o) + " " + ns(o.members.size()) + " ["; for (auto& m : o.members) s += std::string(1, m.type) + ns(m.ref) + h(m.role) + " "; s += "] undefined undefined"; for (size_t i = 0; i < o.members.size(); ++i) s += " " + ns(i) + o.members[i].type; return s; }
};
// the areas, made with the library
struct Areas : public Osmium::Handler::Base {
    std::vector<std::string> lines; const Expect* e;
    static std::string ring(const geos::geom::LineString* r) { auto cs = r->getCoordinatesRO(); std::string s; for (size_t i = 0; i < cs->getSize(); ++i) s += std::string(i ? "," : "") + "[" + dbl_hex(cs->getX(i)) + "," + dbl_hex(cs->getY(i)) + "]"; return "[" + s + "]"; }
    void area(const shared_ptr<Osmium::OSM::Area const>& a) {
        Obj o; o.kind = 2; model::get_common(o, *a); G::MultiPolygon m(*a); std::ostringstream s; s << "area " << (a->from_way() ? "way " : "relation ") << e->obj(o) << " G "; std::ostringstream w, ws, x, xs, b, bs; w << m.as_WKT(); ws << m.as_WKT(true); x << m.as_HexWKB(); xs << m.as_HexWKB(true); b << m.as_WKB(); bs << m.as_WKB(true); s << w.str() << " " << w.str() << " " << ws.str() << " " << x.str() << " " << xs.str() << " " << Expect::le(b.str().data(), b.str().size()) << " " << Expect::le(bs.str().data(), bs.str().size()) << " [";
        auto g = m.borrow_geos_geometry(); for (size_t i = 0; i < g->getNumGeometries(); ++i) { auto q = dynamic_cast<const geos::geom::Polygon*>(g->getGeometryN(i)); s << (i ? ",[" : "[") << ring(q->getExteriorRing()); for (size_t k = 0; k < q->getNumInteriorRing(); ++k) s << "," << ring(q->getInteriorRingN(k)); s << "]"; } s << "]"; lines.push_back(s.str());
    }
};
static std::vector<std::string> areas_of(const std::string& file, const Expect& e, bool repair) {
    Areas a; a.e = &e; typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> S; S pos, neg; typedef Osmium::Handler::CoordinatesForWays<S, S> C; C cfw(pos, neg); typedef Osmium::MultiPolygon::Assembler<Areas> A; A as(a, repair); Osmium::OSMFile f(file); Osmium::Input::read(f, as.handler_pass1()); Osmium::Handler::Sequence<C, A::HandlerPass2> seq(cfw, as.handler_pass2()); Osmium::Input::read(f, seq); return a.lines;
}
static std::vector<std::string> lines_of(const std::string& out) { std::vector<std::string> v; std::istringstream i(out); std::string l; while (std::getline(i, l)) if (!l.empty() && l[0] == '@') v.push_back(l.substr(1)); return v; }
static const char* prog(Ctx& c) { bool gc = c.chance(15); if (gc) { c.desc << "(collecting garbage) "; c.label("garbage collected after every object"); } return gc ? "osmjs-gc" : "osmjs"; }
static void ended(Ctx& c, const tool::Result& r) { c.check(r.status == 0, "osmjs ended with status " + std::to_string(r.status) + ": " + r.err.substr(0, 1500)); }
static const std::vector<std::string>& stores() { static const std::vector<std::string> v = {"sparsetable", "vector", "array", "disk"}; return v; }

// ---- shapefiles written by scripts
struct Want { int state; std::string raw; }; // 0 anything, 1 missing, 2 raw
static Want text_want(const std::string& t, int w) { size_t e = 0; while (e < t.size()) { unsigned char b = t[e]; size_t k = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; if (e + k > (size_t)w) break; e += k; } std::string s = t.substr(0, e); return s.empty() ? Want{1, ""} : Want{2, padded(s, w)}; }
static Want bool_want(const std::string& t) { auto first = [&](char a) { return !t.empty() && (t[0] == a || t[0] == a + 32); }; if (t == "1" || first('T') || first('Y')) return Want{2, "T"}; if (t == "0" || first('F') || first('N')) return Want{2, "F"}; if (!t.empty() && (isdigit((unsigned char)t[0]) || isspace((unsigned char)t[0]) || t[0] == '+')) return Want{0, ""}; return Want{1, ""}; }
static Want int_want(const std::string& t, int w) { size_t i = t[0] == '-'; if (t.size() > i && t.size() - i <= 9 && t.find_first_not_of("0123456789", i) == t.npos) return (int)num(atoi(t.c_str()), w, 0).size() <= w ? Want{2, num(atoi(t.c_str()), w, 0)} : Want{1, ""}; return Want{0, ""}; }
static void same_record(Ctx& c, const std::vector<Want>& want, const std::vector<std::string>& got, const std::vector<FieldDef>& f, const std::string& what) { c.eq(got.size(), want.size(), "columns of " + what); for (size_t i = 0; i < want.size(); ++i) if (want[i].state == 1 ? !missing(got[i]) : want[i].state == 2 && got[i] != want[i].raw) c.fail(f[i].name + " of " + what + " is '" + show(got[i], 300) + "' instead of '" + (want[i].state == 1 ? std::string("missing") : show(want[i].raw, 300)) + "'"); }
struct Rec { Shape shape; std::vector<Want> v; std::string what; };
struct ShpFile { std::string name; int type; std::vector<FieldDef> f; std::vector<Rec> recs; };
static const char* geometry_type(int t) { return t == SHPT_POINT ? "point" : t == SHPT_ARC ? "line" : "polygon"; }
static bool shape_line(const std::vector<int64_t>& refs, const std::map<int64_t, P>& pos, bool rev, Line& l) { std::vector<P> v; for (int64_t r : refs) { auto i = pos.find(r); if (i == pos.end()) return false; v.push_back(i->second); } for (size_t i = 0; i < v.size(); ++i) if (!i || !(v[i] == v[i - 1])) l.push_back({deg(v[i].x), deg(v[i].y)}); if (rev) std::reverse(l.begin(), l.end()); return l.size() >= 2; }
// the areas of a file: where from, id, shape, in the order the library makes them
struct AreaShape { Obj o; Shape s; };
struct AreaShapes : public Osmium::Handler::Base { std::vector<AreaShape> v; void area(const shared_ptr<Osmium::OSM::Area const>& a) { AreaShape x; x.o.kind = 2; model::get_common(x.o, *a); G::MultiPolygon m(*a); auto g = m.borrow_geos_geometry(); auto ring = [&](const geos::geom::LineString* r) { auto cs = r->getCoordinatesRO(); Line l; for (size_t i = 0; i < cs->getSize(); ++i) l.push_back({cs->getX(i), cs->getY(i)}); x.s.push_back(l); }; for (size_t i = 0; i < g->getNumGeometries(); ++i) { auto q = dynamic_cast<const geos::geom::Polygon*>(g->getGeometryN(i)); ring(q->getExteriorRing()); for (size_t k = 0; k < q->getNumInteriorRing(); ++k) ring(q->getInteriorRingN(k)); } v.push_back(x); } };
static std::vector<AreaShape> area_shapes(const std::string& file) { AreaShapes a; typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> S; S pos, neg; typedef Osmium::Handler::CoordinatesForWays<S, S> C; C cfw(pos, neg); typedef Osmium::MultiPolygon::Assembler<AreaShapes> A; A as(a, true); Osmium::OSMFile f(file); Osmium::Input::read(f, as.handler_pass1()); Osmium::Handler::Sequence<C, A::HandlerPass2> seq(cfw, as.handler_pass2()); Osmium::Input::read(f, seq); return a.v; }
static void same_file(Ctx& c, const std::string& dir, ShpFile& s) {
    std::string g = dir + "/" + s.name; side_files(c, g); auto shp = read_shp(c, g, s.type); Dbf d = read_dbf(c, tool::take(g + ".dbf")); c.check(d.fields == s.f, "fields of " + s.name); c.eq(shp.size(), s.recs.size(), "shapes in " + s.name); if (!s.f.empty()) c.eq(d.recs.size(), s.recs.size(), "records in " + s.name);
    // the order of areas among the ways is left open, that of everything else is not
    std::vector<size_t> order; bool areas = false; for (auto& r : s.recs) areas |= r.what[0] == 'a'; for (size_t i = 0; i < shp.size(); ++i) order.push_back(i);
    if (areas) { std::vector<bool> used(s.recs.size()); size_t next = 0; for (size_t i = 0; i < shp.size(); ++i) { auto fits = [&](size_t k) { if (used[k] || s.recs[k].shape != shp[i]) return false; try { if (!s.f.empty()) same_record(c, s.recs[k].v, d.recs[i], d.fields, ""); } catch (...) { return false; } return true; }; while (next < used.size() && (used[next] || s.recs[next].what[0] == 'a')) ++next; size_t k = next; if (k >= used.size() || !fits(k)) for (k = 0; k < used.size() && !(s.recs[k].what[0] == 'a' && fits(k)); ++k) ; if (k >= used.size()) c.fail("record " + ns(i) + " of " + s.name + " should not be there: " + str(shp[i]) + " " + (s.f.empty() ? "" : show(d.recs[i][0], 300))); used[k] = true; order[i] = k; } }
    for (size_t i = 0; i < shp.size(); ++i) { Rec& r = s.recs[order[i]]; if (shp[i] != r.shape) c.fail("shape " + ns(i) + " of " + s.name + " is " + str(shp[i]) + " instead of " + str(r.shape)); if (!s.f.empty()) same_record(c, r.v, d.recs[i], d.fields, "record " + ns(i) + " (" + r.what + ") of " + s.name); }
}
static FieldDef gen_field(Ctx& c, const std::string& name) { int t = c.weighted({45, 25, 15, 15}); FieldDef f{name, "CNNL"[t], 0, 0}; switch (t) { case 0: f.width = 1 + c.upto(c.chance(70) ? 20 : 254); break; case 1: f.width = 1 + c.upto(10); break; case 2: f.width = 3 + c.upto(15); f.dec = 1 + c.upto(std::min(f.width - 2, 8) - 1); break; default: f.width = 1; } return f; }
static std::string add_field_js(Ctx& c, const FieldDef& f) { const char* t = f.type == 'C' ? "string" : f.type == 'L' ? "bool" : f.dec ? "double" : "integer"; std::string a = lit(f.name) + ",'" + t + "'," + ns(f.type == 'L' ? (int)c.upto(9) : f.width); if (f.dec || c.chance(20)) a += "," + ns(f.dec ? f.dec : (int)c.upto(4)); return ".add_field(" + a + ")"; }
// a value for a field, as Javascript and as expected
static std::pair<std::string, Want> gen_attr(Ctx& c, const FieldDef& f, const Obj& o) {
    if (c.chance(8)) return {c.chance(50) ? "undefined" : "null", Want{1, ""}}; auto tag = [&](std::string& js, std::string& text) { auto& t = c.pick(o.tags); js = "o.tags[" + lit(t.k) + "]"; for (auto& x : o.tags) if (x.k == t.k) { text = x.v; break; } };
    if (f.type == 'C') { std::string js, text; switch (c.upto(o.tags.empty() ? 2 : 3)) { case 0: { std::vector<std::string> cps; GenOpts g; text = gen_text(c, g); for (auto& ch : text) if (!ch) ch = '0'; js = lit(text); break; } case 1: { size_t n = 200 + c.upto(120); text = std::string(c.upto(3), 'a'); uint32_t u = c.pick(std::vector<uint32_t>{0x1f600, 0x10ffff, 'z', 0xe4, 0x20ac}); std::string one; put_utf8(one, u); for (size_t i = 0; i < n; ++i) text += one; js = lit(text); c.label("long text"); break; } case 2: { int64_t v = c.range(-1000000, 1000000); text = ns(v); js = c.chance(50) ? ns(v) : "o.id"; if (js == "o.id") text = ns(o.id); break; } default: tag(js, text); } return {js, text_want(text, f.width)}; }
    if (f.type == 'L') { static const std::vector<std::pair<const char*, const char*>> v = {{"true", "true"}, {"false", "false"}, {"1", "1"}, {"0", "0"}, {"'1'", "1"}, {"'yes'", "yes"}, {"'Yes'", "Yes"}, {"'no'", "no"}, {"'NO'", "NO"}, {"'T'", "T"}, {"'f'", "f"}, {"'-1'", "-1"}, {"'maybe'", "maybe"}, {"''", ""}, {"-1", "-1"}, {"'true'", "true"}, {"'reverse'", "reverse"}}; auto& x = c.pick(v); return {x.first, bool_want(x.second)}; }
    if ((f.dec || f.width < 9) && c.chance(4)) { std::string s = (c.chance(30) ? "-" : "1") + std::string(f.width - f.dec - (f.dec ? 1 : 0), '7'); c.label("number that does not fit"); return {s, Want{1, ""}}; }
    if (f.dec) { int64_t top = 1; for (int i = 0; i < f.width - f.dec - 2 && i < 12; ++i) top *= 10; double d = c.chance(50) ? (double)c.range(-top + 1, top - 1) : c.range(-top * 1000 + 1000, top * 1000 - 1000) / 1000.0; char b[64]; snprintf(b, sizeof b, "%.17g", d); std::string raw = num(d, f.width, f.dec); if ((int)raw.size() > f.width) { d = 0; raw = num(0, f.width, f.dec); strcpy(b, "0"); } return {c.chance(70) ? b : "'" + std::string(b) + "'", Want{2, raw}}; }
    int64_t hi = 1; for (int i = 0; i < f.width; ++i) hi *= 10; int64_t lo = -hi / 10 + 1; hi = std::min<int64_t>(hi - 1, 2147483647); lo = std::max<int64_t>(lo, -2147483648LL); int64_t v = c.chance(50) ? c.range(lo, hi) : c.pick(std::vector<int64_t>{lo, hi, 0, std::min<int64_t>(hi, 1)}); std::string raw = num(v, f.width, 0), s = ns(v); switch (c.upto(4)) { case 0: return {s, Want{2, raw}}; case 1: return {"'" + s + "'", Want{2, raw}}; case 2: return {v ? s + ".75" : "0.25", Want{2, raw}}; case 3: if (lo <= 1) return {"true", Want{2, num(1, f.width, 0)}}; default: return {"' " + s + " '", Want{2, raw}}; }
}
static std::string value_of(const Obj& o, const std::string& k) { for (auto& t : o.tags) if (t.k == k) return t.v; return ""; }
static bool has(const Obj& o, const std::string& k) { for (auto& t : o.tags) if (t.k == k) return true; return false; }
#endif
