// The scripts shipped with osmjs report and export exactly what is in the file.
// LIBS: pbf xml geosc shp
// GEOS: old
// OSMJS: yes
// FLAGS: -fsanitize=address
#include "jsworld.hpp"
#include <charconv>

RULE("a case counts as non-trivial if a script reports or exports something of at least two objects, or a wrong configuration is refused; distinct by description");
ASSUME("osmjs runs inside the installed node, as in C32; scripts get files without deleted objects; ids of exported objects fit into the columns of the scripts' shapefiles");

// any order of these texts, which may contain line breaks
struct Want1 { std::vector<std::string> v; };
typedef std::vector<Want1> Wanted;
static void one(Wanted& w, const std::string& s) { if (!w.empty() && w.back().v.size() == 1) w.back().v[0] += s; else w.push_back(Want1{{s}}); }
static void group(Wanted& w, const std::vector<std::string>& v) { if (v.size() == 1) return one(w, v[0]); if (!v.empty()) w.push_back(Want1{v}); }
static bool permutation(const std::string& s, size_t at, std::vector<std::pair<std::string, bool>>& v, size_t left, size_t& budget) {
    if (!left) return at == s.size(); const std::string* tried = nullptr; for (auto& x : v) if (!x.second && s.compare(at, x.first.size(), x.first) == 0 && !(tried && *tried == x.first)) { if (!budget--) return true; x.second = true; if (permutation(s, at + x.first.size(), v, left - 1, budget)) return true; x.second = false; tried = &x.first; if (!budget) return true; } return false;
}
static void same_text(Ctx& c, const std::string& got, const Wanted& w, const std::string& what) {
    size_t at = 0; for (auto& g : w) { size_t n = 0; for (auto& s : g.v) n += s.size(); std::string part = got.substr(std::min(at, got.size()), n); std::vector<std::pair<std::string, bool>> v; for (auto& s : g.v) v.push_back({s, false}); std::stable_sort(v.begin(), v.end(), [](const std::pair<std::string, bool>& a, const std::pair<std::string, bool>& b) { return a.first.size() != b.first.size() ? a.first.size() > b.first.size() : a.first < b.first; }); size_t budget = 200000;
        if (g.v.size() == 1 ? part != g.v[0] : !permutation(part, 0, v, v.size(), budget)) { size_t d = 0; if (g.v.size() == 1) while (d < part.size() && part[d] == g.v[0][d]) ++d; std::string all; for (auto& s : g.v) all += s; size_t f = d > 100 ? d - 100 : 0; c.fail(what + " from byte " + ns(at + f) + ": '" + show(part.substr(f), 600) + "' instead of '" + show(all.substr(f), 600) + (g.v.size() > 1 ? "' (in any order)" : "'")); } at += n; }
    if (at != got.size()) c.fail(what + ": '" + show(got.substr(at), 500) + "' is too much");
}
static std::string jsnum(double d) { if (d == 0) return "0"; char b[64]; double a = d < 0 ? -d : d; auto r = a < 1e-6 ? std::to_chars(b, b + 64, d, std::chars_format::scientific) : std::to_chars(b, b + 64, d, std::chars_format::fixed); std::string s(b, r.ptr); size_t e = s.find("e-0"); if (e != s.npos) s.erase(e + 2, 1); return s; }
static std::string script(Ctx& c, const std::string& dir, const std::string& name) { const char* repo = getenv("VERIF_REPO"); std::string s = tool::take(std::string(repo ? repo : "/repo") + "/osmjs/js/" + name); c.check(!s.empty(), name + " is missing"); spit(dir + "/" + name, s); return name; }
static std::map<std::string, std::string> tag_map(const Obj& o) { std::map<std::string, std::string> m; for (auto& t : o.tags) m.insert({t.k, t.v}); return m; }
static std::vector<std::string> tag_lines(const Obj& o) { std::vector<std::string> v; for (auto& t : tag_map(o)) v.push_back(" " + t.first + "=" + t.second + "\n"); return v; }
static std::string head(const Obj& o) { static const char* k[] = {"node ", "way ", "relation "}; return k[o.kind] + ns(o.id) + " " + ns(o.version) + " " + (o.timestamp ? xmlcodec::iso(o.timestamp) : "") + " " + ns(o.uid) + " " + o.user + " " + ns(o.changeset); }
// the ways of one geometry in text and JSON, or nothing
struct Geo { std::string wkt = "undefined", ewkt = "undefined", hex = "undefined", ehex = "undefined", json = "undefined"; };
static Geo geo(const std::string& wkt, uint32_t type, const std::string& body, const std::string& json) { Geo g; g.wkt = wkt; g.ewkt = "SRID=4326;" + wkt; g.hex = "01" + Expect::u32(type) + body; g.ehex = "01" + Expect::u32(type | 0x20000000u) + Expect::u32(4326) + body; g.json = json; return g; }
static std::string jpt(P p) { return "[" + jsnum(deg(p.x)) + "," + jsnum(deg(p.y)) + "]"; }
static Geo point(const Obj& o) { P q{o.x, o.y}; return geo("POINT(" + Expect::f(o.x) + " " + Expect::f(o.y) + ")", 1, Expect::xy(q), jpt(q)); }
static Geo line(std::vector<P> v, bool rev, bool poly) { if (rev) std::reverse(v.begin(), v.end()); std::string w, b, a; for (auto& q : v) { w += (w.empty() ? "" : ",") + Expect::f(q.x) + " " + Expect::f(q.y); b += Expect::xy(q); a += (a.empty() ? "" : ",") + jpt(q); } return poly ? geo("POLYGON((" + w + "))", 3, Expect::u32(1) + Expect::u32(v.size()) + b, "[[" + a + "]]") : geo("LINESTRING(" + w + ")", 2, Expect::u32(v.size()) + b, "[" + a + "]"); }
// the positions of a way's nodes; empty if there is no geometry; partly: nothing is promised
static std::vector<P> places(const Obj& o, const In& in, bool store, bool& partly) { std::vector<P> v; size_t miss = 0; for (int64_t r : o.refs) { auto i = in.pos.find(r); if (i == in.pos.end()) ++miss; else v.push_back(i->second); } partly = store && miss && miss < o.refs.size(); if (!store || miss) v.clear(); return v; }
struct AreaText { std::string text; std::vector<std::string> tags; };
struct AreaTexts : public Osmium::Handler::Base {
    std::vector<Wanted> v; int what = 0;
    void area(const shared_ptr<Osmium::OSM::Area const>& a) {
        Obj o; o.kind = 2; model::get_common(o, *a); Wanted w; std::string from = a->from_way() ? "way" : "relation";
        if (what == 0) { one(w, "area from " + from + " " + head(o).substr(9).substr(0, head(o).substr(9).find(' ') + 1)); w.back().v[0] = "area from " + from + " " + ns(o.id) + " " + ns(o.version) + " " + (o.timestamp ? xmlcodec::iso(o.timestamp) : "") + " " + ns(o.uid) + " " + ns(o.changeset) + "\n"; group(w, tag_lines(o)); }
        else if (what == 2) one(w, "area " + ns(o.id) + " from " + from + "\n");
        else { G::MultiPolygon m(*a); std::ostringstream t, ts, x, xs; t << m.as_WKT(); ts << m.as_WKT(true); x << m.as_HexWKB(); xs << m.as_HexWKB(true); auto g = m.borrow_geos_geometry(); auto ring = [](const geos::geom::LineString* r) { auto cs = r->getCoordinatesRO(); std::string s; for (size_t i = 0; i < cs->getSize(); ++i) s += std::string(i ? "," : "") + "[" + jsnum(cs->getX(i)) + "," + jsnum(cs->getY(i)) + "]"; return "[" + s + "]"; }; std::string j; for (size_t i = 0; i < g->getNumGeometries(); ++i) { auto q = dynamic_cast<const geos::geom::Polygon*>(g->getGeometryN(i)); j += (i ? ",[" : "[") + ring(q->getExteriorRing()); for (size_t k = 0; k < q->getNumInteriorRing(); ++k) j += "," + ring(q->getInteriorRingN(k)); j += "]"; }
            one(w, "area id:              " + ns(o.id) + "\ngeom.toArray():       [" + j + "]\ngeom.toWKT():         " + t.str() + "\ngeom.toWKT(true):     " + ts.str() + "\ngeom.toHexWKB():      " + x.str() + "\ngeom.toHexWKB(true):  " + xs.str() + "\n\n"); }
        v.push_back(w);
    }
};
static std::vector<Wanted> area_texts(const std::string& file, int what) { AreaTexts a; a.what = what; typedef Osmium::Storage::ById::SparseTable<Osmium::OSM::Position> S; S pos, neg; typedef Osmium::Handler::CoordinatesForWays<S, S> C; C cfw(pos, neg); typedef Osmium::MultiPolygon::Assembler<AreaTexts> A; A as(a, true); Osmium::OSMFile f(file); Osmium::Input::read(f, as.handler_pass1()); Osmium::Handler::Sequence<C, A::HandlerPass2> seq(cfw, as.handler_pass2()); Osmium::Input::read(f, seq); return a.v; }
// removes the reports about areas, which may come anywhere among the ways, from the output
static void take_areas(Ctx& c, std::string& out, const std::vector<Wanted>& v) {
    for (auto& w : v) { size_t at = out.npos, n = 0; for (auto& g : w) for (auto& s : g.v) n += s.size(); const std::string& first = w[0].v[0]; for (size_t p = out.find(first); p != out.npos && at == out.npos; p = out.find(first, p + 1)) { if (p && out[p - 1] != '\n') continue; try { same_text(c, out.substr(p, n), w, ""); at = p; } catch (...) { } } if (at == out.npos) c.fail("area not reported: " + show(first, 300)); out.erase(at, n); }
}
static void some_tags(Ctx& c, In& in, const std::vector<std::pair<std::string, std::vector<std::string>>>& pool, unsigned pct) { for (auto& o : in.objs) while (c.chance(pct)) { auto& p = c.pick(pool); GenOpts g; g.xml_text = true; Tag t{p.first, c.chance(75) ? c.pick(p.second) : gen_text(c, g, 60)}; if (c.chance(12) && t.v.size() > 1 && (unsigned char)t.v.back() < 0x80) switch (c.upto(2)) { case 0: t.v.pop_back(); break; case 1: t.v += "s"; break; default: t.v[0] = toupper((unsigned char)t.v[0]); } o.tags.insert(o.tags.begin() + c.upto(o.tags.size()), t); } }
static void run_args(Ctx& c, std::vector<std::string>& a, const std::string& js, bool store, bool mp) { if (mp) { if (c.chance(50)) a.push_back("-2"); a.push_back("-m"); } if (store) { a.push_back("-l"); a.push_back("sparsetable"); } a.push_back("-j"); a.push_back(js); }

SCENARIO(reports, 420, 14000) {
    std::string dir = fresh(c); size_t k = c.upto(6); static const char* names[] = {"objects.js", "objects_2pass.js", "testgeom.js", "count.js", "osm2csv.js", "time.js", "callback_test.js"}; std::string js = names[k]; c.desc << js << " "; c.label(js);
    bool mp = k == 1 || (k == 2 || k == 6) && c.chance(60), store = mp || k == 0 && c.chance(80) || k == 2 && c.chance(70); In in = gen_in(c, mp, false, mp ? 0 : 2); if (in.big) { in.big = false; store = store && mp; } if (k == 4) some_tags(c, in, {{"name", {"a", "b\tc", "\xf0\x9f\x98\x80", ""}}, {"note", {"x", "", "two\nlines"}}}, 40); if (k == 3 && c.chance(70)) some_tags(c, in, {{"a", {"b", "c"}}, {"constructor", {"name", "b"}}, {"toString", {"x"}}, {"__proto__", {"x", "y"}}, {"highway", {"bus_stop", "valueOf"}}, {"1", {"2", "3"}}}, 50);
    write_in(c, in, dir); script(c, dir, js); std::vector<std::string> a; run_args(c, a, js, store, mp); a.push_back(in.file); c.desc << store << mp; tool::Result r = tool::run(prog(c), a, "", "", dir); ended(c, r);
    Wanted w; size_t n = 0, kinds[3] = {0, 0, 0}; for (auto& o : in.objs) ++kinds[o.kind]; bool loose = false; c.label_if(mp, "areas");
    if (k < 3) {
        if (k < 2) one(w, "Start!\n"); for (auto& o : in.objs) {
            bool partly = false; auto v = o.kind == 1 ? places(o, in, store, partly) : std::vector<P>(); if (partly) { loose = true; break; } Geo g = o.kind == 0 ? point(o) : o.kind == 1 && !v.empty() ? line(v, false, false) : Geo();
            if (k < 2) { n++; std::string s = head(o); if (o.kind == 0) s += " " + jsnum(deg(o.x)) + " " + jsnum(deg(o.y)) + " " + g.wkt + " [" + g.hex + "]"; if (o.kind == 1) s += " " + g.wkt; one(w, s + "\n"); group(w, tag_lines(o)); s = ""; for (int64_t x : o.refs) s += " ref " + ns(x) + "\n"; for (auto& m : o.members) s += std::string(" member ") + m.type + " " + ns(m.ref) + " " + m.role + "\n"; one(w, s); }
            else if (o.kind < 2) { n++; std::string s = o.kind ? "way id:               " + ns(o.id) + "\n" : "node id:              " + ns(o.id) + "\ngeom.lon:             " + jsnum(deg(o.x)) + "\ngeom.lat:             " + jsnum(deg(o.y)) + "\n"; s += "geom.toArray():       " + g.json + "\ngeom.toWKT():         " + g.wkt + "\ngeom.toWKT(true):     " + g.ewkt + "\ngeom.toHexWKB():      " + g.hex + "\ngeom.toHexWKB(true):  " + g.ehex + "\n"; if (o.kind) s += "reverse_geom.toWKT(): " + (v.empty() ? Geo() : line(v, true, false)).wkt + "\npolygon_geom.toWKT(): " + (v.empty() || o.refs.front() != o.refs.back() ? Geo() : line(v, false, true)).wkt + "\n"; one(w, s + "\n"); }
        }
        std::string out = r.out; if (loose) { c.label("way with some nodes missing"); size_t len = 0; for (auto& g : w) for (auto& s : g.v) len += s.size(); out = out.substr(0, len); } else if (k < 2) one(w, "End!\n"); if (mp) { auto v = area_texts(dir + "/" + in.file, k == 1 ? 0 : 1); c.label_if(!v.empty(), "with areas"); take_areas(c, out, v); } same_text(c, out, w, js); c.nontrivial(n >= 2);
    } else if (k == 3) {
        c.check(r.out == "Start!\nEnd!\n", "printed " + show(r.out, 500)); std::map<std::string, uint64_t> keys, tags; for (auto& o : in.objs) if (o.kind == 0) for (auto& t : tag_map(o)) { ++keys[t.first]; ++tags[t.first + "\t" + t.second]; ++n; } auto file = [&](const char* f, const std::map<std::string, uint64_t>& m) { std::vector<std::string> v; for (auto& x : m) v.push_back(x.first + "\t" + std::to_string(x.second) + "\n"); Wanted w1; group(w1, v); same_text(c, tool::take(dir + "/" + f), w1, f); }; file("stats-keys-nodes.csv", keys); file("stats-tags-nodes.csv", tags); c.nontrivial(keys.size() >= 2);
    } else if (k == 4) {
        std::string s; for (auto& o : in.objs) if (o.kind == 0) { auto m = tag_map(o); ++n; s += ns(o.id) + "\t" + (m.count("name") ? m["name"] : "undefined") + "\t" + (m.count("note") ? m["note"] : "undefined") + "\n"; } one(w, s); same_text(c, tool::take(dir + "/out.csv"), w, "out.csv"); c.check(r.out.empty(), "printed " + show(r.out, 500)); c.nontrivial(n >= 2);
    } else if (k == 5) { one(w, std::string(kinds[1] ? "first way\n" : "") + (kinds[2] ? "first relation\n" : "") + "nodes: " + ns(kinds[0]) + "  ways: " + ns(kinds[1]) + "  relations: " + ns(kinds[2]) + "\n"); same_text(c, r.out, w, js); c.nontrivial(in.objs.size() >= 2); }
    else { const std::string ok = "\xe2\x9c\x94 "; std::string s = ok + "init\n"; static const char* kn[] = {"node", "way", "relation"}; for (int i = 0; i < 3; ++i) if (kinds[i]) s += ok + "before_" + kn[i] + "s\n" + ok + kn[i] + "\n" + ok + "after_" + kn[i] + "s\n"; one(w, s + ok + "end\n"); std::string out = r.out; if (mp && !area_texts(dir + "/" + in.file, 2).empty()) { size_t p = out.find(ok + "area\n"), b = out.find(ok + "way\n"); c.check(p != out.npos && b != out.npos && p > out.find(ok + "before_ways\n") && p < out.find(ok + "after_ways\n"), "no area reported among the ways: " + show(out, 1000)); out.erase(p, ok.size() + 5); } same_text(c, out, w, js); c.nontrivial(in.objs.size() >= 2); }
}

// ---- exports
struct R1 { int kind; std::string key, values, file; std::vector<std::pair<std::string, std::string>> attrs; };
static const std::vector<R1>& config_rules() {
    static const std::vector<R1> v = {{0, "natural", "tree|peak|spring", "natural_pois", {{"type", "natural"}, {"name", "name"}}}, {1, "waterway", "stream|river|ditch|canal|drain", "waterways", {{"type", "waterway"}, {"name", "name"}}}, {1, "highway", "motorway|trunk|primary|secondary", "roads", {{"type", "highway"}, {"ref", "ref"}, {"name", "name"}, {"oneway", "oneway"}, {"maxspeed", "maxspeed"}}}, {1, "highway", "cycleway", "cycleways", {{"name", "name"}}}, {1, "railway", "rail", "railways", {{"name", "name"}}}, {1, "power", "line", "powerlines", {{"name", "name"}}}, {3, "boundary", "administrative", "boundaries", {{"level", "admin_level"}, {"name", "name"}}}, {3, "boundary", "national_park|national_forest|protected_area", "protected_areas", {{"type", "boundary"}, {"name", "name"}}},
        {3, "landuse", "forest|grass|residential|farm|meadow|farmland|industrial|farmyard|cemetery|commercial|quarry|orchard|vineyard|allotments|retail|construction|recreation_ground|village_green", "landuse", {{"type", "landuse"}, {"name", "name"}}}, {3, "natural", "water", "water", {{"type", "natural"}, {"name", "name"}}}, {3, "landuse", "reservoir", "water", {{"type", "landuse"}, {"name", "name"}}}, {3, "waterway", "riverbank", "water", {{"type", "waterway"}, {"name", "name"}}}, {3, "natural", "glacier", "glaciers", {{"name", "name"}}}}; return v;
}
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> v(1); for (char ch : s) if (ch == '|') v.push_back(""); else v.back() += ch; return v; }
static FieldDef S(const std::string& n, int w) { return FieldDef{n, 'C', w, 0}; } static FieldDef I(const std::string& n, int w) { return FieldDef{n, 'N', w, 0}; }
static std::vector<ShpFile> config_files() { FieldDef id = I("id", 10), name = S("name", 32), type = S("type", 32); return {{"natural_pois", SHPT_POINT, {S("id", 12), type, name}, {}}, {"roads", SHPT_ARC, {id, type, name, S("ref", 16), FieldDef{"oneway", 'L', 1, 0}, I("maxspeed", 3)}, {}}, {"cycleways", SHPT_ARC, {id, name}, {}}, {"railways", SHPT_ARC, {id, name}, {}}, {"waterways", SHPT_ARC, {id, type, name}, {}}, {"powerlines", SHPT_ARC, {id, name}, {}}, {"boundaries", SHPT_POLYGON, {id, I("level", 2), name}, {}}, {"protected_areas", SHPT_POLYGON, {id, type, name}, {}}, {"landuse", SHPT_POLYGON, {id, type, name}, {}}, {"water", SHPT_POLYGON, {id, type, name}, {}}, {"glaciers", SHPT_POLYGON, {id, name}, {}}}; }
static Want field_want(const FieldDef& f, bool there, const std::string& x) { return !there ? Want{1, ""} : f.type == 'C' ? text_want(x, f.width) : f.type == 'L' ? bool_want(x) : int_want(x, f.width); }

SCENARIO(exports, 260, 8000) {
    std::string dir = fresh(c); size_t k = c.upto(2); static const char* names[] = {"area.js", "shape_export.js", "config.js"}; std::string js = names[k]; c.desc << js << " "; c.label(js); In in = gen_in(c, true, false);
    { // small ids for ways and relations
        std::map<int64_t, int64_t> m[3]; for (auto& o : in.objs) if (o.kind) { int64_t n = m[o.kind].size() + 1 + (m[o.kind].empty() ? 0 : m[o.kind].rbegin()->second - (int64_t)m[o.kind].size()); if (c.chance(30)) n += c.upto(1000000); m[o.kind][o.id] = n; } for (auto& o : in.objs) { for (auto& x : o.members) if (x.type == 'w' && m[1].count(x.ref)) x.ref = m[1][x.ref]; if (o.kind) o.id = m[o.kind][o.id]; } }
    typedef std::vector<std::string> V; V names1{"a", "Stra\xc3\x9f""e", "ein sehr langer Name \xc3\xa4\xc3\xb6\xc3\xbc\xe2\x82\xac mit vielen Zeichen", ""}; some_tags(c, in, {{"name", names1}}, 30);
    if (k == 0) some_tags(c, in, {{"boundary", {"administrative", ""}}, {"building", {"yes", ""}}}, 35); if (k == 1) some_tags(c, in, {{"amenity", {"restaurant", "pub", "bank", "constructor", "toString"}}, {"shop", {"supermarket", "bakery"}}, {"constructor", {"name", "prototype"}}, {"toString", {"name"}}, {"highway", {"primary", "residential", ""}}, {"landuse", {"forest", ""}}, {"oneway", {"yes", "1", "true", "-1", "no"}}, {"maxspeed", {"50", "50 km/h", "70kmh", "100 kmh", "30 mph", "none", "1234", "007", "50  kmh"}}}, 65); if (k == 2) some_tags(c, in, {{"natural", {"tree", "peak", "spring", "water", "glacier"}}, {"waterway", {"stream", "drain", "riverbank"}}, {"highway", {"motorway", "secondary", "cycleway", "path"}}, {"railway", {"rail", "tram"}}, {"power", {"line"}}, {"boundary", {"administrative", "national_park", "protected_area"}}, {"admin_level", {"2", "10", "4;5", "x"}}, {"landuse", {"forest", "village_green", "meadow", "reservoir"}}, {"ref", {"B 3", "A 1;A 2 und noch viel mehr"}}, {"oneway", {"yes", "no", "-1", "maybe"}}, {"maxspeed", {"50", "100", "walk"}}}, 65);
    if (k == 1) for (auto& o : in.objs) { bool am = false; std::vector<Tag> v; for (auto& t : o.tags) { bool x = t.k == "amenity" || t.k == "shop"; if (x && am) continue; am |= x; v.push_back(t); } o.tags = v; }
    write_in(c, in, dir); script(c, dir, js); std::vector<std::string> a; if (k == 2) { script(c, dir, "osm2shape.js"); a.push_back("-i"); a.push_back(c.chance(50) ? "osm2shape" : "osm2shape.js"); } run_args(c, a, js, true, true); a.push_back(in.file); tool::Result r = tool::run(prog(c), a, "", "", dir); ended(c, r);
    auto as = area_shapes(dir + "/" + in.file); std::vector<ShpFile> files; size_t written = 0; std::string out = r.out; Wanted w; auto rec_of = [&](ShpFile& s, const Obj& o, int kind, const Shape* shape, const std::vector<Want>& v) { Rec rec; rec.what = std::string("nwra").substr(kind, 1) + ns(o.id); rec.v = v; if (shape) rec.shape = *shape; else { Line l; if (kind == 0) { if (!o.defined()) return; l.push_back({deg(o.x), deg(o.y)}); } else if (!shape_line(o.refs, in.pos, false, l)) { c.label("geometry refused"); return; } rec.shape = Shape{l}; } s.recs.push_back(rec); ++written; };
    if (k == 0) { files = {{"areas", SHPT_POLYGON, {I("id", 10), S("type", 32), S("name", 32)}, {}}}; for (auto& x : as) rec_of(files[0], x.o, 3, &x.s, {Want{2, num(x.o.id, 10, 0)}, Want{2, padded(!value_of(x.o, "boundary").empty() ? "boundary" : !value_of(x.o, "building").empty() ? "building" : "unknown", 32)}, field_want(files[0].f[2], has(x.o, "name"), value_of(x.o, "name"))}); take_areas(c, out, area_texts(dir + "/" + in.file, 2)); one(w, "Start!\nEnd!\n"); }
    else if (k == 1) {
        files = {{"pois", SHPT_POINT, {S("id", 12), S("type", 32), S("name", 32)}, {}}, {"roads", SHPT_ARC, {I("id", 10), S("type", 32), S("name", 32), I("oneway", 1), I("maxspeed", 3)}, {}}, {"landuse", SHPT_POLYGON, {I("id", 10), S("type", 32)}, {}}};
        for (auto& o : in.objs) { Want name = field_want(files[0].f[2], has(o, "name"), value_of(o, "name")); if (o.kind == 0) { std::string t = value_of(o, "amenity"); if (t != "restaurant" && t != "pub") t = value_of(o, "shop") == "supermarket" ? "supermarket" : ""; if (!t.empty()) rec_of(files[0], o, 0, nullptr, {Want{2, padded(ns(o.id), 12)}, Want{2, padded(t, 32)}, name}); }
            if (o.kind == 1) { std::string hw = value_of(o, "highway"), ow = value_of(o, "oneway"), ms = value_of(o, "maxspeed"); if (hw.empty()) continue; int one_way = ow == "1" || ow == "yes" || ow == "true" ? 1 : ow == "-1" ? 2 : 0; size_t d = ms.find_first_not_of("0123456789"); std::string digits = ms.substr(0, d), rest = d == ms.npos ? "" : ms.substr(d); if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1); if (digits.empty() || !(rest == "" || rest == "kmh" || rest == "km/h")) digits = "0"; rec_of(files[1], o, 1, nullptr, {Want{2, num(o.id, 10, 0)}, text_want(hw, 32), name, Want{2, num(one_way, 1, 0)}, int_want(digits, 3)}); } }
        for (auto& x : as) if (!value_of(x.o, "landuse").empty()) rec_of(files[2], x.o, 3, &x.s, {Want{2, num(x.o.id, 10, 0)}, text_want(value_of(x.o, "landuse"), 32)}); one(w, "Init\nDone\n");
    } else {
        files = config_files(); auto feed = [&](const Obj& o, int kind, const Shape* s) { for (auto& u : config_rules()) { if (u.kind != kind) continue; auto vals = split(u.values); std::string x = value_of(o, u.key); if (x.empty() || std::find(vals.begin(), vals.end(), x) == vals.end()) continue; for (auto& f : files) if (f.name == u.file) { std::vector<Want> v; for (auto& col : f.f) if (col.name == "id") v.push_back(col.type == 'C' ? Want{2, padded(ns(o.id), col.width)} : Want{2, num(o.id, col.width, 0)}); else { std::string key; for (auto& at : u.attrs) if (at.first == col.name) key = at.second; v.push_back(field_want(col, !key.empty() && has(o, key), value_of(o, key))); } rec_of(f, o, kind, s, v); } } };
        for (auto& o : in.objs) if (o.kind < 2) feed(o, o.kind, nullptr); for (auto& x : as) feed(x.o, 3, &x.s); std::string s = "Init\n"; for (auto& f : files) { s += "Shapefile: " + f.name + "\n  Filename: " + f.name + "\n  Geometry type: " + (f.type == SHPT_POINT ? "POINT" : f.type == SHPT_ARC ? "LINE" : "POLYGON") + "\n  Columns:\n"; for (auto& col : f.f) s += "    " + (col.name + "          ").substr(0, 11) + (col.type == 'C' ? "STRING " : col.type == 'N' ? "INTEGER " : "BOOL ") + ns(col.width) + "\n"; s += "\n"; } one(w, s + "Done\n");
    }
    same_text(c, out, w, js); c.nontrivial(written > 1); for (auto& f : files) { c.label_if(f.recs.size() > 0, f.name); same_file(c, dir, f); }
}

// ---- wrong configurations of the shape export
SCENARIO(wrong_config, 60, 600) {
    std::string dir = fresh(c); script(c, dir, "osm2shape.js"); spit(dir + "/e.osm", xml_of({}, false)); GenOpts g; g.xml_text = true; std::string name = c.pick(std::vector<std::string>{"roads", "x", "0", "a b"}), other = name + c.pick(std::vector<std::string>{"s", "2", " "}), cfg = "shapefile(" + lit(name) + ").type(LINE).column('id',INTEGER,10).column('name',STRING,32);\n", msg; size_t k = c.upto(6); std::string bad = c.pick(std::vector<std::string>{"lines", "", "POINT", "2", "x"});
    switch (k) { case 0: cfg += "shapefile('q').type(" + lit(bad) + ");"; msg = "Unknown shapefile geometry type: " + bad; break; case 1: cfg += "shapefile('q').column('c'," + lit(bad) + ",5);"; msg = "Unknown attribute type: " + bad; break; case 2: cfg += "way('highway').output(" + lit(other) + ");"; msg = "Unknown shapefile: " + other; break; case 3: cfg += "node('a','b').attr('name');"; msg = "Output file not set for rule a=b"; break; case 4: cfg += "area('a').output(" + lit(name) + ").attr(" + lit(other) + ");"; msg = "There is no column named '" + other + "' in output file '" + name + "'"; break; case 5: cfg += "way('a').output(" + lit(name) + ").attr('name').attr('ref','name');"; msg = "There is no column named 'ref' in output file '" + name + "'"; break; default: cfg += "way('a').output(" + lit(name) + ").attr('name');"; }
    spit(dir + "/c.js", cfg); c.desc << cfg; c.nontrivial(k < 6); tool::Result r = tool::run(prog(c), {"-2", "-m", "-l", "sparsetable", "-i", "osm2shape", "-j", "c.js", "e.osm"}, "", "", dir); if (k == 6) { ended(c, r); return; } c.eq(r.status, 1, "exit status; " + show(r.err, 500)); c.check(r.out == msg + "\n", "printed " + show(r.out, 500) + " instead of " + msg); c.check(!r.err.empty() && r.err.find("runtime error") == r.err.npos, "message: " + show(r.err, 1000)); c.check(access((dir + "/" + name + ".shp").c_str(), F_OK) != 0, "shapefile written");
}
