// The programs that export through GDAL write exactly the selected objects.
// LIBS: pbf xml geosc shp gdal
// GEOS: old
// GDAL: old
// TOOLS: osmium_toogr osmium_toogr2 osmium_to_postgis
#include "mpworld.hpp"
#include <gdal.h>
#include <ogrsf_frmts.h>
#include "io.hpp"
#include "tool.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

RULE("a case counts as non-trivial if at least two features are to be written; distinct by description");
ASSUME("GDAL has had no driver interface of the kind these programs use since version 2: they are built with a stand-in for it (fw/oldgdal) on the installed GDAL, in which the PostgreSQL driver records what it is told");
ASSUME("what GDAL itself does to the values of a format is not judged: files are written as SQLite, GeoPackage and (short ASCII texts and ids only) ESRI Shapefile, and read with the installed GDAL");

static struct Quiet { Quiet() { pbt::worker_init() = [] { GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); }; } } quiet;
typedef std::pair<double, double> D;
static D pt(P p) { return {deg(p.x), deg(p.y)}; }

struct Feature { std::string id, text; bool null = false; std::vector<D> pts; Multi mp; };
static std::string str(const std::vector<D>& v) { std::ostringstream o; o.precision(12); for (auto& p : v) o << p.first << "," << p.second << " "; return o.str(); }
static int32_t back(Ctx& c, double d) { double r = std::round(d * 1e7); c.check(std::fabs(r) <= 2147483648.0 && r / 1e7 == d, "coordinate that is no OSM coordinate"); return (int32_t)r; }
static Ring ring(Ctx& c, const OGRLineString* l) { Ring r; for (int i = 0; i < l->getNumPoints(); ++i) r.push_back(P{back(c, l->getX(i)), back(c, l->getY(i))}); return r; }
static bool wgs84(OGRLayer* l) { const OGRSpatialReference* s = l->GetSpatialRef(); return s && s->IsGeographic() && std::fabs(s->GetSemiMajor() - 6378137) < 1e-3 && std::fabs(s->GetInvFlattening() - 298.257223563) < 1e-6; }

static std::vector<Feature> look(Ctx& c, GDALDataset* ds, const char* layer, const char* second) {
    OGRLayer* l = ds->GetLayerByName(layer); c.check(l, std::string("no layer ") + layer); c.check(wgs84(l), std::string("spatial reference system of ") + layer); std::vector<Feature> v; l->ResetReading();
    int a = l->GetLayerDefn()->GetFieldIndex("id"), b = second ? l->GetLayerDefn()->GetFieldIndex(second) : -1; c.check(a >= 0 && (!second || b >= 0), std::string("fields of ") + layer);
    while (OGRFeature* f = l->GetNextFeature()) {
        std::unique_ptr<OGRFeature, void (*)(OGRFeature*)> own(f, OGRFeature::DestroyFeature); Feature x; char t[64]; c.check(f->IsFieldSetAndNotNull(a), "feature without id"); snprintf(t, sizeof t, "%.15g", f->GetFieldAsDouble(a)); x.id = t; if (second) { x.null = !f->IsFieldSetAndNotNull(b); x.text = f->GetFieldAsString(b); }
        const OGRGeometry* g = f->GetGeometryRef(); if (!g) { v.push_back(x); continue; } switch (wkbFlatten(g->getGeometryType())) {
            case wkbPoint: x.pts.push_back({g->toPoint()->getX(), g->toPoint()->getY()}); break;
            case wkbLineString: for (int i = 0; i < g->toLineString()->getNumPoints(); ++i) x.pts.push_back({g->toLineString()->getX(i), g->toLineString()->getY(i)}); break;
            case wkbMultiPolygon: for (int i = 0; i < g->toMultiPolygon()->getNumGeometries(); ++i) { const OGRPolygon* q = g->toMultiPolygon()->getGeometryRef(i); Poly p; p.push_back(ring(c, q->getExteriorRing())); for (int k = 0; k < q->getNumInteriorRings(); ++k) p.push_back(ring(c, q->getInteriorRing(k))); x.mp.push_back(p); } break;
            default: c.fail(std::string("geometry of kind ") + g->getGeometryName()); }
        v.push_back(x);
    }
    return v;
}
struct Set { GDALDataset* d; Set(Ctx& c, const std::string& f) : d((GDALDataset*)GDALOpenEx(f.c_str(), GDAL_OF_VECTOR, nullptr, nullptr, nullptr)) { c.check(d, "output cannot be opened"); } ~Set() { GDALClose(d); } };
static void clean(const std::string& d) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; n = d + "/" + n; struct stat st; if (!lstat(n.c_str(), &st) && S_ISDIR(st.st_mode)) { clean(n); rmdir(n.c_str()); } else unlink(n.c_str()); } closedir(h); } }
static std::string fresh(Ctx& c) { std::string d = c.path("d"); mkdir(d.c_str(), 0700); clean(d); return d; }

static std::string word(Ctx& c, bool plain, size_t most) { std::string s; size_t n = c.upto(most); for (size_t i = 0; i < n; ++i) { if (plain || c.chance(70)) s += (char)(33 + c.upto(93)); else if (c.chance(20)) s += ' '; else { uint32_t u = c.chance(50) ? c.range(0xa1, 0x7ff) : c.chance(70) ? c.range(0x800, 0xd7ff) : c.range(0x10000, 0x1ffff); if (u < 0x800) { s += (char)(0xc0 | u >> 6); s += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { s += (char)(0xe0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); } else { s += (char)(0xf0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); } } } return s; }
static P place(Ctx& c) { return P{(int32_t)c.range(-1800000000, 1800000000), (int32_t)c.range(-900000000, 900000000)}; }

// post boxes and roads
SCENARIO(toogr, 250, 6000) {
    std::string dir = fresh(c); size_t fmt = c.weighted({60, 25, 15}); static const char* F[] = {"SQLite", "GPKG", "ESRI Shapefile"}; bool plain = fmt == 2; Data d; WOpts o; o.enc = c.chance(50) ? PBF : XML; o.dense = c.chance(50); std::map<int64_t, P> pos; std::set<int64_t> used; std::vector<int64_t> ids; std::vector<Feature> boxes, roads; std::set<std::string> open;
    size_t nn = c.upto(12); for (size_t i = 0; i < nn; ++i) { Obj n; do { n.id = c.chance(80) || plain ? 1 + c.upto(200) : 1 + c.upto(99998); if (c.chance(25)) n.id = -n.id; } while (!used.insert(n.id).second); P p = c.chance(90) || pos.empty() ? place(c) : pos.begin()->second; bool nowhere = o.enc == XML && c.chance(6); if (nowhere) p = P{UNDEF, UNDEF}; nowhere = p.x == UNDEF; n.x = p.x; n.y = p.y;
        bool box = c.chance(45); Feature f; f.null = true; if (box) n.tags.push_back(Tag{"amenity", "post_box"}); else if (c.chance(40)) n.tags.push_back(Tag{c.chance(50) ? "amenity" : "emergency", c.pick(std::vector<std::string>{"post", "post_box2", "", "post_office"})}); if (c.chance(60)) { f.null = false; f.text = word(c, plain, plain ? 30 : 45); n.tags.push_back(Tag{"operator", f.text}); } if (c.chance(50) && n.tags.size() > 1) std::swap(n.tags[0], n.tags[1]); d.objs.push_back(n); pos[n.id] = p; ids.push_back(n.id); if (box && !nowhere) { f.id = std::to_string(n.id); f.pts = {pt(p)}; boxes.push_back(f); } c.label_if(box && nowhere, "post box without position"); }
    size_t nw = c.upto(8); for (size_t i = 0; i < nw; ++i) { Obj y; y.kind = 1; y.id = (int64_t)i + 1; if (!plain && c.chance(20)) y.id = 99999999900LL + i; if (c.chance(20)) y.id = -y.id; size_t n = 2 + c.upto(6); if (c.chance(8)) n = c.upto(1); bool whole = true; Feature f; for (size_t k = 0; k < n; ++k) { int64_t id = !ids.empty() && !c.chance(4) ? c.pick(ids) : 200000 + c.upto(5); y.refs.push_back(id); bool have = pos.count(id) && pos[id].x != UNDEF; whole &= have; if (have) f.pts.push_back(pt(pos[id])); }
        bool road = c.chance(75); f.text = word(c, plain, plain ? 30 : 45); if (c.chance(30)) y.tags.push_back(Tag{"name", "x"}); y.tags.push_back(Tag{road ? "highway" : c.pick(std::vector<std::string>{"waterway", "highway:x", "high"}), f.text}); d.objs.push_back(y); f.id = std::to_string(y.id); if (road && n < 2) open.insert(f.id); else if (road && whole) roads.push_back(f); c.label_if(road && !whole, "road with nodes that are not there"); c.label_if(road && n < 2, "road with less than two nodes"); }
    c.nontrivial(boxes.size() + roads.size() > 1); c.label(F[fmt]); c.desc << F[fmt] << " "; for (auto& x : d.objs) c.desc << model::str(x) << "; "; std::string f = dir + (o.enc == PBF ? "/a.osm.pbf" : "/a.osm"); write_file(f, d, o); std::vector<std::string> args; std::string out = dir + "/ogr_out", in; bool named = c.chance(60);
    if (fmt || c.chance(30)) { if (c.chance(50)) { args.push_back("-f"); args.push_back(F[fmt]); } else args.push_back(std::string("--format=") + F[fmt]); } bool pipe = o.enc == PBF && c.chance(30); if (pipe) { in = f; c.label("read from stdin"); } if (!pipe || named) args.push_back(pipe ? "-" : f); if (named) { out = dir + (fmt == 0 ? "/o.sqlite" : fmt == 1 ? "/o.gpkg" : "/o"); args.push_back(out); } for (auto& a : args) c.desc << " " << a;
    auto r = tool::run("osmium_toogr", args, in, "", dir); c.eq(r.status, 0, "exit status; " + show(r.err, 300)); Set s(c, out);
    auto compare = [&](const char* layer, const char* second, const std::vector<Feature>& want) { auto got = look(c, s.d, layer, second); std::vector<Feature> g; for (auto& x : got) { if (!open.count(x.id) || !strcmp(layer, "postboxes")) { g.push_back(x); continue; } c.check(x.pts.size() < 2, "road with less than two nodes has " + str(x.pts)); } for (size_t i = 0; i < std::max(g.size(), want.size()); ++i) { std::string n = std::string(layer) + " " + std::to_string(i) + ": "; if (i >= g.size()) c.fail(n + "missing, id " + want[i].id); if (i >= want.size()) c.fail(n + "should not be there, id " + g[i].id + " at " + str(g[i].pts)); c.eq(g[i].id, want[i].id, n + "id"); c.check(g[i].pts == want[i].pts, n + "is at " + str(g[i].pts) + " instead of " + str(want[i].pts)); if (want[i].null ? !g[i].text.empty() : g[i].text != want[i].text) c.fail(n + second + " is '" + show(g[i].text, 200) + "' instead of '" + show(want[i].text, 200) + "'"); } };
    compare("postboxes", "operator", boxes); compare("roads", "type", roads);
}

// buildings
SCENARIO(toogr2, 250, 6000) {
    std::string dir = fresh(c); World w; make_world(c, w, false, true, false); bool big = c.chance(20); if (big) { c.label("large ids"); std::map<int64_t, int64_t> m; for (auto& y : w.ways) { int64_t n = m[y.o.id] = y.o.id < 0 ? y.o.id - 1000000000 : y.o.id + 1073740000; y.o.id = n; } for (auto& r : w.rels) { for (auto& x : r.o.members) if (x.type == 'w' && m.count(x.ref)) x.ref = m[x.ref]; std::set<int64_t> s; for (auto i : r.ways) s.insert(m[i]); r.ways = s; } c.desc << "ways moved; "; }
    std::vector<size_t> order; auto want = plan(c, w, order, true); shuffle(c, order); Data d; std::map<int64_t, P> pos; WOpts o; o.enc = c.chance(50) ? PBF : XML; for (size_t i : order) for (size_t k = 0; k < w.ways[i].pos.size(); ++k) if (w.ways[i].pos[k].x != UNDEF) pos[w.ways[i].o.refs[k]] = w.ways[i].pos[k];
    for (auto& p : pos) { Obj n; n.id = p.first; n.x = p.second.x; n.y = p.second.y; if (c.chance(5)) n.tags.push_back(Tag{"building", "no"}); d.objs.push_back(n); } for (size_t i : order) d.objs.push_back(normalise(w.ways[i].o, o)); for (auto& r : w.rels) d.objs.push_back(normalise(r.o, o)); std::string f = dir + (o.enc == PBF ? "/a.osm.pbf" : "/a.osm"); write_file(f, d, o);
    auto r = tool::run("osmium_toogr2", {f}, "", "", dir); c.eq(r.status, 0, "exit status; " + show(r.err, 300)); Set s(c, dir + "/ogr_out.sqlite"); auto got = look(c, s.d, "areas", nullptr); size_t sure = 0; std::string wrapped;
    want.erase(std::remove_if(want.begin(), want.end(), [](const Want& x) { return x.none; }), want.end()); for (auto& x : want) { int has = 0, not_ = 0; for (auto& t : x.tags) { bool b = false; for (auto& k : t) b |= k.first == "building"; (b ? has : not_)++; } std::string id = std::to_string(x.id), small = std::to_string((int32_t)x.id); size_t i = 0; while (i < got.size() && got[i].id != id) ++i; if (i == got.size() && small != id) { i = 0; while (i < got.size() && got[i].id != small) ++i; if (i < got.size() && wrapped.empty()) wrapped = "building " + id + " has the id " + small; } if (i == got.size()) { if (!not_) c.fail("building " + id + " is missing"); continue; } c.check(has, "area " + id + " is no building"); ++sure; if (x.exact ? got[i].mp != x.geom : canonical(got[i].mp) != canonical(x.geom)) c.fail("building " + id + " is " + areas::str(got[i].mp) + " instead of " + areas::str(x.geom)); got.erase(got.begin() + i); }
    if (!got.empty()) c.fail("feature " + got[0].id + " should not be there: " + areas::str(got[0].mp)); c.nontrivial(sure > 1); c.label(sure ? "buildings" : "no building"); c.check(wrapped.empty(), wrapped, "toogr2-large-id");
}

// nodes with tags in a database
static bool parse_hstore(const std::string& s, std::vector<Tag>& v) { // PostgreSQL's quoted form
    size_t i = 0; auto quoted = [&](std::string& r) { if (i >= s.size() || s[i++] != '"') return false; while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && ++i == s.size()) return false; r += s[i++]; } return i++ < s.size(); };
    if (s.empty()) return true; for (;;) { Tag t; if (!quoted(t.k)) return false; while (i < s.size() && s[i] == ' ') ++i; if (s.compare(i, 2, "=>")) return false; i += 2; while (i < s.size() && s[i] == ' ') ++i; if (!quoted(t.v)) return false; v.push_back(t); while (i < s.size() && s[i] == ' ') ++i; if (i == s.size()) return true; if (s[i++] != ',') return false; while (i < s.size() && s[i] == ' ') ++i; }
}
static std::string unhex(const std::string& s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }
SCENARIO(postgis, 400, 10000) {
    std::string dir = fresh(c); Data d; WOpts o; o.enc = c.chance(50) ? PBF : XML; o.dense = c.chance(50); size_t nn = c.upto(12); int64_t id = -3; std::vector<Obj> want; std::string db = c.pick(std::vector<std::string>{"gis", "osm_test", "x"});
    for (size_t i = 0; i < nn; ++i) { Obj n; id += 1 + (c.chance(20) ? c.upto(10000000000LL) : c.upto(3)); if (!id) ++id; n.id = id; areas::P p = place(c); if (o.enc == XML && c.chance(6)) { p = P{UNDEF, UNDEF}; c.label("node without position"); } n.x = p.x; n.y = p.y; size_t nt = c.weighted({25, 30, 25, 20}); for (size_t k = 0; k < nt; ++k) { Tag t; switch (c.weighted({30, 30, 25, 15})) { case 0: t = Tag{c.pick(std::vector<std::string>{"created_by", "odbl"}), "x"}; break; case 1: t = Tag{c.pick(std::vector<std::string>{"name", "created", "odbl:note", "created_by2", "Odbl", "highway"}), word(c, false, 12)}; break; case 2: { static const char S[] = "\"\\,=>' \t;{}NULL\n"; std::string* q[] = {&t.k, &t.v}; for (auto* x : q) { size_t l = c.upto(6); for (size_t m = 0; m < l; ++m) *x += S[c.upto(o.enc == XML ? sizeof S - 3 : sizeof S - 2)]; } break; } default: t = Tag{word(c, false, 8), word(c, false, 8)}; } if (o.enc == XML) for (auto* x : {&t.k, &t.v}) for (auto& ch : *x) if (ch == '\t' || ch == '\n') ch = '_'; n.tags.push_back(t); } d.objs.push_back(n); Obj e = n; e.tags.clear(); for (auto& t : n.tags) if (t.k != "created_by" && t.k != "odbl") e.tags.push_back(t); if (!e.tags.empty() && p.x != UNDEF) want.push_back(e); c.label_if(!n.tags.empty() && e.tags.empty(), "only filtered tags"); }
    std::ostringstream many; size_t small = d.objs.size(); if (c.chance(4)) { Bulk b{c.upto(~0ULL)}; size_t n = 400 + c.upto(c.thorough ? 20000 : 3000); many << n << " more nodes, seed " << b.state; c.label("thousands of nodes"); for (size_t i = 0; i < n; ++i) { Obj q = bulk_obj(b, 0, id += 1 + b.upto(3), 50, 2); if (!q.id) q.id = ++id; d.objs.push_back(q); Obj e; e.id = q.id; e.x = q.x; e.y = q.y; e.tags = q.tags; if (!e.tags.empty()) want.push_back(e); } }
    if (c.chance(40)) { Obj y; y.kind = 1; y.id = 5; y.tags.push_back(Tag{"highway", "x"}); for (size_t i = 0; i < 3; ++i) y.refs.push_back(i + 1); d.objs.push_back(y); } if (c.chance(30)) { Obj r; r.kind = 2; r.id = 9; r.tags.push_back(Tag{"type", "x"}); d.objs.push_back(r); }
    c.nontrivial(want.size() > 1); for (size_t i = 0; i < d.objs.size(); ++i) if (i < small || d.objs[i].kind) c.desc << model::str(d.objs[i]) << "; "; c.desc << many.str(); std::string f = dir + (o.enc == PBF ? "/a.osm.pbf" : "/a.osm"); write_file(f, d, o); std::vector<std::string> args; bool debug = c.chance(20); if (debug) args.push_back(c.chance(50) ? "-d" : "--debug"); args.push_back(f); args.push_back(db); auto r = tool::run("osmium_to_postgis", args, "", "", dir); c.eq(r.status, 0, "exit status; " + show(r.err, 300)); if (!debug) c.check(r.out.empty(), "output " + show(r.out, 100));
    std::istringstream in(tool::take(dir + "/" + db)); std::string l; std::vector<Obj> got; bool table = false, geom = false, layer = false, open = false, closed = false; int txn = 0;
    while (std::getline(in, l)) { c.check(!closed, "statement after the end: " + show(l, 100)); std::istringstream p(l); std::string w; p >> w; if (w == "open") open = true; else if (w == "close") { c.check(txn == 0 || d.objs.empty() || d.objs[0].kind != 0, "transaction is not committed"); closed = true; } else if (w == "sql") { c.check(!layer, "statement after the layer was opened"); if (l.find("CREATE TABLE nodes") != l.npos) { table = true; c.check(l.find("id VARCHAR") != l.npos && l.find("tags hstore") != l.npos, "columns of the table: " + l); } else if (l.find("AddGeometryColumn") != l.npos) { c.check(table, "geometry column before the table"); geom = true; c.check(l.find("'nodes'") != l.npos && l.find("4326") != l.npos && l.find("'POINT'") != l.npos, "geometry column: " + l); } }
        else if (w == "layer") { c.check(table && geom, "layer opened before the table is complete"); layer = true; p >> w; c.eq(w, std::string("nodes"), "layer"); } else if (w == "start") { c.eq(txn++, 0, "transactions in progress"); } else if (w == "commit") { c.eq(txn--, 1, "transactions in progress"); } else if (w == "rollback") c.fail("transaction rolled back");
        else if (w == "feature") { c.check(txn == 1, "feature outside of a transaction"); std::string x, y, t; p >> x >> y >> t; Obj n; size_t k = t.find('-'); c.check(k != t.npos && x != "none", "feature " + show(l, 200)); std::string i = unhex(t.substr(0, k)), hs = unhex(t.substr(k + 1)); n.id = strtoll(i.c_str(), nullptr, 10); c.eq(std::to_string(n.id), i, "id"); n.x = back(c, strtod(x.c_str(), nullptr)); n.y = back(c, strtod(y.c_str(), nullptr)); if (!parse_hstore(hs, n.tags)) c.fail("tags " + show(hs, 300) + " are no hstore text"); got.push_back(n); } else c.fail("statement " + show(l, 200)); }
    c.check(open && closed && layer, "database not opened or closed"); for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) { if (i >= got.size()) c.fail("node " + std::to_string(want[i].id) + " is missing"); if (i >= want.size()) c.fail("node " + std::to_string(got[i].id) + " should not be there"); if (got[i] != want[i]) c.fail("node " + std::to_string(i) + ": " + model::diff(got[i], want[i])); }
}
