// The debug dump shows every callback and every attribute faithfully.
// LIBS: pbf xml
// TOOLS: osmium_debug
#include "turns.hpp"
#include "debugdump.hpp"
#include "tool.hpp"
#include <osmium/handler/debug.hpp>
using namespace model;

RULE("a case counts as non-trivial if there are at least two objects, one of them with tags, references, members or a user; distinct by description");
ASSUME("text holds no line breaks and no bars, which the dump does not escape, and the output stream writes integers in decimal without decoration");

static std::string clean(std::string s) { for (auto& ch : s) if (ch == '\n' || ch == '|') ch = '_'; return s; }
static void clean(std::vector<Obj>& v) { for (auto& o : v) { o.user = clean(o.user); for (auto& t : o.tags) { t.k = clean(t.k); t.v = clean(t.v); } for (auto& m : o.members) m.role = clean(m.role); } }
// the bounds are printed with the digits the stream gives; they must be those of the numbers
static void same_bounds(Ctx& c, const std::string& s, const Box& b) {
    c.eq(!s.empty(), b.def, "bounds are printed"); if (!b.def) return; double v[4]; int n = -1; c.check(sscanf(s.c_str(), "(%lf,%lf,%lf,%lf)%n", v, v + 1, v + 2, v + 3, &n) == 4 && n == (int)s.size(), "bounds printed as " + show(s));
    int32_t w[4] = {b.x1, b.y1, b.x2, b.y2}; for (int i = 0; i < 4; ++i) { double want = w[i] / 1e7; c.check(fabs(v[i] - want) <= fabs(want) * 6e-6 + 6e-8, "bounds printed as " + s + ", number " + std::to_string(i + 1) + " should be " + std::to_string(want)); }
}
SCENARIO(handler, 6000, 300000) {
    GenOpts g; g.history = c.chance(60); g.sorted = c.chance(40); g.more = c.pick(std::vector<unsigned>{50, 75, 88}); Data d = gen_data(c, g); clean(d.objs); d.generator = clean(gen_text(c, g));
    bool meta_multi = c.chance(50), arg = c.chance(30); for (auto& o : d.objs) o.endtime = c.chance(40) ? gen_ts(c, g) : 0; for (auto& o : d.objs) if (o.endtime == 0 && c.chance(5)) o.endtime = 1;
    describe(c, d); c.desc << (meta_multi ? "several versions; " : "") << (arg ? "versions wanted; " : ""); c.nontrivial(rich(d.objs)); classify(c, d.objs);
    std::ostringstream out; if (c.chance(30)) out.precision(c.upto(12)); if (c.chance(15)) out << std::scientific; if (c.chance(15)) out << std::fixed; bool plainfmt = out.precision() == 6 && !(out.flags() & std::ios::floatfield);
    Osmium::Handler::Debug h(arg, out); feed(h, d, meta_multi);
    dump::Parsed p = dump::parse(out.str()); c.check(p.error.empty(), "the dump can't be parsed: " + p.error);
    c.eq(p.events, expected_events(d.objs), "callbacks in the dump"); c.eq(p.generator, d.generator, "generator"); if (plainfmt) same_bounds(c, p.bounds, d.box);
    auto want = d.objs; bool multi = meta_multi || arg; for (auto& o : want) { if (!multi) { o.visible = true; o.endtime = 0; } }
    same_objs(c, p.objs, want, "dump"); for (size_t i = 0; i < p.has_visible.size(); ++i) c.eq((bool)p.has_visible[i], multi, "visible and end time are printed");
}
// two dumps are written at the same time
SCENARIO(two_handlers, 1500, 60000) {
    Data d[2]; bool multi[2], arg[2]; std::ostringstream out[2]; for (int i = 0; i < 2; ++i) { GenOpts g; g.history = c.chance(60); g.sorted = c.chance(40); g.more = c.pick(std::vector<unsigned>{50, 75}); d[i] = gen_data(c, g); clean(d[i].objs); d[i].generator = ""; multi[i] = c.chance(50); arg[i] = c.chance(30); for (auto& o : d[i].objs) { o.endtime = c.chance(40) ? gen_ts(c, g) : 0; } describe(c, d[i]); c.desc << (multi[i] ? "several versions" : "") << (arg[i] ? " versions wanted" : "") << " | "; } c.nontrivial(rich(d[0].objs) && rich(d[1].objs));
    typedef Osmium::Handler::Debug H; H a(arg[0], out[0]), b(arg[1], out[1]); turns::Later<H> l(b); feed(l, d[1], multi[1]); turns::feed_both(c, a, d[0], l, multi[0]);
    for (int i = 0; i < 2; ++i) { dump::Parsed p = dump::parse(out[i].str()); c.check(p.error.empty(), "the dump can't be parsed: " + p.error); c.eq(p.events, expected_events(d[i].objs), "callbacks in the dump"); auto want = d[i].objs; if (!multi[i] && !arg[i]) for (auto& o : want) { o.visible = true; o.endtime = 0; } same_objs(c, p.objs, want, i ? "dump of the other handler" : "dump"); }
}
// the same objects again and again through one handler, and default arguments
SCENARIO(repeated, 400, 15000) {
    GenOpts g; g.history = true; g.more = 55; Data d = gen_data(c, g); clean(d.objs); d.generator = "x"; describe(c, d); c.nontrivial(rich(d.objs)); std::ostringstream out; Osmium::Handler::Debug h(false, out); feed(h, d, false); size_t n = out.str().size(); feed(h, d, true); feed(h, d, true);
    std::string s = out.str(); dump::Parsed a = dump::parse(s.substr(0, n)), b = dump::parse(s.substr(n)); c.check(a.error.empty() && b.error.empty(), "the dump can't be parsed: " + a.error + b.error);
    c.eq(b.events, expected_events(d.objs) + expected_events(d.objs), "callbacks"); auto want = d.objs; want.insert(want.end(), d.objs.begin(), d.objs.end()); for (auto& o : want) o.endtime = 0; same_objs(c, b.objs, want, "second dump");
}
SCENARIO(tool_all_encodings, 150, 5000) {
    GenOpts g; g.xml_text = true; int type = c.chance(50) ? HISTORY : OSM; g.history = type == HISTORY; g.valid_lonlat = true; Data d = gen_data(c, g); clean(d.objs); d.generator = "gen"; for (auto& o : d.objs) { if (o.uid <= 0) { o.uid = 1 + c.upto(5); } if (o.version > 2147483647u) o.version = 1; o.endtime = 0; if (o.kind == 0 && !o.defined()) o.x = o.y = 3; if (type == OSM) o.visible = true; }
    describe(c, d); c.nontrivial(rich(d.objs)); static const char* S[2][4] = {{".osm.pbf", ".osm", ".osm.gz", ".osm.bz2"}, {".osh.pbf", ".osh", ".osh.gz", ".osh.bz2"}}; std::string first; int fe = -1;
    for (int e = 0; e < 4; ++e) {
        if (e >= 2 && !c.chance(40)) continue; WOpts w; w.type = type; w.enc = e; std::string p = c.path(std::string("in") + S[type][e]); write_file(p, d, w); auto r = tool::run("osmium_debug", {p}); c.eq(r.status, 0, "status of the dump tool"); unlink(p.c_str());
        dump::Parsed q = dump::parse(r.out); c.check(q.error.empty(), "the dump can't be parsed: " + q.error); c.eq(q.events, expected_events(d.objs), std::string("callbacks in the dump of ") + S[type][e]); same_objs(c, q.objs, d.objs, std::string("dump of ") + S[type][e]); c.eq(q.generator, d.generator, "generator"); same_bounds(c, q.bounds, d.box);
        if (fe < 0) { first = r.out; fe = e; } else c.check(first == r.out, std::string("the dumps of ") + S[type][fe] + " and " + S[type][e] + " differ");
    }
}
