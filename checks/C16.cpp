// History handlers compute validity periods and snapshots correctly.
// LIBS: pbf xml
// TOOLS: osmium_range_from_history
#include "io.hpp"
#include "turns.hpp"
#include "pbfcodec.hpp"
#include "tool.hpp"
#include <osmium/handler/endtime.hpp>
#include <osmium/handler/range_from_history.hpp>
using namespace model;
using Osmium::Handler::EndTime; using Osmium::Handler::RangeFromHistory;

RULE("a case counts as non-trivial if some object has at least two versions and, where a range is extracted, some but not all versions lie in it; distinct by description");
ASSUME("the history is sorted: nodes, ways, relations, all versions of an object together in order of their version numbers");

struct Times { std::vector<int64_t> pool; };
static std::vector<Obj> gen(Ctx& c, const std::vector<int64_t>& pool) {
    std::vector<Obj> v; GenOpts g; g.xml_text = true; g.history = true; g.sub_more = 20; g.undef_pos = false; g.big_text = false; int kinds = c.weighted({70, 30}) == 0 ? 7 : c.upto(7); bool steady = c.chance(70);
    for (int k = 0; k < 3; ++k) if (kinds >> k & 1) {
        std::set<int64_t> used; int64_t last = 0;
        while (c.more(78)) {
            int64_t id = c.weighted({60, 20, 20}) == 0 ? (int64_t)c.upto(8) : c.chance(50) ? -last : (int64_t)c.upto(1000000000000ULL); if (k && used.empty() && c.chance(40)) for (auto& o : v) id = o.id; if (!used.insert(id).second) continue; last = id; uint32_t ver = 1; std::vector<int64_t> ts; std::vector<Obj> vs;
            do { Obj o = gen_obj(c, k, g); o.id = id; o.version = ver; ver += 1 + (c.chance(15) ? c.upto(3) : 0); o.timestamp = c.pick(pool); o.uid = 1; o.user = "u"; o.endtime = 0; ts.push_back(o.timestamp); vs.push_back(o); } while (c.more(60));
            if (steady) std::sort(ts.begin(), ts.end()); for (size_t i = 0; i < vs.size(); ++i) vs[i].timestamp = ts[i]; v.insert(v.end(), vs.begin(), vs.end());
        }
    }
    return v;
}
static std::vector<int64_t> pool(Ctx& c) { std::vector<int64_t> p; switch (c.upto(2)) { case 0: for (int i = 0; i < 12; ++i) p.push_back(1 + i); break; case 1: p = {1, 1000000, 1100000000, 1200000000, 1300000000, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 253402300799LL}; break; default: for (int i = 0; i < 6; ++i) p.push_back(1200000000 + (int64_t)c.upto(300000000)); } if (c.chance(15)) p.push_back(0); return p; }
static void show_history(Ctx& c, const std::vector<Obj>& v) { for (auto& o : v) c.desc << "nwr"[o.kind] << o.id << "v" << o.version << "@" << o.timestamp << " "; c.desc << "; "; }
// the oracle looks ahead instead of keeping the last object
static std::vector<Obj> with_end(std::vector<Obj> v) { for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i].kind == v[i + 1].kind && v[i].id == v[i + 1].id) v[i].endtime = v[i + 1].timestamp; return v; }
static std::vector<Obj> within(const std::vector<Obj>& v, int64_t from, int64_t to) { std::vector<Obj> r; for (auto& o : v) { int64_t end = o.endtime ? o.endtime : INT64_MAX; if (o.timestamp <= to && from <= end) r.push_back(o); } return r; }
static bool several(const std::vector<Obj>& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i].kind == v[i - 1].kind && v[i].id == v[i - 1].id) return true; return false; }
static void forwarded(Ctx& c, const Capture& cap, const std::vector<Obj>& all, const std::vector<Obj>& want, const std::string& what) {
    same_objs(c, cap.objs, want, what); std::string e = expected_events(all), g, w; for (char x : e) if (!strchr("nwr", x)) w += x; for (char x : cap.events) if (!strchr("nwr", x)) g += x; c.eq(g, w, what + ": other callbacks");
    std::string order; size_t i = 0; for (char x : cap.events) if (strchr("nwr", x)) { c.check(i < want.size() && "nwr"[want[i].kind] == x, what + ": object callbacks"); ++i; } for (int k = 0; k < 3; ++k) { size_t a = cap.events.find("NWR"[k]), b = cap.events.find("evs"[k]), f = cap.events.find("nwr"[k]), l = cap.events.rfind("nwr"[k]); if (f != std::string::npos) c.check(a < f && l < b, what + ": object outside its before/after pair"); }
}
SCENARIO(end_times, 5000, 250000) {
    auto v = gen(c, pool(c)); show_history(c, v); c.nontrivial(several(v)); Data d; d.objs = v; Capture cap; EndTime<Capture> h(cap); feed(h, d, true); forwarded(c, cap, v, with_end(v), "end times"); c.eq(cap.events, expected_events(v), "callbacks"); c.eq(cap.multi, true, "meta data");
    if (c.chance(25)) { Capture again; (void)again; cap.events.clear(); cap.objs.clear(); feed(h, d, true); forwarded(c, cap, v, with_end(v), "second file through the same handler"); }
}
// two files at the same time through handlers of their own
SCENARIO(two_handlers, 1500, 60000) {
    std::vector<Obj> v[2]; for (auto& x : v) { x = gen(c, pool(c)); show_history(c, x); c.desc << " | "; } c.nontrivial(several(v[0]) && several(v[1])); Data d, e; d.objs = v[0]; e.objs = v[1]; Capture x, y; EndTime<Capture> a(x), b(y); turns::Later<EndTime<Capture>> l(b); feed(l, e, true); turns::feed_both(c, a, d, l, true); forwarded(c, x, v[0], with_end(v[0]), "end times"); forwarded(c, y, v[1], with_end(v[1]), "end times of the other handler");
    auto p = pool(c); std::vector<Obj> w[2]; int64_t r[4]; for (int i = 0; i < 4; ++i) r[i] = c.pick(p); for (int i = 0; i < 2; ++i) { if (r[2 * i] > r[2 * i + 1]) std::swap(r[2 * i], r[2 * i + 1]); w[i] = with_end(v[i]); c.desc << r[2 * i] << " to " << r[2 * i + 1] << " "; } d.objs = w[0]; e.objs = w[1]; Capture f, g; typedef RangeFromHistory<Capture> R; R h(f, r[0], r[1]), k(g, r[2], r[3]); turns::Later<R> m(k); feed(m, e, true); turns::feed_both(c, h, d, m, true); forwarded(c, f, v[0], within(w[0], r[0], r[1]), "range"); forwarded(c, g, v[1], within(w[1], r[2], r[3]), "range of the other handler");
}
static void gen_range(Ctx& c, const std::vector<int64_t>& p, int64_t& from, int64_t& to) { auto t = [&]() -> int64_t { int64_t x = c.pick(p); return c.weighted({50, 20, 20, 10}) == 0 ? x : c.chance(50) ? x + 1 : c.chance(80) ? (x ? x - 1 : 0) : c.chance(50) ? 0 : 253402300799LL; }; from = t(); to = c.chance(30) ? from : t(); if (from > to && !c.chance(15)) std::swap(from, to); c.desc << from << " to " << to; c.label(from == to ? "point" : from > to ? "reversed range" : "range"); }
SCENARIO(ranges, 5000, 250000) {
    auto p = pool(c); auto v = gen(c, p); show_history(c, v); int64_t from, to; gen_range(c, p, from, to); auto e = with_end(v); auto want = within(e, from, to); c.nontrivial(several(v) && !want.empty() && want.size() < e.size());
    Data d; d.objs = v; { Capture cap; RangeFromHistory<Capture> r(cap, from, to); EndTime<RangeFromHistory<Capture>> h(r); feed(h, d, true); forwarded(c, cap, v, want, "range"); }
    { Capture cap; RangeFromHistory<Capture> r(cap, from, to); d.objs = e; feed(r, d, true); forwarded(c, cap, v, want, "range of objects that have an end time"); }
    // what is valid in a wider range includes what is valid in a narrower one
    { Capture cap; RangeFromHistory<Capture> r(cap, from - 1, to + 1); d.objs = e; feed(r, d, true); size_t i = 0; for (auto& o : cap.objs) if (i < want.size() && o == want[i]) ++i; c.eq(i, want.size(), "objects of the narrower range found in the wider one"); }
}
SCENARIO(files, 700, 35000) {
    auto p = pool(c); auto v = gen(c, p); show_history(c, v); int64_t from, to; gen_range(c, p, from, to); auto e = with_end(v); auto want = within(e, from, to); c.nontrivial(several(v) && !want.empty() && want.size() < e.size()); int enc = c.upto(1); std::string f = c.path("in"); c.desc << (enc ? " xml" : " pbf");
    if (enc == PBF) spit(f, pbf::simple_file(v, 1 + c.upto(6), 2, c.chance(50), true, false)); else { WOpts w; w.enc = XML; w.type = HISTORY; Data d; d.objs = v; write_file(f, d, w); }
    { Capture cap; EndTime<Capture> h(cap); read_file(f, HISTORY, enc, h); forwarded(c, cap, v, e, "end times of a file"); } { Capture cap; RangeFromHistory<Capture> r(cap, from, to); EndTime<RangeFromHistory<Capture>> h(r); read_file(f, HISTORY, enc, h); forwarded(c, cap, v, want, "range of a file"); }
}
SCENARIO(tool, 150, 5000) {
    std::vector<int64_t> p = {1, 1000000, 1100000000, 1200000000, 1200000001, 1300000000, 1500000000}; if (c.chance(30)) { p.push_back(7000000000LL); p.push_back(8000000000LL); } auto v = gen(c, p); 
    // versions in order of time, as in a real history
    for (size_t i = 0; i < v.size();) { size_t j = i; std::vector<int64_t> t; while (j < v.size() && v[j].kind == v[i].kind && v[j].id == v[i].id) t.push_back(v[j++].timestamp); std::sort(t.begin(), t.end()); for (size_t k = i; k < j; ++k) v[k].timestamp = t[k - i]; i = j; }
    show_history(c, v); auto want = within(with_end(v), 4000000000LL, 4000000000LL); for (auto& o : want) o.endtime = 0; c.nontrivial(several(v) && want.size() && want.size() < v.size()); static const std::vector<std::string> in = {".osh", ".osh.pbf", ".osh.gz"}, out = {".osm", ".osm.pbf", ".osh", ".osh.pbf", ".osm.bz2"}; size_t i = c.upto(2), o = c.upto(4); c.desc << in[i] << " to " << out[o];
    std::string a = c.path("in" + in[i]), b = c.path("out" + out[o]); WOpts w; w.type = HISTORY; w.enc = i == 1 ? PBF : i == 2 ? GZ : XML; Data d; d.objs = v; write_file(a, d, w); auto r = tool::run("osmium_range_from_history", {a, b}); c.eq(r.status, 0, "status of the tool"); int type = o == 2 || o == 3 ? HISTORY : OSM; Capture cap; read_file(b, type, o == 1 || o == 3 ? PBF : o == 4 ? BZ2 : XML, cap); if (type == OSM) for (auto& x : want) x.visible = true; same_objs(c, cap.objs, want, "file written by the tool"); unlink(a.c_str()); unlink(b.c_str());
}
