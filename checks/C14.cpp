// Merging an object store into a stream loses and reorders nothing.
// LIBS: pbf xml
// TOOLS: osmium_store_and_debug
#include "io.hpp"
#include "pbfcodec.hpp"
#include "tool.hpp"
#include "debugdump.hpp"
#include <osmium/storage/objectstore.hpp>
using namespace model;
using Osmium::Storage::ObjectStore;

RULE("a case counts as non-trivial if both stream and store hold objects, or one of them holds a kind that the other does not; distinct by description");
ASSUME("stream and store are in the order of the library: absolute id, then version, with id and -id in the library's own order");

static uint64_t mag(int64_t i) { return i < 0 ? 0 - (uint64_t)i : i; }
static bool negative_first() { Osmium::OSM::Node a, b; a.id(-5); b.id(5); return a < b; }
static bool before(const Obj& a, const Obj& b) { if (a.kind != b.kind) return a.kind < b.kind; if (mag(a.id) != mag(b.id)) return mag(a.id) < mag(b.id); if (a.id != b.id) return negative_first() ? a.id < b.id : a.id > b.id; return a.version < b.version; }
static std::vector<Obj> gen(Ctx& c, bool distinct, const char* marker) {
    std::vector<Obj> v; GenOpts g; g.xml_text = true; g.history = true; g.sub_more = 15; g.big_text = false; int kinds = c.upto(7); unsigned more = c.pick(std::vector<unsigned>{40, 70, 85});
    for (int k = 0; k < 3; ++k) if (kinds >> k & 1) while (c.more(more)) { Obj o = gen_obj(c, k, g); o.id = c.weighted({85, 15}) == 0 ? c.range(-12, 12) : c.range(-1000000000000LL, 1000000000000LL); o.version = 1 + c.upto(3); o.endtime = 0; o.uid = 1; o.user = marker; if (o.kind == 0 && !o.defined()) o.x = o.y = 1; v.push_back(o); }
    std::stable_sort(v.begin(), v.end(), before); if (distinct) v.erase(std::unique(v.begin(), v.end(), [](const Obj& a, const Obj& b) { return !before(a, b) && !before(b, a); }), v.end());
    c.desc << marker << ":"; for (auto& o : v) c.desc << " " << "nwr"[o.kind] << o.id << "v" << o.version; c.desc << "; "; return v;
}
static void kinds(Ctx& c, const std::vector<Obj>& s, const std::vector<Obj>& t) { int a = 0, b = 0; for (auto& o : s) a |= 1 << o.kind; for (auto& o : t) b |= 1 << o.kind; c.nontrivial((a && b) || (a ^ b)); c.label_if(a & ~b, "kind only in the stream"); c.label_if(b & ~a, "kind only in the store"); c.label_if(a & b, "kind in both"); c.label_if(!a, "empty stream"); c.label_if(!b, "empty store"); }

// the reference merge; objects of equal rank may come in either order
static void compare(Ctx& c, const std::string& events, const std::vector<Obj>& objs, std::vector<Obj> want, size_t limit, const std::string& what) {
    std::stable_sort(want.begin(), want.end(), before); std::string full = expected_events(want); bool whole = limit >= full.size();
    c.eq(events, whole ? full : full.substr(0, limit) + "f", what + ": callbacks"); size_t n = 0; for (size_t i = 0; i + 1 < events.size(); ++i) n += strchr("nwr", events[i]) != nullptr; c.eq(objs.size(), n, what + ": objects"); std::vector<bool> used(want.size());
    for (size_t i = 0; i < objs.size(); ++i) {
        c.check(!before(objs[i], want[i]) && !before(want[i], objs[i]), what + ": object " + std::to_string(i) + " is " + str(objs[i]) + " instead of " + str(want[i])); bool ok = false;
        for (size_t j = i >= 3 ? i - 3 : 0; j < want.size() && !before(objs[i], want[j]); ++j) if (!used[j] && want[j] == objs[i]) { used[j] = ok = true; break; }
        c.check(ok, what + ": object " + std::to_string(i) + " is none of those expected, or came twice: " + str(objs[i]));
    }
}
static void fill(ObjectStore& s, const std::vector<Obj>& v, Ctx& c) { auto w = v; if (c.chance(50)) for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[c.upto(i - 1)]); for (auto& o : w) if (o.kind == 0) s.node(to_node(o)); else if (o.kind == 1) s.way(to_way(o)); else s.relation(to_relation(o)); }
template <class H> static void drive(H& h, const Data& d) { try { h.init(*std::unique_ptr<Osmium::OSM::Meta>(new Osmium::OSM::Meta())); int last = -1; auto after = [&](int k) { if (k == 0) h.after_nodes(); else if (k == 1) h.after_ways(); else if (k == 2) h.after_relations(); };
    for (auto& o : d.objs) { if (o.kind != last) { after(last); last = o.kind; if (last == 0) h.before_nodes(); else if (last == 1) h.before_ways(); else h.before_relations(); } if (o.kind == 0) h.node(to_node(o)); else if (o.kind == 1) h.way(to_way(o)); else h.relation(to_relation(o)); } after(last); } catch (Osmium::Handler::StopReading) {} h.final(); }

SCENARIO(merge, 6000, 300000) {
    auto s = gen(c, c.chance(60), "stream"), t = gen(c, true, "store"); kinds(c, s, t); auto all = s; all.insert(all.end(), t.begin(), t.end()); ObjectStore store; fill(store, t, c);
    Capture cap; std::string full = expected_events([&] { auto w = all; std::stable_sort(w.begin(), w.end(), before); return w; }()); if (c.chance(25)) { cap.limit = 1 + c.upto(full.size() - 2); c.desc << "stop after " << cap.limit; c.label("stopped"); }
    Osmium::OSM::Meta meta; meta.generator("the meta data"); meta.has_multiple_object_versions(true); ObjectStore::ApplyHandler<Capture> h(store, cap, meta); Data d; d.objs = s; drive(h, d); compare(c, cap.events, cap.objs, all, cap.limit, "merge"); c.eq(cap.generator, std::string("the meta data"), "meta data given"); c.eq(cap.multi, true, "meta data given");
}
SCENARIO(merge_files, 800, 40000) {
    auto s = gen(c, false, "stream"), t = gen(c, true, "store"); kinds(c, s, t); auto all = s; all.insert(all.end(), t.begin(), t.end()); int ea = c.upto(1), eb = c.upto(1); std::string a = c.path("a"), b = c.path("b"); c.desc << ea << eb << " ";
    auto put = [&](const std::string& p, const std::vector<Obj>& v, int enc) { if (enc == PBF) spit(p, pbf::simple_file(v, 1 + c.upto(5), 2, c.chance(50), true, false)); else { WOpts w; w.type = HISTORY; w.enc = XML; Data d; d.objs = v; write_file(p, d, w); } };
    put(a, s, ea); put(b, t, eb); ObjectStore store; read_file(b, HISTORY, eb, store); Capture cap; std::string full = expected_events([&] { auto w = all; std::stable_sort(w.begin(), w.end(), before); return w; }()); if (c.chance(25)) { cap.limit = 1 + c.upto(full.size() - 2); c.desc << "stop after " << cap.limit; c.label("stopped"); }
    Osmium::OSM::Meta meta; ObjectStore::ApplyHandler<Capture> h(store, cap, meta); read_file(a, HISTORY, ea, h); compare(c, cap.events, cap.objs, all, cap.limit, "merge of files");
}
SCENARIO(tool_merges, 100, 3000) {
    auto s = gen(c, false, "stream"), t = gen(c, true, "store"); kinds(c, s, t); for (auto& o : s) o.visible = true; std::string a = c.path("a.osm"), b = c.path("b.osc"); { WOpts w; w.type = OSM; w.enc = XML; Data d; d.objs = s; write_file(a, d, w); w.type = CHANGE; d.objs = t; write_file(b, d, w); }
    for (auto* v : {&s, &t}) for (auto& o : *v) { o.user = o.user; for (auto& x : o.tags) for (auto* q : {&x.k, &x.v}) (void)q; }
    bool bars = false; for (auto* v : {&s, &t}) for (auto& o : *v) { auto bad = [&](const std::string& x) { return x.find('|') != std::string::npos || x.find('\n') != std::string::npos; }; for (auto& x : o.tags) bars |= bad(x.k) || bad(x.v); for (auto& x : o.members) bars |= bad(x.role); } if (bars) throw pbt::Discard();
    auto r = tool::run("osmium_store_and_debug", {b, a}); c.eq(r.status, 0, "status of the tool"); dump::Parsed p = dump::parse(r.out); c.check(p.error.empty(), "output can't be parsed: " + p.error); auto all = s; all.insert(all.end(), t.begin(), t.end()); for (auto& o : all) o.visible = true; compare(c, p.events, p.objs, all, -1, "output of the tool");
}
