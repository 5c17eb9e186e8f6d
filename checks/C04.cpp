// Handlers are called in the documented order, exactly once per object.
// LIBS: pbf xml geosc
// GEOS: old
#include "area_all.hpp"
#include "io.hpp"
#include "pbfcodec.hpp"
using namespace model;

RULE("a case counts as non-trivial if the stream holds objects of at least two kinds, or the reading is stopped before the end; distinct by description");

// a handler that only looks at some kinds, deriving the rest from Base
struct OnlyWays : public Osmium::Handler::Base {
    std::string events; std::vector<int64_t> ids;
    void init(Osmium::OSM::Meta&) { events += 'i'; }
    void before_ways() { events += 'W'; }
    void way(const shared_ptr<Osmium::OSM::Way const>& w) { events += 'w'; ids.push_back(w->id()); }
    void after_ways() { events += 'v'; }
    void before_nodes() { events += 'N'; }
    void after_nodes() { events += 'e'; }
    void before_relations() { events += 'R'; }
    void after_relations() { events += 's'; }
    void final() { events += 'f'; }
};
struct Fwd : public Osmium::Handler::Forward<Capture> { Fwd(Capture& n) : Osmium::Handler::Forward<Capture>(n) {} };

struct File { std::string path; int type, enc; std::vector<Obj> objs; };

// A stream with arbitrary alternation of kinds, in any encoding. Order in the file is known exactly.
static File make(Ctx& c, const std::string& name = "in") {
    File f; f.type = c.weighted({70, 20, 10}); f.enc = f.type == CHANGE ? XML : c.weighted({50, 50});
    GenOpts g; g.xml_text = true; g.history = f.type != OSM; g.sorted = c.chance(25); g.more = c.pick(std::vector<unsigned>{40, 75, 88}); g.sub_more = 25;
    f.objs = gen_objs(c, g);
    for (auto& o : f.objs) { if (o.uid <= 0) { o.uid = -1; o.user = ""; } o.endtime = 0; if (o.version > 2147483647u) o.version = 1; if (f.type == OSM) o.visible = true; if (o.kind == 0 && !o.defined()) o.x = o.y = 5; }
    f.path = c.path(name);
    if (f.enc == XML) { WOpts w; w.type = f.type; w.enc = XML; Data d; d.objs = f.objs; write_file(f.path, d, w); }
    else {
        // own encoder: groups and blocks of any size
        for (auto& o : f.objs) if (o.uid == -1) o.uid = 0;
        spit(f.path, pbf::simple_file(f.objs, 1 + c.upto(6), 1 + c.upto(4), c.chance(50), f.type == HISTORY, c.chance(30)));
    }
    c.desc << (f.enc == XML ? "xml " : "pbf ") << (f.type == OSM ? "osm" : f.type == HISTORY ? "history" : "change") << " " << expected_events(f.objs) << "; ";
    c.label(f.enc == XML ? "xml" : "pbf"); c.label_if(f.objs.empty(), "no objects");
    int k = 0; for (auto& o : f.objs) k |= 1 << o.kind; c.nontrivial(k & (k - 1));
    return f;
}
static void well_behaved(Ctx& c, const std::string& ev, const std::string& full, size_t limit, const std::string& who) {
    if (limit >= full.size()) c.eq(ev, full, "callbacks of " + who);
    else c.eq(ev, full.substr(0, limit) + "f", "callbacks of " + who + " stopping after " + std::to_string(limit) + " calls");
}

SCENARIO(readers, 1500, 60000) {
    File f = make(c); Capture cap; std::string full = expected_events(f.objs);
    if (c.chance(50)) { cap.limit = 1 + c.upto(full.size() - 2); c.desc << "stop after " << cap.limit << " calls"; c.nontrivial(); c.label("stopped"); }
    read_file(f.path, f.type, f.enc, cap);
    well_behaved(c, cap.events, full, cap.limit, "the handler");
    std::vector<Obj> want; size_t i = 0; for (size_t k = 0; k < full.size() && k < cap.limit; ++k) if (strchr("nwr", full[k])) want.push_back(f.objs[i++]);
    same_objs(c, cap.objs, want, "objects delivered");
    c.eq(cap.multi, f.type != OSM, "meta: several versions");
}
// a callback reads another file (whose callbacks may read a third one)
struct Nest : public Osmium::Handler::Forward<Capture> {
    Ctx& c; std::vector<File>& files; size_t level, at, calls = 0; Capture cap;
    Nest(Ctx& cc, std::vector<File>& f, size_t l) : Osmium::Handler::Forward<Capture>(cap), c(cc), files(f), level(l), at(c.upto(expected_events(f[l].objs).size() - 1)) { c.desc << "level " << l << " goes on at call " << at << "; "; if (c.chance(25)) { cap.limit = 1 + c.upto(expected_events(f[l].objs).size() - 2); c.desc << "stops after " << cap.limit << "; "; c.label("stopped"); } }
    void inner() { if (calls++ == at && level + 1 < files.size()) one(c, files, level + 1); }
    static void one(Ctx& c, std::vector<File>& files, size_t level) {
        Nest n(c, files, level); const File& f = files[level]; read_file(f.path, f.type, f.enc, n); std::string full = expected_events(f.objs), who = "the handler at level " + std::to_string(level); well_behaved(c, n.cap.events, full, n.cap.limit, who);
        std::vector<Obj> want; size_t i = 0; for (size_t k = 0; k < full.size() && k < n.cap.limit; ++k) if (strchr("nwr", full[k])) want.push_back(f.objs[i++]); same_objs(c, n.cap.objs, want, "objects delivered to " + who); c.eq(n.cap.multi, f.type != OSM, "meta: several versions");
    }
    typedef Osmium::Handler::Forward<Capture> B;
    void init(Osmium::OSM::Meta& m) { B::init(m); inner(); }
    void before_nodes() { B::before_nodes(); inner(); } void node(const shared_ptr<Osmium::OSM::Node>& o) { inner(); B::node(o); } void after_nodes() { inner(); B::after_nodes(); }
    void before_ways() { inner(); B::before_ways(); } void way(const shared_ptr<Osmium::OSM::Way>& o) { inner(); B::way(o); } void after_ways() { inner(); B::after_ways(); }
    void before_relations() { inner(); B::before_relations(); } void relation(const shared_ptr<Osmium::OSM::Relation>& o) { inner(); B::relation(o); } void after_relations() { inner(); B::after_relations(); }
    void final() { inner(); B::final(); }
};
SCENARIO(nested, 600, 25000) { std::vector<File> f; for (size_t n = 2 + c.upto(1), i = 0; i < n; ++i) f.push_back(make(c, "in" + std::to_string(i))); Nest::one(c, f, 0); }
// several readers exist before the first of them reads; some never do
SCENARIO(made_before, 500, 20000) {
    struct One { File f; Capture cap; std::unique_ptr<Osmium::Input::Base<Capture>> in; bool done = false; }; std::vector<std::unique_ptr<One>> a; size_t n = 2 + c.upto(1), made = 0, read = 0; for (size_t i = 0; i < n; ++i) { a.emplace_back(new One); a[i]->f = make(c, "in" + std::to_string(i)); if (c.chance(25)) a[i]->cap.limit = 1 + c.upto(expected_events(a[i]->f.objs).size() - 2); c.desc << "limit " << a[i]->cap.limit << "; "; }
    while (made < n || c.more(85)) {
        bool any = false; for (auto& o : a) any |= o->in && !o->done; if (made >= n && !any) break;
        if (made < n && (!any || c.chance(70))) { One& o = *a[made]; Osmium::OSMFile in = mkfile(o.f.path, o.f.type, o.f.enc); if (o.f.enc == PBF) o.in.reset(new Osmium::Input::PBF<Capture>(in, o.cap)); else o.in.reset(new Osmium::Input::XML<Capture>(in, o.cap)); c.desc << "made " << made++ << "; "; continue; }
        size_t i = c.upto(n - 1); One& o = *a[i]; if (!o.in || o.done) continue; c.desc << "read " << i << "; "; o.in->parse(); o.done = true; ++read; if (c.chance(50)) o.in.reset();
        std::string full = expected_events(o.f.objs), who = "the handler of reader " + std::to_string(i); well_behaved(c, o.cap.events, full, o.cap.limit, who); std::vector<Obj> want; size_t q = 0; for (size_t k = 0; k < full.size() && k < o.cap.limit; ++k) if (strchr("nwr", full[k])) want.push_back(o.f.objs[q++]); same_objs(c, o.cap.objs, want, "objects delivered to " + who); c.eq(o.cap.multi, o.f.type != OSM, "meta: several versions");
    }
    for (auto& o : a) { o->in.reset(); if (!o->done) c.eq(o->cap.events, std::string(), "callbacks of a reader that was never asked to read"); } c.label_if(read > 1, "several read"); c.label_if(read < n, "not all read");
}
SCENARIO(forwarded, 600, 25000) {
    File f = make(c); Capture cap; std::string full = expected_events(f.objs);
    if (c.chance(50)) { cap.limit = 1 + c.upto(full.size() - 2); c.desc << "stop after " << cap.limit << " calls"; c.nontrivial(); }
    Osmium::Handler::Forward<Capture> a(cap);
    if (c.chance(50)) { Osmium::Handler::Forward<Osmium::Handler::Forward<Capture>> b(a); c.desc << " twice"; read_file(f.path, f.type, f.enc, b); }
    else if (c.chance(50)) { Fwd d(cap); c.desc << " derived"; read_file(f.path, f.type, f.enc, d); }
    else read_file(f.path, f.type, f.enc, a);
    well_behaved(c, cap.events, full, cap.limit, "the handler behind Forward");
    std::vector<Obj> want; size_t i = 0; for (size_t k = 0; k < full.size() && k < cap.limit; ++k) if (strchr("nwr", full[k])) want.push_back(f.objs[i++]);
    same_objs(c, cap.objs, want, "objects delivered through Forward");
}
SCENARIO(sequence, 900, 40000) {
    File f = make(c); Capture a, b; std::string log; a.log = b.log = &log; a.tag = '1'; b.tag = '2'; std::string full = expected_events(f.objs);
    if (c.chance(30)) a.limit = 1 + c.upto(full.size() - 2); else if (c.chance(30)) b.limit = 1 + c.upto(full.size() - 2);
    c.desc << "limits " << a.limit << " " << b.limit; c.nontrivial(a.limit < full.size() || b.limit < full.size());
    Osmium::Handler::Sequence<Capture, Capture> s(a, b);
    Capture x; x.log = &log; x.tag = '0';
    bool nested = c.chance(40);
    if (nested) { Osmium::Handler::Sequence<Capture, Osmium::Handler::Sequence<Capture, Capture>> n(x, s); read_file(f.path, f.type, f.enc, n); c.desc << " nested"; }
    else read_file(f.path, f.type, f.enc, s);
    // reference: each call goes to the first, then to the second
    std::string want;
    for (size_t k = 0; k < full.size(); ++k) {
        char e = full[k];
        if (nested) { want += '0'; want += e; }
        want += '1'; want += e; if (a.limit == k + 1) { full = "f"; k = 0; if (nested) want += "0f"; want += "1f2f"; break; }
        want += '2'; want += e; if (b.limit == k + 1) { if (nested) want += "0f"; want += "1f2f"; break; }
    }
    c.eq(log, want, "calls in sequence");
    size_t n = std::min(a.objs.size(), b.objs.size());
    for (size_t i = 0; i < n; ++i) { c.check(a.objs[i] == b.objs[i], "handlers in a sequence see different objects: " + diff(b.objs[i], a.objs[i])); c.check(a.objs[i] == f.objs[i], "object differs: " + diff(a.objs[i], f.objs[i])); }
}
// calls that do not come from a file: areas and the debug level
struct Direct : public Osmium::Handler::Base { std::string* log; char tag; Direct(std::string* l, char t) : log(l), tag(t) {} void area(const shared_ptr<Osmium::OSM::Area const>& a) { *log += tag + std::to_string(a->id()) + " "; } void way(const shared_ptr<Osmium::OSM::Way const>& w) { *log += tag + ("w" + std::to_string(w->id())) + " "; } };
SCENARIO(direct_calls, 2000, 60000) {
    std::string log, want; Direct a(&log, 'a'), b(&log, 'b'), d(&log, 'd'); typedef Osmium::Handler::Forward<Direct> F; typedef Osmium::Handler::Sequence<Direct, F> S2; typedef Osmium::Handler::Sequence<S2, Direct> S3; F f(b); S2 s2(a, f); S3 s3(s2, d); Osmium::Handler::Forward<S3> top(s3); int level[3] = {0, 0, 0};
    auto on = [&](int at, const std::function<void(F&)>& ff, const std::function<void(S2&)>& f2, const std::function<void(S3&)>& f3, const std::function<void(Osmium::Handler::Forward<S3>&)>& ft) { if (at == 0) ff(f); else if (at == 1) f2(s2); else if (at == 2) f3(s3); else ft(top); };
    c.nontrivial(); do { int at = c.upto(3), id = 2 * (1 + c.upto(50)); std::string reach = at == 0 ? "b" : at == 1 ? "ab" : "abd"; c.desc << at;
        switch (c.upto(2)) {
            case 0: { int l = c.upto(4); c.desc << "level" << l << " "; on(at, [&](F& x) { x.set_debug_level(l); }, [&](S2& x) { x.set_debug_level(l); }, [&](S3& x) { x.set_debug_level(l); }, [&](Osmium::Handler::Forward<S3>& x) { x.set_debug_level(l); }); for (char ch : reach) level[ch == 'd' ? 2 : ch - 'a'] = l; break; }
            case 1: { Osmium::OSM::Way w; w.id(id / 2); auto x = make_shared<Osmium::OSM::Area>(w); c.desc << "area" << x->id() << " "; shared_ptr<Osmium::OSM::Area> p = x; on(at, [&](F& h) { h.area(p); }, [&](S2& h) { h.area(p); }, [&](S3& h) { h.area(p); }, [&](Osmium::Handler::Forward<S3>& h) { h.area(p); }); for (char ch : reach) want += ch + std::to_string(x->id()) + " "; break; }
            default: { auto w = make_shared<Osmium::OSM::Way>(); w->id(id); c.desc << "way" << id << " "; on(at, [&](F& h) { h.way(w); }, [&](S2& h) { h.way(w); }, [&](S3& h) { h.way(w); }, [&](Osmium::Handler::Forward<S3>& h) { h.way(w); }); for (char ch : reach) want += ch + ("w" + std::to_string(id)) + " "; break; }
        }
        c.eq(log, want, "calls that reached the handlers"); Direct* all[] = {&a, &b, &d}; for (int i = 0; i < 3; ++i) for (int l = 0; l < 6; ++l) c.eq(all[i]->has_debug_level(l), level[i] >= l, "debug level " + std::to_string(l) + " of a chained handler");
    } while (c.more(80));
}
// callbacks a handler does not implement do not change the calls of the others
SCENARIO(partial_handler, 500, 20000) {
    File f = make(c); OnlyWays h; read_file(f.path, f.type, f.enc, h);
    std::string full = expected_events(f.objs), want; for (char e : full) if (e != 'n' && e != 'r') want += e;
    c.eq(h.events, want, "callbacks"); std::vector<int64_t> ids; for (auto& o : f.objs) if (o.kind == 1) ids.push_back(o.id);
    c.check(ids == h.ids, "way ids differ");
}
// no objects at all, in every shape a file can have without them
SCENARIO(no_objects, 200, 4000) {
    std::string p = c.path("in"), s; int enc = c.upto(1), type = c.upto(1);
    if (enc == PBF) { pbf::Header h; if (type) h.req.push_back("HistoricalInformation"); s = pbf::blob("OSMHeader", pbf::header_data(h), c.chance(50)); while (c.more(50)) s += pbf::blob("x", "abc", c.chance(50)); if (c.chance(40)) { pbf::Encoder e{pbf::Style()}; s += pbf::blob("OSMData", e.block(pbf::RBlock()), c.chance(50)); } }
    else { s = c.pick(std::vector<std::string>{"<osm version=\"0.6\"/>", "<osm version='0.6'>\n</osm>", "<?xml version='1.0'?><!-- x --><osm version='0.6'><bounds minlon='1' minlat='1' maxlon='2' maxlat='2'/></osm>", "<osmChange version='0.6'><delete/></osmChange>"}); }
    spit(p, s); c.desc << show(s, 200) << " type " << type; Capture cap;
    if (c.chance(30)) { cap.limit = 1; c.nontrivial(); c.desc << " stop in init"; }
    read_file(p, type, enc, cap); c.eq(cap.events, std::string("if"), "callbacks"); c.nontrivial(s.size() > 30);
}
