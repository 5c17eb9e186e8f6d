// Way nodes get exactly the positions of the nodes they refer to.
// LIBS: pbf xml
// FLAGS: -fwrapv
#include "io.hpp"
#include "pbfcodec.hpp"
#include <osmium/handler/coordinates_for_ways.hpp>
#include <osmium/storage/byid/fixed_array.hpp>
#include <osmium/storage/byid/mmap_anon.hpp>
#include <osmium/storage/byid/mmap_file.hpp>
#include <osmium/storage/byid/sparse_table.hpp>
#include <osmium/storage/byid/stl_map.hpp>
#include <osmium/storage/byid/vector.hpp>
using namespace model;
namespace S = Osmium::Storage::ById;
typedef Osmium::OSM::Position Pos;
typedef S::Base<Pos> Store;

RULE("a case counts as non-trivial if some way has at least two references to nodes of the stream; distinct by description");
ASSUME("every node a way refers to came before it; a vector storage gets its ids in order");

static const char* KN[] = {"anonymous mmap", "sparse table", "map", "fixed array", "file", "vector"};
static std::unique_ptr<Store> make(int k, int64_t max) {
    switch (k) { case 0: return std::unique_ptr<Store>(new S::MmapAnon<Pos>()); case 1: return std::unique_ptr<Store>(new S::SparseTable<Pos>()); case 2: return std::unique_ptr<Store>(new S::StlMap<Pos>()); case 3: return std::unique_ptr<Store>(new S::FixedArray<Pos>(max + 1)); case 4: return std::unique_ptr<Store>(new S::MmapFile<Pos>()); default: return std::unique_ptr<Store>(new S::Vector<Pos>()); }
}
struct Stream { std::vector<Obj> objs; std::map<int64_t, std::pair<int32_t, int32_t>> at; int64_t maxid = 0; int kp = 0, kn = 0; bool twice = false, preset = false; };
static Stream gen(Ctx& c, bool file) {
    Stream s; GenOpts g; g.xml_text = true; g.undef_pos = true; g.sub_more = 25; s.kp = c.upto(5); s.kn = c.upto(5); bool ordered = s.kp == 5 || s.kn == 5 || c.chance(30);
    // how large ids may get depends on the storage
    auto lim = [](int k) -> int64_t { return k == 2 || k == 5 ? INT64_MAX : k == 3 ? 100000 : 30000000; }; int64_t lp = lim(s.kp), ln = lim(s.kn); s.maxid = 100001;
    std::vector<Obj> nodes; int64_t pool = c.pick(std::vector<int64_t>{6, 40, 1000});
    while (c.more(88)) {
        Obj o = gen_obj(c, 0, g); bool neg = c.chance(40); int64_t l = neg ? ln : lp;
        switch (c.weighted({60, 15, 15, 10})) { case 0: o.id = c.upto(pool); break; case 1: o.id = c.upto(std::min<int64_t>(l, 30000000)); break; case 2: o.id = l - (int64_t)c.upto(3); break; default: o.id = c.upto(l == INT64_MAX ? INT64_MAX : l); break; }
        if (neg) o.id = -o.id; if (o.version > 2147483647u) o.version = 1; if (file) { o.visible = true; if (o.uid <= 0) { o.uid = 0; o.user = ""; } } nodes.push_back(o);
    }
    if (ordered) std::stable_sort(nodes.begin(), nodes.end(), [](const Obj& a, const Obj& b) { return std::llabs(a.id) < std::llabs(b.id); });
    std::vector<int64_t> ids; for (auto& o : nodes) { s.twice |= s.at.count(o.id) > 0; s.at[o.id] = {o.x, o.y}; ids.push_back(o.id); }
    s.objs = nodes;
    while (c.more(75)) {
        Obj w = gen_obj(c, 1, g); w.refs.clear(); if (w.version > 2147483647u) w.version = 1; if (file) { w.visible = true; if (w.uid <= 0) { w.uid = 0; w.user = ""; } } 
        if (!ids.empty()) while (c.more(80)) { int64_t r = ids[c.upto(ids.size() - 1)]; if (c.chance(20) && s.at.count(-r)) r = -r; w.refs.push_back(r); }
        s.objs.push_back(w);
    }
    s.preset = c.chance(30); c.label_if(s.preset, "ways that have other positions already"); if (s.preset) c.desc << "positions preset; ";
    c.desc << "positive: " << KN[s.kp] << ", negative: " << KN[s.kn] << "; "; for (auto& o : s.objs) c.desc << o << "; ";
    for (auto& o : s.objs) c.nontrivial(o.refs.size() >= 2); c.label(std::string("positive ") + KN[s.kp]); c.label(std::string("negative ") + KN[s.kn]); c.label_if(s.twice, "node seen twice"); bool mixed = false; for (auto& e : s.at) if (e.first > 0 && s.at.count(-e.first)) mixed = true; c.label_if(mixed, "id and its negative"); 
    return s;
}
static void check_way(Ctx& c, const Stream& s, const Obj& w, const Osmium::OSM::WayNodeList& l, const char* how) {
    c.eq((size_t)l.size(), w.refs.size(), "nodes of the way"); size_t i = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++i) {
        c.eq(it->ref(), w.refs[i], "reference"); auto p = s.at.at(w.refs[i]);
        if (it->position().x() != p.first || it->position().y() != p.second) c.fail(std::string(how) + ": node " + std::to_string(w.refs[i]) + " of way " + std::to_string(w.id) + " has position " + std::to_string(it->position().x()) + "," + std::to_string(it->position().y()) + " instead of " + std::to_string(p.first) + "," + std::to_string(p.second));
    }
}
template <class H> static void feed_direct(Ctx& c, const Stream& s, H& h) {
    Osmium::OSM::Meta m; h.init(m); bool ways = false; h.before_nodes(); 
    for (auto& o : s.objs) {
        if (o.kind == 0) { auto n = to_node(o); h.node(n); Obj a = from(*n); c.check(a == o, "node changed: " + diff(a, o)); }
        else { if (!ways) { h.after_nodes(); h.before_ways(); ways = true; } auto w = to_way(o); if (s.preset) for (size_t i = 0; i < w->nodes().size(); ++i) w->nodes()[i].position(Pos((int32_t)(17 + i), (int32_t)-3)); h.way(w); check_way(c, s, o, w->nodes(), "direct"); Obj a = from(*w); c.check(a == o, "way changed: " + diff(a, o)); h.way(w); check_way(c, s, o, w->nodes(), "given twice"); }
    }
    if (ways) h.after_ways(); else h.after_nodes(); h.final();
}
SCENARIO(any_storages, 3000, 150000) {
    Stream s = gen(c, false); auto p = make(s.kp, s.maxid), n = make(s.kn, s.maxid); Osmium::Handler::CoordinatesForWays<Store, Store> h(*p, *n); feed_direct(c, s, h);
    for (auto& e : s.at) { Pos q = h.get_node_pos(e.first); if (q.x() != e.second.first || q.y() != e.second.second) c.fail("position of node " + std::to_string(e.first) + " is " + std::to_string(q.x()) + "," + std::to_string(q.y()) + " instead of " + std::to_string(e.second.first) + "," + std::to_string(e.second.second)); }
    for (auto& o : s.objs) if (o.kind == 1) { auto w = to_way(o); h.way(w); check_way(c, s, o, w->nodes(), "again"); }
}
// as the applications do it: concrete storage classes, a file, and further handlers behind it
typedef Osmium::Handler::CoordinatesForWays<S::SparseTable<Pos>, S::MmapAnon<Pos>> Cfw;
struct Watch : Osmium::Handler::Base {
    Ctx& c; const Stream& s; Cfw& h; size_t i = 0; Watch(Ctx& x, const Stream& y, Cfw& z) : c(x), s(y), h(z) {}
    void node(const shared_ptr<Osmium::OSM::Node const>& n) { h.node(n); Obj a = from(*n); c.check(i < s.objs.size() && a == s.objs[i], "node differs"); ++i; }
    void way(const shared_ptr<Osmium::OSM::Way>& w) { h.way(w); c.check(i < s.objs.size(), "too many objects"); check_way(c, s, s.objs[i], w->nodes(), "file"); Obj a = from(*w); c.check(a == s.objs[i], "way differs: " + diff(a, s.objs[i])); ++i; }
};
SCENARIO(files, 400, 20000) {
    Stream s = gen(c, true); for (auto& o : s.objs) { for (auto& r : o.refs) if (std::llabs(r) > 30000000) r %= 1000; if (std::llabs(o.id) > 30000000 && o.kind == 0) o.id %= 1000; if (o.kind == 0 && !o.defined()) o.x = o.y = 17; }
    s.at.clear(); for (auto& o : s.objs) if (o.kind == 0) s.at[o.id] = {o.x, o.y}; for (auto& o : s.objs) if (o.kind == 1) { std::vector<int64_t> k; for (auto r : o.refs) if (s.at.count(r)) k.push_back(r); o.refs = k; }
    int enc = c.upto(1); std::string p = c.path("in"); if (enc == PBF) spit(p, pbf::simple_file(s.objs, 5, 2, c.chance(50), false, false)); else { WOpts w; w.enc = XML; Data d; d.objs = s.objs; write_file(p, d, w); for (auto& o : s.objs) if (o.uid == 0) { o.uid = -1; } }
    c.desc << (enc ? "xml" : "pbf"); S::SparseTable<Pos> a; S::MmapAnon<Pos> b; Cfw h(a, b); Watch w(c, s, h); read_file(p, OSM, enc, w); c.eq(w.i, s.objs.size(), "objects");
}
SCENARIO(many_nodes, 12, 300) {
    pbt::u64 seed = c.upto(~0ULL); int kp = c.upto(5), kn = c.upto(5); size_t n = 5000 + c.upto(40000); int64_t span = c.pick(std::vector<int64_t>{3000, 99000}); c.desc << n << " nodes, seed " << seed << ", " << KN[kp] << "/" << KN[kn]; c.nontrivial();
    Stream s; Bulk b{seed}; std::vector<int64_t> ids; for (size_t i = 0; i < n; ++i) ids.push_back((int64_t)b.upto(2 * span) - span); if (kp == 5 || kn == 5) std::sort(ids.begin(), ids.end(), [](int64_t x, int64_t y) { return std::llabs(x) < std::llabs(y); });
    for (auto id : ids) { Obj o = bulk_obj(b, 0, id, 10, 1); s.at[id] = {o.x, o.y}; s.objs.push_back(o); }
    for (size_t i = 0; i < n / 50; ++i) { Obj w; w.kind = 1; w.id = i + 1; for (int k = 0; k < 60; ++k) w.refs.push_back(ids[b.upto(ids.size() - 1)]); s.objs.push_back(w); }
    auto p = make(kp, span), q = make(kn, span); Osmium::Handler::CoordinatesForWays<Store, Store> h(*p, *q); feed_direct(c, s, h);
}
