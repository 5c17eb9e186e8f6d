// Object ordering is a consistent order and the object store respects it.
// LIBS: pbf xml geosc
// GEOS: old
// FLAGS: -fwrapv
#include "area_all.hpp"
#include "io.hpp"
#include <osmium/storage/objectstore.hpp>
using namespace model;
using Osmium::Storage::ObjectStore;

RULE("a case counts as non-trivial if two of the objects share the absolute value of their id, or the store is fed more than once; distinct by description");

static int64_t small_id(Ctx& c) { switch (c.weighted({70, 15, 15})) { case 0: return c.range(-4, 4); case 1: return c.range(-2000, 2000); default: { static const std::vector<int64_t> b = {INT64_MAX, -INT64_MAX, 1LL << 31, -(1LL << 31), 1LL << 32, 4294967295LL, -4294967295LL, (1LL << 53) + 1, 1LL << 53, -(1LL << 53), 2147483647}; return c.pick(b); } } }
static uint32_t small_version(Ctx& c) { return c.weighted({80, 20}) == 0 ? c.upto(4) : c.pick(std::vector<uint32_t>{2147483647u, 2147483648u, 4294967295u, 65536, 100}); }
static uint64_t mag(int64_t i) { return i < 0 ? 0 - (uint64_t)i : i; }

template <class T> struct Make; 
template <> struct Make<Osmium::OSM::Node> { enum { kind = 0 }; }; template <> struct Make<Osmium::OSM::Way> { enum { kind = 1 }; }; template <> struct Make<Osmium::OSM::Relation> { enum { kind = 2 }; };
template <class T> static T* fresh() { return new T(); }
template <> Osmium::OSM::Area* fresh() { return new Osmium::OSM::Area(Osmium::OSM::Way()); }
template <class T> static void axioms(Ctx& c, const char* name) {
    c.desc << name; std::vector<shared_ptr<T>> v; size_t n = 3 + c.upto(6); bool share = false;
    for (size_t i = 0; i < n; ++i) { shared_ptr<T> o(fresh<T>()); int64_t id = i && c.chance(25) ? -v[c.upto(i - 1)]->id() : i && c.chance(20) ? v[c.upto(i - 1)]->id() : small_id(c); o->id(id); o->version(small_version(c)); o->timestamp(c.upto(5)); o->visible(c.chance(50)); o->user(("u" + std::to_string(c.upto(3))).c_str()); for (auto& x : v) share |= mag(x->id()) == mag(id); v.push_back(o); c.desc << " " << id << "v" << o->version(); }
    c.nontrivial(share); auto lt = [](const shared_ptr<T>& a, const shared_ptr<T>& b) { return *a < *b; }; auto d = [](const shared_ptr<T>& a) { return std::to_string(a->id()) + "v" + std::to_string(a->version()); };
    for (auto& a : v) {
        c.check(!lt(a, a), d(a) + " is smaller than itself");
        for (auto& b : v) {
            bool same = a->id() == b->id() && a->version() == b->version(); if (lt(a, b) && lt(b, a)) c.fail(d(a) + " and " + d(b) + " are each smaller than the other");
            c.eq(!lt(a, b) && !lt(b, a), same, d(a) + " and " + d(b) + " are equivalent");
            if (mag(a->id()) != mag(b->id())) c.eq(lt(a, b), mag(a->id()) < mag(b->id()), d(a) + " < " + d(b)); else if (a->id() == b->id()) c.eq(lt(a, b), a->version() < b->version(), d(a) + " < " + d(b));
            c.eq(*a > *b, lt(b, a), d(a) + " > " + d(b)); c.eq(*a <= *b, !lt(b, a), d(a) + " <= " + d(b)); c.eq(*a >= *b, !lt(a, b), d(a) + " >= " + d(b));
            shared_ptr<T const> pa = a, pb = b; c.eq(pa < pb, lt(a, b), "order of pointers to " + d(a) + " and " + d(b));
            for (auto& x : v) { if (lt(a, b) && lt(b, x)) c.check(lt(a, x), "order of " + d(a) + ", " + d(b) + ", " + d(x) + " is not transitive"); }
        }
    }
    auto s = v; std::sort(s.begin(), s.end(), lt); for (size_t i = 1; i < s.size(); ++i) c.check(mag(s[i - 1]->id()) <= mag(s[i]->id()), "sorted list is not in order of the absolute ids");
}
SCENARIO(order_of_nodes, 6000, 300000) { axioms<Osmium::OSM::Node>(c, "nodes"); }
SCENARIO(order_of_ways, 3000, 150000) { axioms<Osmium::OSM::Way>(c, "ways"); }
SCENARIO(order_of_relations, 3000, 150000) { axioms<Osmium::OSM::Relation>(c, "relations"); }
SCENARIO(order_of_areas, 2000, 100000) { axioms<Osmium::OSM::Area>(c, "areas"); }

// the library may put id or -id first, but everywhere alike
static bool negative_first() { Osmium::OSM::Node a, b; a.id(-5); b.id(5); return a < b; }
struct Less { bool operator()(const Obj& a, const Obj& b) const { if (mag(a.id) != mag(b.id)) return mag(a.id) < mag(b.id); if (a.id != b.id) return negative_first() ? a.id < b.id : a.id > b.id; return a.version < b.version; } };
typedef std::map<Obj, std::vector<Obj>, Less> Shelf; // all objects given with this id and version

static void compare(Ctx& c, const Capture& cap, Shelf* m, const std::string& what) {
    std::string want = "iN" + std::string(m[0].size(), 'n') + "eW" + std::string(m[1].size(), 'w') + "vR" + std::string(m[2].size(), 'r') + "sf"; c.eq(cap.events, want, what + ": callbacks"); size_t i = 0;
    for (int k = 0; k < 3; ++k) for (auto& e : m[k]) { const Obj& g = cap.objs[i++]; c.check(g.id == e.first.id && g.version == e.first.version, what + ": object " + std::to_string(i - 1) + " is " + str(g) + ", expected id " + std::to_string(e.first.id) + " version " + std::to_string(e.first.version)); bool one = false; for (auto& x : e.second) one |= x == g; c.check(one, what + ": object " + str(g) + " is not one that was put into the store"); }
}
SCENARIO(object_store, 5000, 250000) {
    ObjectStore store; Shelf m[3]; GenOpts g; g.history = true; g.sub_more = 20; g.big_text = false; size_t feeds = 0; bool share = false;
    while (c.more(93)) {
        switch (c.weighted({80, 8, 4, 4, 4})) {
            case 0: { Obj o = gen_obj(c, c.upto(2), g); o.id = small_id(c); if (c.chance(70)) o.version = c.upto(3); c.desc << o << "; ";
                for (auto& e : m[o.kind]) share |= mag(e.first.id) == mag(o.id);
                if (o.kind == 0) store.node(to_node(o)); else if (o.kind == 1) store.way(to_way(o)); else store.relation(to_relation(o)); m[o.kind][o].push_back(o); break; }
            case 1: { bool clear = c.chance(40); Capture cap; Osmium::OSM::Meta meta; meta.generator("g" + std::to_string(feeds)); c.desc << (clear ? "feed and clear; " : "feed; "); if (clear && c.chance(50)) store.feed_to(&cap, meta); else store.feed_to(&cap, meta, clear); compare(c, cap, m, "feeding the store"); c.eq(cap.generator, "g" + std::to_string(feeds), "meta data"); ++feeds; if (clear) for (auto& x : m) x.clear(); break; }
            case 2: { int k = c.upto(2); c.desc << "clear kind " << k << "; "; if (k == 0) store.clear_nodes(); else if (k == 1) store.clear_ways(); else store.clear_relations(); m[k].clear(); break; }
            case 3: { c.desc << "clear; "; if (!c.chance(30)) break; store.clear(); for (auto& x : m) x.clear(); break; }
            default: { // as a handler of a stream of objects
                Data d; d.objs = gen_objs(c, g); for (auto& o : d.objs) o.id = small_id(c); for (auto& o : d.objs) { c.desc << o << "; "; m[o.kind][o].push_back(o); } c.desc << "; "; feed(store, d, true); break; }
        }
    }
    c.nontrivial(share || feeds > 1); c.label_if(share, "same absolute id"); c.label_if(feeds > 1, "fed several times"); Capture cap; Osmium::OSM::Meta meta; store.feed_to(&cap, meta, false); compare(c, cap, m, "feeding the store at the end"); Capture again; store.feed_to(&again, meta, true); compare(c, again, m, "feeding again");
    Capture none; for (auto& x : m) x.clear(); store.feed_to(&none, meta); compare(c, none, m, "feeding the emptied store");
}
// objects in the store live as long as the store, and no longer
SCENARIO(ownership, 300, 10000) {
    GenOpts g; g.sub_more = 20; std::vector<std::weak_ptr<Osmium::OSM::Node const>> w; size_t n = 1 + c.upto(20); bool shared = false; 
    { shared_ptr<ObjectStore> s(new ObjectStore()); std::vector<Obj> all; for (size_t i = 0; i < n; ++i) { Obj o = gen_obj(c, 0, g); o.id = i; all.push_back(o); auto p = to_node(o); s->node(p); (void)shared; } c.desc << n << " nodes " << all[0] << "; "; c.nontrivial(n > 2); Capture cap; Osmium::OSM::Meta m; s->feed_to(&cap, m, false); same_objs(c, cap.objs, all, "objects of a store that holds the only reference"); }
}
