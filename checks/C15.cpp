// Assembled relations are complete, correct and handed over once.
// LIBS: pbf xml
// TOOLS: osmium_relation_members
#include "io.hpp"
#include "pbfcodec.hpp"
#include "tool.hpp"
#include <osmium/relations/assembler.hpp>
using namespace model;
using Osmium::Relations::RelationInfo;

RULE("a case counts as non-trivial if at least one relation is completed and one wanted member is missing, shared or repeated; distinct by description");
ASSUME("objects are in order of the kinds; every relation occurs once in the file, nodes and ways may occur in several versions");

// what is wanted is a fixed function of the relation and the position of the member
struct Plan {
    bool follow[3]; std::set<int64_t> kept; std::set<std::pair<int64_t, size_t>> wanted; bool by_default = false;
    bool want(int64_t rel, size_t i) const { return by_default || wanted.count({rel, i}) > 0; }
};
struct Event { char what; size_t seen; Obj obj; std::vector<Obj> members; std::vector<bool> there; int missing = 0; };
struct Trace { std::vector<Event> ev; };
struct Info : RelationInfo { int extra = 0; Info() {} Info(const shared_ptr<Osmium::OSM::Relation const>& r) : RelationInfo(r) {} };

static Obj any(const Osmium::OSM::Object& o) { if (o.type() == NODE) return from(static_cast<const Osmium::OSM::Node&>(o)); if (o.type() == WAY) return from(static_cast<const Osmium::OSM::Way&>(o)); return from(static_cast<const Osmium::OSM::Relation&>(o)); }
static void put(Event& e, const RelationInfo& i) { e.obj = from(*i.relation()); e.missing = i.need_members(); for (auto& m : i.members()) { e.there.push_back((bool)m); e.members.push_back(m ? any(*m) : Obj()); } }

template <bool N, bool W, bool R, class H, bool DEF> struct Asm : Osmium::Relations::Assembler<Asm<N, W, R, H, DEF>, Info, N, W, R, H> {
    typedef Osmium::Relations::Assembler<Asm<N, W, R, H, DEF>, Info, N, W, R, H> Base;
    const Plan& p; Trace& t; const size_t& seen; int64_t last_rel = 0; size_t pos = 0; bool clean; size_t asked = 0;
    Asm(H& h, const Plan& pl, Trace& tr, const size_t& s, bool cl) : Base(h), p(pl), t(tr), seen(s), clean(cl) {}
    void relation(const shared_ptr<Osmium::OSM::Relation const>& r) { pos = 0; if (p.kept.count(r->id())) { Info i(r); i.extra = 7; Base::add_relation(i); } }
    bool keep_member(RelationInfo& i, const Osmium::OSM::RelationMember&) { ++asked; return p.want(i.relation()->id(), pos++); }
    void add(char w, const Obj& o) { Event e; e.what = w; e.seen = seen; e.obj = o; t.ev.push_back(e); }
    void complete_relation(Info& i) { Event e; e.what = i.extra == 7 ? 'c' : '?'; e.seen = seen; put(e, i); t.ev.push_back(e); }
    void all_members_available() { if (clean) Base::clean_assembled_relations(); Event e; e.what = 'a'; e.seen = seen; t.ev.push_back(e); for (auto& i : Base::relations()) { if (!i.relation()) continue; Event q; q.what = 'i'; q.seen = seen; put(q, i); t.ev.push_back(q); } }
    void node_not_in_any_relation(const shared_ptr<Osmium::OSM::Node const>& o) { add('n', from(*o)); }
    void way_not_in_any_relation(const shared_ptr<Osmium::OSM::Way const>& o) { add('n', from(*o)); }
    void relation_not_in_any_relation(const shared_ptr<Osmium::OSM::Relation const>& o) { add('n', from(*o)); }
};
// the nested handler, which also tells how far the second pass is
struct Nested : Capture { size_t seen = 0; void node(const shared_ptr<Osmium::OSM::Node const>& o) { Capture::node(o); ++seen; } void way(const shared_ptr<Osmium::OSM::Way const>& o) { Capture::way(o); ++seen; } void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { Capture::relation(o); ++seen; } };

// an assembler that overrides nothing it need not: everything is wanted
template <class H> struct Plain : Osmium::Relations::Assembler<Plain<H>, RelationInfo, true, true, true, H> {
    typedef Osmium::Relations::Assembler<Plain<H>, RelationInfo, true, true, true, H> Base; friend Base; Trace& t; const size_t& seen; 
    Plain(H& h, Trace& tr, const size_t& s) : Base(h), t(tr), seen(s) {}
    void complete_relation(RelationInfo& i) { Event e; e.what = 'c'; e.seen = seen; put(e, i); t.ev.push_back(e); }
};

struct World { std::vector<Obj> objs; Plan p; };
static World gen(Ctx& c) {
    World w; GenOpts g; g.xml_text = true; g.sub_more = 25; g.undef_pos = false; g.big_text = false; int64_t pool = c.pick(std::vector<int64_t>{4, 12, 40}); unsigned more = c.pick(std::vector<unsigned>{60, 80, 90});
    static const std::vector<int64_t> far = {INT64_MAX, -INT64_MAX, 1LL << 32, (1LL << 32) + 1, -(1LL << 32), 1LL << 31, (1LL << 53) + 1};
    auto id = [&]() -> int64_t { return c.weighted({90, 10}) == 0 ? c.range(-(pool / 4), pool) : c.pick(far); };
    for (int k = 0; k < 3; ++k) { std::set<int64_t> used; while (c.more(more)) { Obj o = gen_obj(c, k, g); o.id = id(); if (!used.insert(o.id).second) continue; o.visible = true; o.uid = -1; o.user = ""; if (k == 2) { o.members.clear(); while (c.more(75)) { Member m; m.type = gen_mtype(c); m.ref = c.chance(10) ? o.id : id(); if (c.chance(12) && !o.members.empty()) m = o.members[c.upto(o.members.size() - 1)]; m.role = gen_text(c, g); o.members.push_back(m); } } w.objs.push_back(o); } }
    // most of the time members exist
    std::vector<int64_t> have[3]; for (auto& o : w.objs) have[o.kind].push_back(o.id); bool fix = c.chance(70);
    if (fix) for (auto& o : w.objs) for (auto& m : o.members) { int k = m.type == 'n' ? 0 : m.type == 'w' ? 1 : 2; if (!have[k].empty() && !c.chance(8)) m.ref = have[k][c.upto(have[k].size() - 1)]; }
    int f = 1 + c.upto(6); for (int k = 0; k < 3; ++k) w.p.follow[k] = f >> k & 1; unsigned keep = c.pick(std::vector<unsigned>{100, 80, 50}), want = c.pick(std::vector<unsigned>{100, 85, 40}); bool stray = c.chance(10);
    for (auto& o : w.objs) if (o.kind == 2 && c.chance(keep)) { w.p.kept.insert(o.id); size_t i = 0; for (auto& m : o.members) { int k = m.type == 'n' ? 0 : m.type == 'w' ? 1 : 2; if ((w.p.follow[k] || (stray && c.chance(10))) && c.chance(want)) w.p.wanted.insert({o.id, i}); ++i; } }
    return w;
}
static void describe(Ctx& c, const World& w) {
    c.desc << "follow" << (w.p.follow[0] ? " nodes" : "") << (w.p.follow[1] ? " ways" : "") << (w.p.follow[2] ? " relations" : "") << ";";
    for (auto& o : w.objs) { c.desc << " " << "nwr"[o.kind] << o.id; if (o.kind == 2) { c.desc << (w.p.kept.count(o.id) ? "*" : "") << "("; size_t i = 0; for (auto& m : o.members) { c.desc << (i ? " " : "") << m.type << m.ref << (w.p.kept.count(o.id) && w.p.want(o.id, i) ? "!" : ""); ++i; } c.desc << ")"; } }
    c.desc << "; ";
}
static int kindof(char t) { return t == 'n' ? 0 : t == 'w' ? 1 : 2; }
// what has to happen, object by object
static void judge(Ctx& c, const World& w, const Trace& t, bool clean, bool notices) {
    const Plan& p = w.p; std::map<std::pair<int, int64_t>, size_t> at; std::map<std::pair<int, int64_t>, std::vector<size_t>> all; for (size_t i = 0; i < w.objs.size(); ++i) { at.insert({{w.objs[i].kind, w.objs[i].id}, i}); all[{w.objs[i].kind, w.objs[i].id}].push_back(i); } bool missing = false, shared = false, done = false;
    std::map<size_t, std::set<int64_t>> complete; std::map<int64_t, int> lacking; std::set<std::pair<int, int64_t>> wanted; std::map<int64_t, const Obj*> rel; 
    for (auto& o : w.objs) if (o.kind == 2 && p.kept.count(o.id)) {
        rel[o.id] = &o; size_t last = 0; int lack = 0, n = 0;
        for (size_t i = 0; i < o.members.size(); ++i) if (p.want(o.id, i)) { ++n; int k = kindof(o.members[i].type); auto x = at.find({k, o.members[i].ref}); if (x == at.end() || !p.follow[k]) ++lack; else last = std::max(last, x->second); if (p.follow[k]) shared |= !wanted.insert({k, o.members[i].ref}).second; }
        if (n && !lack) { complete[last].insert(o.id); done = true; } else lacking[o.id] = lack; missing |= lack > 0;
    }
    c.nontrivial(done && (missing || shared)); c.label_if(done, "relation completed"); c.label_if(missing, "member missing"); c.label_if(shared, "member shared or repeated"); 
    size_t last = 0, need = 0; bool have[3] = {false, false, false}; for (size_t i = 0; i < w.objs.size(); ++i) { have[w.objs[i].kind] = true; if (p.follow[w.objs[i].kind]) last = i + 1; } for (int k = 0; k < 3; ++k) need += p.follow[k] && !have[k]; c.label_if(need, "no object of a followed kind");
    auto members = [&](const Event& e, const char* what) {
        const Obj& r = *rel.at(e.obj.id); c.check(e.obj == r, std::string(what) + ": relation " + std::to_string(r.id) + " differs: " + diff(e.obj, r)); c.eq(e.members.size(), r.members.size(), std::string(what) + ": places for members"); 
        for (size_t i = 0; i < r.members.size(); ++i) {
            auto x = at.find({kindof(r.members[i].type), r.members[i].ref}); bool want = p.want(r.id, i) && x != at.end() && p.follow[kindof(r.members[i].type)] && (e.what != 'c' || true); std::string d = std::string(what) + ": member " + std::to_string(i) + " (" + r.members[i].type + std::to_string(r.members[i].ref) + ") of relation " + std::to_string(r.id);
            c.eq((bool)e.there[i], want, d + " is there"); if (want) { bool ok = false; for (size_t q : all.at(x->first)) ok |= q <= e.seen && e.members[i] == w.objs[q]; c.check(ok, d + " is the wrong object: " + str(e.members[i])); }
        }
    };
    std::set<int64_t> given, left; std::set<size_t> loose; size_t notice = 0; 
    for (auto& e : t.ev) switch (e.what) {
        case 'c': { c.check(rel.count(e.obj.id), "complete_relation for relation " + std::to_string(e.obj.id) + " that was not kept"); c.check(given.insert(e.obj.id).second, "complete_relation twice for relation " + std::to_string(e.obj.id)); members(e, "complete relation"); c.eq(e.missing, 0, "members missing in a complete relation");
            bool ok = false; for (size_t s : {e.seen, e.seen - 1}) ok |= complete.count(s) && complete[s].count(e.obj.id); c.check(ok, "relation " + std::to_string(e.obj.id) + " is handed over after " + std::to_string(e.seen) + " objects, not when its last member arrives"); c.check(!notice, "relation completed after all_members_available"); break; }
        case 'n': { c.check(p.follow[e.obj.kind], "object of a kind not followed reported as not in any relation: " + str(e.obj)); c.check(!wanted.count({e.obj.kind, e.obj.id}), "wanted object reported as not in any relation: " + str(e.obj)); auto x = all.find({e.obj.kind, e.obj.id}); c.check(x != all.end(), "object not in any relation that does not exist: " + str(e.obj)); size_t found = ~size_t(0); for (size_t q : x->second) if (q == e.seen || q + 1 == e.seen) if (w.objs[q] == e.obj && !loose.count(q)) { found = q; break; } c.check(found != ~size_t(0), "object not in any relation is reported late, twice or changed: " + str(e.obj)); loose.insert(found); break; }
        case 'a': { c.check(++notice == 1, "all_members_available called twice"); c.check(e.seen >= last, "all_members_available called after " + std::to_string(e.seen) + " objects, the last followed one is number " + std::to_string(last)); if (!need) { c.check(e.seen == last, "all_members_available called only after " + std::to_string(e.seen) + " objects, the last followed one is number " + std::to_string(last)); } break; }
        case 'i': { c.check(rel.count(e.obj.id), "relation " + std::to_string(e.obj.id) + " was not kept but is there in the end"); c.check(lacking.count(e.obj.id), "complete relation " + std::to_string(e.obj.id) + " is still there in the end"); c.check(left.insert(e.obj.id).second, "relation " + std::to_string(e.obj.id) + " is there twice in the end"); members(e, "incomplete relation"); c.eq(e.missing, lacking[e.obj.id], "number of missing members of relation " + std::to_string(e.obj.id)); break; }
        default: c.fail("relation info lost what the application stored in it");
    }
    for (auto& s : complete) for (auto id : s.second) c.check(given.count(id), "complete relation " + std::to_string(id) + " was never handed over");
    if (notices) {
        c.eq(notice, (size_t)1, "calls of all_members_available");
        for (size_t i = 0; i < w.objs.size(); ++i) { const Obj& o = w.objs[i]; if (p.follow[o.kind] && !wanted.count({o.kind, o.id})) c.check(loose.count(i), "object in no relation not reported: " + str(o)); }
        for (auto& l : lacking) if (l.second || !clean) c.check(left.count(l.first), "incomplete relation " + std::to_string(l.first) + " is gone when all members are available"); else c.check(!left.count(l.first), "relation " + std::to_string(l.first) + " that lacks nothing is still there after cleaning");
    }
}
static void nested(Ctx& c, const World& w, const Capture& n) { c.eq(n.events, expected_events(w.objs), "callbacks of the nested handler"); same_objs(c, n.objs, w.objs, "nested handler"); }
template <class H> static void pass(const World& w, H& h, const std::string& file, int enc) { if (file.empty()) { Data d; d.objs = w.objs; try { feed(h, d); } catch (Osmium::Handler::StopReading) {} } else read_file(file, OSM, enc, h); }

template <class A> static void both(Ctx& c, const World& w, A& a, const std::string& file, int enc) { pass(w, a.handler_pass1(), file, enc); size_t want = 0; for (auto& o : w.objs) if (o.kind == 2 && w.p.kept.count(o.id)) want += o.members.size(); c.eq(a.asked, want, "members asked about"); pass(w, a.handler_pass2(), file, enc); }
template <int F> static void run(Ctx& c, const World& w, const std::string& file, int enc) {
    bool clean = c.chance(50); Trace t; Nested n; 
    Asm<(F & 1) != 0, (F & 2) != 0, (F & 4) != 0, Nested, false> a(n, w.p, t, n.seen, clean); both(c, w, a, file, enc);
    judge(c, w, t, clean, true); nested(c, w, n);
}
static void dispatch(Ctx& c, const World& w, const std::string& file = "", int enc = PBF) { int f = (w.p.follow[0] ? 1 : 0) | (w.p.follow[1] ? 2 : 0) | (w.p.follow[2] ? 4 : 0); switch (f) { case 1: run<1>(c, w, file, enc); break; case 2: run<2>(c, w, file, enc); break; case 3: run<3>(c, w, file, enc); break; case 4: run<4>(c, w, file, enc); break; case 5: run<5>(c, w, file, enc); break; case 6: run<6>(c, w, file, enc); break; default: run<7>(c, w, file, enc); } }

SCENARIO(assemble, 8000, 400000) { World w = gen(c); describe(c, w); dispatch(c, w); }
SCENARIO(everything_by_default, 2000, 100000) {
    World w = gen(c); for (bool& f : w.p.follow) f = true; w.p.by_default = true; for (auto& o : w.objs) if (o.kind == 2) w.p.kept.insert(o.id); describe(c, w); Trace t; Nested n; Plain<Nested> a(n, t, n.seen); pass(w, a.handler_pass1(), "", PBF); pass(w, a.handler_pass2(), "", PBF); judge(c, w, t, false, false); nested(c, w, n);
}
SCENARIO(files, 800, 40000) {
    World w = gen(c); describe(c, w); int enc = c.upto(1); c.desc << (enc ? "xml" : "pbf"); std::string p = c.path("in"); for (auto& o : w.objs) { if (o.version > 2147483647u) o.version = 1; o.uid = -1; o.user = ""; } if (enc == PBF) { for (auto& o : w.objs) { o.uid = 5; o.user = "u"; } spit(p, pbf::simple_file(w.objs, 1 + c.upto(5), 2, c.chance(50), false, false)); } else { WOpts o; o.enc = XML; Data d; d.objs = w.objs; write_file(p, d, o); } dispatch(c, w, p, enc);
}
SCENARIO(many, 20, 600) {
    pbt::u64 seed = c.upto(~0ULL); size_t n = 500 + c.upto(4000); c.desc << n << " objects of each kind, seed " << seed; c.nontrivial(); World w; Bulk b{seed}; for (bool& f : w.p.follow) f = true; int64_t span = (int64_t)(n * (1 + b.upto(3)));
    for (int k = 0; k < 3; ++k) for (size_t i = 0; i < n; ++i) { Obj o = bulk_obj(b, k, (int64_t)i * (i % 3 ? 1 : -1), 5, 3); o.uid = -1; o.user = ""; if (k == 2) { o.members.clear(); for (size_t j = b.upto(12); j; --j) { int64_t r = b.upto(b.upto(3) ? std::min<int64_t>(n - 1, 300) : span); o.members.push_back(Member{"nwr"[b.upto(2)], r * (r % 3 ? 1 : -1), "x"}); } if (b.upto(4)) { w.p.kept.insert(o.id); for (size_t j = 0; j < o.members.size(); ++j) if (b.upto(5)) w.p.wanted.insert({o.id, j}); } } w.objs.push_back(o); }
    dispatch(c, w);
}
// nodes and ways that occur several times in the file, as in a history
SCENARIO_FORK(versions, 1500, 60000) {
    World w = gen(c); std::vector<Obj> out; bool some = false;
    for (int k = 0; k < 3; ++k) { std::vector<Obj> v; for (auto& o : w.objs) if (o.kind == k) { v.push_back(o); if (k == 2) continue; while (c.chance(25)) { Obj d = o; d.version = (uint32_t)v.size() + 100; d.tags.clear(); if (c.chance(50)) d.tags.push_back(Tag{"v", std::to_string(v.size())}); if (c.chance(70)) v.push_back(d); else v.insert(v.begin() + c.upto(v.size()), d); some = true; } } out.insert(out.end(), v.begin(), v.end()); }
    if (!some) throw pbt::Discard(); w.objs = out; describe(c, w); dispatch(c, w);
}
// more members of a relation, or more relations, than small counters hold
SCENARIO(very_many, 5, 80) {
    pbt::u64 seed = c.upto(~0ULL); Bulk b{seed}; size_t n = c.pick(std::vector<size_t>{40000, 65535, 65536, 65537, 66000, 70000}); bool one = c.chance(50); c.desc << (one ? "one relation with " : "relations, ") << n << (one ? " members" : " of them") << ", seed " << seed; c.nontrivial(); World w; for (bool& f : w.p.follow) f = true;
    size_t pool = 1000; for (int k = 0; k < 2; ++k) for (size_t i = 0; i < pool; ++i) { Obj o = bulk_obj(b, k, i + 1, 5, 0); o.uid = -1; o.user = ""; w.objs.push_back(o); } bool gap = c.chance(30);
    for (size_t r = 0; r < (one ? 3 : n); ++r) { Obj o; o.kind = 2; o.id = r + 1; o.version = 1; o.uid = -1; size_t m = one ? (r == 1 ? n : 3) : b.upto(2); for (size_t j = 0; j < m; ++j) { o.members.push_back(Member{"nw"[b.upto(1)], (int64_t)(1 + b.upto(gap ? pool * (one ? 50 : 4) : pool - 1)), ""}); w.p.wanted.insert({o.id, j}); } w.p.kept.insert(o.id); w.objs.push_back(o); }
    dispatch(c, w);
}
// the shipped program lists every relation once, with the tags of its members
SCENARIO(tool, 150, 5000) {
    World w = gen(c); for (bool& f : w.p.follow) f = true; w.p.by_default = true; for (auto& o : w.objs) { if (o.version > 2147483647u) o.version = 1; if (o.kind == 2) w.p.kept.insert(o.id); auto cl = [](std::string& s) { for (auto& ch : s) if (ch == '\n') ch = '_'; }; for (auto& t : o.tags) { cl(t.k); cl(t.v); } for (auto& m : o.members) cl(m.role); } describe(c, w);
    std::map<std::pair<int, int64_t>, const Obj*> at; for (auto& o : w.objs) at[{o.kind, o.id}] = &o; std::multiset<std::string> want; bool some = false;
    for (auto& o : w.objs) if (o.kind == 2 && !o.members.empty()) {
        std::ostringstream s; bool all = true; for (auto& m : o.members) all &= at.count({kindof(m.type), m.ref}) > 0; s << "Relation " << o.id << (all ? "\n" : " (INCOMPLETE)\n"); for (auto& t : o.tags) s << "  " << t.k << "=" << t.v << "\n"; int i = 0; some |= all;
        for (auto& m : o.members) { s << "  [" << i++ << "] Member " << (m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation") << " " << m.ref << " with role '" << m.role << "'"; auto x = at.find({kindof(m.type), m.ref}); if (x == at.end()) s << " (NOT IN INPUT FILE)\n"; else { s << "\n"; for (auto& t : x->second->tags) s << "      " << t.k << "=" << t.v << "\n"; } }
        want.insert(s.str());
    }
    c.nontrivial(some); std::string p = c.path("in.osm"); WOpts o; o.enc = XML; Data d; d.objs = w.objs; write_file(p, d, o); auto r = tool::run("osmium_relation_members", {p}); c.eq(r.status, 0, "status of the tool"); size_t b = r.out.find("\nRelation "); std::multiset<std::string> got; std::string head = "Second pass (reading members)...\n"; size_t q = r.out.find(head); c.check(q != std::string::npos, "second pass is not announced"); q += head.size(); (void)b;
    std::string rest = r.out.substr(q), cur; std::istringstream in(rest); std::string l; while (std::getline(in, l)) { if (l.empty()) { got.insert(cur); cur.clear(); } else cur += l + "\n"; } c.eq(cur, std::string(), "rest of the output");
    for (auto& s : want) c.eq(got.count(s), want.count(s), "output for\n" + s); c.eq(got.size(), want.size(), "relations listed");
}
