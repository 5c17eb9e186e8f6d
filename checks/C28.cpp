// Object attributes read back as set and limits are enforced.
// LIBS: pbf xml
#include "model.hpp"
#include <osmium/osm/meta.hpp>
using namespace model;
typedef Osmium::OSM::Position Pos; typedef Osmium::OSM::WayNode WayNode; typedef Osmium::OSM::WayNodeList WayNodeList; typedef Osmium::OSM::RelationMember OMember; typedef Osmium::OSM::RelationMemberList MemberList;

RULE("a case counts as non-trivial if at least two attributes or list elements were changed after having been set, or a text at or above a limit was used; distinct by description");
ASSUME("numbers given as text are decimal and in range; a user or role of exactly 1021 bytes (the limit with its final null byte) is left open; list positions are within the list");

static const std::vector<int64_t>& edge64() { static const std::vector<int64_t> v = {0, 1, -1, 2, 255, 256, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MAX - 1}; return v; }
static int64_t num(Ctx& c, int64_t lo, int64_t hi) { if (c.chance(50)) { int64_t v = c.pick(edge64()); if (v >= lo && v <= hi) return v; } return c.chance(50) ? std::min<int64_t>(hi, std::max<int64_t>(lo, (int64_t)c.upto(20) - 4)) : c.range(lo, hi); }
static std::string utf8(Ctx& c, size_t chars) { static const std::vector<std::string> cp = {"a", "Z", " ", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"", "\\", "\n"}; std::string s; size_t kind = c.upto(cp.size()); for (size_t i = 0; i < chars; ++i) s += kind < cp.size() ? cp[kind] : c.pick(cp); return s; }
static std::string okay_text(Ctx& c) { switch (c.weighted({50, 30, 20})) { case 0: return utf8(c, c.upto(4)); case 1: return std::string("user") + std::to_string(c.upto(99)); default: return utf8(c, 230 + c.upto(25)); } }
static std::string long_text(Ctx& c) { std::string s(1022 + c.weighted({1, 1, 1}) * c.upto(3000), 'x'); return s; }
static std::string iso(int64_t t) { time_t tt = t; struct tm tm; gmtime_r(&tt, &tm); char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); return b; }

// ------------------------------------------------------------ attributes
static void set_one(Ctx& c, Osmium::OSM::Object& o, Obj& m, bool& edge) {
    int how = c.upto(2); // value, text, by name
    auto text = [&](const char* name, const std::string& v, const std::function<Osmium::OSM::Object&(const char*)>& direct) { if (how == 1) c.check(&direct(v.c_str()) == &o, "a setter returns another object"); else o.set_attribute(name, v.c_str()); };
    switch (c.upto(8)) {
        case 0: m.id = num(c, INT64_MIN, INT64_MAX); c.desc << " id " << m.id; if (how) text("id", std::to_string(m.id), [&](const char* s) -> Osmium::OSM::Object& { return o.id(s); }); else o.id((osm_object_id_t)m.id); break;
        case 1: m.version = (uint32_t)num(c, 0, 4294967295LL); c.desc << " version " << m.version; if (how) text("version", std::to_string(m.version), [&](const char* s) -> Osmium::OSM::Object& { return o.version(s); }); else o.version((osm_version_t)m.version); break;
        case 2: m.changeset = (int32_t)num(c, INT32_MIN, INT32_MAX); c.desc << " changeset " << m.changeset; if (how) text("changeset", std::to_string(m.changeset), [&](const char* s) -> Osmium::OSM::Object& { return o.changeset(s); }); else o.changeset((osm_changeset_id_t)m.changeset); break;
        case 3: m.uid = (int32_t)num(c, INT32_MIN, INT32_MAX); c.desc << " uid " << m.uid; if (how) text("uid", std::to_string(m.uid), [&](const char* s) -> Osmium::OSM::Object& { return o.uid(s); }); else o.uid((osm_user_id_t)m.uid); break;
        case 4: m.timestamp = how ? c.range(1, 253402300799LL) : num(c, -100, 253402300799LL); c.desc << " timestamp " << m.timestamp; if (how) text("timestamp", iso(m.timestamp), [&](const char* s) -> Osmium::OSM::Object& { return o.timestamp(s); }); else o.timestamp((time_t)m.timestamp); break;
        case 5: m.endtime = num(c, 0, 253402300799LL); c.desc << " endtime " << m.endtime; o.endtime((time_t)m.endtime); break;
        case 6: { bool bad = c.chance(25); std::string u = bad ? long_text(c) : okay_text(c); c.desc << (how == 2 ? " user by name " : " user ") << show(u, 16); bool refused = false; edge |= bad || u.size() > 600;
            try { if (how == 2) o.set_attribute("user", u.c_str()); else o.user(u.c_str()); } catch (const std::length_error&) { refused = true; } c.eq(refused, bad, "user name of " + std::to_string(u.size()) + " bytes is refused"); if (!bad) m.user = u; c.label(bad ? "user too long" : "user"); break; }
        case 7: m.visible = c.chance(50); c.desc << " visible " << m.visible; if (how) text("visible", m.visible ? "true" : "false", [&](const char* s) -> Osmium::OSM::Object& { return o.visible(s); }); else o.visible(m.visible); break;
        default: { static const std::vector<std::string> u = {"", "ID", "ids", "i", "lat", "lon", "endtime", "user ", "usr", "timestamps", "k", "visible2", "changeset_id"}; std::string n = c.pick(u), v = c.chance(50) ? "77" : "false"; c.desc << " unknown attribute " << show(n); o.set_attribute(n.c_str(), v.c_str()); break; }
    }
}
template <class T> static void reads_back(Ctx& c, const T& o, const Obj& m, const std::string& what) {
    std::string d = diff(from(o), m); c.check(d.empty(), what + ": " + d); c.eq(o.user_is_anonymous(), m.uid == -1, what + ": user is anonymous"); c.eq((int)o.type(), m.kind, what + ": type");
    if (m.timestamp > 0) c.eq(o.timestamp_as_string(), iso(m.timestamp), what + ": timestamp as text"); if (m.endtime > 0) c.eq(o.endtime_as_string(), iso(m.endtime), what + ": end time as text");
}
static void more_of(Ctx& c, Osmium::OSM::Node& n, Obj& m) {
    auto fix = [&] { return (int32_t)c.range(-1800000000, 1800000000); };
    switch (c.upto(2)) { case 0: m.x = fix(); m.y = fix(); n.position(Pos(m.x, m.y)); break; case 1: m.x = fix(); n.lon(m.x / 1e7); break; default: m.y = fix(); n.lat(m.y / 1e7); }
    c.desc << " position " << m.x << "," << m.y; if (m.defined()) { c.check(n.lon() == m.x / 1e7 && n.lat() == m.y / 1e7, "coordinates of a node"); } c.eq(n.position().defined(), m.defined(), "position is defined");
}
static void more_of(Ctx& c, Osmium::OSM::Way& w, Obj& m) { m.refs.push_back(num(c, INT64_MIN, INT64_MAX)); w.add_node(m.refs.back()); c.desc << " node " << m.refs.back(); c.eq(w.get_first_node_id(), m.refs.front(), "first node"); c.eq(w.get_last_node_id(), m.refs.back(), "last node"); size_t i = c.upto(m.refs.size() - 1); c.eq(w.get_node_id(i), m.refs[i], "node at position " + std::to_string(i)); }
static void more_of(Ctx& c, Osmium::OSM::Relation& r, Obj& m) {
    Member x{"nwr"[c.upto(2)], num(c, INT64_MIN, INT64_MAX), ""}; bool bad = c.chance(20); x.role = bad ? long_text(c) : okay_text(c); c.desc << " member " << x.type << x.ref << show(x.role, 12); bool refused = false;
    try { r.add_member(x.type, x.ref, x.role.c_str()); } catch (const std::length_error&) { refused = true; } c.eq(refused, bad, "role of " + std::to_string(x.role.size()) + " bytes is refused"); if (!bad) m.members.push_back(x); c.label_if(bad, "role too long");
    size_t n = m.members.size(); for (uint64_t i : {(uint64_t)n, (uint64_t)n + 1, (uint64_t)n + c.upto(100), (uint64_t)INT32_MAX, (uint64_t)INT32_MAX + 1, (uint64_t)UINT32_MAX}) c.check(r.get_member((osm_sequence_id_t)i) == nullptr, "member " + std::to_string(i) + " of " + std::to_string(n) + " exists");
    for (size_t i = 0; i < n; ++i) { const OMember* p = r.get_member(i); c.check(p && p->type() == m.members[i].type && p->ref() == m.members[i].ref && p->role() == m.members[i].role, "member " + std::to_string(i) + " of " + std::to_string(n)); static const std::map<char, std::string> names = {{'n', "node"}, {'w', "way"}, {'r', "relation"}}; c.eq(std::string(p->type_name()), names.at(p->type()), "name of the member type"); }
}
template <class T> static void histories(Ctx& c, int kind) {
    T o; Obj m; m.kind = kind; reads_back(c, o, m, "new object"); size_t n = 0; bool edge = false; struct Copy { T o; Obj m; }; std::vector<std::unique_ptr<Copy>> copies;
    while (c.more(92)) {
        ++n; switch (c.weighted({60, 15, 10, 8, 7})) {
            case 0: set_one(c, o, m, edge); break;
            case 1: more_of(c, o, m); break;
            case 2: { Tag t{utf8(c, c.upto(3)), utf8(c, c.upto(3))}; c.desc << " tag"; if (c.chance(20)) { m.tags.clear(); o.tags().clear(); } else if (c.chance(20)) { Osmium::OSM::TagList l; l.add(t.k.c_str(), t.v.c_str()); o.tags(l); m.tags = {t}; } else { o.tags().add(t.k.c_str(), t.v.c_str()); m.tags.push_back(t); } break; }
            case 3: c.desc << " copy"; copies.emplace_back(new Copy{T(o), m}); break;
            default: if (!copies.empty()) { size_t i = c.upto(copies.size() - 1); c.desc << " assign"; if (c.chance(50)) { o = copies[i]->o; m = copies[i]->m; } else { copies[i]->o = o; copies[i]->m = m; } } break;
        }
        reads_back(c, o, m, "object after " + std::to_string(n) + " operations"); for (auto& k : copies) reads_back(c, k->o, k->m, "copy after " + std::to_string(n) + " operations");
    }
    c.nontrivial(n > 2 || edge); c.label_if(copies.size(), "copies");
}
SCENARIO(nodes, 60000, 900000) { histories<Osmium::OSM::Node>(c, 0); }
SCENARIO(ways, 60000, 900000) { histories<Osmium::OSM::Way>(c, 1); }
SCENARIO(relations, 60000, 900000) { histories<Osmium::OSM::Relation>(c, 2); }
// every length around the limits
SCENARIO(limits, 1500, 50000) {
    size_t n = c.chance(60) ? 1000 + c.upto(60) : c.upto(5000); std::string s; if (c.chance(50) && n % 4 == 0) for (size_t i = 0; i < n / 4; ++i) s += "\xf0\x9f\x98\x80"; else s = std::string(n, "ax\xc3"[c.upto(1)]); c.desc << n << " bytes"; c.nontrivial(); c.label(n > 1020 ? "above the limit" : "allowed"); if (n == 1021) throw pbt::Discard();
    Osmium::OSM::Way w; w.user("before"); bool a = false; try { w.user(s.c_str()); } catch (const std::length_error&) { a = true; } c.eq(a, n > 1021, "user name of " + std::to_string(n) + " bytes is refused"); c.check(w.user() == (a ? std::string("before") : s), "user name afterwards"); if (a) { w.user("after"); c.eq(std::string(w.user()), std::string("after"), "user name set after a refused one"); }
    OMember x; x.type('w').ref(5).role("before"); a = false; try { x.role(s.c_str()); } catch (const std::length_error&) { a = true; } c.eq(a, n > 1021, "role of " + std::to_string(n) + " bytes is refused"); c.check(x.role() == (a ? std::string("before") : s) && x.type() == 'w' && x.ref() == 5, "member afterwards");
    MemberList l; l.add_member('n', 1, "first"); a = false; try { l.add_member('w', 2, s.c_str()); } catch (const std::length_error&) { a = true; } c.eq(a, n > 1021, "member with a role of " + std::to_string(n) + " bytes is refused"); c.eq(l.size(), a ? 1u : 2u, "members afterwards"); c.check(std::string(l[0].role()) == "first" && (a || l[1].role() == s), "members afterwards"); l.add_member('r', 3, "last"); c.eq(l.size(), a ? 2u : 3u, "members after another one"); c.check(std::string(l[l.size() - 1].role()) == "last", "last member");
}

// ------------------------------------------------------------ lists
struct WN { int64_t ref; int32_t x, y; };
static WN gen_wn(Ctx& c) { WN w{c.chance(70) ? (int64_t)c.upto(4) : num(c, INT64_MIN, INT64_MAX), UNDEF, UNDEF}; if (c.chance(50)) { w.x = (int32_t)c.range(-100, 100); w.y = (int32_t)c.range(-100, 100); } if (c.chance(5)) w.x = UNDEF; return w; }
static WayNode wn(const WN& w) { return w.x == UNDEF && w.y == UNDEF ? WayNode(w.ref) : WayNode(w.ref, Pos(w.x, w.y)); }
static bool same(const WayNode& a, const WN& b) { return a.ref() == b.ref && a.position().x() == b.x && a.position().y() == b.y && a.has_position() == (b.x != UNDEF && b.y != UNDEF); }
static void same(Ctx& c, WayNodeList& l, const std::vector<WN>& v, const std::string& what) {
    const WayNodeList& k = l; c.eq(l.size(), (osm_sequence_id_t)v.size(), what + ": size"); c.eq(l.empty(), v.empty(), what + ": empty"); size_t i = 0; for (auto it = k.begin(); it != k.end(); ++it, ++i) c.check(i < v.size() && same(*it, v[i]) && same(k[i], v[i]), what + ": node " + std::to_string(i)); c.eq(i, v.size(), what + ": nodes"); for (auto it = k.rbegin(); it != k.rend(); ++it) { c.check(i > 0 && same(*it, v[i - 1]), what + ": node " + std::to_string(i) + " from the end"); --i; } for (auto it = l.begin(); it != l.end(); ++it) ++i; for (auto it = l.rbegin(); it != l.rend(); ++it) --i; c.eq(i, (size_t)0, what + ": nodes both ways");
    c.eq(k.is_closed(), !v.empty() && v.front().ref == v.back().ref, what + ": is closed"); c.eq(k.has_position(), !v.empty() && v.back().x != UNDEF && v.back().y != UNDEF, what + ": has a position"); if (!v.empty()) c.check(same(k.front(), v.front()) && same(k.back(), v.back()) && same(l.front(), v.front()) && same(l.back(), v.back()), what + ": ends");
}
SCENARIO(way_node_lists, 120000, 2000000) {
    std::unique_ptr<Osmium::OSM::Way> w(c.chance(50) ? new Osmium::OSM::Way() : new Osmium::OSM::Way((int)c.upto(8))); std::vector<WN> v; size_t n = 0; WayNodeList keep; std::vector<WN> kept;
    while (c.more(88)) {
        WayNodeList& l = w->nodes(); ++n; switch (c.upto(9)) {
            case 0: { WN x = gen_wn(c); c.desc << " add " << x.ref; WayNodeList& r = c.chance(50) ? l.add(wn(x)) : l.push_back(wn(x)); c.check(&r == &l, "adding returns another list"); v.push_back(x); break; }
            case 1: { WN x = gen_wn(c); x.x = x.y = UNDEF; c.desc << " add id " << x.ref; if (c.chance(40)) w->add_node(x.ref); else { WayNodeList& r = c.chance(50) ? l.add((osm_object_id_t)x.ref) : l.push_back((osm_object_id_t)x.ref); c.check(&r == &l, "adding returns another list"); } v.push_back(x); break; }
            case 2: { std::vector<WN> a; while (c.more(60)) a.push_back(gen_wn(c)); std::vector<WayNode> b; for (auto& x : a) b.push_back(wn(x)); size_t at = c.upto(v.size()); c.desc << " insert " << a.size() << " at " << at; if (c.chance(50)) l.insert(l.begin() + at, b.begin(), b.end()); else { WayNodeList t; for (auto& x : b) t.add(x); l.insert(l.begin() + at, t.begin(), t.end()); } v.insert(v.begin() + at, a.begin(), a.end()); break; }
            case 3: if (!v.empty()) { size_t i = c.upto(v.size() - 1); WN x = gen_wn(c); c.desc << " set " << i; if (c.chance(50)) l[i] = wn(x); else { l[i].ref(x.ref); l[i].position(Pos(x.x, x.y)); } v[i] = x; } break;
            case 4: if (!v.empty()) { WN x = gen_wn(c); bool f = c.chance(50); c.desc << (f ? " front" : " back"); if (f) { l.front() = wn(x); v.front() = x; } else { l.back() = wn(x); v.back() = x; } } break;
            case 5: if (c.chance(30)) { c.desc << " clear"; l.clear(); v.clear(); } break;
            case 6: c.desc << " keep"; keep = l; kept = v; break;
            case 7: if (c.chance(50)) { c.desc << " restore"; l = keep; v = kept; } break;
            case 8: { c.desc << " copy"; std::unique_ptr<Osmium::OSM::Way> k(new Osmium::OSM::Way(*w)); w->nodes().add((osm_object_id_t)99); same(c, k->nodes(), v, "copy of a way"); w = std::move(k); break; }
            default: if (!v.empty()) { for (auto& x : w->nodes()) x.position(Pos(1, 2)); for (auto& x : v) { x.x = 1; x.y = 2; } c.desc << " positions"; } break;
        }
        std::string what = "after " + std::to_string(n) + " operations"; same(c, w->nodes(), v, what); same(c, keep, kept, what + ", list kept"); c.eq(w->is_closed(), !v.empty() && v.front().ref == v.back().ref, what + ": way is closed"); if (!v.empty()) { c.eq(w->get_first_node_id(), v.front().ref, what + ": first node"); c.eq(w->get_last_node_id(), v.back().ref, what + ": last node"); size_t i = c.upto(v.size() - 1); c.eq(w->get_node_id(i), v[i].ref, what + ": node " + std::to_string(i)); }
    }
    c.nontrivial(n > 2); c.label_if(w->is_closed(), "closed");
}
SCENARIO(way_nodes, 10000, 300000) { WN a = gen_wn(c), b = gen_wn(c); if (c.chance(40)) b.ref = a.ref; c.desc << a.ref << " " << b.ref; c.nontrivial(a.ref == b.ref || a.x != UNDEF); WayNode p = wn(a), q = wn(b); c.check(same(p, a) && same(q, b), "way nodes"); c.eq(p == q, a.ref == b.ref, "equality"); c.eq(p != q, a.ref != b.ref, "inequality"); c.eq(p < q, a.ref < b.ref, "order"); c.check(&p.ref(b.ref) == &p && &p.position(Pos(b.x, b.y)) == &p && same(p, b), "changed way node"); if (b.x != UNDEF && b.y != UNDEF) c.check(p.lon() == b.x / 1e7 && p.lat() == b.y / 1e7, "coordinates"); }
SCENARIO(member_lists, 60000, 900000) {
    MemberList l; std::vector<Member> v; size_t n = 0;
    while (c.more(88)) {
        ++n; Member x{c.chance(90) ? "nwr"[c.upto(2)] : 'x', num(c, INT64_MIN, INT64_MAX), c.chance(85) ? okay_text(c) : long_text(c)}; bool bad = x.role.size() > 1021, refused = false;
        switch (c.upto(3)) {
            case 0: case 1: c.desc << " add " << x.type << x.ref << show(x.role, 10); try { l.add_member(x.type, x.ref, x.role.c_str()); } catch (const std::length_error&) { refused = true; } c.eq(refused, bad, "member is refused"); if (!bad) v.push_back(x); break;
            case 2: if (!v.empty()) { size_t i = c.upto(v.size() - 1); c.desc << " set " << i; v[i].type = x.type; v[i].ref = x.ref; OMember& m = l[i]; m.type(x.type).ref(x.ref); try { m.role(x.role.c_str()); } catch (const std::length_error&) { refused = true; } c.eq(refused, bad, "role is refused"); if (!bad) v[i].role = x.role; } break;
            default: if (c.chance(20)) { c.desc << " clear"; l.clear(); v.clear(); } else { c.desc << " copy"; MemberList k(l); k.add_member('n', 1, "more"); c.eq(k.size(), (osm_sequence_id_t)v.size() + 1, "members of a copy"); k.clear(); } break;
        }
        const MemberList& k = l; c.eq(k.size(), (osm_sequence_id_t)v.size(), "members"); size_t i = 0; for (auto it = k.begin(); it != k.end(); ++it, ++i) c.check(i < v.size() && it->type() == v[i].type && it->ref() == v[i].ref && it->role() == v[i].role && k[i].ref() == v[i].ref, "member " + std::to_string(i)); c.eq(i, v.size(), "members iterated"); for (auto it = l.begin(); it != l.end(); ++it) --i; c.eq(i, (size_t)0, "members iterated"); if (!v.empty() && v.back().type == 'x') c.eq(std::string(l[v.size() - 1].type_name()), std::string("unknown"), "name of an unknown type");
    }
    c.nontrivial(n > 2);
}

// ------------------------------------------------------------ file properties
SCENARIO(metadata, 8000, 300000) {
    // extending a box keeps exactly the smallest box around all defined positions
    Osmium::OSM::Bounds b; Box w; size_t n = 0; std::string gen; bool multi = false; Osmium::OSM::Meta m; c.check(!m.bounds().defined() && !m.has_multiple_object_versions() && m.generator().empty(), "new file properties are not empty");
    while (c.more(85)) {
        ++n; switch (c.upto(3)) {
            case 0: case 1: { int32_t x = c.chance(70) ? (int32_t)c.range(-10, 10) : (int32_t)c.range(INT32_MIN, INT32_MAX), y = c.chance(70) ? (int32_t)c.range(-10, 10) : (int32_t)c.range(INT32_MIN, INT32_MAX); if (c.chance(10)) x = UNDEF; if (c.chance(5)) y = UNDEF; c.desc << " " << x << "," << y; Pos p(x, y); c.check(&b.extend(p) == &b, "extend returns another box"); m.bounds().extend(p); if (x != UNDEF && y != UNDEF) { if (!w.def) w = Box{true, x, y, x, y}; else { w.x1 = std::min(w.x1, x); w.x2 = std::max(w.x2, x); w.y1 = std::min(w.y1, y); w.y2 = std::max(w.y2, y); } } break; }
            case 2: gen = utf8(c, c.upto(5)); c.desc << " generator " << show(gen); c.check(&m.generator(gen) == &m, "setter returns another object"); break;
            default: multi = c.chance(50); c.desc << " versions " << multi; c.check(&m.has_multiple_object_versions(multi) == &m, "setter returns another object"); break;
        }
        Osmium::OSM::Meta k(m); for (auto* q : {&m, &k}) { c.check(from(q->bounds()) == w, "bounds after " + std::to_string(n) + " operations"); c.eq(q->has_multiple_object_versions(), multi, "several versions"); c.eq(q->generator(), gen, "generator"); } c.check(from(b) == w, "box after " + std::to_string(n) + " operations"); Osmium::OSM::Meta z(b); c.check(from(z.bounds()) == w, "properties made from a box");
    }
    c.nontrivial(n > 2);
}
