// Plain data model of OSM data, generators for it, and conversion from and to
// the library's objects. Nothing here uses the library to decide anything:
// it is only asked to hold values (setters) and to give them back (getters).
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP

#include "pbt.hpp"
#include "osmium_all.hpp"

namespace model {

using pbt::Ctx;
using pbt::show;

static const int32_t UNDEF = 2147483647;

struct Tag {
    std::string k, v;
    bool operator==(const Tag& o) const { return k == o.k && v == o.v; }
};
struct Member {
    char type; int64_t ref; std::string role;
    bool operator==(const Member& o) const { return type == o.type && ref == o.ref && role == o.role; }
};
struct Obj {
    int kind = 0;                   // 0 node, 1 way, 2 relation
    int64_t id = 0;
    uint32_t version = 0;
    int32_t changeset = 0;
    int64_t timestamp = 0, endtime = 0;
    int32_t uid = -1;
    std::string user;
    bool visible = true;
    std::vector<Tag> tags;
    int32_t x = UNDEF, y = UNDEF;   // nodes
    std::vector<int64_t> refs;      // ways
    std::vector<Member> members;    // relations
    bool defined() const { return x != UNDEF && y != UNDEF; }
    bool operator==(const Obj& o) const {
        return kind == o.kind && id == o.id && version == o.version && changeset == o.changeset && timestamp == o.timestamp && endtime == o.endtime &&
            uid == o.uid && user == o.user && visible == o.visible && tags == o.tags && x == o.x && y == o.y && refs == o.refs && members == o.members;
    }
    bool operator!=(const Obj& o) const { return !(*this == o); }
};

inline std::string str(const Obj& o) {
    std::ostringstream s;
    s << "nwr"[o.kind] << o.id << " v" << o.version << " c" << o.changeset << " t" << o.timestamp << " u" << o.uid << show(o.user, 20) << (o.visible ? "" : " deleted");
    if (o.endtime) s << " e" << o.endtime;
    if (o.kind == 0) { if (o.x == UNDEF && o.y == UNDEF) s << " @-"; else s << " @" << o.x << "," << o.y; }
    size_t n = 0;
    for (auto& t : o.tags) { if (++n > 6) { s << " ..." << o.tags.size() << " tags"; break; } s << " " << show(t.k, 24) << "=" << show(t.v, 24); }
    if (o.kind == 1) { s << " ["; n = 0; for (auto r : o.refs) { if (++n > 8) { s << "..." << o.refs.size(); break; } s << r << " "; } s << "]"; }
    if (o.kind == 2) { s << " ("; n = 0; for (auto& m : o.members) { if (++n > 6) { s << "..." << o.members.size(); break; } s << m.type << m.ref << show(m.role, 20) << " "; } s << ")"; }
    return s.str();
}
inline std::ostream& operator<<(std::ostream& o, const Obj& x) { return o << str(x); }

// first differing attribute, for messages
inline std::string diff(const Obj& got, const Obj& want) {
    std::ostringstream s;
#define D(f) if (got.f != want.f) { s << #f " is " << got.f << " instead of " << want.f; return s.str(); }
    D(kind) D(id) D(version) D(changeset) D(timestamp) D(endtime) D(uid)
    if (got.user != want.user) { s << "user is " << show(got.user) << " instead of " << show(want.user); return s.str(); }
    D(visible) D(x) D(y)
    if (got.tags.size() != want.tags.size()) { s << got.tags.size() << " tags instead of " << want.tags.size(); return s.str(); }
    for (size_t i = 0; i < got.tags.size(); ++i) if (!(got.tags[i] == want.tags[i])) {
        s << "tag " << i << " is " << show(got.tags[i].k) << "=" << show(got.tags[i].v) << " instead of " << show(want.tags[i].k) << "=" << show(want.tags[i].v); return s.str(); }
    if (got.refs.size() != want.refs.size()) { s << got.refs.size() << " node refs instead of " << want.refs.size(); return s.str(); }
    for (size_t i = 0; i < got.refs.size(); ++i) if (got.refs[i] != want.refs[i]) { s << "node ref " << i << " is " << got.refs[i] << " instead of " << want.refs[i]; return s.str(); }
    if (got.members.size() != want.members.size()) { s << got.members.size() << " members instead of " << want.members.size(); return s.str(); }
    for (size_t i = 0; i < got.members.size(); ++i) if (!(got.members[i] == want.members[i])) {
        s << "member " << i << " is " << got.members[i].type << got.members[i].ref << show(got.members[i].role) << " instead of " << want.members[i].type << want.members[i].ref << show(want.members[i].role); return s.str(); }
#undef D
    return "";
}

struct Box { bool def = false; int32_t x1 = UNDEF, y1 = UNDEF, x2 = UNDEF, y2 = UNDEF;
    bool operator==(const Box& o) const { return def == o.def && (!def || (x1 == o.x1 && y1 == o.y1 && x2 == o.x2 && y2 == o.y2)); } };
inline std::ostream& operator<<(std::ostream& o, const Box& b) { if (!b.def) return o << "none"; return o << b.x1 << "," << b.y1 << "," << b.x2 << "," << b.y2; }

struct Data {
    std::vector<Obj> objs;
    Box box;
    std::string generator;
};

// ---------------------------------------------------------------- to the library

inline void set_common(Osmium::OSM::Object& o, const Obj& m) {
    o.id(m.id); o.version(m.version); o.changeset(m.changeset); o.timestamp((time_t)m.timestamp); o.endtime((time_t)m.endtime);
    o.uid(m.uid); o.user(m.user.c_str()); o.visible(m.visible);
    for (auto& t : m.tags) o.tags().add(t.k.c_str(), t.v.c_str());
}
inline shared_ptr<Osmium::OSM::Node> to_node(const Obj& m) {
    auto n = make_shared<Osmium::OSM::Node>(); set_common(*n, m);
    n->position(Osmium::OSM::Position(m.x, m.y)); return n;
}
inline shared_ptr<Osmium::OSM::Way> to_way(const Obj& m) {
    auto w = make_shared<Osmium::OSM::Way>(); set_common(*w, m);
    for (auto r : m.refs) w->add_node(r);
    return w;
}
inline shared_ptr<Osmium::OSM::Relation> to_relation(const Obj& m) {
    auto r = make_shared<Osmium::OSM::Relation>(); set_common(*r, m);
    for (auto& x : m.members) r->add_member(x.type, x.ref, x.role.c_str());
    return r;
}
inline Osmium::OSM::Bounds to_bounds(const Box& b) {
    Osmium::OSM::Bounds r;
    if (b.def) { r.extend(Osmium::OSM::Position(b.x1, b.y1)); r.extend(Osmium::OSM::Position(b.x2, b.y2)); }
    return r;
}

// ---------------------------------------------------------------- from the library

inline void get_common(Obj& m, const Osmium::OSM::Object& o) {
    m.id = o.id(); m.version = o.version(); m.changeset = o.changeset(); m.timestamp = o.timestamp(); m.endtime = o.endtime();
    m.uid = o.uid(); m.user = o.user(); m.visible = o.visible();
    for (auto it = o.tags().begin(); it != o.tags().end(); ++it) m.tags.push_back(Tag{it->key(), it->value()});
}
inline Obj from(const Osmium::OSM::Node& n) { Obj m; m.kind = 0; get_common(m, n); m.x = n.position().x(); m.y = n.position().y(); return m; }
inline Obj from(const Osmium::OSM::Way& w) { Obj m; m.kind = 1; get_common(m, w); for (auto it = w.nodes().begin(); it != w.nodes().end(); ++it) m.refs.push_back(it->ref()); return m; }
inline Obj from(const Osmium::OSM::Relation& r) { Obj m; m.kind = 2; get_common(m, r); for (auto it = r.members().begin(); it != r.members().end(); ++it) m.members.push_back(Member{it->type(), it->ref(), it->role()}); return m; }
inline Box from(const Osmium::OSM::Bounds& b) { Box r; r.def = b.defined(); if (r.def) { r.x1 = b.bottom_left().x(); r.y1 = b.bottom_left().y(); r.x2 = b.top_right().x(); r.y2 = b.top_right().y(); } return r; }

// ---------------------------------------------------------------- capturing handler

// Events: 'i' init, 'N'/'W'/'R' before, 'n'/'w'/'r' object, 'e'/'v'/'s' after nodes/ways/relations, 'f' final
struct Capture : public Osmium::Handler::Base {
    std::string events;
    std::vector<Obj> objs;
    Box box; std::string generator; bool multi = false;
    size_t limit = (size_t)-1;      // throw StopReading when this many events happened
    std::string* log = nullptr; char tag = 0;

    void ev(char c) {
        events += c;
        if (log) { *log += tag; *log += c; }
        if (events.size() == limit) throw Osmium::Handler::StopReading();
    }
    void init(Osmium::OSM::Meta& m) { box = from(m.bounds()); generator = m.generator(); multi = m.has_multiple_object_versions(); ev('i'); }
    void before_nodes() { ev('N'); }
    void node(const shared_ptr<Osmium::OSM::Node const>& o) { objs.push_back(from(*o)); ev('n'); }
    void after_nodes() { ev('e'); }
    void before_ways() { ev('W'); }
    void way(const shared_ptr<Osmium::OSM::Way const>& o) { objs.push_back(from(*o)); ev('w'); }
    void after_ways() { ev('v'); }
    void before_relations() { ev('R'); }
    void relation(const shared_ptr<Osmium::OSM::Relation const>& o) { objs.push_back(from(*o)); ev('r'); }
    void after_relations() { ev('s'); }
    void final() { events += 'f'; if (log) { *log += tag; *log += 'f'; } }
};

// the event string the documentation asks for
inline std::string expected_events(const std::vector<Obj>& objs) {
    std::string e = "i"; int last = -1;
    for (auto& o : objs) {
        if (o.kind != last) { if (last >= 0) e += "evs"[last]; e += "NWR"[o.kind]; last = o.kind; }
        e += "nwr"[o.kind];
    }
    if (last >= 0) e += "evs"[last];
    return e + "f";
}

// drive any handler with the data, as a reader does
template <class H> void feed(H& h, const Data& d, bool multi = false) {
    Osmium::OSM::Meta meta(to_bounds(d.box)); meta.has_multiple_object_versions(multi); meta.generator(d.generator);
    h.init(meta);
    int last = -1;
    auto after = [&](int k) { if (k == 0) h.after_nodes(); else if (k == 1) h.after_ways(); else if (k == 2) h.after_relations(); };
    for (auto& o : d.objs) {
        if (o.kind != last) { after(last); last = o.kind; if (last == 0) h.before_nodes(); else if (last == 1) h.before_ways(); else h.before_relations(); }
        if (o.kind == 0) h.node(to_node(o)); else if (o.kind == 1) h.way(to_way(o)); else h.relation(to_relation(o));
    }
    after(last);
    h.final();
}

// ---------------------------------------------------------------- generators

struct GenOpts {
    bool xml_text = false;          // only characters XML can represent
    bool history = false;           // several versions, visible flags
    bool sorted = true;             // kinds in order node, way, relation
    bool ordered_ids = false;       // strictly increasing ids inside a kind
    bool pos_ids = false;           // only ids >= 1
    bool undef_pos = true;          // nodes without position
    bool valid_lonlat = false;      // keep inside [-180,180]x[-90,90]
    unsigned more = 80;             // continuation probability for objects
    unsigned sub_more = 55;         // ... for tags, refs, members
    int64_t max_ts = 253402300799LL;
    bool big_text = true;
};

inline void put_utf8(std::string& s, uint32_t c) {
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}

inline uint32_t gen_cp(Ctx& c, bool xml) {
    switch (c.weighted({50, 14, 8, 6, 6, 6, 4})) {
        case 0: return 'a' + c.upto(25);
        case 1: { static const char sp[] = "&<>\"'\\=, \t\n\r;#]/|+0"; return sp[c.upto(sizeof(sp) - 2)]; }
        case 2: return 0x20 + c.upto(0x5e);
        case 3: return 0x80 + c.upto(0x77f);
        case 4: { uint32_t p = 0x800 + c.upto(0xf7ff); if (p >= 0xd800 && p < 0xe000) p -= 0x1000; if (p >= 0xfffe && xml) p = 0xfffd; return p; }
        case 5: { uint32_t p = 0x10000 + c.upto(0xfffff); if ((p & 0xfffe) == 0xfffe) p -= 2; return p; }
        default: return xml ? '_' : 1 + c.upto(30);
    }
}
inline std::string gen_text(Ctx& c, const GenOpts& o, size_t max_chars = 255) {
    static const std::vector<std::string> common = {"", "a", "highway", "primary", "name", "yes", "no", "ref", "type", "multipolygon", "outer", "inner", "source", "created_by", "note", "a&b", "M\xc3\xbcnchen", "\xe4\xba\xac\xe9\x83\xbd", "<&>\"'", " x ", "\n"};
    std::string s;
    switch (c.weighted({55, 36, 6, 3})) {
        case 0: { s = c.pick(common); break; }
        case 1: while (c.more(82) && s.size() < 4 * max_chars) put_utf8(s, gen_cp(c, o.xml_text)); break;
        case 2: { // boundary length
            if (!o.big_text) break;
            size_t n = max_chars - c.upto(2); uint32_t p = c.chance(40) ? gen_cp(c, o.xml_text) : 'z';
            for (size_t i = 0; i < n; ++i) put_utf8(s, p);
            break; }
        default: { std::string u; u = "k" + std::to_string(c.upto(5000)); s = u; break; }
    }
    return s;
}
inline int64_t gen_id(Ctx& c, const GenOpts& o) {
    int64_t v;
    switch (c.weighted({50, 20, 10, 8, 6, 6})) {
        case 0: v = 1 + c.upto(30); break;
        case 1: v = 1 + c.upto(100000); break;
        case 2: v = 1 + c.upto(8000000000ULL); break;
        case 3: { static const std::vector<int64_t> b = {1, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9007199254740993LL, 127, 128, 16383, 16384, 1099511627776LL}; v = c.pick(b); break; }
        case 4: v = c.upto(4611686018427387904ULL); break;
        default: { static const std::vector<int64_t> b = {0, 9223372036854775807LL, 9223372036854775806LL}; v = c.pick(b); break; }
    }
    if (o.pos_ids) { if (v < 1) v = 1; return v; }
    if (c.chance(15)) v = -v;
    return v;
}
inline int32_t gen_coord(Ctx& c, const GenOpts& o, bool lat) {
    int32_t lim = lat ? 900000000 : 1800000000;
    switch (c.weighted({40, 30, 15, 15})) {
        case 0: return (int32_t)c.range(-50, 200);
        case 1: return (int32_t)c.range(-lim, lim);
        case 2: { static const std::vector<int32_t> b = {0, 1, -1, 900000000, -900000000, 10000000, -10000000, 99999999, 5, -5, 123456789}; return c.pick(b); }
        default: if (o.valid_lonlat) return c.chance(50) ? lim : -lim; return c.chance(50) ? -2147483647 - 1 + (int32_t)c.upto(10) : (int32_t)c.range(-2147483647LL - 1, 2147483646);
    }
}
inline int64_t gen_ts(Ctx& c, const GenOpts& o) {
    switch (c.weighted({20, 60, 10, 10})) {
        case 0: return 0;
        case 1: return 1100000000 + (int64_t)c.upto(300000000);
        case 2: return (int64_t)c.upto((uint64_t)o.max_ts);
        default: { std::vector<int64_t> b = {1, 59, 86399, 86400, 951782400, 4294967295LL, 2147483647, 2147483648LL}; b.push_back(o.max_ts); int64_t v = c.pick(b); return v > o.max_ts ? o.max_ts : v; }
    }
}
inline int32_t gen_i32(Ctx& c, bool neg) {
    switch (c.weighted({60, 25, 10, 5})) {
        case 0: return (int32_t)c.upto(50);
        case 1: return (int32_t)c.upto(20000000);
        case 2: { static const std::vector<int32_t> b = {2147483647, 2147483646, 65535, 65536, 127, 128, 1}; return c.pick(b); }
        default: return neg ? (c.chance(50) ? -1 : (int32_t)c.range(-2147483647LL - 1, -1)) : 0;
    }
}
inline void gen_tags(Ctx& c, Obj& o, const GenOpts& g) {
    while (c.more(g.sub_more)) { Tag t; t.k = gen_text(c, g); t.v = gen_text(c, g); o.tags.push_back(t); }
}
inline char gen_mtype(Ctx& c) { return "nwr"[c.upto(2)]; }
inline Obj gen_obj(Ctx& c, int kind, const GenOpts& g) {
    Obj o; o.kind = kind;
    o.id = gen_id(c, g);
    o.version = c.weighted({70, 20, 10}) == 0 ? 1 + c.upto(3) : (c.chance(50) ? c.upto(100) : (c.chance(50) ? 0 : (c.chance(50) ? 65536 + c.upto(10) : 2147483647u)));
    o.timestamp = gen_ts(c, g);
    o.changeset = gen_i32(c, true);
    o.uid = gen_i32(c, true);
    if (o.uid != -1) o.user = gen_text(c, g);
    if (g.history) o.visible = !c.chance(25);
    gen_tags(c, o, g);
    if (kind == 0) {
        if (!(g.undef_pos && c.chance(8))) { o.x = gen_coord(c, g, false); o.y = gen_coord(c, g, true); }
    } else if (kind == 1) {
        while (c.more(std::min(92u, g.sub_more + 20))) o.refs.push_back(gen_id(c, g));
        if (!o.refs.empty() && c.chance(15)) o.refs.push_back(o.refs[0]);
    } else {
        while (c.more(std::min(92u, g.sub_more + 15))) { Member m; m.type = gen_mtype(c); m.ref = gen_id(c, g); m.role = gen_text(c, g); o.members.push_back(m); }
    }
    return o;
}
inline bool id_less(const Obj& a, const Obj& b) {
    if (a.kind != b.kind) return a.kind < b.kind;
    uint64_t x = a.id < 0 ? 0 - (uint64_t)a.id : a.id, y = b.id < 0 ? 0 - (uint64_t)b.id : b.id;
    if (x != y) return x < y;
    if (a.id != b.id) return a.id < b.id;
    return a.version < b.version;
}
inline std::vector<Obj> gen_objs(Ctx& c, const GenOpts& g) {
    std::vector<Obj> v;
    if (g.sorted) {
        for (int k = 0; k < 3; ++k) while (c.more(g.more)) v.push_back(gen_obj(c, k, g));
    } else {
        int k = 0;
        while (c.more(g.more + (95 - g.more) / 2)) { if (c.chance(40)) k = c.upto(2); v.push_back(gen_obj(c, k, g)); }
    }
    if (g.ordered_ids) {
        std::stable_sort(v.begin(), v.end(), id_less);
        v.erase(std::unique(v.begin(), v.end(), [](const Obj& a, const Obj& b) { return a.kind == b.kind && a.id == b.id && a.version == b.version; }), v.end());
    }
    return v;
}
inline Box gen_box(Ctx& c, const GenOpts& g) {
    Box b;
    if (c.chance(50)) {
        b.def = true; GenOpts v = g; 
        int32_t x1 = gen_coord(c, v, false), x2 = gen_coord(c, v, false), y1 = gen_coord(c, v, true), y2 = gen_coord(c, v, true);
        b.x1 = std::min(x1, x2); b.x2 = std::max(x1, x2); b.y1 = std::min(y1, y2); b.y2 = std::max(y1, y2);
    }
    return b;
}
inline Data gen_data(Ctx& c, const GenOpts& g) { Data d; d.box = gen_box(c, g); d.objs = gen_objs(c, g); return d; }

inline void describe(Ctx& c, const Data& d, size_t max = 25) {
    c.desc << "bounds " << d.box << "; " << d.objs.size() << " objects";
    size_t n = 0;
    for (auto& o : d.objs) { if (++n > max) { c.desc << "\n..."; break; } c.desc << "\n" << o; }
    c.desc << "\n";
}
inline void classify(Ctx& c, const std::vector<Obj>& v) {
    bool tags = false, meta = false, neg = false, nonascii = false, undef = false; int kinds[3] = {0, 0, 0};
    for (auto& o : v) { kinds[o.kind]++; if (!o.tags.empty()) tags = true; if (!o.user.empty()) meta = true; if (o.id < 0) neg = true; if (o.kind == 0 && !o.defined()) undef = true;
        for (auto& t : o.tags) for (unsigned char ch : t.k + t.v) if (ch >= 0x80) nonascii = true; }
    c.label_if(v.empty(), "empty"); c.label_if(kinds[0], "nodes"); c.label_if(kinds[1], "ways"); c.label_if(kinds[2], "relations");
    c.label_if(tags, "tags"); c.label_if(meta, "user names"); c.label_if(neg, "negative ids"); c.label_if(nonascii, "non-ASCII text"); c.label_if(undef, "undefined positions");
    c.label_if(v.size() > 10, "more than 10 objects");
}

// cheap large data: everything derived from a few choices
struct Bulk { uint64_t state; uint64_t next() { state += 0x9e3779b97f4a7c15ULL; return pbt::mix(state); } uint64_t upto(uint64_t n) { return next() % (n + 1); } };
inline Obj bulk_obj(Bulk& b, int kind, int64_t id, uint64_t nstrings, unsigned max_sub) {
    Obj o; o.kind = kind; o.id = id; o.version = 1 + b.upto(5); o.timestamp = 1200000000 + b.upto(100000000); o.changeset = b.upto(10000000);
    o.uid = 1 + b.upto(1000); o.user = "user" + std::to_string(o.uid);
    for (uint64_t n = b.upto(max_sub); n > 0; --n) o.tags.push_back(Tag{"k" + std::to_string(b.upto(nstrings)), "v" + std::to_string(b.upto(nstrings))});
    if (kind == 0) { o.x = (int32_t)b.upto(3600000000ULL) - 1800000000; o.y = (int32_t)b.upto(1800000000ULL) - 900000000; }
    if (kind == 1) for (uint64_t n = b.upto(max_sub * 2); n > 0; --n) o.refs.push_back(1 + b.upto(1000000));
    if (kind == 2) for (uint64_t n = b.upto(max_sub * 2); n > 0; --n) o.members.push_back(Member{"nwr"[b.upto(2)], (int64_t)(1 + b.upto(1000000)), "r" + std::to_string(b.upto(nstrings))});
    return o;
}

// objects of very different size: what fits into a block depends on the next object
inline Obj sized_obj(Bulk& b, int kind, int64_t id, size_t bytes, size_t len) {
    Obj o = bulk_obj(b, kind, id, 10, 0); size_t done = 0;
    while (done < bytes) {
        std::string s = std::to_string(b.next()); s.resize(len, 'y');
        if (kind == 1 && len < 20) { o.refs.push_back((int64_t)(b.next() >> 2)); done += 10; }
        else if (kind == 2 && len < 900) { o.members.push_back(Member{"nwr"[b.upto(2)], (int64_t)(b.next() >> 2), s}); done += 16 + len; }
        else { o.tags.push_back(Tag{s, "v"}); done += 8 + len; }
    }
    return o;
}
inline Data uneven_data(Ctx& c, Bulk& b) {
    Data d; size_t n = 8 + c.upto(16), total = 0; bool mixed = c.chance(50); int kind = c.upto(2); c.desc << "sizes in kB:";
    for (size_t i = 0; i < n && total < 75000000; ++i) {
        size_t bytes = c.pick(std::vector<size_t>{1000, 300000, 1500000, 3000000, 3100000, 5000000, 9000000, 20000000}); int k = mixed ? c.upto(2) : kind; size_t len = c.pick(std::vector<size_t>{10, 200, 900}); total += bytes;
        c.desc << " " << "nwr"[k] << bytes / 1000 << "/" << len; d.objs.push_back(sized_obj(b, k, i + 1, bytes, len));
    }
    return d;
}

// compare two lists of objects
inline void same_objs(Ctx& c, const std::vector<Obj>& got, const std::vector<Obj>& want, const std::string& what, const std::string& key = "") {
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) if (got[i] != want[i])
        c.fail(what + ": object " + std::to_string(i) + " differs: " + diff(got[i], want[i]) + "\n  got  " + str(got[i]) + "\n  want " + str(want[i]), key);
    if (got.size() != want.size()) c.fail(what + ": " + std::to_string(got.size()) + " objects instead of " + std::to_string(want.size()) +
        (got.size() < want.size() ? ", first missing " + str(want[got.size()]) : ", first surplus " + str(got[want.size()])), key);
}

inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }

} // namespace model
#endif
