// Independent implementation of the PBF format: encoder with free choice of everything the
// format leaves open, and a strict decoder. Uses neither the library nor protobuf.
#ifndef VERIF_PBFCODEC_HPP
#define VERIF_PBFCODEC_HPP
#include "model.hpp"
#include <zlib.h>

namespace pbf {

using namespace model;
typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ wire format

inline void varint(std::string& s, u64 v) { while (v >= 0x80) { s += (char)(v | 0x80); v >>= 7; } s += (char)v; }
inline u64 zz(i64 v) { return ((u64)v << 1) ^ (u64)(v >> 63); }
inline i64 unzz(u64 v) { return (i64)(v >> 1) ^ -(i64)(v & 1); }

// a message under construction: list of encoded fields, so that their order can be varied
struct Msg {
    std::vector<std::string> f;
    void u(int n, u64 v) { std::string s; varint(s, n << 3); varint(s, v); f.push_back(s); }
    void i(int n, i64 v) { u(n, (u64)v); }
    void z(int n, i64 v) { u(n, zz(v)); }
    void b(int n, const std::string& v) { std::string s; varint(s, n << 3 | 2); varint(s, v.size()); s += v; f.push_back(s); }
    void fixed32(int n, uint32_t v) { std::string s; varint(s, n << 3 | 5); s.append((char*)&v, 4); f.push_back(s); }
    std::string str() const { std::string s; for (auto& x : f) s += x; return s; }
};

struct Bad { std::string what; };
inline void need(bool ok, const std::string& what) { if (!ok) throw Bad{what}; }

struct Rd {
    const unsigned char* p; const unsigned char* e;
    Rd(const std::string& s) : p((const unsigned char*)s.data()), e(p + s.size()) {}
    bool end() const { return p == e; }
    u64 varint() { u64 v = 0; for (int sh = 0;; sh += 7) { need(p < e && sh < 64, "truncated varint"); unsigned char c = *p++; v |= (u64)(c & 0x7f) << sh; if (!(c & 0x80)) return v; } }
    std::string bytes() { u64 n = varint(); need(n <= (u64)(e - p), "truncated bytes"); std::string s((const char*)p, n); p += n; return s; }
};
struct Field { int n; int wt; u64 v; std::string s; };
inline std::vector<Field> fields(const std::string& m) {
    Rd r(m); std::vector<Field> out;
    while (!r.end()) {
        u64 t = r.varint(); Field f{(int)(t >> 3), (int)(t & 7), 0, ""};
        if (f.wt == 0) f.v = r.varint(); else if (f.wt == 2) f.s = r.bytes(); else throw Bad{"wire type " + std::to_string(f.wt)};
        out.push_back(f);
    }
    return out;
}
// values of a repeated numeric field, packed or not
inline void packed(const Field& f, std::vector<u64>& out) { if (f.wt == 0) out.push_back(f.v); else { Rd r(f.s); while (!r.end()) out.push_back(r.varint()); } }

inline std::string zdeflate(const std::string& s, int level = 6) {
    uLongf n = compressBound(s.size()); std::string o(n, '\0'); compress2((Bytef*)o.data(), &n, (const Bytef*)s.data(), s.size(), level); o.resize(n); return o;
}
inline std::string zinflate(const std::string& s, size_t raw) {
    std::string o(raw + 1, '\0'); uLongf n = o.size(); need(uncompress((Bytef*)o.data(), &n, (const Bytef*)s.data(), s.size()) == Z_OK, "zlib data does not inflate to raw_size"); o.resize(n); return o;
}
inline std::string be32(uint32_t v) { std::string s; for (int i = 3; i >= 0; --i) s += (char)(v >> 8 * i); return s; }

inline std::string blob(const std::string& type, const std::string& data, bool compress, bool index = false, bool extra = false) {
    Msg b; if (compress) { b.i(2, data.size()); b.b(3, zdeflate(data)); } else { b.b(1, data); if (extra) b.i(2, data.size()); }
    std::string bs = b.str(); Msg h; h.b(1, type); if (index) h.b(2, "index\0data"); h.i(3, bs.size());
    std::string hs = h.str(); return be32(hs.size()) + hs + bs;
}

struct Header { std::vector<std::string> req{"OsmSchema-V0.6", "DenseNodes"}, opt; bool bbox = false; i64 left = 0, right = 0, top = 0, bottom = 0; bool has_prog = false; std::string prog, source; };
inline std::string header_data(const Header& h) {
    Msg m; if (h.bbox) { Msg b; b.z(1, h.left); b.z(2, h.right); b.z(3, h.top); b.z(4, h.bottom); m.b(1, b.str()); }
    for (auto& r : h.req) m.b(4, r); for (auto& r : h.opt) m.b(5, r);
    if (h.has_prog) m.b(16, h.prog); if (!h.source.empty()) m.b(17, h.source);
    return m.str();
}

// ------------------------------------------------------------------ encoding blocks

// one object with the raw numbers to put into the file
struct RObj { Obj o; i64 lon = 0, lat = 0, ts = 0; bool has_version = true, has_ts = true, has_cs = true, has_uid = true, has_user = true, has_visible = true, has_info = true; };
struct RGroup { int kind = 0; bool dense = false; std::vector<RObj> objs; bool d_info = true, d_version = true, d_ts = true, d_cs = true, d_uid = true, d_user = true, d_visible = true, d_tags = true; };
struct RBlock { int gran = 100, dategran = 1000; i64 lat_off = 0, lon_off = 0; bool explicit_defaults = false; std::vector<RGroup> groups; };

// choices of representation are drawn from here
struct Style {
    Bulk* r = nullptr;              // null: plainest representation
    bool shuffle_strings = false, extra_strings = false, shuffle_fields = false, unpacked = false, split_packed = false, unknown_fields = false;
    bool yes(unsigned percent) { return r && r->upto(99) < percent; }
};

struct Encoder {
    Style st; std::vector<std::string> table{""}; std::map<std::string, int> idx;
    Encoder(const Style& s) : st(s) {}
    u64 sid(const std::string& s) {
        auto it = idx.find(s); if (it != idx.end()) return it->second;
        table.push_back(s); int i = table.size() - 1; idx[s] = i; return i;
    }
    template <class F> void rep(Msg& m, int n, const std::vector<F>& v) { // packed repeated varint
        if (v.empty()) return;
        size_t i = 0;
        while (i < v.size()) {
            size_t k = v.size() - i; if (st.split_packed && k > 1 && st.yes(40)) k = 1 + st.r->upto(k - 1);
            if (st.unpacked && st.yes(40)) for (size_t j = i; j < i + k; ++j) m.u(n, (u64)v[j]);
            else { std::string s; for (size_t j = i; j < i + k; ++j) varint(s, (u64)v[j]); m.b(n, s); }
            i += k;
        }
    }
    static std::vector<u64> deltas(const std::vector<i64>& v) { std::vector<u64> o; u64 last = 0; for (i64 x : v) { o.push_back(zz((i64)((u64)x - last))); last = x; } return o; }
    std::string fin(Msg& m, std::initializer_list<int> singles) {
        // unknown fields may appear anywhere; fields of different number may come in any order
        if (st.unknown_fields && st.yes(50)) { if (st.yes(50)) m.u(1000 + st.r->upto(50), st.r->next()); else m.b(1000 + st.r->upto(50), "unknown"); }
        if (st.shuffle_fields && st.yes(60)) {
            // stable within one field number (order of repeated elements matters)
            std::map<int, std::vector<std::string>> by; std::vector<int> order;
            for (auto& f : m.f) { Rd r(f); int n = r.varint() >> 3; by[n].push_back(f); order.push_back(n); }
            for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[st.r->upto(i - 1)]);
            std::map<int, size_t> pos; std::string s; for (int n : order) s += by[n][pos[n]++];
            return s;
        }
        return m.str();
    }
    std::string info(const RObj& r) {
        Msg m; const Obj& o = r.o;
        if (r.has_version) m.i(1, (i64)(int32_t)o.version); if (r.has_ts) m.i(2, r.ts); if (r.has_cs) m.i(3, o.changeset); if (r.has_uid) m.i(4, (i64)o.uid); if (r.has_user) m.i(5, sid(o.user)); if (r.has_visible) m.u(6, o.visible);
        return fin(m, {});
    }
    void common(Msg& m, const RObj& r, bool node) {
        if (node) m.z(1, r.o.id); else m.i(1, r.o.id);
        std::vector<u64> k, v; for (auto& t : r.o.tags) { k.push_back(sid(t.k)); v.push_back(sid(t.v)); }
        rep(m, 2, k); rep(m, 3, v);
        if (r.has_info) m.b(4, info(r));
    }
    std::string block(const RBlock& b) {
        // the string table has to be fixed before indexes are used
        std::vector<std::string> all; std::set<std::string> seen;
        auto add = [&](const std::string& s) { if (seen.insert(s).second) all.push_back(s); };
        for (auto& g : b.groups) for (auto& r : g.objs) { for (auto& t : r.o.tags) { add(t.k); add(t.v); } add(r.o.user); for (auto& x : r.o.members) add(x.role); }
        if (st.extra_strings) for (int i = st.r->upto(5); i > 0; --i) add("extra" + std::to_string(st.r->upto(100)));
        if (st.shuffle_strings) for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[st.r->upto(i - 1)]);
        table.assign(1, ""); idx.clear();
        for (auto& s : all) sid(s);
        Msg m;
        std::vector<std::string> groups;
        for (auto& g : b.groups) {
            Msg gm;
            if (g.kind == 0 && g.dense) {
                Msg d; std::vector<i64> id, lat, lon, ts, cs, uid, user; std::vector<u64> ver, vis, kv; bool any = false;
                for (auto& r : g.objs) {
                    id.push_back(r.o.id); lat.push_back(r.lat); lon.push_back(r.lon); ts.push_back(r.ts); cs.push_back(r.o.changeset); uid.push_back(r.o.uid); user.push_back(sid(r.o.user));
                    ver.push_back((u64)(i64)(int32_t)r.o.version); vis.push_back(r.o.visible);
                    for (auto& t : r.o.tags) { kv.push_back(sid(t.k)); kv.push_back(sid(t.v)); any = true; }
                    kv.push_back(0);
                }
                rep(d, 1, deltas(id)); rep(d, 8, deltas(lat)); rep(d, 9, deltas(lon));
                if (any || g.d_tags) rep(d, 10, kv);
                if (g.d_info) {
                    Msg i; if (g.d_version) rep(i, 1, ver); if (g.d_ts) rep(i, 2, deltas(ts)); if (g.d_cs) rep(i, 3, deltas(cs)); if (g.d_uid) rep(i, 4, deltas(uid)); if (g.d_user) rep(i, 5, deltas(user)); if (g.d_visible) rep(i, 6, vis);
                    d.b(5, fin(i, {}));
                }
                gm.b(2, fin(d, {}));
            } else for (auto& r : g.objs) {
                Msg x; common(x, r, g.kind == 0);
                if (g.kind == 0) { x.z(8, r.lat); x.z(9, r.lon); gm.b(1, fin(x, {})); }
                else if (g.kind == 1) { rep(x, 8, deltas(r.o.refs)); gm.b(3, fin(x, {})); }
                else {
                    std::vector<u64> roles, types; std::vector<i64> ids;
                    for (auto& k : r.o.members) { roles.push_back(sid(k.role)); ids.push_back(k.ref); types.push_back(k.type == 'n' ? 0 : k.type == 'w' ? 1 : 2); }
                    rep(x, 8, roles); rep(x, 9, deltas(ids)); rep(x, 10, types); gm.b(4, fin(x, {}));
                }
            }
            groups.push_back(fin(gm, {}));
        }
        Msg t; for (auto& s : table) t.b(1, s);
        m.b(1, t.str());
        for (auto& g : groups) m.b(2, g);
        if (b.explicit_defaults || b.gran != 100) m.i(17, b.gran);
        if (b.explicit_defaults || b.dategran != 1000) m.i(18, b.dategran);
        if (b.explicit_defaults || b.lat_off) m.i(19, b.lat_off);
        if (b.explicit_defaults || b.lon_off) m.i(20, b.lon_off);
        return fin(m, {});
    }
};

// plain encoding of a list of objects (default granularities)
inline RObj raw(const Obj& o) { RObj r; r.o = o; r.lon = o.x; r.lat = o.y; r.ts = o.timestamp; return r; }
inline std::vector<RBlock> blocks_of(const std::vector<Obj>& v, size_t per_group, size_t groups_per_block, bool dense) {
    std::vector<RBlock> bs;
    for (size_t i = 0; i < v.size();) {
        RBlock b;
        for (size_t g = 0; g < groups_per_block && i < v.size(); ++g) {
            RGroup gr; gr.kind = v[i].kind; gr.dense = dense && gr.kind == 0;
            while (i < v.size() && v[i].kind == gr.kind && gr.objs.size() < per_group) gr.objs.push_back(raw(v[i++]));
            b.groups.push_back(gr);
        }
        bs.push_back(b);
    }
    return bs;
}
inline std::string simple_file(const std::vector<Obj>& v, size_t per_group = 100, size_t groups_per_block = 1, bool dense = true, bool history = false, bool compress = false, bool visible = false) {
    Header h; if (history) h.req.push_back("HistoricalInformation");
    std::string s = blob("OSMHeader", header_data(h), compress);
    for (auto b : blocks_of(v, per_group, groups_per_block, dense)) {
        for (auto& g : b.groups) { g.d_visible = history || visible; for (auto& o : g.objs) o.has_visible = history || visible; }
        Encoder e{Style()}; s += blob("OSMData", e.block(b), compress);
    }
    return s;
}

// ------------------------------------------------------------------ strict decoder

struct DGroup { int kind = -1; bool dense = false; std::vector<Obj> objs; std::vector<int> has_visible; };
struct DBlock { std::vector<std::string> strings; std::vector<u64> uses; std::vector<DGroup> groups; int gran = 100, dategran = 1000; i64 lat_off = 0, lon_off = 0; size_t raw_size = 0, blob_size = 0, header_size = 0; bool zlib = false; };
struct DFile { Header header; bool bbox = false; std::vector<DBlock> blocks; };

struct Decoder {
    DBlock* b; int used = 0;
    const std::string& S(u64 i) { need(i < b->strings.size(), "string index " + std::to_string(i) + " out of range"); b->uses[i]++; return b->strings[i]; }
    i64 coord(i64 v, i64 off) { __int128 n = (__int128)v * b->gran + off; need(n % 100 == 0, "coordinate is not a multiple of 100 nanodegrees"); n /= 100; need(n >= -2147483648LL && n <= 2147483647LL, "coordinate out of range"); return (i64)n; }
    i64 time(i64 v) { __int128 n = (__int128)v * b->dategran; need(n % 1000 == 0, "timestamp is not a whole second"); return (i64)(n / 1000); }
    void single(std::set<int>& seen, const Field& f) { need(seen.insert(f.n).second, "field " + std::to_string(f.n) + " twice"); }

    // returns 1/0 for visible, -1 if not there
    int info(const std::string& m, Obj& o) {
        int vis = -1; std::set<int> seen;
        for (auto& f : fields(m)) {
            single(seen, f); need(f.wt == 0, "info field type");
            switch (f.n) {
                case 1: o.version = (uint32_t)f.v; break; case 2: o.timestamp = time((i64)f.v); break; case 3: o.changeset = (int32_t)f.v; break;
                case 4: o.uid = (int32_t)f.v; break; case 5: o.user = S(f.v); break; case 6: vis = f.v != 0; o.visible = vis; break;
                default: throw Bad{"unknown info field"};
            }
        }
        return vis;
    }
    static std::vector<i64> undelta(const std::vector<u64>& v) { std::vector<i64> o; u64 last = 0; for (u64 x : v) { last += (u64)unzz(x); o.push_back((i64)last); } return o; }

    void group(const std::string& m, DGroup& g) {
        for (auto& f : fields(m)) {
            need(f.wt == 2, "group field type");
            int kind = f.n == 1 || f.n == 2 ? 0 : f.n == 3 ? 1 : f.n == 4 ? 2 : -1;
            need(kind >= 0, "unknown field in group"); need(g.kind < 0 || (g.kind == kind && f.n != 2 && !g.dense), "more than one kind in a group");
            g.kind = kind;
            if (f.n == 2) { g.dense = true; dense(f.s, g); continue; }
            Obj o; o.kind = kind; std::vector<u64> k, v, a, b2, c2; int vis = -1; std::set<int> seen; bool id = false; i64 la = 0, lo = 0; bool hla = false, hlo = false;
            for (auto& x : fields(f.s)) {
                single(seen, x);
                if (x.n == 1) { o.id = kind == 0 ? unzz(x.v) : (i64)x.v; id = true; }
                else if (x.n == 2) packed(x, k); else if (x.n == 3) packed(x, v); else if (x.n == 4) vis = info(x.s, o);
                else if (kind == 0 && x.n == 8) { la = unzz(x.v); hla = true; } else if (kind == 0 && x.n == 9) { lo = unzz(x.v); hlo = true; }
                else if (kind > 0 && x.n == 8) packed(x, a); else if (kind == 2 && x.n == 9) packed(x, b2); else if (kind == 2 && x.n == 10) packed(x, c2);
                else throw Bad{"unknown field in object"};
            }
            need(id, "object without id"); need(k.size() == v.size(), "keys and values differ in number");
            for (size_t i = 0; i < k.size(); ++i) o.tags.push_back(Tag{S(k[i]), S(v[i])});
            if (kind == 0) { need(hla && hlo, "node without position"); o.x = coord(lo, b->lon_off); o.y = coord(la, b->lat_off); }
            if (kind == 1) o.refs = undelta(a);
            if (kind == 2) { need(a.size() == b2.size() && a.size() == c2.size(), "member arrays differ in size"); auto ids = undelta(b2); for (size_t i = 0; i < a.size(); ++i) { need(c2[i] < 3, "member type"); o.members.push_back(Member{"nwr"[c2[i]], ids[i], S(a[i])}); } }
            g.objs.push_back(o); g.has_visible.push_back(vis);
        }
        need(g.kind >= 0 && !g.objs.empty(), "empty group");
    }
    void dense(const std::string& m, DGroup& g) {
        std::vector<u64> id, lat, lon, kv, ver, ts, cs, uid, user, vis; std::set<int> seen;
        for (auto& f : fields(m)) {
            single(seen, f);
            if (f.n == 1) packed(f, id); else if (f.n == 8) packed(f, lat); else if (f.n == 9) packed(f, lon); else if (f.n == 10) packed(f, kv);
            else if (f.n == 5) { std::set<int> s2; for (auto& x : fields(f.s)) { single(s2, x); if (x.n == 1) packed(x, ver); else if (x.n == 2) packed(x, ts); else if (x.n == 3) packed(x, cs); else if (x.n == 4) packed(x, uid); else if (x.n == 5) packed(x, user); else if (x.n == 6) packed(x, vis); else throw Bad{"unknown field in denseinfo"}; } }
            else throw Bad{"unknown field in dense nodes"};
        }
        size_t n = id.size(); need(lat.size() == n && lon.size() == n, "dense arrays differ in size");
        for (auto* a : {&ver, &ts, &cs, &uid, &user, &vis}) need(a->empty() || a->size() == n, "dense info arrays differ in size");
        auto I = undelta(id), LA = undelta(lat), LO = undelta(lon), T = undelta(ts), C = undelta(cs), U = undelta(uid), US = undelta(user); size_t p = 0;
        for (size_t i = 0; i < n; ++i) {
            Obj o; o.id = I[i]; o.x = coord(LO[i], b->lon_off); o.y = coord(LA[i], b->lat_off);
            if (!ver.empty()) o.version = (uint32_t)ver[i]; if (!ts.empty()) o.timestamp = time(T[i]);
            if (!cs.empty()) { o.changeset = (int32_t)C[i]; need(C[i] == o.changeset, "changeset overflow"); } if (!uid.empty()) o.uid = (int32_t)U[i]; if (!user.empty()) o.user = S(US[i]); if (!vis.empty()) o.visible = vis[i] != 0;
            if (!kv.empty()) { while (true) { need(p < kv.size(), "keys_vals too short"); u64 k = kv[p++]; if (!k) break; need(p < kv.size() && kv[p], "key without value"); o.tags.push_back(Tag{S(k), S(kv[p++])}); } }
            g.objs.push_back(o); g.has_visible.push_back(vis.empty() ? -1 : (int)vis[i]);
        }
        need(p == kv.size(), "keys_vals too long");
    }
};

inline DFile decode(const std::string& s) {
    DFile out; size_t p = 0; bool first = true;
    while (p < s.size()) {
        need(s.size() - p >= 4, "truncated blob header size");
        uint32_t hl = (uint32_t)(unsigned char)s[p] << 24 | (unsigned char)s[p + 1] << 16 | (unsigned char)s[p + 2] << 8 | (unsigned char)s[p + 3]; p += 4;
        need(hl <= 64 * 1024, "blob header larger than 64 KiB"); need(s.size() - p >= hl, "truncated blob header");
        std::string type; i64 size = -1;
        for (auto& f : fields(s.substr(p, hl))) { if (f.n == 1) type = f.s; else if (f.n == 3) size = (i64)f.v; else need(f.n == 2, "unknown field in blob header"); }
        p += hl; need(size >= 0 && size <= 32 * 1024 * 1024, "blob size out of limits"); need(s.size() - p >= (size_t)size, "truncated blob");
        std::string raw, z; i64 rs = -1; bool hr = false, hz = false;
        for (auto& f : fields(s.substr(p, size))) { if (f.n == 1) { raw = f.s; hr = true; } else if (f.n == 2) rs = (i64)f.v; else if (f.n == 3) { z = f.s; hz = true; } else throw Bad{"unsupported blob field"}; }
        p += size; need(hr != hz, "blob must have exactly one kind of data");
        if (hz) { need(rs >= 0 && rs <= 32 * 1024 * 1024, "raw_size out of limits"); raw = zinflate(z, rs); need((i64)raw.size() == rs, "raw_size is wrong"); }
        else need(rs < 0 || rs == (i64)raw.size(), "raw_size of raw blob is wrong");
        need(raw.size() <= 32 * 1024 * 1024, "uncompressed blob larger than 32 MiB");
        need((type == "OSMHeader") == first, first ? "first blob is not the header" : "second header");
        if (first) {
            first = false; out.header.req.clear();
            for (auto& f : fields(raw)) {
                if (f.n == 1) { out.header.bbox = true; std::set<int> q; for (auto& x : fields(f.s)) { q.insert(x.n); i64 v = unzz(x.v); if (x.n == 1) out.header.left = v; else if (x.n == 2) out.header.right = v; else if (x.n == 3) out.header.top = v; else if (x.n == 4) out.header.bottom = v; } need(q.size() == 4, "bbox incomplete"); }
                else if (f.n == 4) out.header.req.push_back(f.s); else if (f.n == 5) out.header.opt.push_back(f.s); else if (f.n == 16) { out.header.has_prog = true; out.header.prog = f.s; } else if (f.n == 17) out.header.source = f.s; else throw Bad{"unknown header field"};
            }
            continue;
        }
        need(type == "OSMData", "unknown blob type " + type);
        DBlock b; b.raw_size = raw.size(); b.blob_size = size; b.header_size = hl; b.zlib = hz; std::vector<std::string> groups; bool st = false;
        for (auto& f : fields(raw)) {
            if (f.n == 1) { need(!st, "two string tables"); st = true; for (auto& x : fields(f.s)) { need(x.n == 1 && x.wt == 2, "string table"); b.strings.push_back(x.s); } }
            else if (f.n == 2) groups.push_back(f.s); else if (f.n == 17) b.gran = (int)f.v; else if (f.n == 18) b.dategran = (int)f.v; else if (f.n == 19) b.lat_off = (i64)f.v; else if (f.n == 20) b.lon_off = (i64)f.v; else throw Bad{"unknown block field"};
        }
        need(st, "no string table");
        out.blocks.push_back(b); DBlock& d = out.blocks.back(); d.uses.assign(d.strings.size(), 0);
        Decoder dec; dec.b = &d;
        for (auto& g : groups) { d.groups.push_back(DGroup()); dec.group(g, d.groups.back()); }
    }
    need(!first, "no header");
    return out;
}

} // namespace pbf
#endif
