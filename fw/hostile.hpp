// Damaging files: plain byte mutations and mutations that keep the outer structure intact.
#ifndef VERIF_HOSTILE_HPP
#define VERIF_HOSTILE_HPP
#include "pbfgen.hpp"
#include "xmlgen.hpp"

namespace hostile {
using namespace model;

// Changes some bytes; returns the offset of the first one changed.
inline size_t mutate_bytes(Ctx& c, std::string& s, const std::vector<std::string>& dict) {
    size_t first = s.size();
    do {
        size_t n = s.size(), p = n ? c.upto(n - 1) : 0;
        switch (c.weighted({20, 20, 15, 15, 10, 10, 10})) {
            case 0: if (n) s[p] ^= 1 << c.upto(7); break;
            case 1: if (n) s[p] = (char)c.pick(std::vector<int>{0, 255, 127, 128, 1, '<', '>', '"', '&', ' '}); break;
            case 2: { size_t k = 1 + c.upto(8); s.erase(p, k); break; }
            case 3: s.insert(p, c.pick(dict)); break;
            case 4: { size_t q = n ? c.upto(n - 1) : 0, k = 1 + c.upto(60); s.insert(p, s.substr(q, k)); break; }
            case 5: { for (int k = c.upto(5); k >= 0 && p + k < s.size(); --k) s[p + k] = (char)c.upto(255); break; }
            default: { size_t k = 1 + c.upto(400); s.erase(p, k); break; }
        }
        first = std::min(first, p);
    } while (c.more(35));
    return first;
}

inline uint64_t odd_number(Ctx& c) {
    static const std::vector<uint64_t> v = {0, 1, 2, 3, 100, 8000, 65536, 1ULL << 31, (1ULL << 31) - 1, 1ULL << 32, ~0ULL, ~0ULL - 1, 1ULL << 63, 1ULL << 62, 0xffffffffULL, 0xfffffffeULL, 255, 128};
    return c.chance(60) ? c.pick(v) : c.upto(~0ULL);
}
// level: what the message is: 0 block, 1 group, 2 object or dense, 3 info, 4 header block, 5 blob, 6 blob header
inline std::string mutate_msg(Ctx& c, const std::string& m, int level) {
    std::vector<pbf::Field> f;
    try { f = pbf::fields(m); } catch (const pbf::Bad&) { return m; }
    auto enc = [](const std::vector<pbf::Field>& v) { pbf::Msg o; for (auto& x : v) if (x.wt == 0) o.u(x.n, x.v); else o.b(x.n, x.s); return o.str(); };
    if (f.empty()) { pbf::Msg o; o.u(1 + c.upto(20), odd_number(c)); return o.str(); }
    size_t i = c.upto(f.size() - 1); pbf::Field& x = f[i];
    // go deeper most of the time
    bool sub = x.wt == 2 && ((level == 0 && x.n <= 2) || (level == 1) || (level == 2 && (x.n == 4 || x.n == 5)) || (level == 4 && x.n == 1));
    if (sub && c.chance(80)) { x.s = mutate_msg(c, x.s, level == 0 && x.n == 1 ? 7 : level + 1); return enc(f); }
    switch (c.weighted({35, 10, 10, 10, 10, 10})) {
        case 0: // change the value, or one value of an array
            if (x.wt == 0) x.v = c.chance(50) ? x.v + c.range(-2, 2) : odd_number(c);
            else {
                std::vector<uint64_t> v; bool ok = true; try { pbf::packed(x, v); } catch (const pbf::Bad&) { ok = false; }
                if (ok && !v.empty() && level >= 2 && level <= 3) {
                    size_t k = c.upto(v.size() - 1);
                    switch (c.upto(3)) { case 0: v[k] = odd_number(c); break; case 1: v.erase(v.begin() + k); break; case 2: v.insert(v.begin() + k, odd_number(c)); break; default: v[k] += c.range(-2, 2); break; }
                    x.s.clear(); for (auto q : v) pbf::varint(x.s, q);
                } else if (!x.s.empty()) x.s[c.upto(x.s.size() - 1)] = (char)c.upto(255);
            }
            break;
        case 1: f.erase(f.begin() + i); break;
        case 2: { pbf::Field y = x; f.insert(f.begin() + c.upto(f.size()), y); break; }
        case 3: x.n = 1 + c.upto(20); break;
        case 4: if (x.wt == 0) { x.wt = 2; x.s = std::string(c.upto(20), (char)c.upto(255)); } else { x.wt = 0; x.v = odd_number(c); } break;
        default: { pbf::Field y; y.n = 1 + c.upto(20); y.wt = c.chance(50) ? 0 : 2; y.v = odd_number(c); y.s = std::string(c.upto(30), (char)c.upto(3)); f.insert(f.begin() + c.upto(f.size()), y); break; }
    }
    return enc(f);
}
// Damage inside one blob, everything around it being right. Returns the offset of that blob.
inline size_t mutate_pbf(Ctx& c, std::string& s, const std::vector<size_t>& boundaries) {
    size_t k = boundaries.size() > 2 ? (c.chance(85) ? 1 + c.upto(boundaries.size() - 3) : 0) : 0;
    size_t b = boundaries[k], e = boundaries[k + 1];
    uint32_t hl = (unsigned char)s[b] << 24 | (unsigned char)s[b + 1] << 16 | (unsigned char)s[b + 2] << 8 | (unsigned char)s[b + 3];
    std::string head = s.substr(b + 4, hl), body = s.substr(b + 4 + hl, e - b - 4 - hl), type; std::string raw; bool z = false;
    for (auto& f : pbf::fields(head)) if (f.n == 1) type = f.s;
    int64_t rs = -1; std::string zd; for (auto& f : pbf::fields(body)) { if (f.n == 1) raw = f.s; else if (f.n == 2) rs = f.v; else if (f.n == 3) { z = true; zd = f.s; } }
    if (z) raw = pbf::zinflate(zd, rs);
    std::string r;
    switch (c.weighted({75, 10, 5, 5, 5})) {
        case 0: do raw = mutate_msg(c, raw, type == "OSMHeader" ? 4 : 0); while (c.more(30)); r = pbf::blob(type, raw, z || c.chance(30)); break;
        case 1: { body = mutate_msg(c, body, 5); pbf::Msg h; h.b(1, type); h.i(3, body.size()); r = pbf::be32(h.str().size()) + h.str() + body; break; }
        case 2: { head = mutate_msg(c, head, 6); r = pbf::be32(head.size()) + head + body; break; }
        case 3: { pbf::Msg bm; bm.i(2, c.chance(50) ? (int64_t)raw.size() + c.range(-3, 3) : (int64_t)odd_number(c)); std::string q = pbf::zdeflate(raw); if (c.chance(50) && !q.empty()) q[c.upto(q.size() - 1)] ^= 1 << c.upto(7); bm.b(c.chance(80) ? 3 : 4 + c.upto(2), q);
            pbf::Msg h; h.b(1, type); h.i(3, c.chance(70) ? bm.str().size() : odd_number(c)); r = pbf::be32(h.str().size()) + h.str() + bm.str(); break; }
        default: r = pbf::be32(c.chance(50) ? hl + c.range(-3, 3) : odd_number(c)) + head + body; break;
    }
    s.replace(b, e - b, r);
    return b;
}
inline const std::vector<std::string>& xml_dict() {
    static const std::vector<std::string> d = {"<node id='1'>", "</node>", "<way>", "</way>", "<relation>", "</relation>", "<tag k='a' v='b'/>", "<nd ref='1'/>", "<member type='' ref='' role=''/>", "<member/>", "<nd/>", "<tag/>", "<osm>", "</osm>", "<delete>", "</delete>",
        "<bounds/>", "<bounds minlon='999999' minlat='nan' maxlon='inf' maxlat='-1e300'/>", "<![CDATA[", "]]>", "<!--", "-->", "&amp;", "&#0;", "&#xffff;", "&lol;", "\xff\xfe", std::string(1, '\0'), " version='0.5'", " timestamp='x'", " timestamp=''", " id='99999999999999999999999'", " lat='1e400'", " uid='-99999999999'",
        " user='" + std::string(1100, 'u') + "'", "<member role='" + std::string(1100, 'r') + "'/>", "<tag><tag><tag/></tag></tag>", "<x><node id='3'/></x>", "<?xml version='1.0'?>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", std::string(3000, '<'), std::string(20000, ' '), "\xc3", "\xed\xa0\x80"};
    return d;
}
inline const std::vector<std::string>& pbf_dict() {
    static const std::vector<std::string> d = {std::string(4, '\0'), std::string("\0\0\0\x0d", 4), "\x0a\x07OSMData", "\x0a\x09OSMHeader", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x08", std::string("\x12\x00", 2), std::string("\x0a\x00", 2), "\x7f\xff\xff\xff", std::string(100, '\xff')};
    return d;
}
// Reads and reports how it went: "" for a normal return, else the kind of exception.
template <class H> std::string attempt(const std::string& p, int type, int enc, H& h) {
    try { read_file(p, type, enc, h); return ""; }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { return std::string("exception: ") + (e.what() ? e.what() : ""); }
    catch (...) { return "other exception"; }
}
} // namespace hostile
#endif
