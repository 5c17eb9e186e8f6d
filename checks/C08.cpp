// Damaged or hostile input ends in an exception, never in a crash.
// LIBS: pbf xml
// VARIANT: asan -fsanitize=address -fno-omit-frame-pointer
// VARIANT: asan-ndebug -fsanitize=address -fno-omit-frame-pointer -DNDEBUG
// VARIANT: plain
#include "hostile.hpp"
using namespace model;

RULE("a case counts as non-trivial if the damaged file differs from a valid one and reading reached at least one object or ended in an exception; distinct by the description of the file and the damage");
ASSUME("memory errors are those AddressSanitizer sees; a reading that takes more than 40 s counts as hanging");

static void intact_prefix(Ctx& c, const Capture& cap, const std::vector<Obj>& all, size_t n, bool exact, const std::string& how) {
    if (exact) c.eq(cap.objs.size(), n, "objects delivered before the damage (" + how + ")"); else c.check(cap.objs.size() >= n, "only " + std::to_string(cap.objs.size()) + " of " + std::to_string(n) + " objects of the intact part were delivered (" + how + ")");
    for (size_t i = 0; i < n; ++i) c.check(cap.objs[i] == all[i], "object " + std::to_string(i) + " of the intact part differs: " + diff(cap.objs[i], all[i]));
}
static void pbf_prefix(Ctx& c, const Capture& cap, const pbf::GenFile& f, size_t n, bool exact, const std::string& how) {
    if (exact) c.eq(cap.objs.size(), n, "objects delivered before the damage (" + how + ")"); else c.check(cap.objs.size() >= n, "only " + std::to_string(cap.objs.size()) + " of " + std::to_string(n) + " objects of the intact part were delivered (" + how + ")");
    for (size_t i = 0; i < n; ++i) { std::string e = pbf::judge(cap.objs[i], f, i); c.check(e.empty(), "object " + std::to_string(i) + " of the intact part: " + e); }
}

SCENARIO(cut_pbf, 120, 5000) {
    pbf::GenFile f; pbf::gen_file(c, f, 75, true); std::string p = c.path("x.pbf");
    pbf::describe(c, f);
    for (int k = 0; k < 6; ++k) {
        // anywhere, but often close to where a blob begins or ends
        size_t cut = c.upto(f.bytes.size()); if (c.chance(55)) { size_t b = c.pick(f.boundaries) + c.range(-6, 6); if (b <= f.bytes.size()) cut = b; }
        size_t n = 0; bool boundary = false; for (size_t i = 0; i < f.boundaries.size(); ++i) { if (f.boundaries[i] <= cut) n = f.objs_before[i]; if (f.boundaries[i] == cut) boundary = true; }
        c.desc << "cut at " << cut << (boundary ? " (boundary)" : "") << "; "; c.label(boundary ? "cut on a boundary" : "cut inside a blob");
        spit(p, f.bytes.substr(0, cut)); Capture cap; std::string how = hostile::attempt(p, f.history, PBF, cap);
        if (boundary) c.check(how.empty(), "a file ending on a boundary between blobs is refused: " + how); else c.check(!how.empty(), "a file cut off inside a blob at " + std::to_string(cut) + " of " + std::to_string(f.bytes.size()) + " is read without an error");
        pbf_prefix(c, cap, f, n, true, how); c.nontrivial();
    }
}
SCENARIO(cut_xml, 500, 30000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 80); std::string p = c.path("x.osm"); xmlgen::describe(c, d);
    for (int k = 0; k < 8; ++k) {
        size_t cut = c.upto(d.root_end - 1); if (c.chance(30)) { cut = d.root_end - 1 - c.upto(std::min<size_t>(12, d.root_end - 1)); }
        size_t n = 0; for (size_t e : d.ends) if (e <= cut) ++n;
        c.desc << "cut at " << cut << "; "; spit(p, d.bytes.substr(0, cut)); Capture cap; std::string how = hostile::attempt(p, d.change ? CHANGE : HISTORY, XML, cap);
        c.check(!how.empty(), "an XML file cut off at " + std::to_string(cut) + " of " + std::to_string(d.bytes.size()) + " is read without an error");
        intact_prefix(c, cap, d.objs, n, true, how); c.nontrivial();
    }
}
// the same for a file the decompressor refuses or that ends early
SCENARIO(cut_compressed, 25, 1500) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 85, false); int enc = c.chance(50) ? GZ : BZ2; std::string p = c.path("x.osm"), z = p + (enc == GZ ? ".gz" : ".bz2");
    spit(p, d.bytes); unlink(z.c_str()); pbt::Result unused; (void)unused;
    if (system(((enc == GZ ? "gzip -f " : "bzip2 -f ") + p).c_str())) throw pbt::Discard();
    std::string b = slurp(z); xmlgen::describe(c, d);
    for (int k = 0; k < 2; ++k) {
        std::string m = b; bool cutting = c.chance(60); size_t cut = c.upto(m.size() - 1); if (cutting) m.resize(cut); else m[cut] ^= 1 << c.upto(7);
        c.desc << (enc == GZ ? "gz " : "bz2 ") << (cutting ? "cut at " : "bit flipped at ") << cut << "; "; spit(z, m); size_t fds = count_fds(); Capture cap; std::string how = hostile::attempt(z, d.change ? CHANGE : HISTORY, enc, cap);
        // the decompressor passes on what it could make of a flipped bit before it notices; only cut files must be noticed
        if (how.empty() && cutting) same_objs(c, cap.objs, d.objs, "read without an error from a compressed file that was cut off");
        else for (size_t i = 0; i < cap.objs.size() && i < d.objs.size() && cutting; ++i) c.check(cap.objs[i] == d.objs[i], "object differs: " + diff(cap.objs[i], d.objs[i]));
        c.eq(count_fds(), fds, "open file descriptors afterwards"); c.nontrivial();
    }
    unlink(z.c_str());
}
SCENARIO(damaged_pbf, 900, 60000) {
    pbf::GenFile f; pbf::gen_file(c, f, 75, true); std::string s = f.bytes, p = c.path("x.pbf"); size_t at; bool deep = c.chance(70);
    at = deep ? hostile::mutate_pbf(c, s, f.boundaries) : hostile::mutate_bytes(c, s, hostile::pbf_dict());
    size_t n = 0; for (size_t i = 0; i < f.boundaries.size(); ++i) if (f.boundaries[i] <= at) n = f.objs_before[i];
    pbf::describe(c, f); c.desc << (deep ? "one blob damaged at " : "bytes changed from ") << at << " hash " << pbt::hash_bytes(s);
    spit(p, s); Capture cap; std::string how = hostile::attempt(p, f.history, PBF, cap); c.desc << "; " << (how.empty() ? "normal" : how.substr(0, 80));
    c.label(how.empty() ? "read normally" : how.substr(0, 60)); c.nontrivial(s != f.bytes && (!how.empty() || !cap.objs.empty()));
    pbf_prefix(c, cap, f, n, false, how);
}
SCENARIO(damaged_xml, 3000, 200000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 75, c.chance(60)); std::string s = d.bytes, p = c.path("x.osm"); size_t at = hostile::mutate_bytes(c, s, hostile::xml_dict());
    size_t n = 0; for (size_t e : d.ends) if (e <= at) ++n;
    xmlgen::describe(c, d); c.desc << "changed from " << at << " hash " << pbt::hash_bytes(s); spit(p, s); Capture cap; std::string how = hostile::attempt(p, d.change ? CHANGE : HISTORY, XML, cap);
    if (how.find("parsing error") != std::string::npos) how = "exception: " + how.substr(how.rfind(':') + 2);
    c.label(how.empty() ? "read normally" : how.substr(0, 60)); c.nontrivial(s != d.bytes && (!how.empty() || !cap.objs.empty()));
    intact_prefix(c, cap, d.objs, n, false, how);
}
// arrays that belong together but do not have the same length, and places in the string table that are not there
SCENARIO(short_arrays, 400, 40000) {
    auto pack = [](const std::vector<pbf::u64>& v) { std::string s; for (auto x : v) pbf::varint(s, x); return s; };
    size_t n = 1 + c.upto(9), k = 1 + c.upto(5); int kind = c.weighted({60, 20, 20}), intact = c.upto(3); std::string why; bool must = false;
    pbf::Msg table; table.b(1, ""); for (size_t i = 0; i < k; ++i) table.b(1, std::string(1 + c.upto(3), (char)('a' + i)));
    auto nums = [&](size_t m) { std::vector<pbf::u64> v; for (size_t i = 0; i < m; ++i) v.push_back(pbf::zz(c.range(-50, 1000))); return v; };
    auto sids = [&](size_t m) { std::vector<pbf::u64> v; for (size_t i = 0; i < m; ++i) v.push_back(1 + c.upto(k - 1)); return v; };
    auto cut = [&](std::vector<pbf::u64>& v, const std::string& name, bool may_be_empty) { // shorter than the others
        size_t by = 1 + (c.chance(60) ? 0 : c.upto(v.size() - 1)); v.resize(v.size() - by); if (may_be_empty && v.empty()) return; must = true; why += name + " shorter by " + std::to_string(by) + "; "; };
    auto more = [&](std::vector<pbf::u64>& v, const std::string& name) { size_t by = 1 + c.upto(3); for (size_t i = 0; i < by; ++i) v.push_back(c.upto(4)); why += name + " longer by " + std::to_string(by) + "; "; };
    auto bad = [&](const std::string& name) { must = true; why += name + " outside of the string table; "; return c.pick(std::vector<pbf::u64>{k + 1, k + 2, k + 100, 0x7fffffffu, 0x80000000u, 0xffffffffu}); };
    pbf::Msg g; int what = c.upto(9);
    if (kind == 0) { // dense nodes
        std::vector<pbf::u64> id, lat = nums(n), lon = nums(n), kv; for (size_t i = 0; i < n; ++i) id.push_back(pbf::zz(1 + c.upto(5)));
        std::vector<std::vector<pbf::u64>> info(6); for (int j = 0; j < 6; ++j) if (c.chance(70)) info[j] = nums(n); if (!info[4].empty()) { info[4].assign(n, 0); info[4][0] = pbf::zz(1); } if (!info[5].empty()) for (auto& x : info[5]) x &= 1;
        size_t pairs = 0; for (size_t i = 0; i < n; ++i) { for (size_t t = c.upto(2); t; --t) { for (auto x : sids(2)) kv.push_back(x); ++pairs; } kv.push_back(0); }
        switch (what) {
            case 0: cut(lat, "latitudes", false); break; case 1: cut(lon, "longitudes", false); break;
            case 2: case 3: case 4: { int j = c.upto(5); if (!info[j].empty()) cut(info[j], "metadata " + std::to_string(j), true); break; }
            case 5: { int j = c.upto(5); if (!info[j].empty()) more(info[j], "metadata " + std::to_string(j)); else more(lat, "latitudes"); break; }
            case 6: case 7: { // the last tag has no value
                size_t keep = c.upto(n - 1), at = 0; for (size_t i = 0; i < keep; ++at) if (kv[at] == 0) ++i; kv.resize(at); for (size_t t = c.upto(2); t; --t) for (auto x : sids(2)) kv.push_back(x); kv.push_back(1 + c.upto(k - 1)); must = true; why += "key without value at node " + std::to_string(keep) + "; "; break; }
            case 8: { std::vector<size_t> at; bool key = true; for (size_t i = 0; i < kv.size(); ++i) { if (kv[i] == 0 && key) continue; at.push_back(i); key = !key; } if (!at.empty()) kv[at[c.upto(at.size() - 1)]] = bad("tag"); break; }
            default: if (!info[4].empty()) { size_t i = c.upto(n - 1); info[4].assign(n, 0); info[4][i] = c.chance(50) ? pbf::zz(k + 1 + c.upto(50)) : pbf::zz(-1 - (int)c.upto(50)); must = true; why += "user outside of the string table; "; } break;
        }
        pbf::Msg d, di; d.b(1, pack(id)); bool any = false; for (int j = 0; j < 6; ++j) if (!info[j].empty()) { di.b(j + 1, pack(info[j])); any = true; } if (any) d.b(5, di.str()); if (!lat.empty()) d.b(8, pack(lat)); if (!lon.empty()) d.b(9, pack(lon)); if (!kv.empty()) d.b(10, pack(kv)); g.b(2, d.str());
    } else {
        size_t which = c.upto(n - 1);
        for (size_t i = 0; i < n; ++i) {
            size_t t = c.upto(3), m = c.upto(4); if (i == which && t == 0) t = 1; if (i == which && m == 0) m = 1;
            std::vector<pbf::u64> keys = sids(t), vals = sids(t), refs = nums(m), roles = sids(m), types; for (size_t q = 0; q < m; ++q) types.push_back(c.upto(2)); int user = -1; if (c.chance(50)) user = 1 + c.upto(k - 1); pbf::u64 baduser = 0;
            if (i == which) switch (what) {
                case 0: case 1: cut(vals, "values", false); break;
                case 2: case 3: if (kind == 2) cut(refs, "members", false); else more(vals, "values"); break;
                case 4: case 5: if (kind == 2) cut(roles, "roles", false); else more(vals, "values"); break;
                case 6: if (kind == 2) more(refs, "members"); break;
                case 7: (c.chance(50) ? keys : vals)[c.upto(t - 1)] = bad("tag"); break;
                case 8: if (kind == 2) roles[c.upto(m - 1)] = bad("role"); break;
                default: baduser = bad("user"); break;
            }
            pbf::Msg o, inf; o.u(1, 100 + i); if (!keys.empty()) o.b(2, pack(keys)); if (!vals.empty()) o.b(3, pack(vals)); inf.u(1, 3); if (baduser) inf.u(5, baduser); else if (user > 0) inf.u(5, user); o.b(4, inf.str());
            if (kind == 1) o.b(8, pack(refs)); else { if (!roles.empty()) o.b(8, pack(roles)); if (!refs.empty()) o.b(9, pack(refs)); if (!types.empty()) o.b(10, pack(types)); }
            g.b(kind == 1 ? 3 : 4, o.str());
        }
    }
    pbf::Msg block; block.b(1, table.str()); block.b(2, g.str());
    pbf::Header h; std::string s = pbf::blob("OSMHeader", pbf::header_data(h), false);
    for (int i = 0; i < intact; ++i) { pbf::Msg o, t, gg, b; o.u(1, 1 + i); o.b(8, pack({2, 2})); gg.b(3, o.str()); t.b(1, ""); b.b(1, t.str()); b.b(2, gg.str()); s += pbf::blob("OSMData", b.str(), c.chance(30)); }
    s += pbf::blob("OSMData", block.str(), c.chance(30));
    c.desc << (kind == 0 ? "dense nodes" : kind == 1 ? "ways" : "relations") << " " << n << " after " << intact << " blocks: " << why << "hash " << pbt::hash_bytes(s);
    std::string p = c.path("x.pbf"); spit(p, s); Capture cap; std::string how = hostile::attempt(p, false, PBF, cap);
    if (why.empty()) { c.label("nothing wrong"); c.check(how.empty(), "a correct file is refused: " + how); c.eq(cap.objs.size(), intact + n, "objects"); return; }
    c.label(must ? "value missing" : "surplus values"); c.nontrivial();
    c.check(cap.objs.size() >= (size_t)intact, "objects of the intact part are missing (" + how + ")");
    for (int i = 0; i < intact; ++i) c.check(cap.objs[i].kind == 1 && cap.objs[i].id == 1 + i && cap.objs[i].refs == std::vector<int64_t>{1, 2}, "an object of the intact part differs");
    if (must) { c.check(!how.empty(), "a file in which a value is missing is read without an error: " + why); c.check(cap.objs.size() < intact + n, "all objects were delivered although a value is missing"); }
}
// sizes announced in the file that are as large as they say, the file being mostly a hole
SCENARIO(large_sizes, 100, 1500) {
    static const std::vector<uint64_t> sizes = {65536, 65537, 1 << 20, (32 << 20) - 1, 32 << 20, (32 << 20) + 1, 33 << 20, 64 << 20, (64 << 20) + 5, 200 << 20, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    std::string s, p = c.path("x.pbf"); pbf::Header h; bool first = c.chance(40); if (!first) s = pbf::blob("OSMHeader", pbf::header_data(h), false); uint64_t n = c.pick(sizes); int what = c.upto(2);
    if (what == 0) s += pbf::be32(n); else { pbf::Msg m; m.b(1, first ? "OSMHeader" : "OSMData"); if (what == 1) m.i(3, (int64_t)n); else m.i(3, 20); s += pbf::be32(m.str().size()) + m.str(); if (what == 2) { pbf::Msg b; b.i(2, (int64_t)n); b.b(3, pbf::zdeflate(std::string(3, 'x'))); s.resize(s.size()); std::string body = b.str(); m = pbf::Msg(); m.b(1, first ? "OSMHeader" : "OSMData"); m.i(3, body.size()); s = (first ? std::string() : pbf::blob("OSMHeader", pbf::header_data(h), false)) + pbf::be32(m.str().size()) + m.str() + body; } }
    static const char* W[] = {"blob header", "blob", "uncompressed data"}; c.desc << "size of the " << (first ? "first " : "second ") << W[what] << " is " << n; c.label(W[what]); c.nontrivial();
    spit(p, s); uint64_t len = s.size() + std::min<uint64_t>(n, 1u << 28); if (what < 2) c.check(truncate(p.c_str(), len) == 0, "harness: truncate"); Capture cap; std::string how = hostile::attempt(p, OSM, PBF, cap); c.desc << "; " << how.substr(0, 60); unlink(p.c_str());
    c.check(!how.empty(), "read without an error"); c.eq(cap.objs.size(), (size_t)0, "objects");
}
SCENARIO(garbage, 400, 20000) {
    std::string s, p = c.path("x"); int enc = c.upto(1); size_t n = c.upto(c.chance(50) ? 40 : 3000);
    if (c.chance(40)) { Bulk b{c.upto(~0ULL)}; for (size_t i = 0; i < n; ++i) s += (char)b.next(); } else while (c.more(95)) s += c.pick(enc ? hostile::xml_dict() : hostile::pbf_dict());
    if (enc && c.chance(70)) s = "<osm version='0.6'>" + s; if (!enc && c.chance(30)) { pbf::Header h; s = pbf::blob("OSMHeader", pbf::header_data(h), false) + (c.chance(50) ? pbf::blob("OSMData", s, c.chance(50)) : s); }
    c.desc << (enc ? "xml " : "pbf ") << s.size() << " bytes " << show(s, 100) << " hash " << pbt::hash_bytes(s);
    spit(p, s); Capture cap; std::string how = hostile::attempt(p, c.upto(1), enc, cap); c.nontrivial(!how.empty()); c.label(how.empty() ? "read normally" : "exception");
}
#if !defined(__SANITIZE_ADDRESS__)
// failing again and again must not use up memory or file descriptors
SCENARIO(no_leaks, 40, 2000) {
    int enc = c.upto(1), type = OSM; std::string s, p = c.path("x");
    if (enc) { xmlgen::Doc d = xmlgen::gen_doc(c, 80, true); s = d.bytes; xmlgen::describe(c, d); if (c.chance(50)) s.resize(c.upto(s.size())); else hostile::mutate_bytes(c, s, hostile::xml_dict()); type = d.change ? CHANGE : HISTORY; }
    else { pbf::GenFile f; pbf::gen_file(c, f, 75, true); s = f.bytes; pbf::describe(c, f); type = f.history; if (c.chance(30)) s.resize(c.upto(s.size())); else if (c.chance(50)) hostile::mutate_pbf(c, s, f.boundaries); else type = !type; }
    spit(p, s); std::string how;
    struct Null : Osmium::Handler::Base { void node(const shared_ptr<Osmium::OSM::Node const>&) {} void way(const shared_ptr<Osmium::OSM::Way const>&) {} void relation(const shared_ptr<Osmium::OSM::Relation const>&) {} } h;
    auto used = [] { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); };
    for (int i = 0; i < 3; ++i) how = hostile::attempt(p, type, enc, h);
    size_t fds = count_fds(); long before = used();
    for (int i = 0; i < 6; ++i) hostile::attempt(p, type, enc, h);
    long grown = used() - before; c.desc << "; " << how.substr(0, 60) << ", memory grew by " << grown; c.label(how.empty() ? "read normally" : "exception"); c.nontrivial();
    c.eq(count_fds(), fds, "open file descriptors"); c.check(grown < 6 * 256, "six readings of the same file left " + std::to_string(grown) + " bytes allocated");
}
#endif
