// Files of the wrong type, version or with unknown features are refused.
// LIBS: pbf xml
#include "io.hpp"
#include "pbfcodec.hpp"
#include "xmlcodec.hpp"
#include "tool.hpp"
using namespace model;

// TOOLS is empty: the library is what refuses
RULE("a case counts as non-trivial if the file holds objects, or its header is one that must be refused, or a format was registered twice or used to write; distinct by description of header, expectation and objects");

static const char* TN[] = {"osm", "history", "change"};
static std::string outcome(const std::string& p, int type, int enc, Capture& cap) {
    try { read_file(p, type, enc, cap); return "read"; }
    catch (const Osmium::OSMFile::FileTypeOSMExpected&) { return "osm expected"; }
    catch (const Osmium::OSMFile::FileTypeHistoryExpected&) { return "history expected"; }
    catch (const Osmium::OSMFile::FileTypeError&) { return "file type error"; }
    catch (const Osmium::OSMFile::FileEncodingNotSupported&) { return "encoding not supported"; }
    catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
}
static std::vector<Obj> some(Ctx& c, bool history) {
    GenOpts g; g.xml_text = true; g.history = history; g.more = 65; g.sub_more = 25; auto v = gen_objs(c, g);
    for (auto& o : v) { if (o.uid <= 0) { o.uid = 0; o.user = ""; } if (o.version > 2147483647u) o.version = 1; if (!history) o.visible = true; if (o.kind == 0 && !o.defined()) o.x = o.y = 7; }
    return v;
}
static std::string unknown_feature(Ctx& c) {
    static const std::vector<std::string> near = {"OsmSchema-V0.7", "OsmSchema-V0.60", "OsmSchema-V0.", "OsmSchema", "DenseNode", "DenseNodes2", "densenodes", "DENSENODES", "HistoricalInformation ", " HistoricalInformation", "Historical", "LocationsOnWays", "Sort.Type_then_ID", "Has_Metadata", "", "x", "\xc3\xa9", "OsmSchema-V0.6,DenseNodes"};
    if (c.chance(60)) return c.pick(near);
    std::string s; while (c.more(85)) s += (char)(c.chance(80) ? 'A' + c.upto(57) : 32 + c.upto(94));
    if (s == "DenseNodes" || s == "OsmSchema-V0.6" || s == "HistoricalInformation") s += "x"; return s;
}
SCENARIO(pbf_header, 1400, 60000) {
    bool history = c.chance(45); auto objs = some(c, history); pbf::Header h; h.req.clear();
    if (c.chance(90)) h.req.push_back("OsmSchema-V0.6"); if (c.chance(70)) h.req.push_back("DenseNodes"); if (history) h.req.push_back("HistoricalInformation");
    std::string unk; bool bad = c.chance(45);
    if (bad) { size_t n = c.chance(70) ? 1 : 2; for (size_t i = 0; i < n; ++i) { std::string u = unknown_feature(c); h.req.insert(h.req.begin() + c.upto(h.req.size()), u); } for (auto& r : h.req) if (r != "OsmSchema-V0.6" && r != "DenseNodes" && r != "HistoricalInformation") { unk = r; break; } }
    if (c.chance(30)) for (size_t i = h.req.size(); i > 1; --i) std::swap(h.req[i - 1], h.req[c.upto(i - 1)]);
    if (bad) for (auto& r : h.req) if (r != "OsmSchema-V0.6" && r != "DenseNodes" && r != "HistoricalInformation") { unk = r; break; }
    if (c.chance(10) && !h.req.empty()) h.req.push_back(h.req[0]); // listed twice
    while (c.more(35)) h.opt.push_back(c.chance(50) ? unknown_feature(c) : "HistoricalInformation"); // optional features never matter
    if (c.chance(40)) { h.has_prog = true; h.prog = "some program"; }
    int expect = c.weighted({45, 45, 10});
    std::string s, data = pbf::simple_file(objs, 3, 2, c.chance(50), history, c.chance(30));
    // simple_file begins with a header of its own, which is replaced
    uint32_t hl = (uint8_t)data[0] << 24 | (uint8_t)data[1] << 16 | (uint8_t)data[2] << 8 | (uint8_t)data[3]; u_int64_t ds = 0;
    for (auto& f : pbf::fields(data.substr(4, hl))) if (f.n == 3) ds = f.v;
    data = data.substr(4 + hl + ds);
    bool header = !c.chance(5); std::string p = c.path("x.pbf");
    if (c.chance(10)) s += pbf::blob("Something", "else", c.chance(50));
    if (header) s += pbf::blob("OSMHeader", pbf::header_data(h), c.chance(50), c.chance(20), c.chance(30));
    s += data; spit(p, s);
    c.desc << "required:"; for (auto& r : h.req) c.desc << " " << show(r, 40); if (!h.opt.empty()) { c.desc << "; optional:"; for (auto& r : h.opt) c.desc << " " << show(r, 30); } c.desc << "; read as " << TN[expect] << "; " << (header ? "" : "no header; ") << objs.size() << " objects; "; for (auto& o : objs) c.desc << o << " ";
    Capture cap; std::string got = outcome(p, expect, PBF, cap), want = "read";
    bool feature = header && bad, plain = header && expect == OSM && history, hist = header && expect == HISTORY && !history;
    if (feature) {
        // which of several reasons is named is open, that it is refused is not
        bool ok = got.compare(0, 11, "exception: ") == 0 && (got.find(unk) != std::string::npos || got.find("feature") != std::string::npos);
        if (plain) ok = ok || got == "osm expected"; if (hist) ok = ok || got == "history expected";
        c.check(ok, "a file requiring the unknown feature " + show(unk) + ": " + got); c.label("unknown feature"); want = "";
    } else if (plain) { c.eq(got, std::string("osm expected"), "history read as plain file"); c.label("history instead of plain"); want = ""; }
    else if (hist) { c.eq(got, std::string("history expected"), "plain file read as history"); c.label("plain instead of history"); want = ""; }
    if (!header || expect == CHANGE) { if (want != "") { c.label("open"); throw pbt::Discard(); } }
    if (want == "") { c.check(cap.objs.empty(), "objects of a file that is refused were delivered"); c.eq(cap.events.find_first_of("nwr") == std::string::npos, true, "no object callbacks"); c.nontrivial(); return; }
    c.eq(got, want, "a matching file"); c.label("accepted"); c.nontrivial(!objs.empty());
    same_objs(c, cap.objs, objs, "accepted file");
}
SCENARIO(xml_version, 1500, 80000) {
    int type = c.upto(2); auto objs = some(c, type != OSM); Data d; d.objs = objs; WOpts w; w.type = type; w.enc = XML; std::string p = c.path("x.osm"); write_file(p, d, w); std::string s = slurp(p);
    size_t at = s.find("version=\"0.6\""); c.check(at != std::string::npos, "no version in the file written");
    static const std::vector<std::string> near = {"0.5", "0.7", "0.60", "0.", "", "6", "00.6", "0.6 ", " 0.6", "0,6", "1.0", "0.6.1", "v0.6", "0.61", "0.6a", ".6", "+0.6"};
    int how = c.weighted({30, 55, 15}); std::string v = "0.6";
    if (how == 1) { v = c.chance(65) ? c.pick(near) : std::to_string(c.upto(20)) + "." + std::to_string(c.upto(99)); if (v == "0.6") v = "0.7"; }
    std::string attr = how == 2 ? "" : "version=\"" + v + "\"";
    std::string rest = s.substr(at + 13); // generator follows; version may also come after it
    size_t gt = rest.find('>'); bool closed = gt > 0 && rest[gt - 1] == '/'; std::string gen = rest.substr(0, closed ? gt - 1 : gt);
    if (c.chance(40)) s = s.substr(0, at) + gen + " " + attr + rest.substr(closed ? gt - 1 : gt); else s = s.substr(0, at) + attr + rest;
    bool extra = c.chance(20); if (extra) { size_t o = s.find("<osm"); o = s.find(' ', o); s.insert(o, " xversion=\"0.9\" Version=\"9\""); }
    c.desc << TN[type] << (how == 2 ? " without version" : " version " + show(v)) << (extra ? " and other attributes" : "") << "; "; for (auto& o : objs) c.desc << o << " ";
    spit(p, s); Capture cap; std::string got = outcome(p, type, XML, cap);
    if (how == 1) { c.check(got.compare(0, 11, "exception: ") == 0 && got.find("0.6") != std::string::npos, "a file of version " + show(v) + ": " + got); c.check(cap.objs.empty(), "objects of a refused file were delivered"); c.eq(cap.events.find_first_of("nwr") == std::string::npos, true, "no object callbacks"); c.label("refused"); c.nontrivial(); }
    else if (how == 0) { c.eq(got, std::string("read"), "a file of version 0.6"); c.eq(cap.objs.size(), objs.size(), "objects"); c.nontrivial(!objs.empty()); c.label("accepted"); }
    else { c.label("no version"); if (got == "read") c.eq(cap.objs.size(), objs.size(), "objects"); }
}
// the type the writer was opened with decides what the file can be read as
SCENARIO(writers_and_readers, 250, 8000) {
    int wt = c.upto(1), rt = c.upto(1); auto objs = some(c, wt == HISTORY); Data d; d.objs = objs; WOpts w; w.type = wt; w.enc = PBF; w.dense = c.chance(50); w.compress = c.chance(50); w.meta = !c.chance(20); std::string p = c.path("x.pbf"); write_file(p, d, w);
    describe(c, w); c.desc << "read as " << TN[rt] << "; "; for (auto& o : objs) c.desc << o << " ";
    Capture cap; std::string got = outcome(p, rt, PBF, cap); c.eq(got, std::string(wt == rt ? "read" : rt == OSM ? "osm expected" : "history expected"), "reading a file written as " + std::string(TN[wt]));
    if (wt == rt) c.eq(cap.objs.size(), objs.size(), "objects"); else c.check(cap.objs.empty(), "objects of a file that is refused were delivered"); c.nontrivial(); c.label(wt == rt ? "accepted" : "refused");
}
// formats no writer is registered for are refused when opened, and nothing is touched
SCENARIO(unsupported_output, 300, 10000) {
    auto& f = Osmium::Output::Factory::instance(); std::string p = c.path("out"); unlink(p.c_str()); std::string before = "untouched"; bool exists = c.chance(50); if (exists) spit(p, before);
    int gone = 1 + c.upto(14); c.desc << "without formats " << gone << ":";
    auto mk = [](const Osmium::OSMFile& x) -> Osmium::Output::Base* { if (x.encoding()->is_pbf()) return new Osmium::Output::PBF(x); return new Osmium::Output::XML(x); };
    for (int e = 0; e < 4; ++e) if (gone >> e & 1) { c.check(f.unregister_output_format(fenc(e)), "format is not registered"); c.check(!f.unregister_output_format(fenc(e)), "format unregistered twice"); }
    for (int k = 0; k < 6; ++k) {
        int e = c.upto(3), t = c.upto(2); c.desc << " " << e; Osmium::OSMFile file = mkfile(p, t, e); bool refused = false; size_t fds = count_fds();
        try { Osmium::Output::Handler h(file); if (!(gone >> e & 1)) { Osmium::OSM::Meta m; h.init(m); h.final(); } } catch (const Osmium::OSMFile::FileEncodingNotSupported&) { refused = true; }
        c.eq(refused, (gone >> e & 1) != 0, "output format " + std::to_string(e) + " refused"); c.eq(count_fds(), fds, "open file descriptors");
        if (refused && exists && before != "") c.eq(slurp(p), before, "content of an existing file after its format was refused"); else if (!refused) { before = slurp(p); exists = true; }
        if (refused && !exists) c.check(access(p.c_str(), F_OK) != 0, "file was created although its format was refused");
    }
    for (int e = 0; e < 4; ++e) if (gone >> e & 1) c.check(f.register_output_format(fenc(e), mk), "format can't be registered again");
    c.nontrivial();
}
// the register of output formats over a history of registering, unregistering and opening files
static int used_writer;
template <int N> static Osmium::Output::Base* writer(const Osmium::OSMFile& x) { used_writer = N; if (x.encoding()->is_pbf()) return new Osmium::Output::PBF(x); return new Osmium::Output::XML(x); }
SCENARIO(output_register, 500, 20000) {
    auto& f = Osmium::Output::Factory::instance(); std::string p = c.path("out"); unlink(p.c_str()); typedef Osmium::Output::Factory::create_output_t W; static const W w[] = {writer<0>, writer<1>, writer<2>};
    std::map<int, int> m; for (int e = 0; e < 4; ++e) { f.unregister_output_format(fenc(e)); }
    std::string failed; size_t fd0 = count_fds();
    auto ok = [&](bool b, const std::string& what) { if (!b && failed.empty()) failed = what; };
    while (c.more(88)) {
        int e = c.upto(3); std::string name = std::to_string(e);
        switch (c.upto(3)) {
            case 0: { int k = c.upto(2); c.desc << " +" << e << ":" << k; if (m.count(e)) c.label("registered a second time"), c.nontrivial(); ok(f.register_output_format(fenc(e), w[k]) == !m.count(e), "registering format " + name + " does not say correctly whether it was new"); m.insert(std::make_pair(e, k)); break; }
            case 1: c.desc << " -" << e; ok(f.unregister_output_format(fenc(e)) == (m.erase(e) == 1), "unregistering format " + name + " does not say correctly whether it was there"); break;
            default: { c.desc << " w" << e; bool refused = false; used_writer = -1; Osmium::OSMFile file = mkfile(p, c.upto(2), e);
                try { Osmium::Output::Handler h(file); Osmium::OSM::Meta mt; h.init(mt); h.final(); } catch (const Osmium::OSMFile::FileEncodingNotSupported&) { refused = true; }
                c.label_if(!refused, "written"); c.label_if(refused, "refused"); if (!refused) c.nontrivial(); ok(refused == !m.count(e), "format " + name + (refused ? " was refused" : " was not refused")); if (m.count(e)) ok(used_writer == m[e], "format " + name + " was written by writer " + std::to_string(used_writer) + " instead of " + std::to_string(m[e])); }
        }
    }
    auto mk = [](const Osmium::OSMFile& x) -> Osmium::Output::Base* { if (x.encoding()->is_pbf()) return new Osmium::Output::PBF(x); return new Osmium::Output::XML(x); };
    for (int e = 0; e < 4; ++e) { f.unregister_output_format(fenc(e)); f.register_output_format(fenc(e), mk); }
    if (!failed.empty()) c.fail(failed); c.eq(count_fds(), fd0, "open file descriptors");
}
