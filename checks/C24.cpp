// File name, type and encoding are determined as documented.
// LIBS: pbf xml
#include "io.hpp"
using namespace model;
using Osmium::OSMFile;

RULE("a case counts as non-trivial if the name has a directory part or more than one dot, or settings were changed more than once; distinct by description");
ASSUME("a name without any dot that is itself a known suffix, and a plain name that begins with http: or https: without two slashes, are left open");

struct Kind { int type, enc; };
static const std::map<std::string, Kind>& table() {
    static const std::map<std::string, Kind> t = {
        {"pbf", {OSM, PBF}}, {"osm.pbf", {OSM, PBF}}, {"osm", {OSM, XML}}, {"osm.gz", {OSM, GZ}}, {"osm.bz2", {OSM, BZ2}},
        {"osh.pbf", {HISTORY, PBF}}, {"osh", {HISTORY, XML}}, {"osh.gz", {HISTORY, GZ}}, {"osh.bz2", {HISTORY, BZ2}},
        {"osc", {CHANGE, XML}}, {"osc.gz", {CHANGE, GZ}}, {"osc.bz2", {CHANGE, BZ2}}};
    return t;
}
static std::string type_name(OSMFile::FileType* t) { for (int i = 0; i < 3; ++i) if (ftype(i) == t) return std::vector<std::string>{"OSM", "history", "change"}[i]; return "unknown"; }
static std::string enc_name(OSMFile::FileEncoding* e) { for (int i = 0; i < 4; ++i) if (fenc(i) == e) return std::vector<std::string>{"PBF", "XML", "XMLgz", "XMLbz2"}[i]; return "unknown"; }
static void is(Ctx& c, const OSMFile& f, Kind k, const std::string& name, const std::string& what) {
    c.eq(type_name(f.type()), type_name(ftype(k.type)), what + ": type");
    c.eq(enc_name(f.encoding()), enc_name(fenc(k.enc)), what + ": encoding");
    c.eq(f.has_multiple_object_versions(), k.type != OSM, what + ": can hold several versions");
    c.eq(f.encoding()->is_pbf(), k.enc == PBF, what + ": encoding is PBF");
    c.check(f.filename() == name, what + ": file name is " + show(f.filename()) + " instead of " + show(name));
    c.eq(f.fd(), -1, what + ": open file");
}
static std::string raw(Ctx& c, const char* stop) { std::string s; while (c.more(60)) { char x = c.chance(80) ? "abzOosm-_1 :%"[c.upto(12)] : (char)(1 + c.upto(254)); if (!strchr(stop, x)) s += x; } return s; }
static std::string piece(Ctx& c) { // between dots
    static const std::vector<std::string> w = {"osm", "osh", "osc", "pbf", "gz", "bz2", "xml", "", "OSM", "osm ", "1", "2012-05", "http", "pb"};
    return c.chance(75) ? c.pick(w) : raw(c, "/.");
}
static std::string suffix(Ctx& c) { // without the first dot
    static std::vector<std::string> known; if (known.empty()) for (auto& e : table()) known.push_back(e.first);
    if (c.chance(65)) return c.pick(known);
    std::string s = piece(c); while (c.more(50)) s += "." + piece(c); return s;
}
static std::string dir(Ctx& c) {
    static const std::vector<std::string> w = {"/", "./", "../", "a/", "data.osm/", "v1.2/", ".hidden/", "x.osm.gz/", "//", "-/", "http/", ".osm.pbf/", "a.b.osh/"};
    std::string s; while (c.more(55)) s += c.chance(80) ? c.pick(w) : raw(c, "/") + "/"; return s;
}
struct Name { std::string all, stem; bool dot; std::string suf; bool url = false; };
static Name gen_name(Ctx& c) {
    Name n; std::string d = dir(c), b = c.chance(70) ? c.pick(std::vector<std::string>{"a", "planet", "", "-", "http", "x y"}) : raw(c, "/.");
    n.dot = c.chance(90); n.suf = n.dot ? suffix(c) : ""; n.stem = d + b; n.all = n.stem + (n.dot ? "." + n.suf : "");
    return n;
}
static bool looks_like_url(const std::string& s) { size_t n = s.find(':'); std::string p = n == s.npos ? "" : s.substr(0, n); return p == "http" || p == "https"; }
static Kind expected(const Name& n) { Kind k = {OSM, PBF}; if (n.all.empty() || n.all == "-") return k; if (n.dot && table().count(n.suf)) k = table().at(n.suf); return k; }
static void open_names(const Name& n) { if (looks_like_url(n.all) || table().count(n.all)) throw pbt::Discard(); }
static std::string shown(const std::string& n) { return n == "-" ? "" : n; }

static void names(Ctx& c, const OSMFile& f, const Name& n, const std::string& what) {
    is(c, f, expected(n), shown(n.all), what);
    if (n.all == "-") return;
    c.check(f.filename_without_suffix() == n.stem, what + ": name without suffix is " + show(f.filename_without_suffix()) + " instead of " + show(n.stem));
}
SCENARIO(constructor, 200000, 3000000) {
    Name n = gen_name(c); open_names(n); c.desc << show(n.all, 100);
    c.nontrivial(n.all.find('/') != std::string::npos || std::count(n.all.begin(), n.all.end(), '.') > 1); c.label(table().count(n.suf) ? "known suffix" : "other suffix");
    OSMFile f(n.all); names(c, f, n, "file " + show(n.all));
    OSMFile g(f); names(c, g, n, "copy of file " + show(n.all));
    OSMFile h("other.osc.gz"); h = f; names(c, h, n, "file assigned from " + show(n.all));
    OSMFile i; is(c, i, {OSM, PBF}, "", "file without a name"); i.set_type_and_encoding(n.suf); if (n.dot) is(c, i, table().count(n.suf) ? table().at(n.suf) : Kind{OSM, PBF}, "", "settings from suffix " + show(n.suf));
}
SCENARIO(urls, 8000, 300000) {
    std::string u = c.chance(50) ? "http://" : "https://"; u += c.pick(std::vector<std::string>{"example.org", "localhost:8080", "a", "planet.osm", "10.0.0.1", ""}); if (c.chance(80)) { u += "/" + dir(c) + piece(c); if (c.chance(80)) u += "." + suffix(c); } if (c.chance(20)) u += "?x=" + raw(c, "");
    c.desc << show(u, 100); c.nontrivial(); OSMFile f(u); is(c, f, {OSM, XML}, u, "URL " + show(u)); OSMFile g(f); is(c, g, {OSM, XML}, u, "copy of URL " + show(u));
    // explicit settings win over the defaults of URLs as well
    Kind k = {(int)c.upto(2), (int)c.upto(3)}; f.type(ftype(k.type)).encoding(fenc(k.enc)); is(c, f, k, u, "URL " + show(u) + " with explicit settings");
}
SCENARIO(standard_streams, 2000, 50000) {
    bool dash = c.chance(50); c.desc << (dash ? "-" : "empty"); c.nontrivial(); OSMFile f(dash ? "-" : ""); is(c, f, {OSM, PBF}, "", "standard stream"); Kind k = {OSM, PBF}; std::string name;
    while (c.more(70)) { if (c.chance(50)) { k.type = c.upto(2); f.type(ftype(k.type)); } else { k.enc = c.upto(3); f.encoding(fenc(k.enc)); } if (c.chance(30)) f.filename(c.chance(50) ? "-" : ""); c.desc << " " << k.type << k.enc; is(c, f, k, name, "standard stream with explicit settings"); }
}
struct Setting { const char* name; int value; };
static const std::vector<Setting> TYPES = {{"osm", OSM}, {"history", HISTORY}, {"osh", HISTORY}, {"change", CHANGE}, {"osc", CHANGE}};
static const std::vector<Setting> ENCS = {{"pbf", PBF}, {"xml", XML}, {"xmlgz", GZ}, {"gz", GZ}, {"xmlbz2", BZ2}, {"bz2", BZ2}};
static std::string unknown_setting(Ctx& c, const std::vector<Setting>& known) {
    std::string s; switch (c.upto(4)) { case 0: s = raw(c, ""); break; case 1: { s = c.pick(known).name; s[c.upto(s.size() - 1)] ^= 32; break; } case 2: s = std::string(c.pick(known).name) + (c.chance(50) ? " " : "x"); break; case 3: s = c.pick(known).name; s.pop_back(); break; default: s = &known == &TYPES ? c.pick(ENCS).name : c.pick(TYPES).name; }
    for (auto& k : known) if (s == k.name) throw pbt::Discard(); return s;
}
SCENARIO(settings, 100000, 1500000) {
    Name n = gen_name(c); open_names(n); OSMFile f(n.all); Kind k = expected(n); std::string name = shown(n.all); c.desc << show(n.all); size_t ops = 0;
    while (c.more(85)) {
        OSMFile* r = &f; ++ops;
        switch (c.upto(8)) {
            case 0: { auto& s = c.pick(TYPES); c.desc << " type(" << s.name << ")"; r = &f.type(s.name); k.type = s.value; break; }
            case 1: { auto& s = c.pick(ENCS); c.desc << " encoding(" << s.name << ")"; r = &f.encoding(s.name); k.enc = s.value; break; }
            case 2: k.type = c.upto(2); c.desc << " type " << k.type; r = &f.type(ftype(k.type)); break;
            case 3: k.enc = c.upto(3); c.desc << " encoding " << k.enc; r = &f.encoding(fenc(k.enc)); break;
            case 4: case 5: {
                bool t = c.chance(50); std::string s = unknown_setting(c, t ? TYPES : ENCS); c.desc << (t ? " type(" : " encoding(") << show(s) << ")"; bool refused = false; c.label("unknown setting");
                try { if (t) f.type(s); else f.encoding(s); } catch (const OSMFile::ArgumentError& e) { refused = true; c.check(e.value() == s, "the refused value is reported as " + show(e.value()) + " instead of " + show(s)); }
                c.check(refused, std::string(t ? "type " : "encoding ") + show(s) + " is accepted"); break; }
            case 6: { Name m = gen_name(c); c.desc << " filename(" << show(m.all) << ")"; r = &f.filename(m.all); name = shown(m.all); break; }
            case 7: { std::string s = suffix(c); c.desc << " suffix(" << show(s) << ")"; f.set_type_and_encoding(s); k = table().count(s) ? table().at(s) : Kind{OSM, PBF}; break; }
            default: { Name m = gen_name(c); open_names(m); c.desc << " copy"; OSMFile g(f); is(c, g, k, name, "copy"); OSMFile h(m.all); h = f; is(c, h, k, name, "assigned file"); g.type(ftype(c.upto(2))).encoding(fenc(c.upto(3))).filename("changed.osc"); is(c, f, k, name, "file whose copy was changed"); f = h; }
        }
        c.check(r == &f, "a setter returns another file"); is(c, f, k, name, "after " + std::to_string(ops) + " operations");
    }
    c.nontrivial(ops > 1);
}
SCENARIO(default_suffix, 120000, 2000000) {
    Name n = gen_name(c); open_names(n); if (n.all == "-") throw pbt::Discard(); OSMFile f(n.all); Kind k = expected(n); c.desc << show(n.all, 100); bool set = c.chance(60); if (set) { k.type = c.upto(2); k.enc = c.upto(3); f.type(ftype(k.type)).encoding(fenc(k.enc)); c.desc << " " << k.type << k.enc; }
    if (c.chance(20)) { Name m = gen_name(c); if (m.all == "-") throw pbt::Discard(); f.filename(m.all); n = m; c.desc << " " << show(m.all, 100); }
    static const char* T[] = {".osm", ".osh", ".osc"}; static const char* E[] = {".pbf", "", ".gz", ".bz2"}; std::string suf = std::string(T[k.type]) + E[k.enc];
    std::string got = f.filename_with_default_suffix(); c.nontrivial(set || n.all.find('/') != std::string::npos); c.check(got == n.stem + suf, "name with default suffix is " + show(got) + " instead of " + show(n.stem + suf));
    is(c, f, k, n.all, "file afterwards");
    if (!table().count(suf.substr(1)) || looks_like_url(got)) { c.label("no such suffix"); return; }
    OSMFile g(got); is(c, g, k, got, "file " + show(got)); c.check(g.filename_without_suffix() == n.stem && g.filename_with_default_suffix() == got, "stripping and adding the suffix again gives " + show(g.filename_with_default_suffix()));
}
