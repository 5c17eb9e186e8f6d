// Generator of OSM XML documents in all the forms XML allows, together with what they mean.
#ifndef VERIF_XMLGEN_HPP
#define VERIF_XMLGEN_HPP
#include "io.hpp"
#include "xmlcodec.hpp"

namespace xmlgen {

using namespace model;

struct Doc {
    bool change = false; std::string bytes; std::string generator; Box box; std::vector<Obj> objs;
    std::vector<size_t> ends;           // offset just after the closing tag of each object
    size_t root_end = 0;                // offset just after the closing tag of the root element
    std::vector<std::string> features;
    void has(const std::string& f) { if (std::find(features.begin(), features.end(), f) == features.end()) features.push_back(f); }
};

struct Emitter {
    Ctx& c; Doc& d; bool fancy; int enc = 0;  // 0 UTF-8, 1 ISO-8859-1, 2 US-ASCII, 3 UTF-16 (LE with BOM), 4 UTF-8 with BOM
    std::string out;
    Emitter(Ctx& cc, Doc& dd, bool f) : c(cc), d(dd), fancy(f) {}
    bool yes(unsigned p) { return fancy && c.chance(p); }

    static std::vector<uint32_t> cps(const std::string& s) {
        std::vector<uint32_t> v; for (size_t i = 0; i < s.size();) { unsigned char a = s[i]; int n = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4; uint32_t p = n == 1 ? a : a & (0xff >> (n + 1)); for (int k = 1; k < n; ++k) p = p << 6 | (s[i + k] & 63); v.push_back(p); i += n; } return v;
    }
    void raw(const std::string& s) { out += s; }
    void ws() { if (!fancy) return; switch (c.weighted({60, 20, 10, 10})) { case 0: raw("\n"); break; case 1: raw(""); break; case 2: raw(" \t\r\n  "); break; default: comment(); break; } }
    void comment() {
        d.has("comments and processing instructions");
        switch (c.upto(3)) { case 0: raw("<!-- a comment with <node id='1'/> in it -->"); break; case 1: raw("<?pi some <data> here?>"); break; case 2: raw("<!---->"); break; default: raw("\n<!--" + std::string(c.upto(300), 'x') + "-->\n"); break; }
    }
    std::string esc(const std::string& v, char q) {
        std::string o;
        for (uint32_t p : cps(v)) {
            bool must = p == '<' || p == '&' || (uint32_t)(unsigned char)q == p || p == '\n' || p == '\r' || p == '\t' || (enc == 1 && p > 0xff) || (enc == 1 && p >= 0x80 && p < 0xa0) || (enc == 2 && p > 0x7f);
            if (must || yes(4)) {
                if (yes(50) || !fancy || must) {
                    if ((p == '<' || p == '&' || p == '>' || p == '"' || p == '\'') && (!fancy || c.chance(60))) { o += p == '<' ? "&lt;" : p == '&' ? "&amp;" : p == '>' ? "&gt;" : p == '"' ? "&quot;" : "&apos;"; continue; }
                    char b[20]; snprintf(b, sizeof b, yes(50) ? "&#x%X;" : "&#%u;", p); o += b; d.has("character references"); continue;
                }
            }
            put_utf8(o, p);
        }
        return o;
    }
    void attr(std::string& o, const std::string& k, const std::string& v) {
        char q = yes(40) ? '\'' : '"'; o += yes(10) ? " \n\t" : " "; o += k; if (yes(8)) o += " "; o += "="; if (yes(8)) o += "\n"; o += q; o += esc(v, q); o += q;
    }
    // a name no element has a meaning for, often close to one that has
    std::string unknown_name() {
        static const std::vector<std::string> known = {"id", "version", "timestamp", "changeset", "uid", "user", "visible", "lat", "lon", "k", "v", "ref", "type", "role", "minlat", "minlon", "maxlat", "maxlon", "generator"};
        if (c.chance(30)) return c.pick(std::vector<std::string>{"unknown", "action", "xml:space", "note", "idx", "lati", "K", "Version", "box", "copyright", "endtime"});
        std::string n = c.pick(known);
        switch (c.upto(4)) { case 0: n += c.pick(std::vector<std::string>{"x", "_", "2", "s", "id", "-"}); break; case 1: n = c.pick(std::vector<std::string>{"x", "_", "old"}) + n; break; case 2: if (n.size() > 1) n.pop_back(); else n += n; break; case 3: n[0] = toupper(n[0]); break; default: if (n.size() > 1) n.erase(0, 1); else n += "al"; break; }
        if (std::find(known.begin(), known.end(), n) != known.end()) n += "_"; return n;
    }
    void elem_open(const std::string& name, std::vector<std::pair<std::string, std::string>> at, bool empty) {
        if (yes(60)) { for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[c.upto(i - 1)]); d.has("attributes in any order"); }
        if (yes(10)) { std::string n = unknown_name(); bool twice = false; for (auto& a : at) twice |= a.first == n; if (!twice) { at.insert(at.begin() + c.upto(at.size()), {n, c.pick(std::vector<std::string>{"", "17", "x<y", "false", "2012-01-01T00:00:00Z"})}); d.has("unknown attributes"); } }
        std::string o = "<" + name; for (auto& a : at) attr(o, a.first, a.second); if (yes(10)) o += " "; o += empty ? "/>" : ">"; raw(o);
    }
    void leaf(const std::string& name, const std::vector<std::pair<std::string, std::string>>& at) { bool e = !yes(20); elem_open(name, at, e); if (!e) { if (yes(30)) raw(c.chance(50) ? "text" : "<![CDATA[<tag k='a' v='b'/>]]>"); raw("</" + name + (yes(10) ? " " : "") + ">"); } }
    static std::string fixed(int64_t v, int digits) { char b[40]; int64_t a = v < 0 ? -v : v; snprintf(b, sizeof b, "%s%lld.%07lld", v < 0 ? "-" : "", (long long)(a / 10000000), (long long)(a % 10000000)); std::string s = b; while (digits < 7 && s.back() == '0') { s.pop_back(); if (s.back() == '.') { s.pop_back(); break; } } return s; }
    std::string coord(int64_t v) { std::string s = fixed(v, fancy && c.chance(50) ? 0 : 7); if (yes(10)) { if (s.find('.') != std::string::npos) s += "00"; d.has("more decimals"); } if (yes(5) && v > 0) s = "+" + s; return s; }

    void object(Obj& o, const std::string& section) {
        std::vector<std::pair<std::string, std::string>> at; at.push_back({"id", std::to_string(o.id)});
        if (o.version || yes(30)) at.push_back({"version", std::to_string(o.version)});
        if (o.timestamp) at.push_back({"timestamp", xmlcodec::iso(o.timestamp)});
        if (o.changeset || yes(30)) at.push_back({"changeset", std::to_string(o.changeset)});
        if (o.uid != -1) at.push_back({"uid", std::to_string(o.uid)});
        if (!o.user.empty()) at.push_back({"user", o.user});
        bool dflt = section != "delete";
        if (o.visible != dflt || yes(30)) at.push_back({"visible", o.visible ? "true" : "false"});
        if (o.kind == 0 && o.defined()) { at.push_back({"lat", coord(o.y)}); at.push_back({"lon", coord(o.x)}); }
        const char* name = o.kind == 0 ? "node" : o.kind == 1 ? "way" : "relation";
        bool empty = o.tags.empty() && o.refs.empty() && o.members.empty();
        if (empty && !yes(40)) { elem_open(name, at, true); d.ends.push_back(out.size()); return; }
        elem_open(name, at, false);
        size_t t = 0, r = 0, nr = o.kind == 1 ? o.refs.size() : o.members.size();
        while (t < o.tags.size() || r < nr) {
            ws(); if (yes(3)) comment();
            bool tag = r >= nr || (t < o.tags.size() && yes(40)); if (tag && r < nr) d.has("tags before references");
            if (tag) { leaf("tag", {{"k", o.tags[t].k}, {"v", o.tags[t].v}}); ++t; }
            else if (o.kind == 1) leaf("nd", {{"ref", std::to_string(o.refs[r++])}});
            else { auto& m = o.members[r++]; leaf("member", {{"type", m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation"}, {"ref", std::to_string(m.ref)}, {"role", m.role}}); }
        }
        ws(); raw(std::string("</") + name + ">"); d.ends.push_back(out.size());
    }
    void unknown_top() {
        d.has("unknown elements at top level");
        switch (c.upto(3)) { case 0: leaf("note", {{"id", "5"}}); break; case 1: raw("<meta osm_base=\"2012-01-01T00:00:00Z\"/>"); break; case 2: raw("<changeset id='3' min_lat='1'></changeset>"); break; default: raw("<remark>some text &amp; more</remark>"); break; }
    }
    void document() {
        if (fancy) enc = c.weighted({60, 10, 10, 10, 10});
        static const char* names[] = {"UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "utf-8"};
        if (enc == 0 ? !yes(30) : true) { std::string q = yes(30) ? "'" : "\""; raw("<?xml version=" + q + "1.0" + q + (enc || yes(60) ? " encoding=" + q + names[enc] + q : "") + (yes(20) ? " standalone='yes'" : "") + "?>"); }
        if (enc) d.has(std::string("encoding ") + names[enc]);
        ws(); if (yes(10)) { raw(d.change ? "<!DOCTYPE osmChange>" : "<!DOCTYPE osm>"); d.has("document type"); }
        std::vector<std::pair<std::string, std::string>> at; if (!yes(5)) at.push_back({"version", "0.6"}); if (!d.generator.empty()) at.push_back({"generator", d.generator});
        const char* root = d.change ? "osmChange" : "osm";
        elem_open(root, at, false);
        if (d.box.def) { ws(); leaf("bounds", {{"minlat", coord(d.box.y1)}, {"minlon", coord(d.box.x1)}, {"maxlat", coord(d.box.y2)}, {"maxlon", coord(d.box.x2)}}); }
        std::string section;
        for (auto& o : d.objs) {
            ws(); if (yes(8)) unknown_top();
            if (d.change) {
                // a section fits any object; only delete says something about it
                std::string want = section;
                if (section.empty() || c.chance(30)) want = c.pick(std::vector<std::string>{"modify", "create", "delete"});
                if (want != section || yes(10)) { if (!section.empty()) raw("</" + section + ">"); ws(); section = want; elem_open(section, {}, false); ws(); }
                if (section == "delete") d.has("delete section");
                if (section == "delete" && o.visible) d.has("visible object in delete section");
            }
            object(o, section);
        }
        if (!section.empty()) { ws(); raw("</" + section + ">"); }
        ws(); if (d.change && yes(20)) { raw("<delete/>"); }
        raw(std::string("</") + root + ">"); d.root_end = out.size(); if (!fancy || yes(60)) raw("\n"); if (yes(10)) comment();
        finish();
    }
    void finish() {
        if (enc == 4) { d.bytes = "\xef\xbb\xbf" + out; for (auto& e : d.ends) e += 3; d.root_end += 3; }
        else if (enc == 1 || enc == 3) {
            // positions in the document move with the encoding
            std::string b; if (enc == 3) b = "\xff\xfe"; std::vector<size_t> ends; size_t k = 0, i = 0, re = 0;
            auto mark = [&] { while (k < d.ends.size() && d.ends[k] <= i) { ends.push_back(b.size()); ++k; } if (!re && i >= d.root_end) re = b.size(); };
            while (i < out.size()) {
                unsigned char a = out[i]; int n = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4; uint32_t p = cps(out.substr(i, n))[0];
                if (enc == 1) b += (char)p;
                else if (p < 0x10000) { b += (char)p; b += (char)(p >> 8); } else { uint32_t q = p - 0x10000, h = 0xd800 + (q >> 10), l = 0xdc00 + (q & 0x3ff); b += (char)h; b += (char)(h >> 8); b += (char)l; b += (char)(l >> 8); }
                i += n; mark();
            }
            d.bytes = b; d.ends = ends; d.root_end = re;
        } else d.bytes = out;
    }
};

inline Doc gen_doc(Ctx& c, unsigned more = 75, bool fancy = true, bool change_ok = true) {
    Doc d; d.change = change_ok && c.chance(35);
    GenOpts g; g.xml_text = true; g.history = true; g.sorted = c.chance(50); g.more = more; g.undef_pos = true;
    d.objs = gen_objs(c, g); d.box = gen_box(c, g); d.generator = gen_text(c, g);
    for (auto& o : d.objs) { if (o.version > 2147483647u) o.version = 1; o.endtime = 0; if (o.uid < 0) { o.uid = -1; } }
    Emitter e(c, d, fancy); e.document();
    return d;
}
inline void describe(Ctx& c, const Doc& d) {
    c.desc << (d.change ? "change " : "") << d.objs.size() << " objects, " << d.bytes.size() << " bytes;"; for (auto& f : d.features) { c.desc << " [" << f << "]"; c.label(f); }
    c.desc << "\n" << (d.bytes.size() < 900 ? show(d.bytes, 900) : show(d.bytes.substr(0, 900), 900) + "...") << "\n";
}
} // namespace xmlgen
#endif
