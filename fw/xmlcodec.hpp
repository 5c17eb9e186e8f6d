// Independent reading of OSM XML (expat used directly) and ISO timestamps.
#ifndef VERIF_XMLCODEC_HPP
#define VERIF_XMLCODEC_HPP
#include "model.hpp"
#include <expat.h>
#include <zlib.h>

namespace xmlcodec {

using namespace model;

// days since 1970-01-01 <-> civil date (proleptic Gregorian calendar)
inline int64_t days_from_civil(int64_t y, int m, int d) {
    y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
    int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
inline std::string iso(int64_t t) {
    int64_t days = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --days; }
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) ++y;
    char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", (int)y, (int)m, (int)d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
    return b;
}
inline bool parse_iso(const std::string& s, int64_t& t) {
    int y, mo, d, h, mi, se; char z; int n = 0;
    if (sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%c%n", &y, &mo, &d, &h, &mi, &se, &z, &n) != 7 || z != 'Z' || (size_t)n != s.size() || s.size() != 20) return false;
    t = days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se; return true;
}
// seven-decimal text -> fixed point, exactly; false if it is not such a number
inline bool parse_fixed(const std::string& s, int64_t& v) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-')) { neg = true; ++i; }
    size_t d0 = i; int64_t w = 0; while (i < s.size() && isdigit((unsigned char)s[i]) && i - d0 < 10) w = w * 10 + (s[i++] - '0');
    if (i == d0) return false;
    int64_t f = 0; int n = 0;
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i]) && n < 7) { f = f * 10 + (s[i++] - '0'); ++n; } if (!n) return false; }
    if (i != s.size()) return false;
    while (n++ < 7) f *= 10;
    v = w * 10000000 + f; if (neg) v = -v; return true;
}

struct Doc {
    std::string root; std::map<std::string, std::string> rattr;
    std::vector<Obj> objs; std::vector<std::string> section;
    std::vector<std::map<std::string, std::string>> attrs; // raw attributes of each object
    Box box; std::string error;
    std::vector<std::string> stack;
};
inline int64_t num(Doc& d, const std::string& s) { char* e; errno = 0; long long v = strtoll(s.c_str(), &e, 10); if (*e || s.empty() || errno) d.error = "bad number " + s; return v; }
inline void start(void* u, const char* el, const char** a) {
    Doc& d = *(Doc*)u; std::map<std::string, std::string> at;
    for (int i = 0; a[i]; i += 2) at[a[i]] = a[i + 1];
    std::string e = el, parent = d.stack.empty() ? "" : d.stack.back();
    d.stack.push_back(e);
    int kind = e == "node" ? 0 : e == "way" ? 1 : e == "relation" ? 2 : -1;
    bool in_obj = parent == "node" || parent == "way" || parent == "relation";
    if (d.stack.size() == 1) { d.root = e; d.rattr = at; if (e != "osm" && e != "osmChange") d.error = "root element " + e; }
    else if (kind >= 0) {
        bool chg = d.root == "osmChange";
        if (chg ? (d.stack.size() != 3 || (parent != "create" && parent != "modify" && parent != "delete")) : d.stack.size() != 2) d.error = "object in wrong place under " + parent;
        Obj o; o.kind = kind; bool y = false, x = false;
        for (auto& t : at) {
            const std::string& k = t.first; const std::string& v = t.second; int64_t f;
            if (k == "id") o.id = num(d, v); else if (k == "version") o.version = num(d, v); else if (k == "changeset") o.changeset = num(d, v);
            else if (k == "uid") o.uid = num(d, v); else if (k == "user") o.user = v; else if (k == "timestamp") { if (!parse_iso(v, o.timestamp)) d.error = "bad timestamp " + v; }
            else if (k == "visible") { if (v != "true" && v != "false") d.error = "bad visible " + v; o.visible = v == "true"; }
            else if (kind == 0 && (k == "lat" || k == "lon")) { if (!parse_fixed(v, f)) d.error = "bad coordinate " + v; if (k == "lat") { o.y = f; y = true; } else { o.x = f; x = true; } }
            else d.error = "unknown attribute " + k;
        }
        if (!at.count("id")) d.error = "object without id"; if (x != y) d.error = "only one coordinate";
        d.objs.push_back(o); d.section.push_back(chg ? parent : ""); d.attrs.push_back(at);
    } else if (in_obj && e == "tag") { if (!at.count("k") || !at.count("v") || at.size() != 2) d.error = "bad tag"; d.objs.back().tags.push_back(Tag{at["k"], at["v"]}); }
    else if (parent == "way" && e == "nd") { if (!at.count("ref") || at.size() != 1) d.error = "bad nd"; d.objs.back().refs.push_back(num(d, at["ref"])); }
    else if (parent == "relation" && e == "member") {
        std::string t = at["type"]; if ((t != "node" && t != "way" && t != "relation") || !at.count("ref") || !at.count("role") || at.size() != 3) d.error = "bad member";
        d.objs.back().members.push_back(Member{t[0], num(d, at["ref"]), at["role"]});
    } else if (d.stack.size() == 2 && e == "bounds") {
        if (d.box.def || !d.objs.empty()) d.error = "misplaced bounds"; int64_t v[4]; const char* n[4] = {"minlon", "minlat", "maxlon", "maxlat"};
        for (int i = 0; i < 4; ++i) if (!parse_fixed(at[n[i]], v[i])) d.error = "bad bounds"; 
        d.box.def = true; d.box.x1 = v[0]; d.box.y1 = v[1]; d.box.x2 = v[2]; d.box.y2 = v[3];
    } else if (d.root == "osmChange" && d.stack.size() == 2 && (e == "create" || e == "modify" || e == "delete")) {}
    else d.error = "unexpected element " + e + " in " + parent;
}
inline void end(void* u, const char*) { ((Doc*)u)->stack.pop_back(); }
inline Doc parse(const std::string& bytes) {
    Doc d; XML_Parser p = XML_ParserCreate(nullptr); XML_SetUserData(p, &d); XML_SetElementHandler(p, start, end);
    if (XML_Parse(p, bytes.data(), bytes.size(), 1) == XML_STATUS_ERROR) d.error = std::string("not well-formed: ") + XML_ErrorString(XML_GetErrorCode(p));
    XML_ParserFree(p); return d;
}
inline std::string gunzip(const std::string& f) {
    std::string s; gzFile g = gzopen(f.c_str(), "rb"); if (!g) return s; char b[65536]; int n; while ((n = gzread(g, b, sizeof b)) > 0) s.append(b, n); if (n < 0) s += "<broken gzip>"; gzclose(g); return s;
}
inline std::string shell(const std::string& cmd) { std::string s; FILE* p = popen(cmd.c_str(), "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); pclose(p); return s; }
inline std::string content(const std::string& f, int enc) { return enc == 2 ? gunzip(f) : enc == 3 ? shell("bzcat '" + f + "'") : slurp(f); }

} // namespace xmlcodec
#endif
