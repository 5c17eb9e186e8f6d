// Independent reader of shapefiles, for checks built against the stand-in for GEOS.
#ifndef VERIF_SHPREAD_HPP
#define VERIF_SHPREAD_HPP
#include "area_all.hpp"
#include "io.hpp"
#include "tool.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <shapefil.h>
using namespace areas;

inline std::string fresh(Ctx& c) { std::string d = c.path("d"); std::string cmd; std::function<void(const std::string&)> del = [&](const std::string& p) { if (DIR* h = opendir(p.c_str())) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat st; if (!lstat(q.c_str(), &st)) { if (S_ISDIR(st.st_mode)) del(q); else unlink(q.c_str()); } } closedir(h); rmdir(p.c_str()); } }; del(d); mkdir(d.c_str(), 0755); return d; }
// ---- independent reader
inline uint32_t be(const std::string& s, size_t i) { return (uint8_t)s.at(i) << 24 | (uint8_t)s.at(i + 1) << 16 | (uint8_t)s.at(i + 2) << 8 | (uint8_t)s.at(i + 3); }
inline uint32_t le(const std::string& s, size_t i) { return (uint8_t)s.at(i + 3) << 24 | (uint8_t)s.at(i + 2) << 16 | (uint8_t)s.at(i + 1) << 8 | (uint8_t)s.at(i); }
inline double dbl(const std::string& s, size_t i) { double d; s.at(i + 7); memcpy(&d, s.data() + i, 8); return d; }
typedef std::vector<std::pair<double, double>> Line; typedef std::vector<Line> Shape;
struct FieldDef { std::string name; char type; int width, dec; bool operator==(const FieldDef& o) const { return name == o.name && type == o.type && width == o.width && dec == o.dec; } };
struct Dbf { std::vector<FieldDef> fields; std::vector<std::vector<std::string>> recs; uint32_t nrec; int reclen, hdr; };
inline std::string str(const Shape& s) { std::ostringstream o; o.precision(12); for (auto& l : s) { o << "("; for (auto& p : l) o << p.first << " " << p.second << ","; o << ")"; } return o.str(); }

inline std::vector<Shape> read_shp(Ctx& c, const std::string& f, int type) {
    std::string s = tool::take(f + ".shp"), x = tool::take(f + ".shx"); std::vector<Shape> r; auto head = [&](const std::string& t, const char* n) { c.check(t.size() >= 100, std::string(n) + " has no header (" + std::to_string(t.size()) + " bytes)"); c.check(be(t, 0) == 9994 && le(t, 28) == 1000, std::string("header of ") + n); c.eq((size_t)be(t, 24) * 2, t.size(), std::string("size in the header of ") + n); c.eq((int)le(t, 32), type, std::string("type in the header of ") + n); }; head(s, ".shp"); head(x, ".shx");
    size_t p = 100, n = 0; double box[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY};
    while (p < s.size()) { ++n; c.eq((size_t)be(s, p), n, "number of a record"); size_t len = be(s, p + 4) * 2; c.check(x.size() >= 100 + 8 * n && be(x, 100 + 8 * (n - 1)) * 2 == p && be(x, 104 + 8 * (n - 1)) * 2 == len, "entry " + std::to_string(n) + " of the index"); p += 8; c.eq((int)le(s, p), type, "type of a record"); Shape h;
        if (type == SHPT_POINT) { c.eq(len, (size_t)20, "size of a point"); h.push_back(Line{{dbl(s, p + 4), dbl(s, p + 12)}}); } else { size_t np = le(s, p + 36), nv = le(s, p + 40); c.eq(len, 44 + 4 * np + 16 * nv, "size of a record"); double b[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY}; for (size_t i = 0; i < np; ++i) { size_t a = le(s, p + 44 + 4 * i), e = i + 1 < np ? le(s, p + 48 + 4 * i) : nv; c.check(a < e && e <= nv && (i || !a), "start of a part"); Line l; for (size_t k = a; k < e; ++k) { double u = dbl(s, p + 44 + 4 * np + 16 * k), v = dbl(s, p + 52 + 4 * np + 16 * k); l.emplace_back(u, v); b[0] = std::min(b[0], u); b[1] = std::min(b[1], v); b[2] = std::max(b[2], u); b[3] = std::max(b[3], v); } h.push_back(l); } for (int i = 0; i < 4; ++i) c.check(dbl(s, p + 4 + 8 * i) == b[i], "bounds of a record"); }
        for (auto& l : h) for (auto& q : l) { box[0] = std::min(box[0], q.first); box[1] = std::min(box[1], q.second); box[2] = std::max(box[2], q.first); box[3] = std::max(box[3], q.second); } r.push_back(h); p += len; }
    c.eq(p, s.size(), "end of the records"); c.eq(x.size(), 100 + 8 * n, "size of the index"); if (n) for (int i = 0; i < 4; ++i) c.check(dbl(s, 36 + 8 * i) == box[i], "bounds of the file"); return r;
}
inline Dbf read_dbf(Ctx& c, const std::string& s, bool whole = true) {
    Dbf d; c.check(s.size() >= 33 && (uint8_t)s[0] == 3, "header of .dbf"); d.nrec = le(s, 4); d.hdr = (uint8_t)s[8] | (uint8_t)s[9] << 8; d.reclen = (uint8_t)s[10] | (uint8_t)s[11] << 8; c.check(d.hdr >= 33 && (d.hdr - 33) % 32 == 0 && (size_t)d.hdr <= s.size() && s[d.hdr - 1] == 13, "length of the header of .dbf"); int sum = 1;
    for (int p = 32; p < d.hdr - 1; p += 32) { FieldDef f; f.name = std::string(s.data() + p, 11).c_str(); f.type = s[p + 11]; f.width = (uint8_t)s[p + 16]; f.dec = (uint8_t)s[p + 17]; d.fields.push_back(f); sum += f.width; } if (!whole) { c.eq(d.reclen, sum, "length of a record"); return d; }
    if (!d.fields.empty()) c.eq(d.reclen, sum, "length of a record"); size_t end = d.hdr + (size_t)d.nrec * d.reclen; c.check(s.size() == end || (s.size() == end + 1 && s[end] == 26), "size of .dbf: " + std::to_string(s.size()) + " instead of " + std::to_string(end));
    for (size_t r = 0; r < d.nrec; ++r) { size_t p = d.hdr + r * d.reclen; c.check(s[p] == ' ', "mark of a deleted record"); ++p; std::vector<std::string> v; for (auto& f : d.fields) { v.push_back(s.substr(p, f.width)); p += f.width; } d.recs.push_back(v); } return d;
}
inline void side_files(Ctx& c, const std::string& f) { std::string p = tool::take(f + ".prj"), g = tool::take(f + ".cpg"); c.check(p.compare(0, 25, "GEOGCS[\"GCS_WGS_1984\",DAT") == 0 && p.find("6378137,298.257223563") != p.npos, "coordinate system in .prj: " + show(p, 100)); c.check(g == "UTF-8\n", "encoding in .cpg: " + show(g, 50)); }
// what a value looks like in a record
inline bool missing(const std::string& s) { char ch = s[0]; if (ch != ' ' && ch != '*' && ch != '?' && ch != '\0' && ch != '0') return false; return s.find_first_not_of(ch) == s.npos; }
inline std::string padded(std::string s, size_t w) { s.resize(w, ' '); return s; }
inline std::string num(double d, int w, int dec) { char b[512]; snprintf(b, sizeof b, "%*.*f", w, dec, d); return b; }
#endif
