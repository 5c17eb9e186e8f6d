// Independent parser of the text the debug handler and the dump tools print.
#ifndef VERIF_DEBUGDUMP_HPP
#define VERIF_DEBUGDUMP_HPP
#include "io.hpp"
#include "xmlcodec.hpp"

namespace dump {
using namespace model;
struct Parsed { std::string events; std::vector<Obj> objs; std::string generator, bounds, error; std::vector<bool> has_visible; };

struct Lines {
    std::vector<std::string> l; size_t p = 0; std::string err;
    Lines(const std::string& s) { size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) { err = "last line is not ended"; e = s.size(); } l.push_back(s.substr(i, e - i)); i = e + 1; } }
    bool end() const { return p >= l.size(); }
    bool fail(const std::string& e) { if (err.empty()) err = "line " + std::to_string(p + 1) + ": " + e + (p < l.size() ? ", got " + show(l[p], 80) : ", got the end"); return false; }
    // the next line must start with this prefix; gives the rest
    bool take(const std::string& prefix, std::string& rest) { if (end() || l[p].compare(0, prefix.size(), prefix)) return fail("expected " + show(prefix)); rest = l[p].substr(prefix.size()); ++p; return true; }
    bool num(const std::string& prefix, int64_t& v) { std::string r; if (!take(prefix, r)) return false; return number(r, v); }
    bool number(const std::string& r, int64_t& v) {
        if (r.empty() || r.size() > 20) { --p; return fail("not a number: " + show(r)); } bool neg = r[0] == '-'; unsigned __int128 x = 0;
        for (size_t i = neg; i < r.size(); ++i) { if (r[i] < '0' || r[i] > '9') { --p; return fail("not a number: " + show(r)); } x = x * 10 + (r[i] - '0'); }
        if (r.size() == (size_t)neg || (r.size() > 1u + neg && r[neg] == '0')) { --p; return fail("not a number: " + show(r)); } v = neg ? (int64_t)(0 - (uint64_t)x) : (int64_t)x; return true;
    }
    bool bars(const std::string& r, std::string& v) { if (r.size() < 2 || r[0] != '|' || r.back() != '|') { --p; return fail("no text between bars"); } v = r.substr(1, r.size() - 2); return true; }
    bool time(const std::string& prefix, int64_t& t) { std::string r; if (!take(prefix, r)) return false; if (r.empty()) { t = 0; return true; } if (!xmlcodec::parse_iso(r, t)) { --p; return fail("not a timestamp: " + show(r)); } return true; }
    bool fixed7(const std::string& prefix, int64_t& v) {
        std::string r; if (!take(prefix, r)) return false; bool neg = !r.empty() && r[0] == '-'; size_t d = r.find('.');
        if (d == std::string::npos || r.size() - d != 8 || d == (size_t)neg) { --p; return fail("not a number with seven decimals"); } v = 0;
        for (size_t i = neg; i < r.size(); ++i) if (i != d) { if (r[i] < '0' || r[i] > '9') { --p; return fail("not a number with seven decimals"); } v = v * 10 + (r[i] - '0'); } if (neg) v = -v; return true;
    }
};
inline Parsed parse(const std::string& text) {
    Parsed d; Lines in(text); std::string r; int64_t n;
    while (!in.end() && in.err.empty()) {
        std::string h = in.l[in.p++];
        if (h == "meta:") { d.events += 'i'; if (!in.take("  generator=", d.generator)) break; if (!in.end() && in.l[in.p].compare(0, 9, "  bounds=") == 0) in.take("  bounds=", d.bounds); continue; }
        static const std::map<std::string, char> E = {{"before_nodes", 'N'}, {"after_nodes", 'e'}, {"before_ways", 'W'}, {"after_ways", 'v'}, {"before_relations", 'R'}, {"after_relations", 's'}, {"final", 'f'}};
        auto e = E.find(h); if (e != E.end()) { d.events += e->second; continue; }
        Obj o; if (h == "node:") o.kind = 0; else if (h == "way:") o.kind = 1; else if (h == "relation:") o.kind = 2; else { --in.p; in.fail("unknown line"); break; }
        d.events += "nwr"[o.kind];
        if (!in.num("  id=", o.id)) break; if (!in.num("  version=", n)) break; o.version = n; if (!in.num("  uid=", n)) break; o.uid = n;
        if (!in.take("  user=", r) || !in.bars(r, o.user)) break; if (!in.num("  changeset=", n)) break; o.changeset = n; if (!in.time("  timestamp=", o.timestamp)) break;
        bool vis = !in.end() && in.l[in.p].compare(0, 10, "  visible=") == 0; d.has_visible.push_back(vis);
        if (vis) { in.take("  visible=", r); if (r != "yes" && r != "no") { in.fail("visible is " + show(r)); break; } o.visible = r == "yes"; if (!in.time("  endtime=", o.endtime)) break; }
        if (!in.take("  tags: (count=", r) || r.empty() || r.back() != ')') { in.fail("no tag count"); break; } r.pop_back(); if (!in.number(r, n)) break;
        for (int64_t i = 0; i < n && in.err.empty(); ++i) { if (!in.take("    k=|", r)) break; size_t m = r.find("| v=|"); if (m == std::string::npos || r.back() != '|' || r.size() < m + 6) { --in.p; in.fail("no tag"); break; } o.tags.push_back(Tag{r.substr(0, m), r.substr(m + 5, r.size() - m - 6)}); }
        if (!in.err.empty()) break;
        if (o.kind == 0) { int64_t x, y; if (!in.fixed7("  lon=", x) || !in.fixed7("  lat=", y)) break; o.x = x; o.y = y; }
        else if (o.kind == 1) { if (!in.num("  node_count=", n) || !in.take("  nodes:", r)) break; for (int64_t i = 0; i < n && in.err.empty(); ++i) { int64_t v; if (in.num("    ref=", v)) o.refs.push_back(v); } }
        else { if (!in.take("  members: (count=", r) || r.empty() || r.back() != ')') { in.fail("no member count"); break; } r.pop_back(); if (!in.number(r, n)) break;
            for (int64_t i = 0; i < n; ++i) { if (!in.take("    type=", r)) break; Member m; m.type = r.empty() ? 0 : r[0]; size_t q = r.find(" role="); if (r.compare(1, 5, " ref=") || q == std::string::npos) { --in.p; in.fail("no member"); break; } if (!in.number(r.substr(6, q - 6), m.ref) || !in.bars(r.substr(q + 6), m.role)) break; o.members.push_back(m); } }
        if (in.err.empty()) d.objs.push_back(o);
    }
    d.error = in.err; return d;
}
} // namespace dump
#endif
