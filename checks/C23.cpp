// Tags are listed, looked up and rendered without loss.
// LIBS: pbf xml
#include "model.hpp"
#include <osmium/tags/to_string.hpp>
#include <osmium/osm/tag_ostream.hpp>
#include <numeric>
using namespace model;
namespace T = Osmium::Tags; typedef Osmium::OSM::Tag OTag; typedef Osmium::OSM::TagList TagList;

RULE("a case counts as non-trivial if there are at least two tags, or a character that is escaped; distinct by description");
ASSUME("text holds no NUL character; what is rendered for a tag is not empty");

static std::string text(Ctx& c) { static const std::vector<std::string> w = {"", "a", "name", "highway", "\"", "\\", "\\\"", "a\"b", "=>", ",", "\"=>\"", "a=b", "\n", "\\\\", "NULL", "\xc3\xa4", "name:en"}; if (c.chance(60)) return c.pick(w); std::string s; if (c.chance(3)) return std::string(200 + c.upto(3000), (char)(1 + c.upto(254))); while (c.more(82)) s += c.chance(60) ? "ab\"\\=>, '\n\tz"[c.upto(11)] : (char)(1 + c.upto(254)); return s; }
static std::vector<Tag> gen(Ctx& c) { std::vector<Tag> v; while (c.more(78)) { Tag t; t.k = !v.empty() && c.chance(12) ? v[c.upto(v.size() - 1)].k : text(c); t.v = text(c); v.push_back(t); c.desc << show(t.k) << "=" << show(t.v) << " "; } return v; }
static void same(Ctx& c, const TagList& l, const std::vector<Tag>& v, const std::string& what) {
    c.eq(l.size(), (int)v.size(), what + ": size"); c.eq(l.empty(), v.empty(), what + ": empty"); size_t i = 0; for (auto it = l.begin(); it != l.end(); ++it, ++i) { c.check(i < v.size(), what + ": too many tags"); c.check(it->key() == v[i].k && it->value() == v[i].v, what + ": tag " + std::to_string(i) + " is " + show(it->key()) + "=" + show(it->value()) + " instead of " + show(v[i].k) + "=" + show(v[i].v)); c.check(l[i].key() == v[i].k && l[i].value() == v[i].v, what + ": tag by number " + std::to_string(i)); } c.eq(i, v.size(), what + ": tags seen");
}
static const std::string* find(const std::vector<Tag>& v, const std::string& k) { for (auto& t : v) if (t.k == k) return &t.v; return nullptr; }
static void lookup(Ctx& c, const TagList& l, const std::vector<Tag>& v, const std::string& k) { const char* g = l.get_value_by_key(k.c_str()); const std::string* w = find(v, k); if (!w) c.check(!g, "key " + show(k) + " that is not there gives " + (g ? show(g) : "")); else c.check(g && *w == g, "key " + show(k) + " gives " + (g ? show(g) : "nothing") + " instead of " + show(*w)); }

SCENARIO(histories, 25000, 1200000) {
    // several lists, copied and changed in turn, next to their models
    std::vector<TagList> l(1); std::vector<std::vector<Tag>> m(1); size_t ops = 0, most = 0;
    while (c.more(93)) {
        size_t i = c.upto(l.size() - 1);
        switch (c.weighted({60, 14, 4, 10, 6, 6})) {
            case 0: { std::string k = !m[i].empty() && c.chance(15) ? m[i][c.upto(m[i].size() - 1)].k : text(c), v = text(c); { std::string a = k, b = v; l[i].add(a.c_str(), b.c_str()); a.assign(a.size(), 'x'); b.assign(b.size(), 'x'); } m[i].push_back(Tag{k, v}); c.desc << i << "+" << show(k, 12) << "=" << show(v, 12) << " "; break; }
            case 1: { std::string k = !m[i].empty() && c.chance(70) ? m[i][c.upto(m[i].size() - 1)].k : text(c); lookup(c, l[i], m[i], k); break; }
            case 2: l[i].clear(); m[i].clear(); c.desc << i << " clear "; break;
            case 3: if (l.size() < 5) { TagList k(l[i]); l.push_back(k); auto q = m[i]; m.push_back(q); c.desc << "copy " << i << " "; } break;
            case 4: { size_t j = c.upto(l.size() - 1); l[j] = l[i]; auto q = m[i]; m[j] = q; c.desc << j << "=" << i << " "; break; }
            default: if (!m[i].empty()) { size_t n = c.upto(m[i].size() - 1); std::string v = text(c); l[i][n] = OTag("changed", v.c_str()); m[i][n] = Tag{"changed", v}; c.desc << i << "[" << n << "]=" << show(v, 12) << " "; } break;
        }
        ++ops; most = std::max(most, m[i].size());
    }
    c.nontrivial(most > 1); c.label_if(l.size() > 1, "copies"); for (size_t i = 0; i < l.size(); ++i) { same(c, l[i], m[i], "list " + std::to_string(i)); for (auto& t : m[i]) lookup(c, l[i], m[i], t.k); lookup(c, l[i], m[i], "not there"); }
}
SCENARIO(objects, 8000, 300000) { auto v = gen(c); c.nontrivial(v.size() > 1); Osmium::OSM::Way w; for (auto& t : v) w.tags().add(t.k.c_str(), t.v.c_str()); same(c, w.tags(), v, "tags of an object"); Osmium::OSM::Way k(w); w.tags().add("later", "x"); same(c, k.tags(), v, "tags of a copied object"); k.tags().clear(); auto u = v; u.push_back(Tag{"later", "x"}); same(c, w.tags(), u, "tags of an object whose copy was cleared"); for (auto& t : v) { lookup(c, w.tags(), u, t.k); } lookup(c, w.tags(), u, text(c)); }
SCENARIO(single_tags, 15000, 500000) { std::string k = text(c), v = text(c), q = c.chance(50) ? k : text(c), r = c.chance(50) ? v : text(c); c.desc << show(k) << "=" << show(v) << " " << show(q) << "=" << show(r); OTag a(k.c_str(), v.c_str()), b(q.c_str(), r.c_str()); c.nontrivial(k == q || v == r); c.check(a.key() == k && a.value() == v, "tag holds something else"); c.eq(a == b, k == q && v == r, "equality"); c.eq(a != b, !(k == q && v == r), "inequality"); OTag d(a); c.check(d == a, "copy differs"); d = b; c.check(a.key() == k && a.value() == v && d == b, "assignment"); std::ostringstream o; o << a; c.eq(o.str(), k + "=" + v, "tag written to a stream"); }

// ---- rendering
static std::string escaped(const std::string& s, const std::string& esc) { std::string r; for (char ch : s) { if (esc.find(ch) != std::string::npos) r += '\\'; r += ch; } return r; }
SCENARIO(rendering, 25000, 1200000) {
    auto v = gen(c); std::string esc, pre = text(c), in = text(c), suf = text(c), join = text(c); if (pre.empty() && in.empty() && suf.empty()) in = ":"; while (c.more(70)) esc += c.chance(70) ? "\"\\=>,ab"[c.upto(6)] : (char)(1 + c.upto(254)); c.desc << "escape " << show(esc) << " with " << show(pre) << show(in) << show(suf) << show(join); TagList l; std::string want; bool any = false;
    for (auto& t : v) { l.add(t.k.c_str(), t.v.c_str()); if (&t != &v[0]) want += join; want += pre + escaped(t.k, esc) + in + escaped(t.v, esc) + suf; any |= (t.k + t.v).find_first_of(esc) != std::string::npos; } c.nontrivial(v.size() > 1 || any); c.label_if(any, "escaped characters");
    T::TagToStringOp op(esc, pre.c_str(), in.c_str(), suf.c_str(), join.c_str()); std::string got; for (auto it = l.begin(); it != l.end(); ++it) { std::string& r = op(got, *it); c.check(&r == &got, "the operation returns another string"); } c.check(got == want, "rendered as " + show(got, 300) + " instead of " + show(want, 300)); const TagList& k = l; std::string a = std::accumulate(k.begin(), k.end(), std::string(), op); c.check(a == want, "accumulated as " + show(a, 300) + " instead of " + show(want, 300));
    T::TagToKeyEqualsValueStringOp kv(join.c_str()); std::string g = std::accumulate(k.begin(), k.end(), std::string(), kv), w; for (auto& t : v) { if (&t != &v[0]) w += join; w += t.k + "=" + t.v; } c.check(g == w, "key=value rendering is " + show(g, 300) + " instead of " + show(w, 300));
}
// a reader of the hstore format
static std::vector<Tag> parse_hstore(Ctx& c, const std::string& s) {
    std::vector<Tag> v; size_t i = 0; auto str = [&]() { std::string r; c.check(i < s.size() && s[i] == '"', "quote expected at byte " + std::to_string(i) + " of " + show(s, 300)); ++i; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') ++i; c.check(i < s.size(), "text ends in an escape"); r += s[i++]; } c.check(i < s.size(), "closing quote is missing in " + show(s, 300)); ++i; return r; };
    if (s.empty()) return v; for (;;) { Tag t; t.k = str(); c.check(s.compare(i, 2, "=>") == 0, "=> expected at byte " + std::to_string(i) + " of " + show(s, 300)); i += 2; t.v = str(); v.push_back(t); if (i == s.size()) return v; c.check(s[i] == ',', "comma expected at byte " + std::to_string(i) + " of " + show(s, 300)); ++i; while (i < s.size() && s[i] == ' ') ++i; }
}
SCENARIO(hstore, 25000, 1200000) {
    auto v = gen(c); TagList l; bool any = false; for (auto& t : v) { l.add(t.k.c_str(), t.v.c_str()); any |= (t.k + t.v).find_first_of("\"\\") != std::string::npos; } c.nontrivial(v.size() > 1 || any); c.label_if(any, "escaped characters"); T::TagToHStoreStringOp op; const TagList& k = l; std::string s = std::accumulate(k.begin(), k.end(), std::string(), op); auto p = parse_hstore(c, s); c.check(p == v, "hstore text " + show(s, 300) + " holds other tags"); 
}
