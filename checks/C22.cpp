// Tag filters decide by the first matching rule.
// LIBS: pbf xml regex
#include "model.hpp"
#include <osmium/tags/key_filter.hpp>
#include <osmium/tags/key_value_filter.hpp>
#include <osmium/tags/regex_filter.hpp>
#include <osmium/tags/to_string.hpp>
#include <osmium/utils/filter_and_accumulate.hpp>
using namespace model;
namespace T = Osmium::Tags; typedef Osmium::OSM::Tag OTag; typedef Osmium::OSM::TagList TagList;

RULE("a case counts as non-trivial if two rules match the same tag, or a tag list is filtered to some but not all of its tags; distinct by description");
ASSUME("a value given to a rule is not the empty text; regular expressions and the text matched against them are ASCII without line breaks");

static std::string word(Ctx& c) { static const std::vector<std::string> w = {"a", "b", "ab", "name", "name:en", "highway", "", "abc", "A", "n\xc3\xa4me", "na", "name ", " name"}; if (c.chance(90)) return c.pick(w); std::string s; while (c.more(80)) s += (char)(1 + c.upto(254)); return s; }
static std::string value(Ctx& c) { std::string s = word(c); return s.empty() ? "yes" : s; }
static std::vector<Tag> gen_tags(Ctx& c) { std::vector<Tag> v; while (c.more(75)) { Tag t; t.k = word(c); t.v = word(c); v.push_back(t); } return v; }
static TagList list(const std::vector<Tag>& v) { TagList l; for (auto& t : v) l.add(t.k.c_str(), t.v.c_str()); return l; }
struct Verdict { bool result; int matches; };
struct Rec { std::string s; }; static Rec rec(Rec a, const OTag& t) { a.s += std::string(t.key()) + "\x01" + t.value() + "\x02"; return a; }

template <class F, class M> static void judge(Ctx& c, F& f, const std::vector<Tag>& tags, M verdict, const std::string& what) {
    std::vector<Tag> keep; bool twice = false;
    for (auto& t : tags) { Verdict v = verdict(t); OTag o(t.k.c_str(), t.v.c_str()); c.eq((bool)f(o), v.result, what + ": decision on " + show(t.k) + "=" + show(t.v)); c.eq((bool)f(o), v.result, what + ": second decision on " + show(t.k) + "=" + show(t.v)); twice |= v.matches > 1; if (v.result) keep.push_back(t); }
    c.nontrivial(twice || (!keep.empty() && keep.size() < tags.size())); c.label_if(twice, "several rules match"); const TagList l = list(tags);
    std::vector<Tag> got; typename F::iterator b(f, l.begin(), l.end()), e(f, l.end(), l.end()); for (; b != e; ++b) got.push_back(Tag{b->key(), b->value()}); c.check(got == keep, what + ": filtering the list keeps " + std::to_string(got.size()) + " tags instead of " + std::to_string(keep.size()) + ", or others");
    Rec want; want.s = "init:"; Rec init = want; for (auto& t : keep) want = rec(want, OTag(t.k.c_str(), t.v.c_str())); c.check(Osmium::filter_and_accumulate(l, f, init, rec).s == want.s, what + ": filtering with accumulation differs from filtering and accumulating"); std::string eq; for (auto& t : keep) { if (!eq.empty()) eq += ";"; eq += t.k + "=" + t.v; } T::TagToKeyEqualsValueStringOp op(";"); c.eq(Osmium::filter_and_accumulate(l, f, std::string(), op), eq, what + ": accumulated text");
    F g(f); for (auto& t : tags) c.eq((bool)g(OTag(t.k.c_str(), t.v.c_str())), verdict(t).result, what + ": copy of the filter on " + show(t.k) + "=" + show(t.v)); c.eq(l.size(), (int)tags.size(), what + ": size of the list after filtering");
}
SCENARIO(keys, 60000, 3000000) {
    bool def = c.chance(50); T::KeyFilter f(def); std::vector<std::pair<bool, std::string>> r; c.desc << "default " << def; while (c.more(75)) { bool b = c.chance(50); std::string k = word(c); r.push_back({b, k}); f.add(b, std::string(k).c_str()); c.desc << " " << b << ":" << show(k); } auto tags = gen_tags(c); for (auto& t : tags) c.desc << " " << show(t.k) << "=" << show(t.v);
    judge(c, f, tags, [&](const Tag& t) { Verdict v{def, 0}; for (auto& x : r) if (x.second == t.k && v.matches++ == 0) v.result = x.first; return v; }, "key filter");
}
SCENARIO(keys_and_values, 60000, 3000000) {
    struct R { bool b; std::string k, v; bool any; }; bool def = c.chance(50); T::KeyValueFilter f(def); std::vector<R> r; c.desc << "default " << def; bool chain = c.chance(30); while (c.more(78)) { R x; x.b = c.chance(50); x.k = word(c); x.any = c.chance(35); if (!x.any) x.v = value(c); if (x.any) { if (c.chance(50)) f.add(x.b, x.k.c_str()); else f.add(x.b, x.k.c_str(), nullptr); } else { T::KeyValueFilter& q = f.add(x.b, x.k.c_str(), x.v.c_str()); c.check(&q == &f, "add returns another filter"); } r.push_back(x); c.desc << " " << x.b << ":" << show(x.k) << "=" << (x.any ? "*" : show(x.v)); } (void)chain; auto tags = gen_tags(c); for (auto& t : tags) c.desc << " " << show(t.k) << "=" << show(t.v);
    judge(c, f, tags, [&](const Tag& t) { Verdict v{def, 0}; for (auto& x : r) if (x.k == t.k && (x.any || x.v == t.v) && v.matches++ == 0) v.result = x.b; return v; }, "key and value filter");
}
// ---- regular expressions with their own matcher: the set of ends reachable from a set of starts
struct Re; typedef std::shared_ptr<Re> ReP;
struct Re { int op; std::string set; bool neg = false; std::vector<ReP> sub; int lo = 0, hi = 0; }; // 0 characters, 1 sequence, 2 alternatives, 3 repetition
static const char* AB = "abc1:_";
static ReP gen_re(Ctx& c, int depth) {
    ReP r(new Re()); int k = depth <= 0 ? c.weighted({60, 15, 15}) : c.weighted({30, 8, 8, 34, 12, 16});
    switch (k) { case 0: r->op = 0; r->set = std::string(1, AB[c.upto(5)]); break; case 1: r->op = 0; r->neg = true; r->set = ""; break; case 2: { r->op = 0; r->neg = c.chance(40); do r->set += AB[c.upto(5)]; while (c.more(60)); break; }
        case 3: r->op = 1; do r->sub.push_back(gen_re(c, depth - 1)); while (c.more(60)); break; case 4: r->op = 2; do r->sub.push_back(gen_re(c, depth - 1)); while (c.more(50)); break;
        default: r->op = 3; r->sub.push_back(gen_re(c, 0)); if (c.chance(25) && depth > 1) { ReP q(new Re()); q->op = 1; q->sub.push_back(r->sub[0]); q->sub.push_back(gen_re(c, 0)); r->sub[0] = q; } switch (c.upto(3)) { case 0: r->lo = 0; r->hi = -1; break; case 1: r->lo = 1; r->hi = -1; break; case 2: r->lo = 0; r->hi = 1; break; default: r->lo = c.upto(2); r->hi = r->lo + c.upto(2); break; } }
    return r;
}
static std::string text(const Re& r) {
    std::string s; switch (r.op) { case 0: if (r.neg && r.set.empty()) return "."; if (!r.neg && r.set.size() == 1) return r.set; return "[" + std::string(r.neg ? "^" : "") + r.set + "]"; case 1: for (auto& x : r.sub) s += x->op == 2 ? "(" + text(*x) + ")" : text(*x); return s; case 2: for (auto& x : r.sub) s += (s.empty() ? "" : "|") + (x->op == 2 ? "(" + text(*x) + ")" : text(*x)); return s;
        default: { s = r.sub[0]->op == 0 ? text(*r.sub[0]) : "(" + text(*r.sub[0]) + ")"; if (r.hi < 0) return s + (r.lo ? "+" : "*"); if (r.lo == 0 && r.hi == 1) return s + "?"; if (r.hi == r.lo) return s + "{" + std::to_string(r.lo) + "}"; return s + "{" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "}"; } }
}
static std::set<size_t> ends(const Re& r, const std::string& s, const std::set<size_t>& from) {
    std::set<size_t> to; switch (r.op) { case 0: for (auto p : from) if (p < s.size() && (r.set.find(s[p]) != std::string::npos) != r.neg) to.insert(p + 1); return to; case 1: to = from; for (auto& x : r.sub) to = ends(*x, s, to); return to; case 2: for (auto& x : r.sub) for (auto p : ends(*x, s, from)) to.insert(p); return to;
        default: { std::set<size_t> cur = from; if (r.lo == 0) to = from; for (int i = 1; (r.hi < 0 || i <= r.hi) && !cur.empty(); ++i) { auto n = ends(*r.sub[0], s, cur); if (i >= r.lo) { size_t b = to.size(); for (auto p : n) to.insert(p); if (r.hi < 0 && to.size() == b) break; } cur = n; if (i > (int)s.size() + 4) break; } return to; } }
}
static bool whole(const Re& r, const std::string& s) { return ends(r, s, {0}).count(s.size()) > 0; }
static std::string sample(Ctx& c, const Re& r) { std::string s; switch (r.op) { case 0: if (!r.neg) return std::string(1, r.set[c.upto(r.set.size() - 1)]); for (const char* p = AB; *p; ++p) if (r.set.find(*p) == std::string::npos) { s = *p; if (c.chance(50)) break; } return s; case 1: for (auto& x : r.sub) s += sample(c, *x); return s; case 2: return sample(c, *r.sub[c.upto(r.sub.size() - 1)]); default: for (int i = r.lo + (int)c.upto(r.hi < 0 ? 2 : r.hi - r.lo); i > 0; --i) s += sample(c, *r.sub[0]); return s; } }
static std::string atext(Ctx& c) { std::string s; while (c.more(70)) s += AB[c.upto(5)]; return s; }
SCENARIO(regular_expressions, 15000, 700000) {
    struct R { bool b; ReP k, v; }; bool def = c.chance(50); T::RegexFilter f(def); std::vector<R> r; c.desc << "default " << def; while (c.more(65)) { R x; x.b = c.chance(50); x.k = gen_re(c, c.upto(3)); if (!c.chance(35)) x.v = gen_re(c, c.upto(3)); std::string k = text(*x.k), v = x.v ? text(*x.v) : ""; if (x.v) f.add(x.b, k.c_str(), v.c_str()); else f.add(x.b, k.c_str()); r.push_back(x); c.desc << " " << x.b << ":" << k << "=" << (x.v ? v : "*any*"); }
    std::vector<Tag> tags; while (c.more(80)) { Tag t; t.k = r.empty() || c.chance(25) ? atext(c) : sample(c, *r[c.upto(r.size() - 1)].k); t.v = atext(c); if (!r.empty() && c.chance(70)) { auto& x = r[c.upto(r.size() - 1)]; if (x.v) t.v = sample(c, *x.v); } if (c.chance(15)) t.v += AB[c.upto(5)]; if (c.chance(8)) t.k = AB[c.upto(5)] + t.k; tags.push_back(t); c.desc << " " << t.k << "=" << t.v; }
    judge(c, f, tags, [&](const Tag& t) { Verdict v{def, 0}; for (auto& x : r) if (whole(*x.k, t.k) && (!x.v || whole(*x.v, t.v)) && v.matches++ == 0) v.result = x.b; return v; }, "regular expression filter");
}
// the three kinds agree where they can say the same
SCENARIO(kinds_agree, 15000, 600000) {
    bool def = c.chance(50); T::KeyFilter a(def); T::KeyValueFilter b(def), d(def); T::RegexFilter e(def), g(def); c.desc << "default " << def; bool m = false; auto w = [&]() { std::string s; do s += AB[c.upto(5)]; while (c.more(40)); return s; };
    while (c.more(75)) { bool x = c.chance(50); std::string k = w(), v = w(); a.add(x, k.c_str()); b.add(x, k.c_str()); e.add(x, k.c_str()); d.add(x, k.c_str(), v.c_str()); g.add(x, k.c_str(), v.c_str()); c.desc << " " << x << ":" << k << "=" << v; }
    while (c.more(80)) { std::string k = w(), v = w(); OTag t(k.c_str(), v.c_str()); c.desc << " " << k << "=" << v; c.check(a(t) == b(t) && a(t) == e(t), "filters by key disagree on " + k); c.check(d(t) == g(t), "filters by key and value disagree on " + k + "=" + v); m |= a(t) != def || d(t) != def; } c.nontrivial(m);
}
