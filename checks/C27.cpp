// String tables map every recorded string to its place.
// LIBS: pbf xml
#include "model.hpp"
#include <osmium/utils/stringtable.hpp>
#include <osmium/utils/delta.hpp>
using namespace model;
using Osmium::StringTable;

RULE("a case counts as non-trivial if a string is recorded more than once and another one differently often, or the table is used again after being cleared; distinct by description");

struct Model { std::map<std::string, uint64_t> count; std::map<std::string, uint64_t> id; std::set<uint64_t> ids; };
static void record(Ctx& c, StringTable& t, Model& m, const std::string& s) {
    uint64_t id = t.record_string(s); if (m.count[s]++) c.eq(id, m.id[s], "interim id of " + show(s) + " recorded again"); else { m.id[s] = id; c.check(m.ids.insert(id).second, "interim id " + std::to_string(id) + " is given to two strings"); }
}
static void check(Ctx& c, StringTable& t, const Model& m) {
    OSMPBF::StringTable st; t.store_stringtable(&st); c.eq((size_t)st.s_size(), m.count.size() + 1, "entries of the table"); c.check(st.s(0).empty(), "entry zero is " + show(st.s(0))); std::set<uint64_t> places; std::set<std::string> seen; uint64_t last = UINT64_MAX;
    for (int i = 1; i < st.s_size(); ++i) { auto x = m.count.find(st.s(i)); c.check(x != m.count.end(), "entry " + std::to_string(i) + " was never recorded: " + show(st.s(i))); c.check(seen.insert(st.s(i)).second, "string " + show(st.s(i)) + " is in the table twice"); c.check(x->second <= last, "entry " + std::to_string(i) + " (" + show(st.s(i)) + ") was recorded " + std::to_string(x->second) + " times, the one before only " + std::to_string(last)); last = x->second; }
    for (auto& e : m.id) { uint64_t p = t.map_string_id(e.second); c.check(p >= 1 && p < (uint64_t)st.s_size(), "place " + std::to_string(p) + " of " + show(e.first) + " is not in the table"); c.check(st.s(p) == e.first, "interim id of " + show(e.first) + " maps to " + show(st.s(p))); c.check(places.insert(p).second, "two strings have place " + std::to_string(p)); }
}
static std::string text(Ctx& c) { static const std::vector<std::string> w = {"", "a", "b", "highway", "name", "primary", "a", "A", "aa"}; if (c.chance(60)) return c.pick(w); std::string s; if (c.chance(5)) return std::string(c.upto(3000), 'x'); while (c.more(70)) s += (char)c.upto(255); return s; }
SCENARIO(recording, 40000, 1500000) {
    StringTable t; size_t rounds = 0; do {
        Model m; std::vector<std::string> all; c.desc << "| "; while (c.more(94)) { std::string s = !all.empty() && c.chance(50) ? all[c.upto(all.size() - 1)] : text(c); size_t n = c.chance(5) ? 1 + c.upto(300) : 1; for (size_t i = 0; i < n; ++i) record(c, t, m, s); all.push_back(s); c.desc << show(s, 12) << "*" << n << " "; }
        check(c, t, m); std::set<uint64_t> d; bool more = false; for (auto& e : m.count) { d.insert(e.second); more |= e.second > 1; } c.nontrivial((d.size() > 1 && more) || rounds > 0); c.label_if(m.count.count(""), "empty text"); c.label_if(rounds, "used again"); t.clear(); ++rounds;
    } while (c.more(40));
}
SCENARIO(many_strings, 24, 600) {
    pbt::u64 seed = c.upto(~0ULL); Bulk b{seed}; size_t n = c.pick(std::vector<size_t>{1000, 40000, 70000, 140000, 300000}); n += b.upto(50); size_t span = c.pick(std::vector<size_t>{100, n, 4 * n}); c.desc << n << " recordings of " << span << " strings, seed " << seed; c.nontrivial(); StringTable t; Model m; bool again = c.chance(40); if (again) { Model o; for (int i = 0; i < 1000; ++i) record(c, t, o, "old" + std::to_string(b.upto(2000))); check(c, t, o); t.clear(); }
    for (size_t i = 0; i < n; ++i) record(c, t, m, "s" + std::to_string(b.upto(span))); check(c, t, m);
}
SCENARIO(very_frequent, 30, 300) {
    // counters must not wrap around
    pbt::u64 seed = c.upto(~0ULL); Bulk b{seed}; StringTable t; Model m; size_t n = c.pick(std::vector<size_t>{300, 65536, 65600, 131072, 262144}) + b.upto(200); c.desc << "one string " << n << " times, seed " << seed; c.nontrivial(); size_t few = 2 + b.upto(20); for (size_t i = 0; i < few; ++i) for (size_t k = b.upto(400); k + 1 > 0; --k) { record(c, t, m, "few" + std::to_string(i)); if (!k) break; } for (size_t i = 0; i < n; ++i) record(c, t, m, "often"); for (size_t i = 0; i < 10; ++i) record(c, t, m, "few" + std::to_string(b.upto(few))); check(c, t, m);
}
template <class T, class U> static void delta(Ctx& c, const char* name, int64_t lo, int64_t hi) {
    c.desc << name; Osmium::Delta<T> d; U sum = 0; size_t n = 0; while (c.more(92)) { if (c.chance(5)) { d.clear(); sum = 0; c.desc << " clear"; } T v = (T)(c.chance(50) ? c.range(-5 < lo ? lo : -5, 9) : c.range(lo, hi)); c.desc << " " << v; sum += (U)d.update(v); c.check((T)sum == v, "sum of the differences is " + std::to_string((T)sum) + " instead of " + std::to_string(v)); ++n; } c.nontrivial(n > 2);
}
SCENARIO(delta_64, 20000, 800000) { delta<int64_t, uint64_t>(c, "64 bit", -(1LL << 62), (1LL << 62) - 1); }
SCENARIO(delta_32, 10000, 400000) { delta<int32_t, uint32_t>(c, "32 bit", -(1LL << 30), (1LL << 30) - 1); }
SCENARIO(delta_unsigned, 10000, 400000) { delta<uint32_t, uint32_t>(c, "unsigned", 0, 4294967295LL); }
