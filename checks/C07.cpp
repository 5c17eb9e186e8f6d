// Every PBF file written conforms to the format specification.
// LIBS: pbf xml
#include "io.hpp"
#include "pbfcodec.hpp"
using namespace model;

RULE("a case counts as non-trivial if the file holds at least two objects and at least one of them has tags, references, members or a user name; "
     "distinct by the full description of the generated data and writer options");
ASSUME("positions are within the range of a 32-bit coordinate in 1e-7 degrees; ids exclude INT64_MIN; versions fit 31 bits");

static void examine(Ctx& c, const Data& d, const WOpts& w) {
    std::string f = c.path("x.osm.pbf");
    write_file(f, d, w);
    std::string bytes = slurp(f); unlink(f.c_str());
    pbf::DFile x;
    try { x = pbf::decode(bytes); } catch (const pbf::Bad& b) { c.fail("not a conforming file: " + b.what); }
    auto has = [&](const std::string& s) { return std::count(x.header.req.begin(), x.header.req.end(), s); };
    c.eq(has("OsmSchema-V0.6"), 1, "required feature OsmSchema-V0.6");
    c.eq(has("DenseNodes"), w.dense ? 1 : 0, "required feature DenseNodes");
    c.eq(has("HistoricalInformation"), w.type == HISTORY ? 1 : 0, "required feature HistoricalInformation");
    c.eq(x.header.req.size(), 1 + (size_t)w.dense + (w.type == HISTORY), "number of required features");
    c.eq(show(x.header.prog), show(d.generator), "writing program");
    c.eq(x.header.bbox, d.box.def, "bbox present");
    if (d.box.def) {
        c.eq(x.header.left, d.box.x1 * 100LL, "bbox left"); c.eq(x.header.right, d.box.x2 * 100LL, "bbox right");
        c.eq(x.header.bottom, d.box.y1 * 100LL, "bbox bottom"); c.eq(x.header.top, d.box.y2 * 100LL, "bbox top");
    }
    std::vector<Obj> got;
    for (auto& b : x.blocks) {
        size_t n = 0; std::set<int> kinds; int last = -1;
        c.eq(b.zlib, w.compress, "compressed");
        for (auto& g : b.groups) {
            n += g.objs.size(); c.check(g.kind != last && kinds.insert(g.kind).second, "two groups of one kind in a block"); last = g.kind;
            c.eq(g.dense, w.dense && g.kind == 0, "dense group");
            for (size_t i = 0; i < g.objs.size(); ++i) {
                bool want = w.meta && w.multi();
                c.eq(g.has_visible[i] >= 0, want, "visible flag of " + str(g.objs[i]));
                got.push_back(g.objs[i]);
            }
        }
        c.check(n > 0 && n <= 8000, "block with " + std::to_string(n) + " objects");
        c.check(!b.strings.empty() && b.strings[0].empty(), "string 0 is not the reserved empty string");
        std::set<std::string> seen;
        for (size_t i = 1; i < b.strings.size(); ++i) {
            c.check(seen.insert(b.strings[i]).second, "string " + show(b.strings[i]) + " twice in a table");
            c.check(b.uses[i] > 0, "string " + show(b.strings[i]) + " is never used");
            if (i > 1) c.check(b.uses[i] <= b.uses[i - 1], "string " + std::to_string(i) + " is used more often than the one before it");
        }
        c.eq(b.uses[0], (pbf::u64)0, "uses of reserved string 0");
        c.eq(b.gran, w.locgran ? w.locgran : 100, "location granularity"); c.eq(b.dategran, w.dategran ? w.dategran : 1000, "date granularity");
    }
    same_up_to_grouping(c, got, normalise(d.objs, w), "decoded independently");
}

SCENARIO(small, 1500, 60000) {
    WOpts w = gen_wopts(c, PBF);
    if (c.chance(20)) { w.locgran = c.pick(std::vector<int>{1000, 10000, 200, 700}); w.dategran = c.pick(std::vector<int>{2000, 60000, 7000}); }
    GenOpts g; g.history = w.type == HISTORY; g.more = c.pick(std::vector<unsigned>{75, 90, 50}); g.sorted = !c.chance(30); g.undef_pos = w.locgran == 0;
    Data d = gen_data(c, g); d.generator = gen_text(c, g);
    if (w.locgran) for (auto& o : d.objs) { int s = w.locgran / 100; int64_t t = w.dategran / 1000; o.timestamp = o.timestamp / t * t; if (o.kind == 0) { o.x = o.x / s * s; o.y = o.y / s * s; } }
    describe(c, w); describe(c, d); c.desc << "generator " << show(d.generator);
    c.nontrivial(rich(d.objs)); classify(c, d.objs);
    examine(c, d, w);
}
SCENARIO(large, 30, 1200) {
    WOpts w = gen_wopts(c, PBF); Bulk b{c.upto(~0ULL)};
    uint64_t nstrings = c.pick(std::vector<uint64_t>{3, 100, 70000, 1000000}); unsigned sub = c.pick(std::vector<unsigned>{0, 2, 6, 12});
    size_t total = c.pick(std::vector<size_t>{7999, 8000, 8001, 16000, 16001, 2000}), run = c.pick(std::vector<size_t>{0, 1, 7, 3999, 8000, 8001});
    Data d; d.box = gen_box(c, GenOpts());
    for (size_t i = 0; i < total; ++i) { Obj o = bulk_obj(b, run ? (i / run) % 3 : i * 3 / total, 1 + i + b.upto(3) * 1000000007LL, nstrings, sub); if (w.type == HISTORY) o.visible = b.upto(4) != 0; d.objs.push_back(o); }
    describe(c, w); c.desc << total << " objects, runs of " << run << ", " << nstrings << " strings, up to " << sub << " tags, bulk seed " << b.state;
    c.nontrivial(); examine(c, d, w);
}
SCENARIO(near_size_limit, 6, 80) {
    WOpts w = gen_wopts(c, PBF); Bulk b{c.upto(~0ULL)}; int kind = c.upto(2); size_t n = 20 + c.upto(40), sub = c.pick(std::vector<size_t>{100, 3000, 15000}), len = c.pick(std::vector<size_t>{8, 100, 250});
    if (sub * len > 800000) len = 100;
    Data d;
    for (size_t i = 0; i < n; ++i) {
        Obj o = bulk_obj(b, kind, i + 1, 10, 0);
        for (size_t j = 0; j < sub; ++j) {
            std::string s = std::to_string(b.next()); s.resize(len, 'y');
            if (kind == 0 || j % 2) o.tags.push_back(Tag{s, s + "v"}); else if (kind == 1) o.refs.push_back((int64_t)(b.next() >> 2)); else o.members.push_back(Member{'w', (int64_t)(b.next() >> 2), s});
        }
        d.objs.push_back(o);
    }
    describe(c, w); c.desc << n << " objects of kind " << kind << " with " << sub << " sub-elements of length " << len << " bulk seed " << b.state; c.nontrivial();
    examine(c, d, w);
}
SCENARIO(uneven_objects, 4, 50) {
    WOpts w = gen_wopts(c, PBF); if (c.chance(60)) w.compress = false; Bulk b{c.upto(~0ULL)}; Data d = uneven_data(c, b); describe(c, w); c.desc << " bulk seed " << b.state; c.nontrivial(); examine(c, d, w);
}
