// PBF write-then-read returns exactly the data that was written.
// LIBS: pbf xml
#include "io.hpp"
using namespace model;

RULE("a case counts as non-trivial if the file holds at least two objects and at least one of them has tags, references, members or a user name; "
     "distinct by the full description of the generated data and writer options");
ASSUME("positions are within the range of a 32-bit coordinate in 1e-7 degrees and ids exclude INT64_MIN");
ASSUME("with a coarser location or date granularity set, the data written is a multiple of that granularity");

static void roundtrip(Ctx& c, const Data& d, const WOpts& w) {
    std::string f = c.path("x.osm.pbf");
    sometimes_existing(c, f);
    write_file(f, d, w);
    Capture cap;
    read_file(f, w.type, PBF, cap);
    same_up_to_grouping(c, cap.objs, normalise(d.objs, w), "read back");
    c.eq(cap.box, d.box, "bounds");
    c.eq(cap.generator, d.generator, "generator");
    unlink(f.c_str());
}

SCENARIO(small, 900, 40000) {
    WOpts w = gen_wopts(c, PBF);
    GenOpts g; g.history = w.type == HISTORY; g.more = c.pick(std::vector<unsigned>{75, 90, 50}); g.sorted = !c.chance(30);
    Data d = gen_data(c, g); d.generator = gen_text(c, g);
    describe(c, w); describe(c, d); c.desc << "generator " << show(d.generator);
    c.nontrivial(rich(d.objs)); classify(c, d.objs);
    roundtrip(c, d, w);
}

// granularities other than the default, with data that fits them
SCENARIO(granularity, 300, 10000) {
    WOpts w = gen_wopts(c, PBF);
    w.locgran = c.pick(std::vector<int>{100, 1000, 10000, 100000000, 200, 700, 12300});
    w.dategran = c.pick(std::vector<int>{1000, 2000, 60000, 86400000, 7000});
    GenOpts g; g.history = w.type == HISTORY; g.more = 80; g.undef_pos = false;
    Data d = gen_data(c, g);
    for (auto& o : d.objs) {
        int step = w.locgran / 100; int64_t dstep = w.dategran / 1000;
        o.timestamp = o.timestamp / dstep * dstep;
        if (o.kind == 0) { o.x = o.x / step * step; o.y = o.y / step * step; }
    }
    describe(c, w); describe(c, d); c.nontrivial(rich(d.objs)); classify(c, d.objs);
    roundtrip(c, d, w);
}

// many objects, blocks, strings and interleavings
SCENARIO(large, 60, 2500) {
    WOpts w = gen_wopts(c, PBF);
    Bulk b{c.upto(~0ULL)};
    uint64_t nstrings = c.pick(std::vector<uint64_t>{3, 100, 70000, 1000000});
    unsigned sub = c.pick(std::vector<unsigned>{0, 2, 6, 14});
    size_t total = c.pick(std::vector<size_t>{7999, 8000, 8001, 15999, 16000, 16001, 2000, 20000});
    // runs of one kind; length 0 stands for "sorted by kind"
    size_t run = c.pick(std::vector<size_t>{0, 1, 7, 3999, 4000, 7999, 8000, 8001});
    bool negative = c.chance(30), longtext = c.chance(15);
    Data d; d.box = gen_box(c, GenOpts());
    std::string filler = longtext ? std::string(400, 'x') : "";
    for (size_t i = 0; i < total; ++i) {
        int kind = run ? (i / run) % 3 : i * 3 / total;
        int64_t id = (int64_t)(1 + i + b.upto(3) * 1000000007LL) * (negative && b.upto(3) == 0 ? -1 : 1);
        Obj o = bulk_obj(b, kind, id, nstrings, sub);
        if (w.type == HISTORY) o.visible = b.upto(4) != 0;
        if (longtext) for (auto& t : o.tags) t.v += filler;
        d.objs.push_back(o);
    }
    describe(c, w); c.desc << total << " objects, runs of " << run << ", " << nstrings << " strings, up to " << sub << " tags" << (negative ? ", negative ids" : "") << (longtext ? ", long values" : "") << " bulk seed " << b.state;
    c.nontrivial(); c.label_if(nstrings >= 70000 && sub >= 6, "more than 65536 strings in a block"); c.label_if(run == 1, "kinds alternate"); c.label_if(longtext, "long values");
    roundtrip(c, d, w);
}

// blocks near the limits of size
SCENARIO(huge_objects, 4, 60) {
    WOpts w = gen_wopts(c, PBF);
    Bulk b{c.upto(~0ULL)}; int kind = c.upto(2); size_t n = 20 + c.upto(40), sub = c.pick(std::vector<size_t>{100, 3000, 20000}), len = c.pick(std::vector<size_t>{8, 250});
    if (sub * len > 3000000) len = 100;
    Data d;
    for (size_t i = 0; i < n; ++i) {
        Obj o = bulk_obj(b, kind, i + 1, 10, 0);
        for (size_t j = 0; j < sub; ++j) {
            std::string s = std::to_string(b.next()); s.resize(len, 'y');
            if (kind == 0 || j % 2) o.tags.push_back(Tag{s, s + "v"}); else if (kind == 1) o.refs.push_back((int64_t)(b.next() >> 2)); else o.members.push_back(Member{'w', (int64_t)(b.next() >> 2), s});
        }
        d.objs.push_back(o);
    }
    describe(c, w); c.desc << n << " objects of kind " << kind << " with " << sub << " sub-elements of length " << len << " bulk seed " << b.state; c.nontrivial();
    roundtrip(c, d, w);
}
SCENARIO(uneven_objects, 5, 60) {
    WOpts w = gen_wopts(c, PBF); if (c.chance(60)) w.compress = false; Bulk b{c.upto(~0ULL)}; Data d = uneven_data(c, b);
    describe(c, w); c.desc << " bulk seed " << b.state; c.nontrivial(); roundtrip(c, d, w);
}
// a block of just the largest size, or one that is a little larger
SCENARIO(largest_block, 5, 60) {
    WOpts w = gen_wopts(c, PBF); w.compress = c.chance(25); w.locgran = w.dategran = 0; Bulk b{c.upto(~0ULL)}; Data d; int kind = c.upto(2); d.objs.push_back(sized_obj(b, kind, 1, 100000, 10)); std::string& text = d.objs[0].tags.empty() ? (d.objs[0].tags.push_back(Tag{"k", ""}), d.objs[0].tags[0].v) : d.objs[0].tags[0].v;
    text = std::string(25 << 20, 'x'); std::string f = c.path("x.osm.pbf"); WOpts raw = w; raw.compress = false; write_file(f, d, raw); size_t size = slurp(f).size(); unlink(f.c_str());
    // the file holds a header block of less than 200 bytes, too
    int more = c.chance(30) ? -(int)c.upto(3000) : (int)c.upto(300); text += std::string((32 << 20) - size + more, 'x'); c.desc << "kind " << kind << ", file of " << (32 << 20) << " bytes and " << more; describe(c, w); c.nontrivial();
    bool refused = false; try { write_file(f, d, w); } catch (const std::exception&) { refused = true; }
    c.label(refused ? "refused" : "written"); if (refused) { c.check(more > 0, "a block that is not larger than allowed can not be written"); return; }
    Capture cap; try { read_file(f, w.type, PBF, cap); } catch (const std::exception& e) { c.fail(std::string("what was written without an error can not be read: ") + e.what()); }
    same_up_to_grouping(c, cap.objs, normalise(d.objs, w), "read back"); unlink(f.c_str());
}
