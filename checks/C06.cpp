// Every valid PBF file is read according to the format specification.
// LIBS: pbf xml dl
#include "pbfgen.hpp"
#include "readfaults.hpp"
using namespace model;

RULE("a case counts as non-trivial if the file has at least two objects and uses at least one freedom of the format the bundled writer does not use (granularity, offsets, several or unusual groups, missing fields, field or string order, foreign blobs); distinct by description");
ASSUME("numbers that are not multiples of the unit delivered (1e-7 degrees, seconds) may be rounded by less than one unit");
ASSUME("an absent version may be delivered as 0 or as the protobuf default -1, an absent user id as 0 or -1");

static void examine(Ctx& c, const pbf::GenFile& f, const Capture& cap) {
    for (size_t i = 0; i < cap.objs.size() && i < f.flat.size(); ++i) { std::string e = pbf::judge(cap.objs[i], f, i); c.check(e.empty(), "object " + std::to_string(i) + ": " + e); }
    c.eq(cap.objs.size(), f.flat.size(), "number of objects");
    c.eq(cap.events, expected_events(cap.objs), "callbacks");
    c.eq(show(cap.generator), show(f.header.has_prog ? f.header.prog : ""), "generator");
    c.eq(cap.box.def, f.header.bbox, "bounds defined");
    if (cap.box.def) {
        auto near = [](pbf::i64 v, pbf::i64 n) { return v * 100 - n < 100 && v * 100 - n > -100; };
        c.check(near(cap.box.x1, f.header.left) && near(cap.box.x2, f.header.right) && near(cap.box.y1, f.header.bottom) && near(cap.box.y2, f.header.top), "bounds are wrong");
    }
}
static void one(Ctx& c, bool pipe) {
    pbf::GenFile f; pbf::gen_file(c, f, c.pick(std::vector<unsigned>{70, 85}));
    pbf::describe(c, f);
    bool free = f.style.r != nullptr; for (auto& b : f.blocks) free |= b.gran != 100 || b.dategran != 1000 || b.lat_off || b.lon_off || b.groups.size() > 1;
    c.nontrivial(f.flat.size() >= 2 && free);
    Capture cap; std::string p = c.path("x.pbf");
    if (pipe) {
        std::vector<size_t> sizes; while (c.more(80)) sizes.push_back(1 + c.upto(c.chance(50) ? 8 : 3000)); c.desc << "pieces of"; for (size_t s : sizes) c.desc << " " << s; c.label("through a pipe");
        Trickle t(p, f.bytes, sizes); read_file(p, f.history, PBF, cap);
    } else { spit(p, f.bytes); read_file(p, f.history, PBF, cap); unlink(p.c_str()); }
    examine(c, f, cap);
}
SCENARIO(files, 1400, 60000) { one(c, false); }
SCENARIO(pipes, 200, 6000) { one(c, true); }
// reads that are interrupted or give a part only are continued; an error is not the end of the file
SCENARIO(interrupted, 500, 20000) {
    pbf::GenFile f; pbf::gen_file(c, f, 70); readfaults::make(c, true); pbf::describe(c, f); std::string p = c.path("x.pbf"), how; spit(p, f.bytes); Capture cap; bool failed = false;
    readfaults::on = true; try { read_file(p, f.history, PBF, cap); } catch (const std::exception& e) { failed = true; how = e.what(); } readfaults::on = false; size_t hard = readfaults::hard, soft = readfaults::soft; unlink(p.c_str()); c.nontrivial(hard || soft); c.label(hard ? "read error" : soft ? "interrupted or short reads" : "no fault reached");
    if (hard) { c.check(failed, "a read failed and nothing was reported; " + std::to_string(cap.objs.size()) + " of " + std::to_string(f.flat.size()) + " objects were delivered"); for (size_t i = 0; i < cap.objs.size(); ++i) { std::string e = i < f.flat.size() ? pbf::judge(cap.objs[i], f, i) : "surplus"; c.check(e.empty(), "object " + std::to_string(i) + " delivered before the error: " + e); } }
    else { c.check(!failed, "only interrupted and short reads, but reading failed: " + how); examine(c, f, cap); }
}

// blocks as large as the format allows, with many strings
SCENARIO(large, 16, 500) {
    pbf::GenFile f; f.bulk.state = c.upto(~0ULL); Bulk b{c.upto(~0ULL)}; f.history = false;
    size_t n = c.pick(std::vector<size_t>{8000, 20000, 60000}); uint64_t ns = c.pick(std::vector<uint64_t>{10, 100000, 1000000}); unsigned sub = c.pick(std::vector<unsigned>{0, 3, 8});
    pbf::RBlock k; k.gran = c.pick(std::vector<int>{100, 1000, 1}); 
    for (int kind = 0; kind < 3; ++kind) { if (!c.chance(60)) continue; pbf::RGroup g; g.kind = kind; g.dense = kind == 0 && c.chance(50); g.d_visible = false;
        for (size_t i = 0; i < n / 3; ++i) { pbf::RObj r; r.o = bulk_obj(b, kind, 1 + b.upto(5000000000ULL), ns, sub); r.has_visible = false; r.lon = (int64_t)r.o.x * 100 / k.gran; r.lat = (int64_t)r.o.y * 100 / k.gran; r.ts = r.o.timestamp; g.objs.push_back(r); }
        k.groups.push_back(g); }
    f.blocks.push_back(k); f.style.shuffle_strings = true; f.style.r = &f.bulk; bool z = c.chance(50);
    pbf::Encoder e(f.style); std::string data = e.block(f.blocks[0]);
    if (data.size() > 32 * 1024 * 1024 || k.groups.empty()) throw pbt::Discard();
    f.bytes = pbf::blob("OSMHeader", pbf::header_data(f.header), z) + pbf::blob("OSMData", data, z);
    for (auto& g : f.blocks[0].groups) for (auto& r : g.objs) { f.block_of.push_back(&f.blocks[0]); f.group_of.push_back(&g); f.flat.push_back(&r); }
    c.desc << f.flat.size() << " objects in one block of " << data.size() << " bytes, " << ns << " strings, granularity " << k.gran << ", seed " << b.state; c.nontrivial(); c.label_if(data.size() > 16 * 1024 * 1024, "more than 16 MiB");
    std::string p = c.path("x.pbf"); spit(p, f.bytes); Capture cap; read_file(p, OSM, PBF, cap); unlink(p.c_str());
    examine(c, f, cap);
}
