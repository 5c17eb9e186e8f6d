// Generator of valid PBF files together with what they mean.
#ifndef VERIF_PBFGEN_HPP
#define VERIF_PBFGEN_HPP
#include "io.hpp"
#include "pbfcodec.hpp"

namespace pbf {

struct GenFile {
    Header header; bool history = false; std::vector<RBlock> blocks; Style style; Bulk bulk{0}; std::vector<int> compress, foreign; bool index = false, rawsize = false;
    std::vector<const RBlock*> block_of; std::vector<const RGroup*> group_of; std::vector<const RObj*> flat;
    std::string bytes;
    std::vector<size_t> boundaries;     // offsets at which a blob ends
    std::vector<size_t> objs_before;    // number of objects complete at that offset
};

inline i64 fdiv(i64 a, i64 b) { i64 q = a / b; if (a % b && (a < 0) != (b < 0)) --q; return q; }

inline void gen_file(Ctx& c, GenFile& f, unsigned more_blocks = 60, bool few = false) {
    f.history = c.chance(35);
    if (f.history) f.header.req.push_back("HistoricalInformation");
    if (c.chance(20)) f.header.req.erase(f.header.req.begin() + 1); // DenseNodes not announced
    if (c.chance(30)) std::reverse(f.header.req.begin(), f.header.req.end());
    while (c.more(25)) f.header.opt.push_back(c.pick(std::vector<std::string>{"Has_Metadata", "Sort.Type_then_ID", "x-unknown"}));
    if ((f.header.has_prog = c.chance(60))) f.header.prog = gen_text(c, GenOpts());
    if (c.chance(20)) f.header.source = "somewhere";
    if ((f.header.bbox = c.chance(50))) {
        i64 a = c.range(-180000000000LL, 180000000000LL), b = c.range(-180000000000LL, 180000000000LL), x = c.range(-90000000000LL, 90000000000LL), y = c.range(-90000000000LL, 90000000000LL);
        if (c.chance(50)) { a = a / 100 * 100; b = b / 100 * 100; x = x / 100 * 100; y = y / 100 * 100; }
        f.header.left = std::min(a, b); f.header.right = std::max(a, b); f.header.bottom = std::min(x, y); f.header.top = std::max(x, y);
    }
    bool fancy = c.chance(70);
    if (fancy) { f.style.shuffle_strings = c.chance(60); f.style.extra_strings = c.chance(30); f.style.shuffle_fields = c.chance(40); f.style.unpacked = c.chance(25); f.style.split_packed = c.chance(25); f.style.unknown_fields = c.chance(30); f.index = c.chance(20); f.rawsize = c.chance(30); }
    f.bulk.state = c.upto(1000000);
    GenOpts g; g.history = f.history; g.valid_lonlat = true; g.undef_pos = false;
    while (c.more(more_blocks)) {
        RBlock b;
        if (c.chance(60)) {
            b.gran = c.pick(std::vector<int>{100, 1000, 1, 7, 10000, 50, 333, 10000000, 1000000000});
            b.dategran = c.pick(std::vector<int>{1000, 1, 500, 2000, 60000, 1001, 86400000});
            if (c.chance(60)) { b.lat_off = c.range(-90000000000LL, 90000000000LL); b.lon_off = c.range(-180000000000LL, 180000000000LL); if (c.chance(50)) { b.lat_off = b.lat_off / 100 * 100; b.lon_off = b.lon_off / 100 * 100; } }
        }
        b.explicit_defaults = c.chance(30);
        do {
            RGroup gr; gr.kind = c.upto(2); gr.dense = gr.kind == 0 && !c.chance(40);
            bool sparse = c.chance(35);
            if (sparse) { gr.d_info = !c.chance(30); gr.d_version = !c.chance(30); gr.d_ts = !c.chance(30); gr.d_cs = !c.chance(30); gr.d_uid = !c.chance(30); gr.d_user = !c.chance(30); gr.d_tags = !c.chance(30); }
            gr.d_visible = f.history;
            do {
                RObj r; r.o = gen_obj(c, gr.kind, g);
                if (r.o.version > 2147483647u) r.o.version = 2147483647u;
                if (r.o.uid < 0) { r.o.uid = 0; r.o.user = ""; }
                r.has_visible = f.history && !(sparse && c.chance(30) && r.o.visible);
                if (sparse && !gr.dense) { r.has_info = !c.chance(25); r.has_version = !c.chance(25); r.has_ts = !c.chance(25); r.has_cs = !c.chance(25); r.has_uid = !c.chance(25); r.has_user = !c.chance(25); if (!r.has_info) r.o.visible = true; }
                if (gr.dense && !gr.d_info) r.o.visible = true;
                r.lon = fdiv((i64)r.o.x * 100 - b.lon_off, b.gran); r.lat = fdiv((i64)r.o.y * 100 - b.lat_off, b.gran);
                r.ts = fdiv(r.o.timestamp * 1000, b.dategran);
                gr.objs.push_back(r);
            } while (c.more(few ? 50 : 70));
            b.groups.push_back(gr);
        } while (c.more(45));
        f.blocks.push_back(b);
        f.compress.push_back(!c.chance(40));
        f.foreign.push_back(c.chance(10));
    }
    f.style.r = fancy ? &f.bulk : nullptr;
    Bulk saved = f.bulk;
    f.bytes = blob("OSMHeader", header_data(f.header), c.chance(50), f.index, f.rawsize);
    f.boundaries = {0, f.bytes.size()}; f.objs_before = {0, 0}; size_t n = 0;
    for (size_t i = 0; i < f.blocks.size(); ++i) {
        if (f.foreign[i]) { f.bytes += blob("x-foreign", std::string(f.bulk.upto(300), 'q'), f.bulk.upto(1)); f.boundaries.push_back(f.bytes.size()); f.objs_before.push_back(n); }
        Encoder e(f.style); f.bytes += blob("OSMData", e.block(f.blocks[i]), f.compress[i], f.index, f.rawsize);
        for (auto& g : f.blocks[i].groups) for (auto& r : g.objs) { f.block_of.push_back(&f.blocks[i]); f.group_of.push_back(&g); f.flat.push_back(&r); ++n; }
        f.boundaries.push_back(f.bytes.size()); f.objs_before.push_back(n);
    }
    f.bulk = saved;
}

inline void describe(Ctx& c, const GenFile& f) {
    c.desc << (f.history ? "history " : "") << f.blocks.size() << " blocks, " << f.flat.size() << " objects, " << f.bytes.size() << " bytes" << (f.style.r ? ", varied encoding" : "")
           << (f.style.unpacked ? " unpacked" : "") << (f.style.split_packed ? " split" : "") << (f.style.shuffle_fields ? " shuffled-fields" : "") << (f.style.unknown_fields ? " unknown-fields" : "") << (f.style.shuffle_strings ? " shuffled-strings" : "");
    size_t n = 0;
    for (auto& b : f.blocks) {
        c.desc << "\nblock granularity " << b.gran << " dates " << b.dategran << " offsets " << b.lon_off << "," << b.lat_off;
        for (auto& g : b.groups) { c.desc << "\n group" << (g.dense ? " dense" : ""); for (auto& r : g.objs) { if (++n > 12) { c.desc << " ..."; break; } c.desc << "\n  " << r.o; } if (n > 12) break; }
        if (n > 12) break;
    }
    c.desc << "\n";
    for (auto& b : f.blocks) {
        c.label_if(b.gran != 100, "granularity other than 100"); c.label_if(b.dategran != 1000, "date granularity other than 1000"); c.label_if(b.lat_off || b.lon_off, "offsets"); c.label_if(b.groups.size() > 1, "several groups in a block");
        for (auto& g : b.groups) { c.label_if(g.dense, "dense groups"); c.label_if(g.kind == 0 && !g.dense, "plain node groups"); c.label_if(g.kind == 1, "way groups"); c.label_if(g.kind == 2, "relation groups"); c.label_if(g.dense && !(g.d_info && g.d_version && g.d_ts && g.d_cs && g.d_uid && g.d_user && g.d_tags), "dense arrays missing"); }
    }
    c.label_if(f.history, "history"); c.label_if(f.style.unpacked, "unpacked arrays"); c.label_if(f.style.unknown_fields, "unknown fields"); c.label_if(f.style.shuffle_fields, "fields in any order");
    c.label_if(std::count(f.foreign.begin(), f.foreign.end(), 1), "unknown blob types");
}

// Does the object delivered have the meaning of the one encoded? Returns "" or what is wrong.
inline std::string judge(const Obj& got, const GenFile& f, size_t i) {
    const RObj& r = *f.flat[i]; const RBlock& b = *f.block_of[i]; const RGroup& g = *f.group_of[i];
    Obj w = r.o;
    auto miss = [&](bool dense_there, bool plain_there) { return g.dense ? !(g.d_info && dense_there) : !(r.has_info && plain_there); };
    Obj d;
    if (miss(g.d_version, r.has_version)) { w.version = got.version == 0 || got.version == 0xffffffffu ? got.version : 0; }
    if (miss(g.d_cs, r.has_cs)) w.changeset = d.changeset;
    if (miss(g.d_uid, r.has_uid)) w.uid = got.uid == -1 || got.uid == 0 ? got.uid : 0;
    if (miss(g.d_user, r.has_user)) w.user = "";
    if (g.dense && !g.d_tags) { bool any = false; for (auto& o : g.objs) any |= !o.o.tags.empty(); if (!any) w.tags.clear(); }
    auto near = [](i64 v, __int128 exact, i64 unit) { __int128 df = (__int128)v * unit - exact; return df > -unit && df < unit; };
    if (miss(g.d_ts, r.has_ts)) w.timestamp = 0;
    else { if (!near(got.timestamp, (__int128)r.ts * b.dategran, 1000)) return "timestamp " + std::to_string(got.timestamp) + " is not " + std::to_string(r.ts) + " units of " + std::to_string(b.dategran) + " ms"; w.timestamp = got.timestamp; }
    if (g.kind == 0) {
        if (!near(got.x, (__int128)r.lon * b.gran + b.lon_off, 100)) return "longitude " + std::to_string(got.x) + " is not " + std::to_string(r.lon) + " * " + std::to_string(b.gran) + " + " + std::to_string(b.lon_off) + " nanodegrees";
        if (!near(got.y, (__int128)r.lat * b.gran + b.lat_off, 100)) return "latitude " + std::to_string(got.y) + " is not " + std::to_string(r.lat) + " * " + std::to_string(b.gran) + " + " + std::to_string(b.lat_off) + " nanodegrees";
        w.x = got.x; w.y = got.y;
    }
    return got == w ? "" : diff(got, w) + "\n  got  " + str(got) + "\n  want " + str(w);
}

} // namespace pbf
#endif
