// Converting between file formats and types preserves the data.
// LIBS: pbf xml
// TOOLS: osmium_convert
#include "io.hpp"
#include "tool.hpp"
#include <functional>
using namespace model;

RULE("a case counts as non-trivial if at least one conversion between different encodings or types takes place and the data holds at least two objects with tags, references, members or users; "
     "distinct by the description of data and conversions");
ASSUME("text is made of characters XML 1.0 can represent; ids exclude INT64_MIN");

// the one step of reading and writing as applications do it
static void convert(const Osmium::OSMFile& in, const Osmium::OSMFile& out) {
    Osmium::OSMFile i(in), o(out);
    Osmium::Output::Handler h(o);
    h.set_generator("conv");
    Osmium::Input::read(i, h);
}
static Data gen(Ctx& c, int type) {
    GenOpts g; g.xml_text = true; g.history = type != OSM; g.more = c.pick(std::vector<unsigned>{75, 85, 50}); g.sorted = !c.chance(30);
    Data d = gen_data(c, g); d.generator = "gen"; return d;
}
static Data bulk(Ctx& c, int type) {
    Data d; Bulk b{c.upto(~0ULL)}; size_t n = c.pick(std::vector<size_t>{8001, 12000, 300, 3000}), run = c.pick(std::vector<size_t>{0, 1, 5000}); d.generator = "gen"; d.box = gen_box(c, GenOpts());
    for (size_t i = 0; i < n; ++i) { Obj o = bulk_obj(b, run ? (i / run) % 3 : i * 3 / n, 1 + b.upto(1000000), 20000, 5); if (type) o.visible = b.upto(4) != 0; d.objs.push_back(o); }
    c.desc << "bulk " << n << " run " << run << " seed " << b.state << "; "; return d;
}
static std::string name(int type, int enc) { return std::string(type == OSM ? "osm" : type == HISTORY ? "osh" : "osc") + (enc == PBF ? ".pbf" : enc == GZ ? ".gz" : enc == BZ2 ? ".bz2" : ""); }

static void chain(Ctx& c, bool large, bool tool) {
    WOpts w; w.type = c.weighted({45, 35, 20}); w.enc = w.type == CHANGE ? 1 + c.upto(2) : c.upto(3);
    if (w.enc == PBF) { w.dense = !c.chance(30); w.compress = !c.chance(30); }
    Data d = large ? bulk(c, w.type) : gen(c, w.type);
    std::vector<Obj> want = normalise(d.objs, w);
    std::string f = c.path("f0." + name(w.type, w.enc));
    write_file(f, d, w);
    WOpts first = w; bool changed = false; std::string gen = "gen";
    size_t steps = 1 + c.upto(large ? 1 : 3);
    c.desc << "start " << name(w.type, w.enc);
    for (size_t s = 0; s < steps; ++s) {
        WOpts n = w; n.dense = n.compress = true;
        if (s + 1 == steps && c.chance(40)) { n.type = first.type; n.enc = first.enc; } // return to where we began
        else { n.enc = c.upto(3); if (c.chance(25)) n.type = c.upto(2); if (n.type == CHANGE && n.enc == PBF) n.enc = XML; }
        changed |= n.enc != w.enc || n.type != w.type;
        std::string g = c.path("f" + std::to_string(s + 1) + "." + name(n.type, n.enc));
        c.desc << " -> " << name(n.type, n.enc); c.label(name(w.type, w.enc) + " to " + name(n.type, n.enc));
        if (!tool) {
            gen = "conv";
            // the way the file is named must not matter if type and encoding are given
            if (c.chance(30)) { std::string h = c.path("plainname" + std::to_string(s)); convert(mkfile(f, w.type, w.enc), mkfile(h, n.type, n.enc)); rename(h.c_str(), g.c_str()); }
            else convert(Osmium::OSMFile(f), Osmium::OSMFile(g));
        } else {
            gen = "osmium_convert";
            std::vector<std::string> args; std::string in, out;
            size_t how = c.weighted({50, 30, 20});
            c.desc << " (" << (how == 0 ? "by suffix" : how == 1 ? "by option" : "by stdin and stdout") << ")";
            if (how == 0) args = {f, g};
            else {
                std::string a = c.path("in.dat"), b = c.path(c.chance(50) ? "out.osm.bz2" : "out.dat"); unlink(b.c_str()); std::filesystem::copy_file(f, a, std::filesystem::copy_options::overwrite_existing);
                if (c.chance(50)) args = {"-f", name(w.type, w.enc), "-t", name(n.type, n.enc)}; else args = {"--from-format=" + name(w.type, w.enc), "--to-format=" + name(n.type, n.enc)};
                // known to the library only for a file with a name: the compression programs need one
                if (how == 2 && n.enc <= XML && w.enc <= XML) { in = a; out = b; } else { args.push_back(a); args.push_back(b); }
                tool::Result r = tool::run("osmium_convert", args, in, out);
                c.eq(r.status, 0, "exit status of osmium_convert (" + r.err.substr(0, 200) + ")");
                rename(b.c_str(), g.c_str()); args.clear();
            }
            if (!args.empty()) { tool::Result r = tool::run("osmium_convert", args); c.eq(r.status, 0, "exit status of osmium_convert (" + r.err.substr(0, 200) + ")"); }
        }
        want = normalise(want, n);
        unlink(f.c_str()); f = g; w = n;
    }
    c.desc << "\n"; if (!large) describe(c, d); c.nontrivial(changed && rich(d.objs));
    Capture cap; read_file(f, w.type, w.enc, cap);
    same_up_to_grouping(c, cap.objs, want, "after conversion");
    c.eq(cap.box, d.box, "bounds after conversion");
    c.eq(cap.generator, gen, "generator");
    unlink(f.c_str());
}

SCENARIO(chains, 700, 30000) { chain(c, false, false); }
SCENARIO(large, 20, 600) { chain(c, true, false); }
SCENARIO(convert_tool, 150, 5000) { chain(c, false, true); }
// several files written at the same time, while others are read: none affects another
typedef std::vector<std::function<void()>> Steps;
template <class H> static void steps(Steps& v, std::shared_ptr<H> h, std::shared_ptr<Osmium::OSM::Meta> meta, const Data& d) {
    v.push_back([=] { h->init(*meta); }); int last = -1;
    auto after = [&](int k) { if (k == 0) v.push_back([=] { h->after_nodes(); }); else if (k == 1) v.push_back([=] { h->after_ways(); }); else if (k == 2) v.push_back([=] { h->after_relations(); }); };
    for (auto& o : d.objs) {
        if (o.kind != last) { after(last); last = o.kind; if (last == 0) v.push_back([=] { h->before_nodes(); }); else if (last == 1) v.push_back([=] { h->before_ways(); }); else v.push_back([=] { h->before_relations(); }); }
        if (o.kind == 0) v.push_back([=] { h->node(to_node(o)); }); else if (o.kind == 1) v.push_back([=] { h->way(to_way(o)); }); else v.push_back([=] { h->relation(to_relation(o)); });
    }
    after(last); v.push_back([=] { h->final(); });
}
SCENARIO(at_once, 500, 20000) {
    struct S { std::string path; WOpts w; Data d; Steps v; size_t at = 0; }; std::vector<S> all(2 + c.upto(2)); bool both = true;
    for (size_t i = 0; i < all.size(); ++i) {
        S& s = all[i]; s.w.type = c.weighted({50, 30, 20}); s.w.enc = s.w.type == CHANGE ? XML : c.weighted({50, 40, 5, 5}); if (s.w.enc == PBF) { s.w.dense = !c.chance(30); s.w.compress = !c.chance(30); s.w.meta = !c.chance(10); }
        s.d = gen(c, s.w.type); s.d.generator = "gen" + std::to_string(i); both &= s.d.objs.size() > 1; s.path = c.path("s" + std::to_string(i) + "." + name(s.w.type, s.w.enc)); c.desc << "file " << i << " " << name(s.w.type, s.w.enc) << ": "; describe(c, s.d);
        if (i > 0 && c.chance(30)) { // written before, read now and then
            write_file(s.path, s.d, s.w); c.desc << "(only read) "; S* p = &s; Ctx* cc = &c; for (size_t n = 1 + c.upto(2); n; --n) s.v.push_back([=] { Capture cap; read_file(p->path, p->w.type, p->w.enc, cap); same_up_to_grouping(*cc, cap.objs, normalise(p->d.objs, p->w), "read while others are written"); }); c.label("read in between"); continue;
        }
        auto meta = std::make_shared<Osmium::OSM::Meta>(to_bounds(s.d.box)); meta->has_multiple_object_versions(s.w.multi()); Osmium::OSMFile file = mkfile(s.path, s.w.type, s.w.enc);
        if (s.w.enc == PBF) { std::shared_ptr<Osmium::Output::PBF> h(make_pbf(file, s.w)); h->set_generator(s.d.generator); steps(s.v, h, meta, s.d); } else if (c.chance(50)) { auto h = std::make_shared<Osmium::Output::XML>(file); h->set_generator(s.d.generator); steps(s.v, h, meta, s.d); } else { auto h = std::make_shared<Osmium::Output::Handler>(file); h->set_generator(s.d.generator); steps(s.v, h, meta, s.d); }
    }
    c.desc << "order "; for (;;) { std::vector<size_t> open; for (size_t i = 0; i < all.size(); ++i) if (all[i].at < all[i].v.size()) open.push_back(i); if (open.empty()) break; size_t i = c.pick(open), n = 1 + (c.chance(40) ? c.upto(5) : 0); c.desc << i << "x" << n << " "; while (n-- && all[i].at < all[i].v.size()) all[i].v[all[i].at++](); }
    for (auto& s : all) { s.v.clear(); Capture cap; read_file(s.path, s.w.type, s.w.enc, cap); std::string what = "file " + std::to_string(&s - &all[0]); same_up_to_grouping(c, cap.objs, normalise(s.d.objs, s.w), what); c.eq(cap.box, s.d.box, "bounds of " + what); c.eq(cap.generator, s.d.generator, "generator of " + what); unlink(s.path.c_str()); }
    c.nontrivial(both);
}
