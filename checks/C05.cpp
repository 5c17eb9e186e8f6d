// Objects a handler keeps are never changed by further reading.
// LIBS: pbf xml
// VARIANT: plain
// VARIANT: asan -fsanitize=address -fno-omit-frame-pointer
#include "io.hpp"
#include "pbfcodec.hpp"
using namespace model;

RULE("a case counts as non-trivial if at least one object is kept while at least one later object of the same kind is read; distinct by description");

typedef shared_ptr<Osmium::OSM::Node const> NP; typedef shared_ptr<Osmium::OSM::Way const> WP; typedef shared_ptr<Osmium::OSM::Relation const> RP;
struct Kept { int kind; NP n; WP w; RP r; Obj want; };
static Obj now(const Kept& k) { return k.kind == 0 ? from(*k.n) : k.kind == 1 ? from(*k.w) : from(*k.r); }

// plan: for each object what to do: 0 ignore, 1 keep, 2 keep and drop an older one, 3 drop an older one, 4 keep two references, 5 check all
struct Keeper : public Osmium::Handler::Base {
    Ctx& c; const std::vector<int>& plan; size_t i = 0, stop_at; std::vector<Kept> kept; std::vector<Obj> seen; std::string name;
    Keeper(Ctx& cc, const std::vector<int>& p, const std::string& n, size_t stop = (size_t)-1) : c(cc), plan(p), stop_at(stop), name(n) {}
    void check_all(const std::string& when) { for (auto& k : kept) { Obj o = now(k); if (o != k.want) c.fail(name + ": kept object changed " + when + ": " + diff(o, k.want) + "\n  now  " + str(o) + "\n  kept " + str(k.want)); } }
    void act(const Kept& k) {
        seen.push_back(k.want);
        int a = plan.empty() ? 0 : plan[i % plan.size()]; ++i;
        if (a == 1 || a == 2 || a == 4) kept.push_back(k);
        if (a == 4) kept.push_back(k);
        if ((a == 2 || a == 3) && !kept.empty()) kept.erase(kept.begin() + (i * 7) % kept.size());
        if (a == 5) check_all("while reading");
        if (i == stop_at) throw Osmium::Handler::StopReading();
    }
    void node(const NP& p) { Kept k; k.kind = 0; k.n = p; k.want = from(*p); act(k); }
    void way(const WP& p) { Kept k; k.kind = 1; k.w = p; k.want = from(*p); act(k); }
    void relation(const RP& p) { Kept k; k.kind = 2; k.r = p; k.want = from(*p); act(k); }
};

// objects that differ much in how much they hold, so that leftovers of an earlier one show
static Obj bare_or_full(Ctx& c, int kind, bool hist) {
    GenOpts g; g.xml_text = true; g.history = hist; g.sub_more = c.pick(std::vector<unsigned>{10, 55, 80}); g.undef_pos = true;
    Obj o = gen_obj(c, kind, g);
    if (o.version > 2147483647u) o.version = 1;
    if (o.uid <= 0) { o.uid = -1; o.user = ""; }
    o.endtime = 0;
    if (c.chance(35)) { Obj d; d.kind = kind; d.id = o.id; d.version = c.chance(50) ? 0 : o.version; if (kind == 0 && c.chance(60)) { d.x = o.x; d.y = o.y; } o = d; }
    return o;
}
static void run(Ctx& c, bool chained) {
    int type = c.weighted({70, 30}), enc = c.upto(1); std::vector<Obj> objs; int k = 0; bool nosort = c.chance(40);
    if (enc == PBF && c.chance(50)) { for (k = 0; k < 3; ++k) while (c.more(80)) objs.push_back(bare_or_full(c, k, type)); }
    else while (c.more(90)) { if (c.chance(nosort ? 40 : 10)) k = c.upto(2); objs.push_back(bare_or_full(c, k, type)); }
    std::string p = c.path("in"); std::vector<Obj> want = objs;
    if (type == OSM) for (auto& o : want) o.visible = true;
    if (enc == XML) { WOpts w; w.type = type; w.enc = XML; Data d; d.objs = objs; write_file(p, d, w); }
    else {
        // own encoder with missing fields: no info at all for bare objects
        pbf::Header h; if (type) h.req.push_back("HistoricalInformation");
        std::string s = pbf::blob("OSMHeader", pbf::header_data(h), false); auto bs = pbf::blocks_of(objs, 1 + c.upto(9), 1 + c.upto(3), false); size_t n = 0;
        for (auto& b : bs) { for (auto& g : b.groups) for (auto& r : g.objs) {
                Obj& w = want[n++]; if (w.kind == 0 && !w.defined()) { w.x = w.y = 3; r.lon = r.lat = 3; }
                r.has_visible = type == HISTORY;
                if (!w.version && w.visible && w.user.empty()) { r.has_info = false; w.timestamp = 0; w.changeset = 0; w.uid = -1; w.visible = true; } else if (w.uid == -1) { r.o.uid = 0; w.uid = 0; } }
            pbf::Encoder e{pbf::Style()}; s += pbf::blob("OSMData", e.block(b), c.chance(30)); }
        spit(p, s);
    }
    std::vector<int> plan; while (c.more(85)) plan.push_back(c.weighted({40, 30, 10, 8, 6, 6}));
    std::vector<int> plan2; if (chained) while (c.more(80)) plan2.push_back(c.weighted({40, 30, 10, 8, 6, 6}));
    c.desc << (enc ? "xml" : "pbf") << (type ? " history" : "") << " plan"; for (int a : plan) c.desc << " " << a; if (chained) { c.desc << " /"; for (int a : plan2) c.desc << " " << a; }
    size_t stop = c.chance(20) ? 1 + c.upto(20) : (size_t)-1;
    c.desc << "\n"; for (size_t i = 0; i < objs.size() && i < 20; ++i) c.desc << want[i] << "\n";
    c.label(enc ? "xml" : "pbf");
    Keeper a(c, plan, "first handler", stop), b(c, plan2, "second handler");
    if (chained) { Osmium::Handler::Sequence<Keeper, Keeper> s(a, b); read_file(p, type, enc, s); }
    else read_file(p, type, enc, a);
    a.check_all("after reading"); b.check_all("after reading");
    if (stop <= want.size()) want.resize(stop);
    same_objs(c, a.seen, want, "objects as delivered");
    bool nt = false; for (auto& x : a.kept) for (auto& o : a.seen) if (&o != &x.want && o.kind == x.kind && !(o == x.want)) nt = true; c.nontrivial(nt);
    // reading more from another file does not matter either
    size_t before = a.kept.size(); Keeper again(c, plan, "second reading"); read_file(p, type, enc, again);
    a.check_all("by another reading"); again.check_all("after reading"); c.eq(a.kept.size(), before, "kept");
    // dropping some does not affect the others
    while (!a.kept.empty()) { a.kept.erase(a.kept.begin() + c.upto(a.kept.size() - 1)); a.check_all("after dropping another"); if (a.kept.size() > 30) a.kept.resize(30); }
}
SCENARIO(keep, 700, 25000) { run(c, false); }
SCENARIO(keep_in_sequence, 300, 12000) { run(c, true); }
