// XML write-then-read returns exactly the data that was written.
// LIBS: pbf xml
// LOCALE: yes
#include "io.hpp"
#include "locale.hpp"
#include "xmlcodec.hpp"
using namespace model;

RULE("a case counts as non-trivial if the file holds at least two objects and at least one of them has tags, references, members or a user name; "
     "distinct by the full description of the generated data and writer options");
ASSUME("text is made of characters XML 1.0 can represent; versions are at most 2^31-1, ids exclude INT64_MIN");

static void check_document(Ctx& c, const std::string& f, const Data& d, const WOpts& w) {
    xmlcodec::Doc doc = xmlcodec::parse(xmlcodec::content(f, w.enc));
    c.check(doc.error.empty(), "the document written is wrong: " + doc.error);
    c.eq(doc.root, std::string(w.type == CHANGE ? "osmChange" : "osm"), "root element");
    c.eq(doc.rattr["version"], std::string("0.6"), "version attribute");
    c.eq(show(doc.rattr["generator"]), show(d.generator), "generator attribute");
    c.eq(doc.box, d.box, "bounds in the document");
    std::vector<Obj> want = normalise(d.objs, w);
    for (size_t i = 0; i < want.size(); ++i) {
        if (i < doc.objs.size() && w.type == CHANGE) {
            c.eq(doc.section[i], std::string(!want[i].visible ? "delete" : want[i].version == 1 ? "create" : "modify"), "change section of " + str(want[i]));
            doc.objs[i].visible = want[i].visible; // expressed by the section
        }
        if (i < doc.objs.size() && w.type == HISTORY) c.check(doc.attrs[i].count("visible"), "no visible attribute in history file");
    }
    same_objs(c, doc.objs, want, "document");
}
static void roundtrip(Ctx& c, const Data& d, const WOpts& w, bool examine, bool wcomma = false, bool rcomma = false) {
    std::string f = c.path("x.osm");
    sometimes_existing(c, f);
    { locales::Comma l(wcomma); write_file(f, d, w); l.check(c); }
    if (examine) check_document(c, f, d, w);
    Capture cap;
    { locales::Comma l(rcomma); read_file(f, w.type, w.enc, cap); l.check(c); }
    same_objs(c, cap.objs, normalise(d.objs, w), "read back");
    c.eq(cap.box, d.box, "bounds");
    c.eq(show(cap.generator), show(d.generator), "generator");
    unlink(f.c_str());
}

SCENARIO(small, 3500, 150000) {
    WOpts w = gen_wopts(c, XML);
    if (c.chance(20)) w.enc = c.chance(50) ? GZ : BZ2;
    GenOpts g; g.xml_text = true; g.history = w.type != OSM; g.more = c.pick(std::vector<unsigned>{75, 90, 50}); g.sorted = !c.chance(30);
    Data d = gen_data(c, g); d.generator = gen_text(c, g);
    describe(c, w); describe(c, d); c.desc << "generator " << show(d.generator);
    c.nontrivial(rich(d.objs)); classify(c, d.objs);
    roundtrip(c, d, w, true);
}

// the programs writing and reading use a locale with a decimal comma
SCENARIO(locale, 500, 20000) {
    WOpts w = gen_wopts(c, XML); GenOpts g; g.xml_text = true; g.history = w.type != OSM; g.more = 75;
    Data d = gen_data(c, g); d.generator = gen_text(c, g); int how = 1 + c.upto(2);
    describe(c, w); describe(c, d); c.desc << (how & 1 ? "written " : "") << (how & 2 ? "read " : "") << "in a locale with decimal comma"; c.nontrivial(rich(d.objs)); classify(c, d.objs);
    roundtrip(c, d, w, true, how & 1, how & 2);
}

SCENARIO(large, 40, 1500) {
    WOpts w = gen_wopts(c, c.chance(50) ? XML : c.chance(50) ? GZ : BZ2); w.type = c.upto(2);
    Bulk b{c.upto(~0ULL)}; unsigned sub = c.pick(std::vector<unsigned>{0, 2, 8, 40}); size_t total = 50 + c.upto(6000), run = c.pick(std::vector<size_t>{0, 1, 50});
    Data d; d.box = gen_box(c, GenOpts());
    for (size_t i = 0; i < total; ++i) { Obj o = bulk_obj(b, run ? (i / run) % 3 : i * 3 / total, 1 + b.upto(1000000), 100000, sub); if (w.type) o.visible = b.upto(4) != 0; d.objs.push_back(o); }
    describe(c, w); c.desc << total << " objects, runs of " << run << ", up to " << sub << " tags, bulk seed " << b.state; c.nontrivial();
    roundtrip(c, d, w, true);
}

// one object with very many tags, references or members
SCENARIO(wide, 12, 300) {
    WOpts w = gen_wopts(c, XML); Bulk b{c.upto(~0ULL)}; size_t n = c.pick(std::vector<size_t>{500, 2000, 20000, 70000}); int kind = c.upto(2);
    Data d; Obj o = bulk_obj(b, kind, 17, 10, 0);
    for (size_t i = 0; i < n; ++i) { if (kind == 0) o.tags.push_back(Tag{"k" + std::to_string(i), std::to_string(b.next())}); else if (kind == 1) o.refs.push_back(b.next() >> 1); else o.members.push_back(Member{"nwr"[b.upto(2)], (int64_t)(b.next() >> 1), "<" + std::to_string(b.upto(99)) + "\">"}); }
    d.objs.push_back(o); d.objs.push_back(o);
    describe(c, w); c.desc << "kind " << kind << " with " << n << " sub-elements, bulk seed " << b.state; c.nontrivial();
    roundtrip(c, d, w, true);
}
