// Every valid OSM XML document is read with its standard meaning.
// LIBS: pbf xml dl
// LOCALE: yes
#include "xmlgen.hpp"
#include "locale.hpp"
#include "readfaults.hpp"
using namespace model;

RULE("a case counts as non-trivial if the document holds at least one object and uses at least one freedom of XML (attribute order, references, comments, encodings, unknown attributes or elements, element order); distinct by the text of the document");
ASSUME("unknown elements occur only at top level and do not contain elements with names of OSM objects");

static void run(Ctx& c, xmlgen::Doc& d, int how) {
    std::string p = c.path("x.osm"); Capture cap; int type = d.change ? CHANGE : c.upto(1);
    if (how == 1) {
        std::vector<size_t> sizes; while (c.more(80)) sizes.push_back(1 + c.upto(c.chance(60) ? 12 : 5000)); c.desc << "pieces of"; for (size_t s : sizes) c.desc << " " << s; c.label("through a pipe");
        Trickle t(p, d.bytes, sizes); read_file(p, type, XML, cap);
    } else { spit(p, d.bytes); read_file(p, type, XML, cap); unlink(p.c_str()); }
    same_objs(c, cap.objs, d.objs, "objects read"); c.eq(cap.box, d.box, "bounds"); c.eq(show(cap.generator), show(d.generator), "generator");
    c.eq(cap.events, expected_events(d.objs), "callbacks");
}
SCENARIO(documents, 20000, 900000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, c.pick(std::vector<unsigned>{75, 88, 50})); xmlgen::describe(c, d); c.nontrivial(!d.objs.empty() && !d.features.empty()); classify(c, d.objs);
    run(c, d, 0);
}
SCENARIO(pipes, 1500, 40000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 80); xmlgen::describe(c, d); c.nontrivial(!d.objs.empty() && !d.features.empty()); run(c, d, 1);
}
// the reading program uses a locale with a decimal comma
SCENARIO(locale, 1500, 60000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 80); xmlgen::describe(c, d); c.nontrivial(!d.objs.empty()); classify(c, d.objs);
    locales::Comma l(true); run(c, d, c.chance(20)); l.check(c);
}
// reads that are interrupted or give a part only are continued; an error is not the end of the document
SCENARIO(interrupted, 2000, 60000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 80); readfaults::make(c, true); xmlgen::describe(c, d); std::string p = c.path("x.osm"), how; int type = d.change ? CHANGE : c.upto(1); spit(p, d.bytes); Capture cap; bool failed = false;
    readfaults::on = true; try { read_file(p, type, XML, cap); } catch (const std::exception& e) { failed = true; how = e.what(); } readfaults::on = false; size_t hard = readfaults::hard, soft = readfaults::soft; unlink(p.c_str()); c.nontrivial(hard || soft); c.label(hard ? "read error" : soft ? "interrupted or short reads" : "no fault reached");
    if (hard) { c.check(failed, "a read failed and nothing was reported; " + std::to_string(cap.objs.size()) + " of " + std::to_string(d.objs.size()) + " objects were delivered"); c.check(cap.objs.size() <= d.objs.size(), "surplus objects"); std::vector<Obj> w(d.objs.begin(), d.objs.begin() + std::min(d.objs.size(), cap.objs.size())); same_objs(c, cap.objs, w, "objects delivered before the error"); }
    else { c.check(!failed, "only interrupted and short reads, but reading failed: " + how); same_objs(c, cap.objs, d.objs, "objects read"); c.eq(cap.events, expected_events(d.objs), "callbacks"); c.eq(cap.box, d.box, "bounds"); }
}
// the reader takes its input in pieces of a fixed size: put every construct on the boundary between pieces
SCENARIO(shifted, 5000, 200000) {
    xmlgen::Doc d = xmlgen::gen_doc(c, 85, true);
    size_t shift = c.upto(10400); std::string pad = "<!--" + std::string(shift, '-' == 'x' ? 'y' : 'p') + "-->"; // after the root element's start
    if (d.bytes.size() > 1 && (unsigned char)d.bytes[0] == 0xff) throw pbt::Discard(); // UTF-16: padding is single bytes
    std::string root = d.change ? "</osmChange" : "</osm"; size_t p = d.ends.empty() ? d.bytes.find(root) : 0;
    if (p == 0) { p = d.bytes.find(d.change ? "<osmChange" : "<osm"); bool q = false; char qc = 0; for (; p < d.bytes.size(); ++p) { char ch = d.bytes[p]; if (q) { if (ch == qc) q = false; } else if (ch == '"' || ch == '\'') { q = true; qc = ch; } else if (ch == '>') { ++p; break; } } }
    d.bytes.insert(p, pad); c.desc << "padded by " << shift << " at " << p << "; "; xmlgen::describe(c, d); c.nontrivial(d.bytes.size() > 10240); c.label_if(d.bytes.size() > 10240, "larger than one piece");
    run(c, d, 0);
}
// documents of many pieces
SCENARIO(large, 60, 2000) {
    xmlgen::Doc d; d.change = c.chance(30); Bulk b{c.upto(~0ULL)}; size_t n = 200 + c.upto(2500); unsigned sub = c.pick(std::vector<unsigned>{1, 5, 60}); if (sub == 60) n /= 8;
    for (size_t i = 0; i < n; ++i) d.objs.push_back(bulk_obj(b, i * 3 / n, 1 + b.upto(9000000000ULL), 1000, sub));
    xmlgen::Emitter e(c, d, false); e.document(); c.desc << n << " objects, up to " << sub << " tags, " << d.bytes.size() << " bytes, seed " << b.state; c.nontrivial();
    run(c, d, c.upto(1));
}
