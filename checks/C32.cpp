// Scripts run by osmjs see exactly the data in the file and write what they print.
// LIBS: pbf xml geosc shp
// GEOS: old
// OSMJS: yes
// FLAGS: -fsanitize=address
#include "jsworld.hpp"

RULE("a case counts as non-trivial if a script sees at least two objects of which one has tags, nodes or members, or writes at least two values, or a wrong call is refused; distinct by description");
ASSUME("the library needs the GEOS and V8 of its time, which are not installed: osmjs runs inside the installed node, its V8 calls go to node's V8 through a stand-in with the old interface (fw/oldv8), GEOS calls through another (fw/oldgeos)");
ASSUME("texts have at most 255 characters, as in OSM, ids at most 53 bits, as numbers in Javascript; scripts use objects only during the call they are given in; as documented for the stores, nodes that ways refer to are in the file (only for -l vector and sparsetable and positive ids they may be missing)");

SCENARIO(objects, 700, 25000) {
    std::string dir = fresh(c); int mode = c.weighted({25, 35, 8, 8, 24}); // no store, store, -2, -2 with store, -m
    bool mp = mode == 4, repair = !(mp && c.chance(30)); std::string store = c.pick(stores()); bool st = mode == 1 || mode == 3 || mp; In in = gen_in(c, mp, !mp, !st ? 1 : store == "vector" || store == "sparsetable" ? 2 : 0); bool via_stdin = mode < 2 && !in.history && c.chance(10); write_in(c, in, dir, via_stdin);
    Expect e; e.store = mode == 1 || mode == 3 || mode == 4; while (c.more(60)) { std::vector<std::string> ks = odd_keys(); for (auto& o : in.objs) for (auto& t : o.tags) ks.push_back(t.k); std::string k = c.pick(ks); if (c.chance(25)) { GenOpts g; g.xml_text = true; k = gen_text(c, g); } e.probes.push_back(k); }
    std::vector<std::string> args; if (e.store) { if (in.big) store = "vector"; // the others need memory for all ids up to the largest
        if (c.chance(50)) { args.push_back("-l"); args.push_back(store); } else args.push_back("--location-store=" + store); } else if (c.chance(20)) { args.push_back("-l"); args.push_back("none"); }
    if (mode == 2 || mode == 3) args.push_back(c.chance(50) ? "-2" : "--2pass"); if (mp) { args.push_back(c.chance(50) ? "-m" : "--multipolygon"); if (c.chance(30)) args.push_back("-2"); if (!repair) args.push_back(c.chance(50) ? "-r" : "--no-repair"); } bool debug = c.chance(20); if (debug) args.push_back(c.chance(50) ? "-d" : "--debug");
    // the script, or parts of it, can be included
    std::string probes = "var PROBES=["; for (auto& k : e.probes) probes += lit(k) + ","; probes += "];\n"; std::set<std::string> skip; if (c.chance(25)) for (auto& nme : call_names()) if (c.chance(25)) skip.insert(nme); std::string off = "C={};\n", on; for (auto& nme : call_names()) if (!skip.count(nme)) on += "Osmium.Callbacks." + nme + "=C." + nme + ";\n"; std::string head = "p('start '+argv.length+argv.map(function(a){return ' '+h(a)}).join('')+' '+Osmium.debug);\n", lib = probes + LIB, calls = off + CALLS + on; std::string js;
    switch (c.upto(3)) { case 0: js = lib + head + calls; break; case 1: spit(dir + "/lib.js", lib); args.push_back("-i"); args.push_back(c.chance(50) ? "lib" : "lib.js"); js = head + calls; break; case 2: mkdir((dir + "/js").c_str(), 0755); mkdir((dir + "/home").c_str(), 0755); mkdir((dir + "/home/.osmjs").c_str(), 0755); spit(dir + (c.chance(50) ? "/js/one.js" : "/home/.osmjs/one.js"), lib); spit(dir + "/two.inc", head); args.push_back("--include=one"); args.push_back("-i"); args.push_back(c.chance(50) ? "two.inc" : dir.substr(1) + "/two.inc"); js = calls; break; default: spit(dir + "/lib x.js", lib); js = "include('lib x.js');\n" + head + "include(" + lit(dir + "/cb.js") + ");\n"; spit(dir + "/cb.js", calls); }
    spit(dir + "/script.js", js); if (c.chance(50)) { args.push_back("-j"); args.push_back("script.js"); } else args.push_back("--javascript=script.js"); args.push_back(via_stdin ? "-" : in.file); std::string want_head = "start "; std::vector<std::string> av; while (c.more(30)) { GenOpts g; g.xml_text = true; std::string a = gen_text(c, g, 20); if (!a.empty() && a[0] == '-') a = "x"; av.push_back(a); args.push_back(a); } want_head += ns(av.size()); for (auto& a : av) want_head += " " + h(a); want_head += debug ? " true" : " false";
    for (auto& a : args) c.desc << show(a) << " "; for (auto& s : skip) c.desc << "no " << s << " ";
    tool::Result r = tool::run(prog(c), args, via_stdin ? dir + "/" + in.file : "", "", dir); ended(c, r);
    std::vector<std::string> want{want_head}; auto add = [&](const std::string& name, const std::string& line) { if (!skip.count(name)) want.push_back(line); }; add("init", "init"); static const char* kn[] = {"nodes", "ways", "relations"}; static const char* k1[] = {"node", "way", "relation"}; int last = -1; std::set<size_t> loose; size_t content = 0;
    for (auto& o : in.objs) { if (o.kind != last) { if (last >= 0) add(std::string("after_") + kn[last], std::string("after_") + kn[last]); last = o.kind; add(std::string("before_") + kn[last], std::string("before_") + kn[last]); } bool partly = false; std::string l = o.kind == 0 ? e.node(o) : o.kind == 1 ? e.way(o, in.pos, partly) : e.relation(o); if (partly && !skip.count("way")) loose.insert(want.size()); add(k1[o.kind], l); content += !o.tags.empty() || !o.refs.empty() || !o.members.empty(); }
    if (last >= 0) add(std::string("after_") + kn[last], std::string("after_") + kn[last]); add("end", "end");
    auto got = lines_of(r.out); std::vector<std::string> rest, ar; size_t first_area = 0, last_area = 0, bw = 0, aw = 0; for (auto& l : got) { if (l.compare(0, 5, "area ") == 0) { ar.push_back(l); if (!first_area) first_area = rest.size(); last_area = rest.size(); } else { rest.push_back(l); if (l == "before_ways") bw = rest.size(); if (l == "after_ways") aw = rest.size(); } }
    for (size_t i = 0; i < rest.size() && i < want.size(); ++i) { if (loose.count(i)) { size_t k = want[i].find(" G "); c.check(rest[i].compare(0, k, want[i], 0, k) == 0, "line " + ns(i) + " is\n" + rest[i] + "\ninstead of\n" + want[i].substr(0, k)); } else c.check(rest[i] == want[i], "line " + ns(i) + " is\n" + rest[i] + "\ninstead of\n" + want[i]); } c.eq(rest.size(), want.size(), "number of lines");
    if (mp) { auto wa = skip.count("area") ? std::vector<std::string>() : areas_of(dir + "/" + in.file, e, repair); auto a = ar; std::sort(a.begin(), a.end()); std::sort(wa.begin(), wa.end()); for (size_t i = 0; i < a.size() && i < wa.size(); ++i) c.check(a[i] == wa[i], "area is\n" + a[i] + "\ninstead of\n" + wa[i]); c.eq(a.size(), wa.size(), "number of areas"); if (!ar.empty()) { if (bw) c.check(first_area >= bw, "area before the ways"); if (aw) c.check(last_area < aw, "area after the ways"); c.label("areas"); } }
    else if (mode < 2) c.check(ar.empty(), "areas without multipolygons"); c.nontrivial(in.objs.size() >= 2 && content); c.label("mode " + ns(mode)); if (e.store) c.label(store);
}

// ---- values of scripts: literal, as text
struct Val { std::string js, text; };
static Val gen_val(Ctx& c) { switch (c.weighted({60, 15, 10, 15})) { case 0: { GenOpts g; std::string s = gen_text(c, g); if (c.chance(4)) s.insert(s.begin() + (s.empty() ? 0 : 0), '\0'); return Val{lit(s), s}; } case 1: { int64_t v = c.range(-9007199254740991LL, 9007199254740991LL); if (c.chance(60)) v %= 1000; return Val{ns(v), ns(v)}; } case 2: { std::string s; size_t n = 300 + c.upto(3000); uint32_t u = c.chance(50) ? gen_cp(c, false) : 'q'; for (size_t i = 0; i < n; ++i) put_utf8(s, u); return Val{"Array(" + ns(n + 1) + ").join(" + lit(s.substr(0, s.size() / n)) + ")", s}; } default: return c.pick(std::vector<Val>{{"true", "true"}, {"false", "false"}, {"undefined", "undefined"}, {"null", "null"}, {"1.5", "1.5"}, {"0.1+0.2", "0.30000000000000004"}, {"-0", "0"}, {"1e21", "1e+21"}, {"NaN", "NaN"}, {"[1,[2,'x']]", "1,2,x"}, {"({toString:function(){return 'own'}})", "own"}, {"''", ""}, {"'\\n'", "\n"}}); } }
struct Csv { std::string name, var, content; bool open; };
SCENARIO(texts, 250, 8000) {
    std::string dir = fresh(c); spit(dir + "/e.osm", xml_of({}, false)); std::string js, out; std::vector<Csv> files; size_t n = 0; static const char* bases[] = {"a.csv", "b c", "\xc3\xa4.txt", "x.y"}; bool later = c.chance(30);
    while (c.more(88)) {
        size_t k = c.weighted({5, 55, 20, 12, 8}); std::vector<Val> v; for (size_t i = 0; i < k; ++i) v.push_back(gen_val(c)); std::string a; for (size_t i = 0; i < k; ++i) a += (i ? "," : "") + v[i].js; n += k;
        if (c.chance(50)) { js += "print(" + a + ");\n"; for (auto& x : v) out += x.text + "\n"; continue; }
        std::vector<size_t> usable; for (size_t i = 0; i < files.size(); ++i) if (files[i].open) usable.push_back(i); size_t f; if (usable.empty() || c.chance(15)) { f = files.size(); files.push_back(Csv{ns(f) + bases[c.upto(3)], "f_" + ns(f), "", true}); js += "var " + files[f].var + "=Osmium.Output.CSV.open(" + lit(files[f].name) + ");\n"; } else f = c.pick(usable);
        js += files[f].var + ".print(" + a + ");\n"; for (size_t i = 0; i < k; ++i) files[f].content += (i ? "\t" : "") + v[i].text; files[f].content += "\n"; if (c.chance(10)) { js += files[f].var + ".close();\n"; files[f].open = false; }
    }
    for (auto& f : files) if (f.open) js += f.var + ".close();\n"; if (later) js = "Osmium.Callbacks.end=function(){\n" + js + "}\n"; spit(dir + "/s.js", js + ";"); c.desc << js.substr(0, 3000); c.nontrivial(n >= 2); c.label_if(files.size() > 1, "several files"); tool::Result r = tool::run(prog(c), {"-j", "s.js", "e.osm"}, "", "", dir); ended(c, r);
    c.check(r.out == out, "printed " + show(r.out, 3000) + " instead of " + show(out, 3000)); for (auto& f : files) { std::string g = tool::take(dir + "/" + f.name); c.check(g == f.content, f.name + " holds " + show(g, 3000) + " instead of " + show(f.content, 3000)); }
}

SCENARIO(shapes, 300, 9000) {
    std::string dir = fresh(c); bool mp = c.chance(30); In in = gen_in(c, true, false); write_in(c, in, dir); bool store = mp || c.chance(90); std::vector<ShpFile> files; std::string js = LIB, close; size_t nf = 1 + c.upto(3);
    for (size_t i = 0; i < nf; ++i) { ShpFile s; s.name = c.pick(std::vector<std::string>{"a", "my map", "stra\xc3\x9f""e", "v1.2"}) + ns(i); s.type = c.pick(mp ? std::vector<int>{SHPT_POINT, SHPT_ARC, SHPT_POLYGON, SHPT_POLYGON, SHPT_POLYGON} : std::vector<int>{SHPT_POINT, SHPT_ARC, SHPT_POLYGON}); size_t k = 1 + c.upto(5); for (size_t q = 0; q < k; ++q) s.f.push_back(gen_field(c, std::string(1, 'a' + q) + std::string(c.pick(std::vector<std::string>{"", "name", "_12345678", "X"})))); js += "var s" + ns(i) + "=Osmium.Output.Shapefile.open(" + lit((c.chance(50) ? "./" : "") + s.name) + ",'" + geometry_type(s.type) + "');\n"; for (auto& f : s.f) js += (c.chance(90) ? "if (s" + ns(i) + add_field_js(c, f) + "!==1) p('add_field');\n" : "s" + ns(i) + add_field_js(c, f) + ";\n"); close += "if (s" + ns(i) + ".close()!==undefined) p('close');\n"; files.push_back(s); }
    std::vector<AreaShape> as; if (mp) as = area_shapes(dir + "/" + in.file); std::string rows[4]; std::vector<std::string> want; std::map<std::string, std::vector<std::pair<size_t, Rec>>> by_area; size_t written = 0; std::map<std::string, size_t> times;
    auto row = [&](const Obj& o, int kind, const AreaShape* a) {
        std::string key = std::string("nwra").substr(kind, 1) + ns(o.id), r; size_t n = c.weighted({25, 60, 15}); if (times[key]++) return;
        for (size_t i = 0; i < n; ++i) { size_t fi = c.upto(files.size() - 1); ShpFile& s = files[fi]; if (c.chance(90)) for (size_t q = 0; q < files.size(); ++q) { size_t k = (fi + q) % files.size(); int t = files[k].type; if (kind == 0 ? t == SHPT_POINT : kind == 3 ? t == SHPT_POLYGON : t != SHPT_POINT) { fi = k; break; } } ShpFile& t = files[fi]; (void)s; std::string g = kind != 1 ? "geom" : t.type == SHPT_POLYGON ? "polygon_geom" : c.chance(40) ? "reverse_geom" : "geom"; if (kind == 1 && c.chance(8)) g = c.pick(std::vector<std::string>{"geom", "reverse_geom", "polygon_geom"});
            Rec rec; rec.what = key; Line l; bool ok = false; if (kind == 0) { if (t.type == SHPT_POINT && o.defined()) { ok = true; l.push_back({deg(o.x), deg(o.y)}); } } else if (kind == 1) { bool poly = g == "polygon_geom"; if (store && !o.refs.empty() && (!poly || o.refs.front() == o.refs.back())) ok = shape_line(o.refs, in.pos, g == "reverse_geom", l) && t.type == (poly ? SHPT_POLYGON : SHPT_ARC); } rec.shape = Shape{l}; if (kind == 3) { ok = t.type == SHPT_POLYGON; rec.shape = a->s; }
            std::string at; for (auto& f : t.f) { if (c.chance(12)) { rec.v.push_back(Want{1, ""}); continue; } auto v = gen_attr(c, f, o); at += (at.empty() ? "" : ",") + lit(f.name) + ":" + v.first; rec.v.push_back(v.second); } if (c.chance(20)) at += std::string(at.empty() ? "" : ",") + "zz:1"; r += "p('" + key + " '+s" + ns(fi) + ".add(o." + g + ",{" + at + "}));"; want.push_back(key + (ok ? " 1" : " 0")); if (ok) { ++written; t.recs.push_back(rec); } else c.label("geometry refused"); }
        if (!r.empty()) rows[kind] += "  " + lit(ns(o.id)) + ":function(o){" + r + "},\n";
    };
    for (auto& o : in.objs) if (o.kind < 2) row(o, o.kind, nullptr); size_t plain = want.size(); std::vector<size_t> before; for (auto& s : files) before.push_back(s.recs.size()); for (auto& a : as) row(a.o, 3, &a); (void)plain;
    js += "var R=[{\n" + rows[0] + "},{\n" + rows[1] + "},{},{\n" + rows[3] + "}], seen={};\nfunction go(k,o){ var f=R[k]['' + o.id]; if (f && !seen[k+' '+o.id]) { seen[k+' '+o.id]=1; f(o); } }\nOsmium.Callbacks.node=function(){go(0,this);}\nOsmium.Callbacks.way=function(){go(1,this);}\nOsmium.Callbacks.area=function(){go(3,this);}\nOsmium.Callbacks.end=function(){\n" + close + "}\n"; spit(dir + "/s.js", js); c.desc << js.substr(strlen(LIB), 4000);
    std::vector<std::string> args; if (store) { args.push_back("-l"); args.push_back(c.pick(stores())); } if (mp) args.push_back("-m"); args.push_back("-j"); args.push_back("s.js"); args.push_back(in.file); tool::Result r = tool::run(prog(c), args, "", "", dir); ended(c, r); auto got = lines_of(r.out); c.nontrivial(written > 1); c.label_if(!as.empty(), "areas");
    if (!as.empty()) { std::stable_sort(got.begin(), got.end()); std::stable_sort(want.begin(), want.end()); for (size_t i = 0; i < files.size(); ++i) {} } for (size_t i = 0; i < got.size() && i < want.size(); ++i) c.check(got[i] == want[i], "add: " + got[i] + " instead of " + want[i]); c.eq(got.size(), want.size(), "calls of add"); for (auto& s : files) same_file(c, dir, s);
}

// the program for shapefiles that comes with osmjs, with any configuration
struct Rule { int kind; std::string key; std::vector<std::string> vals; bool any; size_t file; std::map<std::string, std::string> attrs; };
SCENARIO(osm2shape, 200, 6000) {
    std::string dir = fresh(c); In in = gen_in(c, true, false); std::vector<Tag> all; bool small = true; for (auto& o : in.objs) { if (llabs(o.id) > 1000000000LL) small = false; // the ids of areas are twice as large
        for (auto& t : o.tags) { if (c.chance(15)) t.v = c.pick(std::vector<std::string>{"yes", "no", "1", "-1", "30", "a|b", "a", "*", ""}); all.push_back(t); } } write_in(c, in, dir); mkdir((dir + "/js").c_str(), 0755); const char* repo = getenv("VERIF_REPO"); std::string script = tool::take(std::string(repo ? repo : "/repo") + "/osmjs/js/osm2shape.js"); c.check(!script.empty(), "osm2shape.js is missing"); spit(dir + "/js/osm2shape.js", script);
    auto as = area_shapes(dir + "/" + in.file); std::vector<ShpFile> files; std::vector<std::string> handle; std::string cfg; size_t nf = 1 + c.upto(3);
    for (size_t i = 0; i < nf; ++i) {
        ShpFile s; s.name = c.pick(std::vector<std::string>{"roads", "water", "pois", "x y"}) + ns(i); handle.push_back(s.name); s.type = c.pick(std::vector<int>{SHPT_POINT, SHPT_ARC, SHPT_POLYGON}); cfg += "shapefile(" + lit(s.name) + ")"; if (s.type != SHPT_POINT || c.chance(70)) cfg += ".type(" + (c.chance(70) ? std::string(s.type == SHPT_POINT ? "POINT" : s.type == SHPT_ARC ? "LINE" : "POLYGON") : "'" + std::string(geometry_type(s.type)) + "'") + ")"; if (c.chance(25)) { s.name = "out " + ns(i); cfg += ".filename(" + lit(s.name) + ")"; }
        if (c.chance(80)) s.f.push_back(small && c.chance(50) ? FieldDef{"id", 'N', 11, 0} : FieldDef{"id", 'C', 20, 0}); size_t k = c.upto(4) + s.f.empty(); for (size_t q = 0; q < k; ++q) { FieldDef f = gen_field(c, std::string(1, 'a' + q) + "col"); f.dec = 0; if (f.type == 'N') f.width = 11; s.f.push_back(f); } for (auto& f : s.f) cfg += ".column(" + lit(f.name) + "," + (f.type == 'C' ? "STRING" : f.type == 'N' ? "INTEGER" : "BOOL") + (f.width == 1 && c.chance(60) ? "" : "," + ns(f.width)) + ")"; cfg += ";\n"; files.push_back(s);
    }
    size_t nr = c.upto(6), written = 0; std::vector<Rule> rules;
    for (size_t i = 0; i < nr; ++i) {
        Rule r; r.file = c.upto(nf - 1); r.kind = files[r.file].type == SHPT_POINT ? 0 : files[r.file].type == SHPT_ARC ? 1 : 3; if (c.chance(8)) r.kind = c.pick(std::vector<int>{0, 1, 3}); Tag t{"highway", "x"}; std::vector<const Obj*> with; for (auto& o : in.objs) if (!o.tags.empty() && (r.kind == 0 ? o.kind == 0 : o.kind != 0)) with.push_back(&o); if (!with.empty() && !c.chance(10)) t = c.pick(c.pick(with)->tags); r.key = t.k; r.any = c.chance(40); cfg += std::string(r.kind == 0 ? "node" : r.kind == 1 ? "way" : "area") + "(" + lit(t.k);
        if (r.any) { if (c.chance(50)) cfg += ",'*'"; } else { std::vector<std::string> v{t.v}; while (c.more(50)) v.push_back(all.empty() ? "y" : c.pick(all).v); std::rotate(v.begin(), v.begin() + c.upto(v.size() - 1), v.end()); if (v.size() > 1 && c.chance(40)) { std::string list; for (auto& x : v) list += (list.empty() ? "" : ",") + lit(x); cfg += ",[" + list + "]"; r.vals = v; } else { std::string list; for (size_t k = 0; k < v.size(); ++k) list += (k ? "|" : "") + v[k]; cfg += "," + lit(list); r.any = list == "*"; std::string cur; for (char ch : list) if (ch == '|') { r.vals.push_back(cur); cur.clear(); } else cur += ch; r.vals.push_back(cur); } }
        cfg += ").output(" + lit(handle[r.file]) + ")"; std::vector<std::string> cols; for (auto& f : files[r.file].f) if (f.name != "id") cols.push_back(f.name); while (!cols.empty() && c.more(65)) { std::string col = c.pick(cols), k = with.empty() || c.chance(10) ? "name" : c.pick(c.pick(with)->tags).k; bool own = c.chance(10); cfg += ".attr(" + lit(col) + (own ? "" : "," + lit(k)) + ")"; r.attrs[col] = own ? col : k; } cfg += ";\n"; rules.push_back(r);
    }
    auto feed = [&](const Obj& o, int kind, const Shape* area) { for (auto& r : rules) { if (r.kind != kind) continue; std::string v = value_of(o, r.key); if (v.empty() || (!r.any && std::find(r.vals.begin(), r.vals.end(), v) == r.vals.end())) continue; ShpFile& s = files[r.file]; Rec rec; rec.what = std::string("nwra").substr(kind, 1) + ns(o.id); Line l; bool ok; if (kind == 0) { ok = s.type == SHPT_POINT && o.defined(); l.push_back({deg(o.x), deg(o.y)}); } else ok = kind == 1 ? s.type == SHPT_ARC && shape_line(o.refs, in.pos, false, l) : s.type == SHPT_POLYGON; if (!ok) { c.label("geometry refused"); continue; } rec.shape = area ? *area : Shape{l};
            for (auto& f : s.f) { auto a = r.attrs.find(f.name); if (f.name == "id") rec.v.push_back(f.type == 'N' ? Want{2, num(o.id, 11, 0)} : Want{2, padded(ns(o.id), 20)}); else if (a == r.attrs.end() || !has(o, a->second)) rec.v.push_back(Want{1, ""}); else { std::string x = value_of(o, a->second); rec.v.push_back(f.type == 'C' ? text_want(x, f.width) : f.type == 'L' ? bool_want(x) : int_want(x, f.width)); } } s.recs.push_back(rec); ++written; } };
    for (auto& o : in.objs) if (o.kind < 2) feed(o, o.kind, nullptr); for (auto& a : as) feed(a.o, 3, &a.s); c.desc << cfg; spit(dir + "/config.js", cfg); c.nontrivial(written > 1); c.label_if(!as.empty(), "areas");
    tool::Result r = tool::run(prog(c), {"-2", "-m", "-l", c.pick(stores()), "-i", c.chance(50) ? "osm2shape" : "osm2shape.js", "-j", "config.js", in.file}, "", "", dir); ended(c, r); c.check(r.out.compare(0, 5, "Init\n") == 0 && r.out.size() > 9 && r.out.compare(r.out.size() - 5, 5, "Done\n") == 0, "output is " + show(r.out, 500)); for (auto& s : files) same_file(c, dir, s);
}

// ---- wrong calls
SCENARIO(command_line, 120, 2000) {
    std::string dir = fresh(c); spit(dir + "/e.osm", xml_of({}, false)); spit(dir + "/ok.js", "print('started');"); std::vector<std::string> a; int status = 1; bool started = false; std::string in; size_t k = c.upto(17); c.desc << k << " ";
    switch (k) {
        case 0: a = {"e.osm"}; break; case 1: a = {"-j", "ok.js"}; break; case 2: a = {"-l", "tree", "-j", "ok.js", "e.osm"}; break; case 3: a = {c.chance(50) ? "-2" : "--2pass", "-j", "ok.js", "-"}; in = dir + "/e.osm"; break; case 4: a = {"-m", "-l", "vector", "-j", "ok.js", "-"}; in = dir + "/e.osm"; break; case 5: a = {"-m", "-j", "ok.js", "e.osm"}; break; case 6: a = {"-m", "-l", "none", "-j", "ok.js", "e.osm"}; break; case 7: a = {"-j", "missing.js", "e.osm"}; break;
        case 8: spit(dir + "/empty.js", ""); a = {"-j", "empty.js", "e.osm"}; break; case 9: spit(dir + "/bad.js", "print('started'); var ="); a = {"-j", "bad.js", "e.osm"}; break; case 10: spit(dir + "/bad.js", "nothing.at.all();"); a = {"-j", "bad.js", "e.osm"}; break; case 11: a = {"-i", "missing", "-j", "ok.js", "e.osm"}; break; case 12: spit(dir + "/bad.js", "throw 'x';"); a = {"-i", "bad", "-j", "ok.js", "e.osm"}; break; case 13: spit(dir + "/bad.js", "f(("); spit(dir + "/inc.js", "include('bad.js'); print('started');"); a = {"-j", "inc.js", "e.osm"}; break;
        case 14: spit(dir + "/inc.js", "include('missing.js'); print('started');"); a = {"-j", "inc.js", "e.osm"}; break; case 15: a = {"--unknown", "-j", "ok.js", "e.osm"}; break; case 16: a = {c.chance(50) ? "-h" : "--help", "-j", "ok.js", "e.osm"}; status = 0; break; default: a = {"-j", "ok.js", "e.osm"}; status = 0; started = true;
    }
    for (auto& x : a) c.desc << x << " "; c.nontrivial(status == 1); tool::Result r = tool::run(prog(c), a, in, "", dir); c.eq(r.status, status, "exit status; " + show(r.err, 500)); c.eq(r.out.find("started") != r.out.npos, started, "script run"); if (k == 16) c.check(r.out.find("osmjs [OPTIONS] OSMFILE") != r.out.npos, "help: " + show(r.out, 300)); if (status) c.check(!r.err.empty() && r.err.find("runtime error") == r.err.npos, "message: " + show(r.err, 1000));
}
