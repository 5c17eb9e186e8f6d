// Shared by the demonstrations: the library, a few builders and a recorder.
#ifndef SEED_AREAS
#define OSMIUM_OSM_AREA_HPP
#endif
#define OSMIUM_WITH_PBF_INPUT
#define OSMIUM_WITH_XML_INPUT
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
#include <new>
#ifdef SEED_AREAS
#include "oldgeos.hpp"
#endif
#include <osmium.hpp>
#include <osmium/osm/node.hpp>
#include <osmium/osm/way.hpp>
#include <osmium/osm/relation.hpp>
#include <osmium/output/pbf.hpp>
#include <osmium/output/xml.hpp>
#ifdef SEED_AREAS
#include <osmium/osm/area.hpp>
#include <osmium/multipolygon/assembler.hpp>
#include <osmium/geometry/multipolygon.hpp>
#include <osmium/export/shapefile.hpp>
#endif
namespace O = Osmium::OSM;
typedef Osmium::OSMFile F;
#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED line " << __LINE__ << ": " #x "\n"; _exit(1); } } while (0)

inline shared_ptr<O::Node> mknode(int64_t id, double lon, double lat) { shared_ptr<O::Node> n = make_shared<O::Node>(); n->id(id).version(1); n->position(O::Position(lon, lat)); return n; }
inline shared_ptr<O::Way> mkway(int64_t id) { shared_ptr<O::Way> n = make_shared<O::Way>(); n->id(id).version(1); return n; }
inline shared_ptr<O::Relation> mkrel(int64_t id) { shared_ptr<O::Relation> n = make_shared<O::Relation>(); n->id(id).version(1); return n; }

// writes every object it is given as one line of text
struct Rec : Osmium::Handler::Base {
    std::vector<std::string> calls; O::Meta meta;
    void meta_of(std::ostream& s, const O::Object& o) const {
        s << o.id() << " v" << o.version() << " c" << o.changeset() << " t" << o.timestamp() << " e" << o.endtime() << " u" << o.uid() << " '" << o.user() << "' " << (o.visible() ? "V" : "D");
        for (O::TagList::const_iterator i = o.tags().begin(); i != o.tags().end(); ++i) s << " [" << i->key() << "=" << i->value() << "]";
    }
    void init(O::Meta& m) { calls.push_back("init"); meta = m; }
    void before_nodes() { calls.push_back("before_nodes"); }
    void after_nodes() { calls.push_back("after_nodes"); }
    void before_ways() { calls.push_back("before_ways"); }
    void after_ways() { calls.push_back("after_ways"); }
    void before_relations() { calls.push_back("before_relations"); }
    void after_relations() { calls.push_back("after_relations"); }
    void final() { calls.push_back("final"); }
    void node(const shared_ptr<O::Node const>& n) { std::ostringstream s; s << "n"; meta_of(s, *n); s << " @" << n->position().x() << "," << n->position().y(); calls.push_back(s.str()); }
    void way(const shared_ptr<O::Way const>& w) { std::ostringstream s; s << "w"; meta_of(s, *w); for (unsigned i = 0; i < w->nodes().size(); ++i) s << " " << w->get_node_id(i); calls.push_back(s.str()); }
    void relation(const shared_ptr<O::Relation const>& r) { std::ostringstream s; s << "r"; meta_of(s, *r); for (unsigned i = 0; i < r->members().size(); ++i) s << " " << r->members()[i].type() << r->members()[i].ref() << ":" << r->members()[i].role(); calls.push_back(s.str()); }
    std::string all() const { std::string s; for (unsigned i = 0; i < calls.size(); ++i) s += calls[i] + "\n"; return s; }
};
inline Rec* read(const std::string& f) { Rec* r = new Rec; F in(f); Osmium::Input::read(in, *r); return r; }
inline void spit(const std::string& f, const std::string& text) { std::ofstream o(f.c_str(), std::ios::binary); o << text; }
inline std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }

#ifdef SEED_AREAS
// ways with positions, relations and the areas made of them (as text)
inline shared_ptr<O::Way> ring(int64_t id, std::vector<int> xy, bool close = true) { shared_ptr<O::Way> w = mkway(id); for (size_t i = 0; i + 1 < xy.size() + (close ? 2 : 0); i += 2) { size_t k = i % xy.size(); w->nodes().push_back(O::WayNode(xy[k] * 1000 + xy[k + 1] + 1, O::Position((double)xy[k], (double)xy[k + 1]))); } return w; }
struct AreaRec : Osmium::Handler::Base { std::vector<std::string> v; void area(const shared_ptr<O::Area const>& a) { std::ostringstream s; s << a->id(); for (O::TagList::const_iterator i = a->tags().begin(); i != a->tags().end(); ++i) s << " " << i->key() << "=" << i->value(); s << " "; Osmium::Geometry::MultiPolygon mp(*a); s << mp.as_WKT(); v.push_back(s.str()); } };
inline std::vector<std::string> assemble(const std::vector< shared_ptr<O::Relation> >& rels, const std::vector< shared_ptr<O::Way> >& ways, bool repair = false) {
    AreaRec h; typedef Osmium::MultiPolygon::Assembler<AreaRec> A; A a(h, repair); A::HandlerPass1* p1 = &a.handler_pass1(); O::Meta m; p1->init(m); p1->before_relations(); for (size_t i = 0; i < rels.size(); ++i) p1->relation(rels[i]); try { p1->after_relations(); } catch (const Osmium::Handler::StopReading&) { }
    A::HandlerPass2* p2 = &a.handler_pass2(); p2->init(m); p2->before_ways(); for (size_t i = 0; i < ways.size(); ++i) p2->way(ways[i]); try { p2->after_ways(); p2->final(); } catch (const Osmium::Handler::StopReading&) { } for (size_t i = 0; i < h.v.size(); ++i) std::cout << h.v[i] << "\n"; std::cout.flush(); return h.v; }
inline shared_ptr<O::Relation> mp(int64_t id, std::vector< shared_ptr<O::Way> > ways) { shared_ptr<O::Relation> r = mkrel(id); r->tags().add("type", "multipolygon"); for (size_t i = 0; i < ways.size(); ++i) r->add_member('w', ways[i]->id(), ""); return r; }
#endif
