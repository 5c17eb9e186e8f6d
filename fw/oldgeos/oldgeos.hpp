// A stand-in for the C++ interface of GEOS 3.3, which this code base was written for, on top of the C interface of the installed GEOS.
// Geometries are kept here; validity, intersections, containment and polygonizing are computed by GEOS.
// Compile with -Dgeos=oldgeos so that none of these names meets one of the installed library.
#ifndef VERIF_OLDGEOS_HPP
#define VERIF_OLDGEOS_HPP
#include <geos_c.h>
#include <cstdarg>
#include <cstdio>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstring>

namespace oldgeos {
namespace util {
struct GEOSException : std::runtime_error { GEOSException(const std::string& s) : std::runtime_error(s) {} };
struct IllegalArgumentException : GEOSException { IllegalArgumentException(const std::string& s) : GEOSException("IllegalArgumentException: " + s) {} };
struct TopologyException : GEOSException { TopologyException(const std::string& s) : GEOSException("TopologyException: " + s) {} };
}
namespace geom {
enum GeometryTypeId { GEOS_POINT, GEOS_LINESTRING, GEOS_LINEARRING, GEOS_POLYGON, GEOS_MULTIPOINT, GEOS_MULTILINESTRING, GEOS_MULTIPOLYGON, GEOS_GEOMETRYCOLLECTION };
struct Coordinate { double x, y, z; Coordinate(double a = 0, double b = 0) : x(a), y(b), z(0) {} bool operator==(const Coordinate& o) const { return x == o.x && y == o.y; } };
inline long& live() { static long n = 0; return n; } // geometries and sequences not deleted yet

class CoordinateSequence {
    std::vector<Coordinate> v;
public:
    CoordinateSequence() { ++live(); } CoordinateSequence(const std::vector<Coordinate>& w) : v(w) { ++live(); } CoordinateSequence(const CoordinateSequence& o) : v(o.v) { ++live(); } virtual ~CoordinateSequence() { --live(); }
    const std::vector<Coordinate>* toVector() const { return &v; }
    size_t getSize() const { return v.size(); } size_t size() const { return v.size(); } bool isEmpty() const { return v.empty(); }
    double getX(size_t i) const { return v[i].x; } double getY(size_t i) const { return v[i].y; } const Coordinate& getAt(size_t i) const { return v[i]; }
    void add(const Coordinate& c, bool repeated = true) { if (repeated || v.empty() || !(v.back() == c)) v.push_back(c); }
    CoordinateSequence* clone() const { return new CoordinateSequence(*this); }
};
typedef CoordinateSequence CoordinateArraySequence;
struct CoordinateSequenceFactory {
    CoordinateSequence* create(std::vector<Coordinate>* c, size_t = 0) const { CoordinateSequence* s = new CoordinateSequence(*c); delete c; return s; }
    CoordinateSequence* create(size_t n, size_t) const { return new CoordinateSequence(std::vector<Coordinate>(n)); }
};
struct CoordinateArraySequenceFactory : CoordinateSequenceFactory { static const CoordinateSequenceFactory* instance() { static CoordinateArraySequenceFactory f; return &f; } };

class Geometry; class Polygon; class LinearRing; class LineString;
inline std::string& last_error() { static std::string s; return s; }
inline void on_notice(const char*, ...) {}
inline void on_error(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); last_error() = b; }
inline void init_c() { static bool done = false; if (done) return; done = true; initGEOS(on_notice, on_error); }
struct CG { GEOSGeometry* g; CG(GEOSGeometry* x) : g(x) {} ~CG() { if (g) GEOSGeom_destroy(g); } operator GEOSGeometry*() const { return g; } CG(const CG&) = delete; };
inline GEOSCoordSequence* to_cs(const CoordinateSequence& s) { GEOSCoordSequence* c = GEOSCoordSeq_create(s.size(), 2); for (size_t i = 0; i < s.size(); ++i) { GEOSCoordSeq_setX(c, i, s.getX(i)); GEOSCoordSeq_setY(c, i, s.getY(i)); } return c; }
Geometry* from_c(const GEOSGeometry* g);
inline int answer(char c) { if (c == 2) throw util::TopologyException(last_error()); return c; }

class Geometry {
public:
    Geometry() { ++live(); } Geometry(const Geometry&) { ++live(); } virtual ~Geometry() { --live(); }
    virtual Geometry* clone() const = 0; virtual GeometryTypeId getGeometryTypeId() const = 0; virtual GEOSGeometry* c() const = 0; virtual Geometry* reverse() const { throw util::GEOSException("reverse"); } virtual void wkt(std::ostream&) const = 0; virtual std::string name() const = 0;
    virtual bool isEmpty() const = 0; virtual size_t getNumGeometries() const { return 1; } virtual const Geometry* getGeometryN(size_t) const { return this; }
    bool isValid() const { CG g(c()); return answer(GEOSisValid(g)); } bool isSimple() const { CG g(c()); return answer(GEOSisSimple(g)); }
    bool intersects(const Geometry* o) const { CG a(c()), b(o->c()); return answer(GEOSIntersects(a, b)); } bool contains(const Geometry* o) const { CG a(c()), b(o->c()); return answer(GEOSContains(a, b)); }
    Geometry* intersection(const Geometry* o) const { CG a(c()), b(o->c()); CG r(GEOSIntersection(a, b)); if (!r.g) throw util::TopologyException(last_error()); return from_c(r); }
    Geometry* symDifference(const Geometry* o) const { CG a(c()), b(o->c()); CG r(GEOSSymDifference(a, b)); if (!r.g) throw util::TopologyException(last_error()); return from_c(r); }
    double getArea() const { CG g(c()); double a = 0; GEOSArea(g, &a); return a; }
    std::string toString() const { std::ostringstream s; s << name() << " "; wkt(s); return s.str(); }
    int getSRID() const { return srid; } void setSRID(int s) { srid = s; }
protected: int srid = 0;
};
inline void put(std::ostream& o, const Coordinate& c) { char b[100]; snprintf(b, sizeof b, "%.16f %.16f", c.x, c.y); o << b; }
inline void put(std::ostream& o, const CoordinateSequence& s) { o << "("; for (size_t i = 0; i < s.size(); ++i) { if (i) o << ", "; put(o, s.getAt(i)); } o << ")"; }
class Point : public Geometry {
    Coordinate p;
public:
    Point(const Coordinate& q) : p(q) {} Point* clone() const { return new Point(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_POINT; } std::string name() const { return "POINT"; } bool isEmpty() const { return false; }
    GEOSGeometry* c() const { init_c(); GEOSCoordSequence* s = GEOSCoordSeq_create(1, 2); GEOSCoordSeq_setX(s, 0, p.x); GEOSCoordSeq_setY(s, 0, p.y); return GEOSGeom_createPoint(s); } void wkt(std::ostream& o) const { o << "("; put(o, p); o << ")"; }
    double getX() const { return p.x; } double getY() const { return p.y; } const Coordinate* getCoordinate() const { return &p; }
};
class LineString : public Geometry {
protected: std::unique_ptr<CoordinateSequence> s;
public:
    LineString(CoordinateSequence* q) : s(q) { if (!s) s.reset(new CoordinateSequence()); if (s->size() == 1) throw util::IllegalArgumentException("point array must contain 0 or >1 elements"); } LineString(const LineString& o) : Geometry(o), s(o.s->clone()) {}
    LineString* clone() const { return new LineString(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_LINESTRING; } std::string name() const { return "LINESTRING"; } bool isEmpty() const { return s->isEmpty(); }
    GEOSGeometry* c() const { init_c(); return GEOSGeom_createLineString(to_cs(*s)); } void wkt(std::ostream& o) const { if (isEmpty()) o << "EMPTY"; else put(o, *s); }
    CoordinateSequence* getCoordinates() const { return s->clone(); } const CoordinateSequence* getCoordinatesRO() const { return s.get(); } size_t getNumPoints() const { return s->size(); } const Coordinate& getCoordinateN(size_t i) const { return s->getAt(i); }
    Geometry* reverse() const { return new LineString(new CoordinateSequence(std::vector<Coordinate>(s->toVector()->rbegin(), s->toVector()->rend()))); }
};
class LinearRing : public LineString {
public:
    LinearRing(CoordinateSequence* q) : LineString(q) { if (s->isEmpty()) return; if (!(s->getAt(0) == s->getAt(s->size() - 1))) throw util::IllegalArgumentException("Points of LinearRing do not form a closed linestring"); if (s->size() < 4) throw util::IllegalArgumentException("Invalid number of points in LinearRing found - must be 0 or >3"); }
    LinearRing* clone() const { return new LinearRing(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_LINEARRING; } std::string name() const { return "LINEARRING"; } GEOSGeometry* c() const { init_c(); return GEOSGeom_createLinearRing(to_cs(*s)); }
};
class Polygon : public Geometry {
    std::unique_ptr<LinearRing> shell; std::vector<std::unique_ptr<LinearRing>> holes;
public:
    Polygon(LinearRing* r, std::vector<Geometry*>* h) { for (size_t i = 0; h && i < h->size(); ++i) if (!dynamic_cast<LinearRing*>((*h)[i])) throw util::IllegalArgumentException("holes must be LinearRings"); if (!r || r->isEmpty()) { for (size_t i = 0; h && i < h->size(); ++i) if (!(*h)[i]->isEmpty()) throw util::IllegalArgumentException("shell is empty but holes are not"); } shell.reset(r ? r : new LinearRing(nullptr)); if (h) { for (auto g : *h) holes.emplace_back(static_cast<LinearRing*>(g)); delete h; } }
    Polygon(const Polygon& o) : Geometry(o), shell(o.shell->clone()) { for (auto& h : o.holes) holes.emplace_back(h->clone()); }
    Polygon* clone() const { return new Polygon(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_POLYGON; } std::string name() const { return "POLYGON"; } bool isEmpty() const { return shell->isEmpty(); }
    GEOSGeometry* c() const { init_c(); std::vector<GEOSGeometry*> h; for (auto& x : holes) h.push_back(x->c()); return GEOSGeom_createPolygon(shell->c(), h.data(), h.size()); } void wkt(std::ostream& o) const { o << "("; shell->wkt(o); for (auto& h : holes) { o << ", "; h->wkt(o); } o << ")"; }
    const LineString* getExteriorRing() const { return shell.get(); } size_t getNumInteriorRing() const { return holes.size(); } const LineString* getInteriorRingN(size_t i) const { return holes[i].get(); }
};
class GeometryCollection : public Geometry {
protected: std::vector<Geometry*> v;
public:
    typedef std::vector<Geometry*>::const_iterator const_iterator; typedef std::vector<Geometry*>::iterator iterator;
    GeometryCollection(std::vector<Geometry*>* g) { if (g) { for (auto x : *g) if (!x) throw util::IllegalArgumentException("geometries must not contain null elements"); v.swap(*g); delete g; } } GeometryCollection(const GeometryCollection& o) : Geometry(o) { for (auto x : o.v) v.push_back(x->clone()); } ~GeometryCollection() { for (auto x : v) delete x; }
    GeometryCollection* clone() const { return new GeometryCollection(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_GEOMETRYCOLLECTION; } std::string name() const { return "GEOMETRYCOLLECTION"; } bool isEmpty() const { for (auto x : v) if (!x->isEmpty()) return false; return true; }
    virtual int ctype() const { return ::GEOS_GEOMETRYCOLLECTION; } GEOSGeometry* c() const { init_c(); std::vector<GEOSGeometry*> h; for (auto x : v) h.push_back(x->c()); return GEOSGeom_createCollection(ctype(), h.data(), h.size()); } void wkt(std::ostream& o) const { if (v.empty()) { o << "EMPTY"; return; } o << "("; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ", "; if (getGeometryTypeId() == GEOS_GEOMETRYCOLLECTION) o << v[i]->name() << " "; v[i]->wkt(o); } o << ")"; }
    size_t getNumGeometries() const { return v.size(); } const Geometry* getGeometryN(size_t i) const { return v[i]; } const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); }
};
class MultiPolygon : public GeometryCollection { public: MultiPolygon(std::vector<Geometry*>* g) : GeometryCollection(g) { for (auto x : v) if (!dynamic_cast<Polygon*>(x)) throw util::IllegalArgumentException("not a polygon"); } MultiPolygon* clone() const { return new MultiPolygon(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_MULTIPOLYGON; } std::string name() const { return "MULTIPOLYGON"; } int ctype() const { return ::GEOS_MULTIPOLYGON; } };
class MultiLineString : public GeometryCollection { public: MultiLineString(std::vector<Geometry*>* g) : GeometryCollection(g) {} MultiLineString* clone() const { return new MultiLineString(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_MULTILINESTRING; } std::string name() const { return "MULTILINESTRING"; } int ctype() const { return ::GEOS_MULTILINESTRING; } };
class MultiPoint : public GeometryCollection { public: MultiPoint(std::vector<Geometry*>* g) : GeometryCollection(g) {} MultiPoint* clone() const { return new MultiPoint(*this); } GeometryTypeId getGeometryTypeId() const { return GEOS_MULTIPOINT; } std::string name() const { return "MULTIPOINT"; } int ctype() const { return ::GEOS_MULTIPOINT; } };
inline CoordinateSequence* seq_of(const GEOSGeometry* g) { const GEOSCoordSequence* s = GEOSGeom_getCoordSeq(g); unsigned n = 0; GEOSCoordSeq_getSize(s, &n); std::vector<Coordinate> v(n); for (unsigned i = 0; i < n; ++i) { GEOSCoordSeq_getX(s, i, &v[i].x); GEOSCoordSeq_getY(s, i, &v[i].y); } return new CoordinateSequence(v); }
inline Polygon* polygon_of(const GEOSGeometry* g) { std::vector<Geometry*>* h = new std::vector<Geometry*>; for (int i = 0; i < GEOSGetNumInteriorRings(g); ++i) h->push_back(new LinearRing(seq_of(GEOSGetInteriorRingN(g, i)))); return new Polygon(new LinearRing(seq_of(GEOSGetExteriorRing(g))), h); }
inline Geometry* from_c(const GEOSGeometry* g) {
    int t = GEOSGeomTypeId(g);
    switch (t) { case ::GEOS_POINT: { if (GEOSisEmpty(g)) return new GeometryCollection(nullptr); std::unique_ptr<CoordinateSequence> s(seq_of(g)); return new Point(s->getAt(0)); } case ::GEOS_LINESTRING: return new LineString(seq_of(g)); case ::GEOS_LINEARRING: return new LinearRing(seq_of(g)); case ::GEOS_POLYGON: return polygon_of(g); default: break; }
    std::vector<Geometry*>* v = new std::vector<Geometry*>; for (int i = 0; i < GEOSGetNumGeometries(g); ++i) v->push_back(from_c(GEOSGetGeometryN(g, i)));
    switch (t) { case ::GEOS_MULTIPOINT: return new MultiPoint(v); case ::GEOS_MULTILINESTRING: return new MultiLineString(v); case ::GEOS_MULTIPOLYGON: return new MultiPolygon(v); default: return new GeometryCollection(v); }
}
class PrecisionModel {};
class GeometryFactory {
    CoordinateArraySequenceFactory f; int id;
public:
    GeometryFactory(const PrecisionModel*, int srid) : id(srid) {} GeometryFactory() : id(0) {}
    const CoordinateSequenceFactory* getCoordinateSequenceFactory() const { return &f; }
    template <class T> T* as(T* g) const { g->setSRID(id); return g; }
    Point* createPoint(const Coordinate& c) const { return as(new Point(c)); } LineString* createLineString(CoordinateSequence* s) const { return as(new LineString(s)); } LinearRing* createLinearRing(CoordinateSequence* s) const { return as(new LinearRing(s)); } LinearRing* createLinearRing() const { return as(new LinearRing(nullptr)); }
    Polygon* createPolygon(LinearRing* r, std::vector<Geometry*>* h) const { return as(new Polygon(r, h)); } MultiPolygon* createMultiPolygon(std::vector<Geometry*>* g = nullptr) const { return as(new MultiPolygon(g)); } MultiLineString* createMultiLineString(std::vector<Geometry*>* g) const { return as(new MultiLineString(g)); }
};
namespace prep { class PreparedPolygon { const Geometry* g; public: PreparedPolygon(const Geometry* x) : g(x) {} bool contains(const Geometry* o) const { return g->contains(o); } }; }
} // namespace geom
namespace operation { namespace polygonize {
class Polygonizer {
    std::vector<GEOSGeometry*> v;
public:
    ~Polygonizer() { for (auto g : v) GEOSGeom_destroy(g); } void add(geom::Geometry* g) { v.push_back(g->c()); } void add(const geom::Geometry* g) { v.push_back(g->c()); }
    std::vector<geom::Polygon*>* getPolygons() { geom::CG r(GEOSPolygonize(v.data(), v.size())); if (!r.g) throw util::TopologyException(geom::last_error()); auto* o = new std::vector<geom::Polygon*>; for (int i = 0; i < GEOSGetNumGeometries(r); ++i) o->push_back(geom::polygon_of(GEOSGetGeometryN(r, i))); return o; }
};
}}
namespace algorithm { struct CGAlgorithms { static bool isCCW(const geom::CoordinateSequence* s) { geom::init_c(); char r = 0; GEOSCoordSequence* c = geom::to_cs(*s); int ok = GEOSCoordSeq_isCCW(c, &r); GEOSCoordSeq_destroy(c); if (!ok) throw util::IllegalArgumentException("isCCW"); return r; } }; }
namespace io {
struct WKTWriter { std::string write(const geom::Geometry* g) { return g->toString(); } };
class WKBWriter {
    bool srid = false;
    template <class T> static void raw(std::string& s, T v) { s.append((const char*)&v, sizeof v); }
    static void seq(std::string& s, const geom::CoordinateSequence& q) { raw<uint32_t>(s, q.size()); for (auto& c : *q.toVector()) { raw(s, c.x); raw(s, c.y); } }
    void put(std::string& s, const geom::Geometry& g, bool with) {
        using namespace geom; static const uint32_t T[] = {1, 2, 2, 3, 4, 5, 6, 7}; uint32_t t = T[g.getGeometryTypeId()]; s += '\1'; bool w = with && g.getSRID(); raw<uint32_t>(s, t | (w ? 0x20000000u : 0)); if (w) raw<uint32_t>(s, g.getSRID());
        if (auto p = dynamic_cast<const Point*>(&g)) { raw(s, p->getX()); raw(s, p->getY()); } else if (auto l = dynamic_cast<const LineString*>(&g)) seq(s, *l->getCoordinatesRO());
        else if (auto p = dynamic_cast<const Polygon*>(&g)) { raw<uint32_t>(s, 1 + p->getNumInteriorRing()); seq(s, *p->getExteriorRing()->getCoordinatesRO()); for (size_t i = 0; i < p->getNumInteriorRing(); ++i) seq(s, *p->getInteriorRingN(i)->getCoordinatesRO()); }
        else { raw<uint32_t>(s, g.getNumGeometries()); for (size_t i = 0; i < g.getNumGeometries(); ++i) put(s, *g.getGeometryN(i), false); }
    }
public:
    void setIncludeSRID(bool b) { srid = b; } void write(const geom::Geometry& g, std::ostream& o) { std::string s; put(s, g, srid); o << s; }
    void writeHEX(const geom::Geometry& g, std::ostream& o) { std::string s; put(s, g, srid); for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02X", c); o << b; } }
};
}
} // namespace oldgeos
#endif
