// Stand-in for the GDAL 1.x driver interface the programs in /repo/examples use, on top of the installed GDAL: drivers, data sources and
// layers are the installed ones, except for PostgreSQL, whose statements, transactions and features are written to a file named after the database.
#ifndef VERIF_OLDGDAL_H
#define VERIF_OLDGDAL_H
#include_next <ogrsf_frmts.h>
#include <fstream>
#include <memory>
#include <string>

namespace oldgdal {
struct Recorder { std::ofstream out; explicit Recorder(const std::string& f) : out(f.c_str(), std::ios::binary) { } static std::string quote(const char* s) { std::string r; for (; *s; ++s) { char b[5]; snprintf(b, sizeof b, "%02x", (unsigned char)*s); r += b; } return r; } };

class RecordedLayer : public OGRLayer {
    Recorder& m_rec; OGRFeatureDefn* m_defn;
public:
    RecordedLayer(Recorder& r, const char* name) : m_rec(r), m_defn(new OGRFeatureDefn(name)) { m_defn->Reference(); OGRFieldDefn a("id", OFTString), b("tags", OFTString); m_defn->AddFieldDefn(&a); m_defn->AddFieldDefn(&b); }
    ~RecordedLayer() { m_defn->Release(); }
    OGRFeatureDefn* GetLayerDefn() override { return m_defn; }
    void ResetReading() override { }
    OGRFeature* GetNextFeature() override { return nullptr; }
    int TestCapability(const char*) override { return 0; }
    OGRErr ICreateFeature(OGRFeature* f) override {
        OGRGeometry* g = f->GetGeometryRef(); OGRPoint* p = g && wkbFlatten(g->getGeometryType()) == wkbPoint ? (OGRPoint*)g : nullptr; char b[200]; if (p && !p->IsEmpty()) snprintf(b, sizeof b, "%.17g %.17g", p->getX(), p->getY()); else snprintf(b, sizeof b, "none none");
        m_rec.out << "feature " << b << " " << Recorder::quote(f->GetFieldAsString(0)) << "-" << Recorder::quote(f->GetFieldAsString(1)) << "\n"; return OGRERR_NONE;
    }
    OGRErr StartTransaction() override { m_rec.out << "start\n"; return OGRERR_NONE; }
    OGRErr CommitTransaction() override { m_rec.out << "commit\n"; return OGRERR_NONE; }
    OGRErr RollbackTransaction() override { m_rec.out << "rollback\n"; return OGRERR_NONE; }
};

class DataSource {
    GDALDataset* m_ds; std::unique_ptr<Recorder> m_rec; std::unique_ptr<RecordedLayer> m_layer;
public:
    explicit DataSource(GDALDataset* d) : m_ds(d) { }
    explicit DataSource(const std::string& db) : m_ds(nullptr), m_rec(new Recorder(db)) { m_rec->out << "open\n"; }
    ~DataSource() { m_layer.reset(); if (m_ds) GDALClose(m_ds); if (m_rec) m_rec->out << "close\n"; }
    OGRLayer* CreateLayer(const char* name, OGRSpatialReference* s, OGRwkbGeometryType t, char** o) { return m_ds ? m_ds->CreateLayer(name, s, t, o) : nullptr; }
    OGRLayer* ExecuteSQL(const char* sql, OGRGeometry* g, const char* d) { if (m_ds) return m_ds->ExecuteSQL(sql, g, d); m_rec->out << "sql " << sql << "\n"; return nullptr; }
    void ReleaseResultSet(OGRLayer* l) { if (m_ds) m_ds->ReleaseResultSet(l); }
    OGRLayer* GetLayerByName(const char* n) { if (m_ds) return m_ds->GetLayerByName(n); m_rec->out << "layer " << n << "\n"; m_layer.reset(new RecordedLayer(*m_rec, n)); return m_layer.get(); }
    static void DestroyDataSource(DataSource* d) { delete d; }
};

class Driver {
    GDALDriver* m_driver;
public:
    explicit Driver(GDALDriver* d) : m_driver(d) { }
    DataSource* CreateDataSource(const char* name, char** options = nullptr) {
        if (!m_driver) { std::string s(name); return s.compare(0, 10, "PG:dbname=") || s.size() == 10 ? nullptr : new DataSource(s.substr(10)); }
        GDALDataset* d = m_driver->Create(name, 0, 0, 0, GDT_Unknown, options); return d ? new DataSource(d) : nullptr;
    }
};

class Registrar {
public:
    static Registrar* GetRegistrar() { static Registrar r; return &r; }
    Driver* GetDriverByName(const char* n) { if (std::string(n) == "PostgreSQL") { static Driver pg(nullptr); return &pg; } GDALDriver* d = GetGDALDriverManager()->GetDriverByName(n); return d ? new Driver(d) : nullptr; }
};
} // namespace oldgdal
#define OGRDataSource oldgdal::DataSource
#define OGRSFDriver oldgdal::Driver
#define OGRSFDriverRegistrar oldgdal::Registrar
#endif
