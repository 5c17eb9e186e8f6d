From 3b8d27051b76585866acd9b7e56232b666dfa50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 01/81] fix: use 32 bit string ids in the PBF writer

Blocks with more than 65535 different strings got wrong tags, roles and user names.
---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..d7178db 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -382,7 +382,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -396,7 +396,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..3df5678 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
@@ -74,7 +74,7 @@ namespace Osmium {
          */
         struct string_info {
             /// number of occurrences of this string
-            uint16_t count;
+            uint32_t count;
 
             /// an intermediate-id
             string_id_t interim_id;
-- 
2.43.0


From f24f3be2b904f4398065ba092964d0f407c3b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 02/81] fix: honour date granularities below or between whole
 seconds in PBF input

---
 include/osmium/input/pbf.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..365e2b6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,7 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +75,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +95,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +195,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +233,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +274,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +342,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From 3ac29f7c571872cff49b1899b5ade406c628ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 03/81] fix: round the bounding box in the PBF header instead
 of truncating it

---
 include/osmium/output/pbf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index d7178db..a8238d4 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -886,10 +886,10 @@ namespace Osmium {
 
                 if (meta.bounds().defined()) {
                     OSMPBF::HeaderBBox* bbox = pbf_header_block.mutable_bbox();
-                    bbox->set_left(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_bottom(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution);
-                    bbox->set_right(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_top(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution);
+                    bbox->set_left(round(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_bottom(round(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution));
+                    bbox->set_right(round(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_top(round(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution));
                 }
 
                 store_header_block();
-- 
2.43.0


From bf0955e9a55532a97b6242097668209403afc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 04/81] fix: call init() on the handler for files without any
 objects

---
 include/osmium/input.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..457ebc0 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -92,6 +92,7 @@ namespace Osmium {
 
             Base(const Osmium::OSMFile& file,
                  THandler& handler) :
+                m_init_called(false),
                 m_last_object_type(UNKNOWN),
                 m_file(file),
                 m_handler(handler),
@@ -106,11 +107,12 @@ namespace Osmium {
             }
 
             void call_after_and_before_on_handler(osm_object_type_t current_object_type) {
+                if (!m_init_called) {
+                    m_init_called = true;
+                    m_handler.init(m_meta);
+                }
                 if (current_object_type != m_last_object_type) {
                     switch (m_last_object_type) {
-                        case UNKNOWN:
-                            m_handler.init(m_meta);
-                            break;
                         case NODE:
                             m_handler.after_nodes();
                             break;
@@ -209,6 +211,9 @@ namespace Osmium {
 
         private:
 
+            /// Has init() been called on the handler?
+            bool m_init_called;
+
             /**
              * The last object type we read (before the current one).
              * Used to properly call before and after methods.
-- 
2.43.0


From 1297071a33cf558da64b7e1a770bd6a5d9ee0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 05/81] fix: continue partial and interrupted writes in PBF
 output

---
 include/osmium/output/pbf.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index a8238d4..f936bda 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -87,6 +87,7 @@ More complete outlines of real .osm.pbf files can be created using the osmpbf-ou
 */
 
 #include <algorithm>
+#include <cerrno>
 #include <cmath>
 #include <osmpbf/osmpbf.h>
 #include <zlib.h>
@@ -346,14 +347,25 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
+                write_all(reinterpret_cast<const char*>(&sz), sizeof(sz));
+                write_all(blobhead.c_str(), blobhead.size());
+                write_all(data.c_str(), data.size());
+            }
+
+            /**
+             * write all data to the file, continuing after partial or interrupted writes
+             */
+            void write_all(const char* data, size_t size) {
+                while (size > 0) {
+                    const ssize_t written = ::write(fd(), data, size);
+                    if (written < 0) {
+                        if (errno == EINTR) {
+                            continue;
+                        }
+                        throw std::runtime_error("file error");
+                    }
+                    data += written;
+                    size -= written;
                 }
             }
 
-- 
2.43.0


From 8b8648aa61dc78507d5c486a6e55913f0e3c591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 06/81] fix: report write errors in XML output and continue
 partial writes

---
 include/osmium/output/xml.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..1a2128a 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -32,6 +32,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #define __STDC_FORMAT_MACROS
 #include <inttypes.h>
 
+#include <cerrno>
+#include <unistd.h>
+
 #include <osmium/output.hpp>
 
 namespace Osmium {
@@ -59,7 +62,7 @@ namespace Osmium {
 
             XML(const Osmium::OSMFile& file) :
                 Base(file),
-                m_xml_output_buffer(xmlOutputBufferCreateFd(this->fd(), NULL)),
+                m_xml_output_buffer(xmlOutputBufferCreateIO(write_all, NULL, this, NULL)),
                 m_xml_writer(xmlNewTextWriter(m_xml_output_buffer)),
                 m_last_op('\0') {
                 if (!m_xml_output_buffer || !m_xml_writer) {
@@ -158,6 +161,7 @@ namespace Osmium {
                     open_close_op_tag('\0');
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
+                check_for_error(xmlTextWriterFlush(m_xml_writer));
                 xmlFreeTextWriter(m_xml_writer);
                 m_file.close();
             }
@@ -168,6 +172,26 @@ namespace Osmium {
             xmlTextWriterPtr m_xml_writer;
             char m_last_op;
 
+            /**
+             * Callback for libxml: Write all data to the file, continuing
+             * after partial or interrupted writes.
+             */
+            static int write_all(void* context, const char* data, int size) {
+                XML* output = static_cast<XML*>(context);
+                int done = 0;
+                while (done < size) {
+                    const int written = ::write(output->fd(), data + done, size - done);
+                    if (written < 0) {
+                        if (errno == EINTR) {
+                            continue;
+                        }
+                        return -1;
+                    }
+                    done += written;
+                }
+                return size;
+            }
+
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-- 
2.43.0


From 78945d30f839f7c45cb4804559f65b50d6e2add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 07/81] fix: do not treat objects with ids differing only in
 sign as equivalent

---
 include/osmium/osm/node.hpp     | 2 ++
 include/osmium/osm/relation.hpp | 2 ++
 include/osmium/osm/way.hpp      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..695d161 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,8 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..74383e6 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,8 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..fccea1d 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,8 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From 2841b6b5cb79787ab755e2f0f1d6cf45d50b6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 08/81] fix: insert objects of kinds missing in the stream from
 the object store

ObjectStore::ApplyHandler lost all stored objects of a kind that did not
appear in the stream.
---
 include/osmium/storage/objectstore.hpp | 80 ++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..aac9919 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -178,6 +178,7 @@ namespace Osmium {
                     m_object_store(object_store),
                     m_handler(handler),
                     m_meta(meta),
+                    m_stopped(false),
                     m_nodes_iter(object_store.m_nodes.begin()),
                     m_nodes_end(object_store.m_nodes.end()),
                     m_ways_iter(object_store.m_ways.begin()),
@@ -187,52 +188,101 @@ namespace Osmium {
                 }
 
                 void init(const Osmium::OSM::Meta&) {
+                    m_stopped = true;
                     m_handler.init(m_meta);
+                    m_stopped = false;
+                }
+
+                void before_nodes() {
+                    m_stopped = true;
+                    m_handler.before_nodes();
+                    m_stopped = false;
                 }
 
                 void node(const shared_ptr<Osmium::OSM::Node>& node) {
+                    m_stopped = true;
                     while (m_nodes_iter != m_nodes_end && **m_nodes_iter < *node) {
                         m_handler.node(*m_nodes_iter++);
                     }
                     m_handler.node(node);
+                    m_stopped = false;
                 }
 
                 void after_nodes() {
+                    m_stopped = true;
                     while (m_nodes_iter != m_nodes_end) {
                         m_handler.node(*m_nodes_iter++);
                     }
                     m_handler.after_nodes();
                     m_object_store.clear_nodes();
+                    m_stopped = false;
+                }
+
+                void before_ways() {
+                    insert_missing_nodes();
+                    m_stopped = true;
+                    m_handler.before_ways();
+                    m_stopped = false;
                 }
 
                 void way(const shared_ptr<Osmium::OSM::Way>& way) {
+                    m_stopped = true;
                     while (m_ways_iter != m_ways_end && **m_ways_iter < *way) {
                         m_handler.way(*m_ways_iter++);
                     }
                     m_handler.way(way);
+                    m_stopped = false;
                 }
 
                 void after_ways() {
+                    m_stopped = true;
                     while (m_ways_iter != m_ways_end) {
                         m_handler.way(*m_ways_iter++);
                     }
                     m_handler.after_ways();
                     m_object_store.clear_ways();
+                    m_stopped = false;
+                }
+
+                void before_relations() {
+                    insert_missing_nodes();
+                    insert_missing_ways();
+                    m_stopped = true;
+                    m_handler.before_relations();
+                    m_stopped = false;
                 }
 
                 void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
+                    m_stopped = true;
                     while (m_relations_iter != m_relations_end && **m_relations_iter < *relation) {
                         m_handler.relation(*m_relations_iter++);
                     }
                     m_handler.relation(relation);
+                    m_stopped = false;
                 }
 
                 void after_relations() {
+                    m_stopped = true;
                     while (m_relations_iter != m_relations_end) {
                         m_handler.relation(*m_relations_iter++);
                     }
                     m_handler.after_relations();
                     m_object_store.clear_relations();
+                    m_stopped = false;
+                }
+
+                void final() {
+                    // no more objects if the next handler has stopped the reading
+                    if (!m_stopped) {
+                        try {
+                            insert_missing_nodes();
+                            insert_missing_ways();
+                            insert_missing_relations();
+                        } catch (Osmium::Handler::StopReading) {
+                            // the next handler doesn't want the rest
+                        }
+                    }
+                    m_handler.final();
                 }
 
             private:
@@ -241,6 +291,9 @@ namespace Osmium {
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
 
+                /// Set while the next handler is called and stays set if that throws.
+                bool m_stopped;
+
                 ObjectStore::nodeset::iterator     m_nodes_iter;
                 ObjectStore::nodeset::iterator     m_nodes_end;
                 ObjectStore::wayset::iterator      m_ways_iter;
@@ -248,6 +301,33 @@ namespace Osmium {
                 ObjectStore::relationset::iterator m_relations_iter;
                 ObjectStore::relationset::iterator m_relations_end;
 
+                // Objects of a kind that is not in the stream at all are inserted
+                // where that kind would have been.
+
+                void insert_missing_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_stopped = true;
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void insert_missing_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_stopped = true;
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void insert_missing_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_stopped = true;
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
             }; // class ApplyHandler
 
         }; // class ObjectStore
-- 
2.43.0


From 0c895b4678f0088fbad5532c037f24d191d37701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 09/81] fix: unmap the memory of mmap based storages only once

---
 include/osmium/storage/byid/mmap_anon.hpp | 5 ++++-
 include/osmium/storage/byid/mmap_file.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..81f965e 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -102,7 +102,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..09973a7 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -141,7 +141,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
-- 
2.43.0


From b76c886e58a34fdd3bdb23e92ca52809f363bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 10/81] fix: close the file of a MmapFile storage

---
 include/osmium/storage/byid/mmap_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 09973a7..d686c65 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -71,7 +71,8 @@ namespace Osmium {
                         if (!file) {
                             throw std::bad_alloc();
                         }
-                        m_fd = fileno(file);
+                        m_fd = dup(fileno(file));
+                        fclose(file);
                     } else {
                         m_fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
                     }
@@ -103,6 +104,7 @@ namespace Osmium {
 
                 ~MmapFile() {
                     clear();
+                    close(m_fd);
                 }
 
                 void set(const uint64_t id, const TValue value) {
-- 
2.43.0


From 039219af03b129f1661b1371623159b4a57dfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 11/81] fix: make all items in an existing file accessible in
 MmapFile storage

---
 include/osmium/storage/byid/mmap_file.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index d686c65..7244c86 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -89,8 +89,11 @@ namespace Osmium {
                         }
                     }
 
-                    // make sure the file is at least as large as the initial size
-                    if (get_file_size() < sizeof(TValue) * m_size) {
+                    // use everything that's already in the file, but make
+                    // sure it is at least as large as the initial size
+                    if (get_file_size() > sizeof(TValue) * m_size) {
+                        m_size = get_file_size() / sizeof(TValue);
+                    } else {
                         if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
                             throw std::bad_alloc();
                         }
-- 
2.43.0


From 49bf86242c819eff305c6c2fa9cbd996c09b0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 12/81] fix: release the memory of a StlMap storage in clear()

---
 include/osmium/storage/byid/stl_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/storage/byid/stl_map.hpp b/include/osmium/storage/byid/stl_map.hpp
index 1b43f48..454f6a9 100644
--- a/include/osmium/storage/byid/stl_map.hpp
+++ b/include/osmium/storage/byid/stl_map.hpp
@@ -65,6 +65,7 @@ namespace Osmium {
                 }
 
                 void clear() {
+                    m_items.clear();
                 }
 
             private:
-- 
2.43.0


From 722d4ea99a3f54f5b027772e5358f25f8a9e286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 13/81] fix: return the value set last from Vector storage

---
 include/osmium/storage/byid/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/storage/byid/vector.hpp b/include/osmium/storage/byid/vector.hpp
index f28376b..3014e00 100644
--- a/include/osmium/storage/byid/vector.hpp
+++ b/include/osmium/storage/byid/vector.hpp
@@ -84,8 +84,9 @@ namespace Osmium {
 
                 const TValue operator[](const uint64_t id) const {
                     const item_t item(id);
-                    const item_vector_it_t result = std::lower_bound(m_items.begin(), m_items.end(), item);
-                    if (result == m_items.end() || *result != item) {
+                    // the last item with this id has the value that was set last
+                    item_vector_it_t result = std::upper_bound(m_items.begin(), m_items.end(), item);
+                    if (result == m_items.begin() || *--result != item) {
                         return TValue(); // nothing found
                     } else {
                         return result->value;
-- 
2.43.0


From 094bc51242842d7f62b9d992f5304a22d6e1efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 14/81] fix: report PBF files cut off inside the size of a blob
 header

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 365e2b6..dc6217d 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -396,6 +396,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset > 0) {
+                            throw std::runtime_error("unexpected end of file");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From d4f0e06c74a005eafe8a1d016acfd5a64773c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 15/81] fix: check indexes and array sizes in PBF input

Broken files were read beyond the end of the arrays, and optional arrays
were assumed to be there.
---
 include/osmium/input/pbf.hpp | 98 +++++++++++++++++++++++++++---------
 1 file changed, 73 insertions(+), 25 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index dc6217d..1838cae 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -151,6 +151,25 @@ namespace Osmium {
 
         private:
 
+            /**
+            * Get string with given index from string table. Throws if there is no such string.
+            */
+            static const char* get_string(const OSMPBF::StringTable& stringtable, int64_t index) {
+                if (index < 0 || index >= stringtable.s_size()) {
+                    throw std::runtime_error("String index out of range.");
+                }
+                return stringtable.s(index).c_str();
+            }
+
+            /**
+            * Check that an array has the same size as the array it belongs to.
+            */
+            static void check_size(int size, int expected) {
+                if (size != expected) {
+                    throw std::runtime_error("Array has wrong size.");
+                }
+            }
+
             /**
             * Parse one PrimitiveGroup inside a PrimitiveBlock. This function will check what
             * type of data the group contains (nodes, dense nodes, ways, or relations) and
@@ -197,16 +216,17 @@ namespace Osmium {
                         .changeset(pbf_node.info().changeset())
                         .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
-                        .user(stringtable.s(pbf_node.info().user_sid()).data());
+                        .user(pbf_node.info().has_user_sid() ? get_string(stringtable, pbf_node.info().user_sid()) : "");
                         if (pbf_node.info().has_visible()) {
                             node.visible(pbf_node.info().visible());
                         }
                     }
 
+                    check_size(pbf_node.vals_size(), pbf_node.keys_size());
                     Osmium::OSM::TagList& tags = node.tags();
                     for (int tag=0; tag < pbf_node.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_node.keys(tag)).data(),
-                                 stringtable.s(pbf_node.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_node.keys(tag)),
+                                 get_string(stringtable, pbf_node.vals(tag)));
                     }
 
                     node.position(Osmium::OSM::Position(
@@ -235,16 +255,17 @@ namespace Osmium {
                         .changeset(pbf_way.info().changeset())
                         .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
-                        .user(stringtable.s(pbf_way.info().user_sid()).data());
+                        .user(pbf_way.info().has_user_sid() ? get_string(stringtable, pbf_way.info().user_sid()) : "");
                         if (pbf_way.info().has_visible()) {
                             way.visible(pbf_way.info().visible());
                         }
                     }
 
+                    check_size(pbf_way.vals_size(), pbf_way.keys_size());
                     Osmium::OSM::TagList& tags = way.tags();
                     for (int tag=0; tag < pbf_way.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_way.keys(tag)).data(),
-                                 stringtable.s(pbf_way.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_way.keys(tag)),
+                                 get_string(stringtable, pbf_way.vals(tag)));
                     }
 
                     uint64_t ref = 0;
@@ -276,18 +297,21 @@ namespace Osmium {
                         .changeset(pbf_relation.info().changeset())
                         .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
-                        .user(stringtable.s(pbf_relation.info().user_sid()).data());
+                        .user(pbf_relation.info().has_user_sid() ? get_string(stringtable, pbf_relation.info().user_sid()) : "");
                         if (pbf_relation.info().has_visible()) {
                             relation.visible(pbf_relation.info().visible());
                         }
                     }
 
+                    check_size(pbf_relation.vals_size(), pbf_relation.keys_size());
                     Osmium::OSM::TagList& tags = relation.tags();
                     for (int tag=0; tag < pbf_relation.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_relation.keys(tag)).data(),
-                                 stringtable.s(pbf_relation.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_relation.keys(tag)),
+                                 get_string(stringtable, pbf_relation.vals(tag)));
                     }
 
+                    check_size(pbf_relation.memids_size(), pbf_relation.types_size());
+                    check_size(pbf_relation.roles_sid_size(), pbf_relation.types_size());
                     uint64_t ref = 0;
                     for (int i=0; i < pbf_relation.types_size(); ++i) {
                         char type = 'x';
@@ -303,7 +327,7 @@ namespace Osmium {
                                 break;
                         }
                         ref += pbf_relation.memids(i);
-                        relation.add_member(type, ref, stringtable.s(pbf_relation.roles_sid(i)).data());
+                        relation.add_member(type, ref, get_string(stringtable, pbf_relation.roles_sid(i)));
                     }
 
                     this->call_relation_on_handler();
@@ -328,27 +352,45 @@ namespace Osmium {
 
                 const OSMPBF::DenseNodes& dense = group.dense();
                 int max_entity = dense.id_size();
+                check_size(dense.lat_size(), max_entity);
+                check_size(dense.lon_size(), max_entity);
+
+                // every one of these arrays can be missing
+                const OSMPBF::DenseInfo& info = dense.denseinfo();
+                if (info.version_size()   > 0) check_size(info.version_size(),   max_entity);
+                if (info.timestamp_size() > 0) check_size(info.timestamp_size(), max_entity);
+                if (info.changeset_size() > 0) check_size(info.changeset_size(), max_entity);
+                if (info.uid_size()       > 0) check_size(info.uid_size(),       max_entity);
+                if (info.user_sid_size()  > 0) check_size(info.user_sid_size(),  max_entity);
+                if (info.visible_size()   > 0) check_size(info.visible_size(),   max_entity);
+
                 for (int entity=0; entity < max_entity; ++entity) {
                     Osmium::OSM::Node& node = this->prepare_node();
 
                     last_dense_id += dense.id(entity);
                     node.id(last_dense_id);
 
-                    if (dense.has_denseinfo()) {
-                        last_dense_changeset += dense.denseinfo().changeset(entity);
-                        last_dense_timestamp += dense.denseinfo().timestamp(entity);
-                        last_dense_uid       += dense.denseinfo().uid(entity);
-                        last_dense_user_sid  += dense.denseinfo().user_sid(entity);
-
-                        node.version(dense.denseinfo().version(entity));
+                    if (info.version_size() > 0) {
+                        node.version(info.version(entity));
+                    }
+                    if (info.changeset_size() > 0) {
+                        last_dense_changeset += info.changeset(entity);
                         node.changeset(last_dense_changeset);
+                    }
+                    if (info.timestamp_size() > 0) {
+                        last_dense_timestamp += info.timestamp(entity);
                         node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
+                    }
+                    if (info.uid_size() > 0) {
+                        last_dense_uid += info.uid(entity);
                         node.uid(last_dense_uid);
-                        node.user(stringtable.s(last_dense_user_sid).data());
-
-                        if (dense.denseinfo().visible_size() > 0) {
-                            node.visible(dense.denseinfo().visible(entity));
-                        }
+                    }
+                    if (info.user_sid_size() > 0) {
+                        last_dense_user_sid += info.user_sid(entity);
+                        node.user(get_string(stringtable, last_dense_user_sid));
+                    }
+                    if (info.visible_size() > 0) {
+                        node.visible(info.visible(entity));
                     }
 
                     last_dense_latitude  += dense.lat(entity);
@@ -365,9 +407,13 @@ namespace Osmium {
                             break;
                         }
 
+                        if (last_dense_tag + 1 == dense.keys_vals_size()) {
+                            throw std::runtime_error("Tag without value.");
+                        }
+
                         Osmium::OSM::TagList& tags = node.tags();
-                        tags.add(stringtable.s(tag_key_pos).data(),
-                                 stringtable.s(dense.keys_vals(last_dense_tag+1)).data());
+                        tags.add(get_string(stringtable, tag_key_pos),
+                                 get_string(stringtable, dense.keys_vals(last_dense_tag+1)));
 
                         last_dense_tag += 2;
                     }
@@ -451,7 +497,9 @@ namespace Osmium {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
+                    if (raw_size > static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size)) {
+                        throw std::runtime_error("invalid uncompressed blob size");
+                    }
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From 6a712c4d0a365b89f7a0c26260e9b7557edda4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 16/81] fix: look for the suffix in the last part of the path
 only

---
 include/osmium/osmfile.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..41113c5 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -649,7 +649,13 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            size_t n = m_filename.find_last_of('/');
+            if (n == std::string::npos) {
+                n = 0;
+            } else {
+                ++n;
+            }
+            return m_filename.substr(0, m_filename.find_first_of('.', n));
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From c23bdb5db954b326fc2b0e01a55b0827f94f230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 17/81] fix: keep PBF blocks with nodes and many strings within
 the size limit

The size of nodes and of the string table was not counted, so files were
written that no reader accepts.
---
 include/osmium/output/pbf.hpp        | 12 +++++++++++-
 include/osmium/utils/stringtable.hpp | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index f936bda..089997c 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -304,6 +304,10 @@ namespace Osmium {
                 // serialize the protobuf message to the string
                 msg.SerializeToString(&data);
 
+                if (data.size() > static_cast<size_t>(OSMPBF::max_uncompressed_blob_size)) {
+                    throw std::runtime_error("blob too large");
+                }
+
                 if (use_compression()) {
                     // compress using zlib
                     size_t out = zlib_compress(data);
@@ -589,7 +593,7 @@ namespace Osmium {
             void check_block_contents_counter() {
                 if (primitive_block_contents >= max_block_contents) {
                     store_primitive_block();
-                } else if (primitive_block_size > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
+                } else if (primitive_block_size + string_table.byte_size() > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
                     if (debug && has_debug_level(1)) {
                         std::cerr << "storing primitive_block with only " << primitive_block_contents << " items, because its ByteSize (" << primitive_block_size << ") reached " <<
                                   (static_cast<float>(primitive_block_size) / static_cast<float>(OSMPBF::max_uncompressed_blob_size) * 100.0) << "% of the maximum blob-size" << std::endl;
@@ -620,6 +624,9 @@ namespace Osmium {
                 // the ints to the pbf-object
                 pbf_node->set_lon(lonlat2int(node->lon()));
                 pbf_node->set_lat(lonlat2int(node->lat()));
+
+                // count up blob size by the size of the Node
+                primitive_block_size += pbf_node->ByteSize();
             }
 
             /**
@@ -676,6 +683,9 @@ namespace Osmium {
                     // interim string-id to the pbf-object
                     denseinfo->add_user_sid(string_table.record_string(node->user()));
                 }
+
+                // count up blob size by the maximum size of a dense node
+                primitive_block_size += 100 + 10 * node->tags().size();
             }
 
             /**
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 3df5678..19aa5c8 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -96,12 +96,16 @@ namespace Osmium {
 
         int m_size;
 
+        /// size of all strings in this table in bytes when serialized
+        size_t m_byte_size;
+
     public:
 
         StringTable() :
             m_strings(),
             m_id2id_map(),
-            m_size(0) {
+            m_size(0),
+            m_byte_size(0) {
         }
 
         friend bool operator<(const string_info& lhs, const string_info& rhs) {
@@ -116,6 +120,7 @@ namespace Osmium {
             string_info& info = m_strings[string];
             if (info.interim_id == 0) {
                 info.interim_id = ++m_size;
+                m_byte_size += string.size() + 6; // tag and length need up to six bytes
             } else {
                 info.count++;
             }
@@ -165,6 +170,13 @@ namespace Osmium {
             return m_id2id_map[interim_id];
         }
 
+        /**
+         * Maximum number of bytes needed for all strings in this table when it is serialized.
+         */
+        size_t byte_size() const {
+            return m_byte_size;
+        }
+
         /**
          * Clear the stringtable, preparing for the next block.
          */
@@ -172,6 +184,7 @@ namespace Osmium {
             m_strings.clear();
             m_id2id_map.clear();
             m_size = 0;
+            m_byte_size = 0;
         }
 
     }; // class StringTable
-- 
2.43.0


From 860a6408d34f546981a810a8800b950d2c19e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 18/81] fix: ignore coordinates of ways and relations in XML
 input

They changed the last node, even if a handler had kept it.
---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..2e60633 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -149,11 +149,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From 9698a6646c84c09f84821960b7bafbd0e6e0cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 19/81] fix: do not abort on unexpected elements in XML input

---
 include/osmium/input/xml.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 2e60633..1c1cc34 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -63,6 +63,7 @@ namespace Osmium {
                 m_current_object(NULL),
                 m_context(context_root),
                 m_last_context(context_root),
+                m_ignored_depth(0),
                 m_in_delete_section(false) {
             }
 
@@ -128,6 +129,9 @@ namespace Osmium {
             context_t m_context;
             context_t m_last_context;
 
+            /// Depth of (ignored) elements inside tags, way nodes or members.
+            int m_ignored_depth;
+
             /**
              * This is used only for change files which contain create, modify,
              * and delete sections.
@@ -269,7 +273,8 @@ namespace Osmium {
                         }
                         break;
                     case context_in_object:
-                        // fallthrough
+                        ++m_ignored_depth;
+                        break;
                     default:
                         assert(false); // should never be here
                 }
@@ -278,8 +283,7 @@ namespace Osmium {
             void end_element(const XML_Char* element) {
                 switch (m_context) {
                     case context_root:
-                        assert(false); // should never be here
-                        break;
+                        throw std::runtime_error("unexpected end of element");
                     case context_top:
                         if (!strcmp(element, "osm") || !strcmp(element, "osmChange")) {
                             m_context = context_root;
@@ -303,7 +307,11 @@ namespace Osmium {
                         m_context = context_top;
                         break;
                     case context_in_object:
-                        m_context = m_last_context;
+                        if (m_ignored_depth > 0) {
+                            --m_ignored_depth;
+                        } else {
+                            m_context = m_last_context;
+                        }
                         break;
                     default:
                         assert(false); // should never be here
-- 
2.43.0


From 1074d24ab5be39b8d195ac7c89e503bc8625fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 20/81] fix: always free the XML parser

---
 include/osmium/input/xml.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 1c1cc34..9e0416a 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -68,10 +68,7 @@ namespace Osmium {
             }
 
             void parse() {
-                XML_Parser parser = XML_ParserCreate(0);
-                if (!parser) {
-                    throw std::runtime_error("Error creating parser");
-                }
+                ParserHolder parser;
 
                 XML_SetUserData(parser, this);
 
@@ -102,8 +99,6 @@ namespace Osmium {
                             throw std::runtime_error(errorDesc.str());
                         }
                     } while (!done);
-                    XML_ParserFree(parser);
-
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
@@ -115,6 +110,30 @@ namespace Osmium {
 
             static const int c_buffer_size = 10240;
 
+            /// Creates an expat parser and makes sure it is always freed again.
+            class ParserHolder : boost::noncopyable {
+
+                XML_Parser m_parser;
+
+            public:
+
+                ParserHolder() :
+                    m_parser(XML_ParserCreate(0)) {
+                    if (!m_parser) {
+                        throw std::runtime_error("Error creating parser");
+                    }
+                }
+
+                ~ParserHolder() {
+                    XML_ParserFree(m_parser);
+                }
+
+                operator XML_Parser() const {
+                    return m_parser;
+                }
+
+            };
+
             Osmium::OSM::Object* m_current_object;
 
             enum context_t {
-- 
2.43.0


From 85b581a5584e222e078da8a59a088100c967de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 21/81] fix: do not extend bounds by undefined positions

---
 include/osmium/osm/bounds.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..1ec1b76 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -38,6 +38,9 @@ namespace Osmium {
             }
 
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From 2dce6ba950b5baf59eee11ead6bf5b6b5caed987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 22/81] fix: do not let child processes inherit our end of the
 pipe

With 32 or more open files compression never finished.
---
 include/osmium/osmfile.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 41113c5..69bd257 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -316,6 +316,10 @@ namespace Osmium {
             if (pipe(pipefd) < 0) {
                 throw SystemError("Can't create pipe", errno);
             }
+            // children must not inherit our end of the pipe, otherwise they would never see its end
+            if (fcntl(pipefd[input], F_SETFD, FD_CLOEXEC) < 0) {
+                throw SystemError("Can't set flag on pipe", errno);
+            }
             pid_t pid = fork();
             if (pid < 0) {
                 throw SystemError("Can't fork", errno);
-- 
2.43.0


From 234cb60d5867d9461c5af65fb0f640b01f5b2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 23/81] fix: close the open file of an OSMFile when it is
 assigned to or opened again

---
 include/osmium/osmfile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 69bd257..6690acc 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -521,8 +521,7 @@ namespace Osmium {
          * copied.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
+            close();
             m_type     = orig.type();
             m_encoding = orig.encoding();
             m_filename = orig.filename();
@@ -669,10 +668,12 @@ namespace Osmium {
         }
 
         void open_for_input() {
+            close();
             m_fd = m_encoding->decompress() == "" ? open_input_file_or_url() : execute(m_encoding->decompress(), 0);
         }
 
         void open_for_output() {
+            close();
             m_fd = m_encoding->compress() == "" ? open_output_file() : execute(m_encoding->compress(), 1);
         }
 
-- 
2.43.0


From adf5a1c916be06be5b9a657487c6ed965520331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 24/81] fix: report the failure of a child process only once
 when closing an OSMFile

---
 include/osmium/osmfile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 6690acc..cdd6db3 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -545,12 +545,12 @@ namespace Osmium {
             if (m_childpid) {
                 int status;
                 pid_t pid = waitpid(m_childpid, &status, 0);
+                m_childpid = 0;
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
             }
         }
 
-- 
2.43.0


From f313069b30072e051fefd91276357459ae6bb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 25/81] fix: honour the reverse flag when writing polygons

---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..7648699 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From 0e9c015763934c521b3125d38e6ddab4b7e8edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 26/81] fix: call all_members_available() if some kind of
 object is not in the file

---
 include/osmium/relations/assembler.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index a99ec56..9d61bd7 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -475,7 +475,12 @@ namespace Osmium {
                     m_assembler.m_next_handler.after_relations();
                 }
 
-                void final() const {
+                void final() {
+                    // not called yet if there are no objects of some kind we are interested in
+                    if (m_want_types > 0) {
+                        m_want_types = 0;
+                        m_assembler.all_members_available();
+                    }
                     m_assembler.m_next_handler.final();
                 }
 
-- 
2.43.0


From e1d61863c9071d2311f560eec3cec45713347c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 27/81] fix: calculate distance between antipodal positions

---
 include/osmium/geometry/haversine.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/geometry/haversine.hpp b/include/osmium/geometry/haversine.hpp
index 1b90149..3c18481 100644
--- a/include/osmium/geometry/haversine.hpp
+++ b/include/osmium/geometry/haversine.hpp
@@ -22,6 +22,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <algorithm>
+#include <cmath>
+
 #include <osmium/osm/position.hpp>
 #include <osmium/osm/way_node_list.hpp>
 
@@ -53,7 +56,7 @@ namespace Osmium {
                 double lath = sin(lat_arc * 0.5);
                 lath *= lath;
                 const double tmp = cos(y1 * DEG_TO_RAD) * cos(y2 * DEG_TO_RAD);
-                return 2.0 * EARTH_RADIUS_IN_METERS * asin(sqrt(lath + tmp*lonh));
+                return 2.0 * EARTH_RADIUS_IN_METERS * asin(std::min(1.0, sqrt(lath + tmp*lonh)));
             }
 
             inline double distance(const Osmium::OSM::Position& from, const Osmium::OSM::Position& to) {
-- 
2.43.0


From 12e52b6548158f8042f9f36322281ec85ebf5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 28/81] fix: empty way node lists are not closed

---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From ba6b6a50dbb736a69977cbf8603329d21ff44689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 29/81] fix: do not leave an incomplete member behind when the
 role is too long

---
 include/osmium/osm/relation_member_list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osm/relation_member_list.hpp b/include/osmium/osm/relation_member_list.hpp
index df8c2be..82161fd 100644
--- a/include/osmium/osm/relation_member_list.hpp
+++ b/include/osmium/osm/relation_member_list.hpp
@@ -82,7 +82,12 @@ namespace Osmium {
                 a second copy */
                 m->type(type);
                 m->ref(ref);
-                m->role(role);
+                try {
+                    m->role(role);
+                } catch (...) {
+                    m_list.pop_back();
+                    throw;
+                }
             }
 
         private:
-- 
2.43.0


From 73dd498898c3a290b5eb805dd05a6d3835a693ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 30/81] fix: free the input and close its file when reading
 fails

---
 include/osmium.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium.hpp b/include/osmium.hpp
index 74817e3..becd986 100644
--- a/include/osmium.hpp
+++ b/include/osmium.hpp
@@ -70,7 +70,12 @@ namespace Osmium {
 #endif // OSMIUM_WITH_XML_INPUT
             }
 
-            input->parse();
+            try {
+                input->parse();
+            } catch (...) {
+                delete input;
+                throw;
+            }
             delete input;
         }
 
-- 
2.43.0


From 4055160bd7fd5ed0468c4edd9ee054df685c9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 31/81] fix: close the pipe if no process can be created for it

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index cdd6db3..f8b14cc 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -322,7 +322,10 @@ namespace Osmium {
             }
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                int fork_errno = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", fork_errno);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
-- 
2.43.0


From 07cfb8c08faf3df58445d8af18cd2d280b02daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 32/81] fix: keep waiting for a child process when interrupted
 by a signal

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index f8b14cc..b87c373 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -547,7 +547,10 @@ namespace Osmium {
 
             if (m_childpid) {
                 int status;
-                pid_t pid = waitpid(m_childpid, &status, 0);
+                pid_t pid;
+                do {
+                    pid = waitpid(m_childpid, &status, 0);
+                } while (pid < 0 && errno == EINTR);
                 m_childpid = 0;
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
-- 
2.43.0


From 356e3f25ca5ce857e2589c5368ceba4093be39a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 33/81] fix: child processes got the wrong files if standard
 output was closed

---
 include/osmium/osmfile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index b87c373..0a416af 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -337,6 +337,9 @@ namespace Osmium {
                 if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
                     exit(1);
                 }
+                if (pipefd[1-input] != 1-input) {
+                    ::close(pipefd[1-input]);
+                }
 
                 if (input == 0) {
                     ::open("/dev/null", O_RDONLY); // stdin
-- 
2.43.0


From d71e1ef7d37be421cb94af1d7338deb7ca3e2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 34/81] fix: crash when copying or assigning an area without
 geometry, and leak when assigning

---
 include/osmium/osm/area.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..e0ed286 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -86,7 +86,7 @@ namespace Osmium {
             Area(const Area& area) :
                 Object(area),
                 m_node_list(area.m_node_list),
-                m_geos_geometry(dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone())) {
+                m_geos_geometry(area.m_geos_geometry ? dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone()) : NULL) {
             }
 
             Area& operator=(const Area& area) {
@@ -100,7 +100,9 @@ namespace Osmium {
                 visible(area.visible());
                 tags(area.tags());
                 m_node_list = area.m_node_list;
-                m_geos_geometry = dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone());
+                geos::geom::MultiPolygon* geos_geometry = area.m_geos_geometry ? dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone()) : NULL;
+                delete m_geos_geometry;
+                m_geos_geometry = geos_geometry;
                 return *this;
             }
 
-- 
2.43.0


From 59c84f85199df0c710e7a3c1cdf91f389cfde5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 35/81] fix: EWKB of multipolygons had SRID -1 instead of 4326

---
 include/osmium/geometry/geos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/geometry/geos.hpp b/include/osmium/geometry/geos.hpp
index b41542c..db4e997 100644
--- a/include/osmium/geometry/geos.hpp
+++ b/include/osmium/geometry/geos.hpp
@@ -51,7 +51,7 @@ namespace Osmium {
          */
         inline geos::geom::GeometryFactory* geos_geometry_factory() {
             static geos::geom::PrecisionModel pm;
-            static geos::geom::GeometryFactory factory(&pm, -1);
+            static geos::geom::GeometryFactory factory(&pm, srid);
             return &factory;
         }
 
-- 
2.43.0


From 298d935c79914906a10e212ccedffdf76d4ba398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 36/81] fix: multipolygons with rings nested four deep were not
 built for some orders of the members

---
 include/osmium/multipolygon/builder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 12ce7c1..719c75e 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -719,6 +719,8 @@ namespace Osmium {
                 // thin out the array so that only direct relationships remain (and
                 // the "a contains c" is dropped).
 
+                const std::vector<bs_t> contains_all(contains);
+
                 for (unsigned int i=0; i < m_ringlist.size(); ++i) {
                     for (unsigned j=0; j < m_ringlist.size(); ++j) {
                         if (contains[i][j]) {
@@ -726,7 +728,7 @@ namespace Osmium {
                             for (unsigned int k=0; k < m_ringlist.size(); ++k) {
                                 if (k==i) continue;
                                 if (k==j) continue;
-                                if (contains[i][k] && contains[k][j]) {
+                                if (contains_all[i][k] && contains_all[k][j]) {
                                     // intermediary relationship exists; break this
                                     // one up.
                                     contains[i][j] = false;
-- 
2.43.0


From d22780c9c98c713e288b0c1a90de62a0b12e152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 37/81] fix: memory leak when joining touching inner rings

---
 include/osmium/multipolygon/builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 719c75e..de4acf3 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -833,9 +833,9 @@ namespace Osmium {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-                                geos::geom::Geometry* diff = ring1_geom->symDifference(ring2_geom);
+                                const scoped_ptr<geos::geom::Geometry> diff(ring1_geom->symDifference(ring2_geom));
                                 const scoped_ptr<geos::operation::polygonize::Polygonizer> polygonizer(new geos::operation::polygonize::Polygonizer());
-                                polygonizer->add(diff);
+                                polygonizer->add(diff.get());
                                 std::vector<geos::geom::Polygon*>* polys = polygonizer->getPolygons();
                                 if (polys) {
                                     if (polys->size() == 1) {
-- 
2.43.0


From 0e1fb55158d1c8d62e9bce05e553ea1b59f65cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 38/81] fix: attempting repair damaged valid multipolygons with
 rings touching in a node

---
 include/osmium/multipolygon/builder.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index de4acf3..068d5d4 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -447,7 +447,7 @@ namespace Osmium {
             /**
              * This method is called when a complete ring was created from one or more ways.
              */
-            shared_ptr<RingInfo> ring_is_complete(std::vector< shared_ptr<WayInfo> >& ways, int ringcount, int num_ways_in_ring) const {
+            shared_ptr<RingInfo> ring_is_complete(std::vector< shared_ptr<WayInfo> >& ways, int ringcount, int num_ways_in_ring, bool attempt_repair) const {
                 std::vector< shared_ptr<WayInfo> > sorted_ways(num_ways_in_ring);
                 for (unsigned int i=0; i < ways.size(); ++i) {
                     if (ways[i]->used == ringcount) {
@@ -461,7 +461,7 @@ namespace Osmium {
                     if (!linear_ring->isSimple() || !linear_ring->isValid()) {
                         delete linear_ring;
                         linear_ring = NULL;
-                        if (m_attempt_repair) {
+                        if (attempt_repair) {
                             scoped_ptr<geos::geom::CoordinateSequence> cs(create_ring_coordinate_sequence(sorted_ways));
                             linear_ring = create_non_intersecting_linear_ring(cs.get());
                             if (linear_ring) {
@@ -481,11 +481,11 @@ namespace Osmium {
             /**
              * Try extending a proto-ring recursively until it is complete.
              */
-            shared_ptr<RingInfo> complete_ring(std::vector< shared_ptr<WayInfo> >& ways, osm_object_id_t first, osm_object_id_t last, int ringcount, int sequence) const {
+            shared_ptr<RingInfo> complete_ring(std::vector< shared_ptr<WayInfo> >& ways, osm_object_id_t first, osm_object_id_t last, int ringcount, int sequence, bool attempt_repair) const {
 
                 // is the ring closed already?
                 if (first == last) {
-                    return ring_is_complete(ways, ringcount, sequence);
+                    return ring_is_complete(ways, ringcount, sequence, attempt_repair);
                 }
 
                 // try extending our current line at the rear end
@@ -501,7 +501,7 @@ namespace Osmium {
                         ways[i]->used = ringcount;
                         ways[i]->sequence = sequence;
                         ways[i]->invert = false;
-                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->lastnode(), ringcount, sequence+1);
+                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->lastnode(), ringcount, sequence+1, attempt_repair);
                         if (result) {
                             result->ways.push_back(ways[i]);
                             return result;
@@ -512,7 +512,7 @@ namespace Osmium {
                         ways[i]->used = ringcount;
                         ways[i]->sequence = sequence;
                         ways[i]->invert = true;
-                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->firstnode(), ringcount, sequence+1);
+                        shared_ptr<RingInfo> result = complete_ring(ways, first, ways[i]->firstnode(), ringcount, sequence+1, attempt_repair);
                         if (result) {
                             result->ways.push_back(ways[i]);
                             return result;
@@ -536,7 +536,11 @@ namespace Osmium {
                     ways[i]->used = m_ringlist.size();
                     ways[i]->sequence = 0;
                     ways[i]->invert = false;
-                    const shared_ptr<RingInfo>& rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1);
+                    // only repair a ring if the ways can't be put together in a way that makes it valid
+                    shared_ptr<RingInfo> rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1, false);
+                    if (!rl && m_attempt_repair) {
+                        rl = complete_ring(ways, ways[i]->firstnode(), ways[i]->lastnode(), m_ringlist.size(), 1, true);
+                    }
                     if (rl) {
                         rl->ways.push_back(ways[i]);
                         m_ringlist.push_back(rl);
-- 
2.43.0


From a01aed1a8b710c01deda84d304ca62e802b12968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 39/81] fix: relations with inner rings touching along several
 segments were not built

---
 include/osmium/multipolygon/builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 068d5d4..ca8ce52 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -833,7 +833,7 @@ namespace Osmium {
                             geos::geom::GeometryTypeId type = inter->getGeometryTypeId();
                             delete inter;
 
-                            if (type == geos::geom::GEOS_LINESTRING) {
+                            if (type == geos::geom::GEOS_LINESTRING || type == geos::geom::GEOS_MULTILINESTRING) {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-- 
2.43.0


From efe219dc3280ce30e9c68b556c653f5106ea07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 40/81] fix: an exception from GEOS while building one broken
 multipolygon ended the whole program

---
 include/osmium/multipolygon/builder.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index ca8ce52..6284ca2 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -712,7 +712,11 @@ namespace Osmium {
                     for (unsigned int j=0; j < m_ringlist.size(); ++j) {
                         if (i==j) continue;
                         if (contains[j][i]) continue;
-                        contains[i][j] = pp->contains(m_ringlist[j]->polygon);
+                        try {
+                            contains[i][j] = pp->contains(m_ringlist[j]->polygon);
+                        } catch (const geos::util::GEOSException& exc) {
+                            throw InvalidRing(std::string("invalid ring: ") + exc.what());
+                        }
                         contained_by_even_number[j] ^= contains[i][j];
                     }
                 }
@@ -837,7 +841,13 @@ namespace Osmium {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-                                const scoped_ptr<geos::geom::Geometry> diff(ring1_geom->symDifference(ring2_geom));
+                                scoped_ptr<geos::geom::Geometry> diff;
+                                try {
+                                    diff.reset(ring1_geom->symDifference(ring2_geom));
+                                } catch (const geos::util::GEOSException& exc) {
+                                    std::cerr << "Exception while joining touching inner rings\n";
+                                    return;
+                                }
                                 const scoped_ptr<geos::operation::polygonize::Polygonizer> polygonizer(new geos::operation::polygonize::Polygonizer());
                                 polygonizer->add(diff.get());
                                 std::vector<geos::geom::Polygon*>* polys = polygonizer->getPolygons();
-- 
2.43.0


From 55f7b292a33c224552b5adfad90fe50ad543262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 41/81] fix: shapes of ways with nodes without position were
 drawn to 214.7 degrees

---
 include/osmium/geometry/shplib.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/osmium/geometry/shplib.hpp b/include/osmium/geometry/shplib.hpp
index f15565a..b085bf5 100644
--- a/include/osmium/geometry/shplib.hpp
+++ b/include/osmium/geometry/shplib.hpp
@@ -62,14 +62,17 @@ namespace Osmium {
             * SHPDestroyObject() with this geometry when you are done.
             */
             inline SHPObject* create_line_or_polygon(const Osmium::Geometry::FromWay& from_way, int shp_type) {
-                if (!from_way.nodes().has_position()) {
-                    throw std::runtime_error("node coordinates not available for building way geometry");
-                }
                 int size = from_way.nodes().size();
                 if (size == 0 || size == 1) {
                     std::cerr << "error building way geometry for way " << from_way.id() << ": must at least contain two nodes" << std::endl;
                     throw Osmium::Geometry::IllegalGeometry();
                 }
+                for (int i=0; i < size; i++) {
+                    if (!from_way[i].has_position()) {
+                        std::cerr << "error building way geometry for way " << from_way.id() << ": coordinates of node " << from_way[i].ref() << " not available" << std::endl;
+                        throw Osmium::Geometry::IllegalGeometry();
+                    }
+                }
 
                 std::vector<double> lon_checked;
                 lon_checked.reserve(size);
-- 
2.43.0


From 7aafa223933119cb6c41bb221f5da143da3dd6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 42/81] fix: shapefiles with a dot in their name were written
 to the wrong files

---
 include/osmium/export/shapefile.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 2f5e6a4..f5f3a96 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -343,11 +343,12 @@ namespace Osmium {
                     filename << "_" << m_sequence_number;
                 }
 
-                m_shp_handle = SHPCreate(filename.str().c_str(), m_type);
+                // shapelib removes everything after the last dot, so always add a suffix
+                m_shp_handle = SHPCreate((filename.str() + ".shp").c_str(), m_type);
                 if (m_shp_handle == 0) {
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".shp/shx");
                 }
-                m_dbf_handle = DBFCreate(filename.str().c_str());
+                m_dbf_handle = DBFCreate((filename.str() + ".dbf").c_str());
                 if (m_dbf_handle == 0) {
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".dbf");
                 }
-- 
2.43.0


From cfe3fe0132bda31fb9d7644bbbe47a1d57551e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 43/81] fix: truncating text for very narrow shapefile fields
 read outside of the buffer

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index f5f3a96..aaf9d2a 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -269,9 +269,9 @@ namespace Osmium {
                 if (dest[i] & 128) {
                     if (dest[i] & 64) {
                         dest[i] = '\0';
-                    } else if ((dest[i-1] & 224) == 224) {
+                    } else if (i >= 1 && (dest[i-1] & 224) == 224) {
                         dest[i-1] = '\0';
-                    } else if ((dest[i-2] & 240) == 240) {
+                    } else if (i >= 2 && (dest[i-2] & 240) == 240) {
                         dest[i-2] = '\0';
                     }
                 }
-- 
2.43.0


From 9a054ce51110d590492e888cdc2d8e4d7fceb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 44/81] fix: files of a shapefile stayed open if one of them
 could not be opened

---
 include/osmium/export/shapefile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index aaf9d2a..be5b291 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -350,12 +350,14 @@ namespace Osmium {
                 }
                 m_dbf_handle = DBFCreate((filename.str() + ".dbf").c_str());
                 if (m_dbf_handle == 0) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".dbf");
                 }
 
                 std::ofstream file;
                 file.open((filename.str() + ".prj").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".prj");
                 }
                 file << "GEOGCS[\"GCS_WGS_1984\",DATUM[\"D_WGS_1984\",SPHEROID[\"WGS_1984\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"Degree\",0.017453292519943295]]" << std::endl;
@@ -363,6 +365,7 @@ namespace Osmium {
 
                 file.open((filename.str() + ".cpg").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".cpg");
                 }
                 file << "UTF-8" << std::endl;
-- 
2.43.0


From b5a86feef2fe03ccd1477ae2157fa2b848946d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 45/81] fix: access behind the end of a way's nodes or a
 relation's members from Javascript

---
 include/osmium/javascript/wrapper/osm.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index bd72f24..3c9152b 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -84,6 +84,9 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> get_node_id(uint32_t index, Osmium::OSM::WayNodeList* wnl) {
+                    if (index >= wnl->size()) {
+                        return v8::Undefined();
+                    }
                     return v8::Number::New((*wnl)[index].ref());
                 }
 
@@ -141,6 +144,9 @@ namespace Osmium {
             struct OSMRelationMemberList : public Osmium::Javascript::Template {
 
                 static v8::Handle<v8::Value> get_member(uint32_t index, Osmium::OSM::RelationMemberList* rml) {
+                    if (index >= rml->size()) {
+                        return v8::Undefined();
+                    }
                     return OSMRelationMember::get<OSMRelationMember>().create_instance((void*)&((*rml)[index]));
                 }
 
-- 
2.43.0


From fb0545559812bccf4b0031db13ad8d27a4295fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 46/81] fix: tags with a number as key could not be read from
 Javascript

---
 include/osmium/javascript/wrapper/osm.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 3c9152b..2d7cd61 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -51,6 +51,11 @@ namespace Osmium {
                     return v8::Undefined();
                 }
 
+                // Javascript looks up keys that are numbers as index
+                static v8::Handle<v8::Value> get_value_by_index(uint32_t index, Osmium::OSM::TagList* tag_list) {
+                    return get_value_by_key(v8::Integer::NewFromUnsigned(index)->ToString(), tag_list);
+                }
+
                 static v8::Handle<v8::Array> enumerate_tag_keys(Osmium::OSM::TagList* tag_list) {
                     v8::HandleScope scope;
                     v8::Local<v8::Array> array = v8::Array::New(tag_list->size());
@@ -73,6 +78,9 @@ namespace Osmium {
                         0,
                         property_enumerator<Osmium::OSM::TagList, enumerate_tag_keys>
                     );
+                    js_template->SetIndexedPropertyHandler(
+                        indexed_property_getter<Osmium::OSM::TagList, get_value_by_index>
+                    );
                 }
 
             };
-- 
2.43.0


From 44d62ddffa6b8e51762e5ee78849f7c583b440b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 47/81] fix: osmjs crashed with -2 and no location store

---
 osmjs/osmjs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index 08f231e..6894b05 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -242,7 +242,7 @@ int main(int argc, char* argv[]) {
     Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str());
     handler_javascript.set_debug_level(debug ? 1 : 0);
 
-    if (two_passes) {
+    if (two_passes && store_pos) {
         typedef Osmium::MultiPolygon::Assembler<Osmium::Javascript::Handler> assembler_t;
         assembler_t assembler(handler_javascript, attempt_repair);
 
-- 
2.43.0


From e4e7d1a670a7120a6b0060559a2634cd447d67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 48/81] fix: Osmium.debug was always false in Javascript

---
 include/osmium/javascript/handler.hpp | 3 ++-
 osmjs/osmjs.cpp                       | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/javascript/handler.hpp b/include/osmium/javascript/handler.hpp
index 03aaffb..dc201ff 100644
--- a/include/osmium/javascript/handler.hpp
+++ b/include/osmium/javascript/handler.hpp
@@ -149,8 +149,9 @@ namespace Osmium {
                 return v8::Undefined();
             }
 
-            Handler(std::vector<std::string> include_files, const char* filename) :
+            Handler(std::vector<std::string> include_files, const char* filename, int debug_level = 0) :
                 Osmium::Handler::Base() {
+                set_debug_level(debug_level);
 //                v8::HandleScope handle_scope;
                 v8::Handle<v8::String> init_source = v8::String::New("Osmium = { Callbacks: {}, Output: { } };");
                 v8::Handle<v8::Script> init_script = v8::Script::Compile(init_source);
diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index 6894b05..d071409 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -239,8 +239,7 @@ int main(int argc, char* argv[]) {
         store_pos = new Osmium::Storage::ById::Vector<Osmium::OSM::Position>();
     }
     Osmium::Storage::ById::MmapFile<Osmium::OSM::Position> store_neg;
-    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str());
-    handler_javascript.set_debug_level(debug ? 1 : 0);
+    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str(), debug ? 1 : 0);
 
     if (two_passes && store_pos) {
         typedef Osmium::MultiPolygon::Assembler<Osmium::Javascript::Handler> assembler_t;
-- 
2.43.0


From dec51e13719982eaf6139c534f0a5d58ecbb8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 49/81] fix: text printed from Javascript ended at the first
 NUL

---
 include/osmium/javascript/unicode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/unicode.hpp b/include/osmium/javascript/unicode.hpp
index 1d387d7..1df539e 100644
--- a/include/osmium/javascript/unicode.hpp
+++ b/include/osmium/javascript/unicode.hpp
@@ -139,7 +139,7 @@ namespace Osmium {
             free(src);
             throw UTF16_to_UTF8_Conversion_Error(error_code);
         }
-        os << buffer;
+        os.write(buffer, buffer_length);
         free(buffer);
         free(src);
     }
-- 
2.43.0


From 50ef840a2e15f67f2754803eda1132cc8fe87b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 50/81] fix: values of type double could not be written to
 shapefiles from Javascript

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index a5285b2..8c8e42a 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -119,7 +119,7 @@ namespace Osmium {
                                         shapefile->add_attribute(n, value->Int32Value());
                                         break;
                                     case FTDouble:
-                                        throw std::runtime_error("fields of type double not implemented");
+                                        shapefile->add_attribute(n, value->NumberValue());
                                         break;
                                     case FTLogical:
                                         add_logical_attribute(shapefile, n, value);
-- 
2.43.0


From 2d469082c401840c5d47981fd9556111bdf36c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 51/81] fix: nodes had no lon and lat in Javascript

---
 include/osmium/javascript/wrapper/osm.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 2d7cd61..10a0000 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -242,8 +242,18 @@ namespace Osmium {
                     return GeometryPoint::get<GeometryPoint>().create_persistent_instance<Osmium::Geometry::Point>(geom);
                 }
 
+                static v8::Handle<v8::Value> lon(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->lon());
+                }
+
+                static v8::Handle<v8::Value> lat(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->lat());
+                }
+
                 OSMNode() :
                     OSMObject() {
+                    js_template->SetAccessor(v8::String::NewSymbol("lon"),  accessor_getter<Osmium::OSM::Node, lon>);
+                    js_template->SetAccessor(v8::String::NewSymbol("lat"),  accessor_getter<Osmium::OSM::Node, lat>);
                     js_template->SetAccessor(v8::String::NewSymbol("geom"), accessor_getter<Osmium::OSM::Node, get_geom>);
                 }
 
-- 
2.43.0


From 54b269a0721ae28896dcbd48a11e4ea1119a266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 52/81] fix: long texts with characters outside the BMP stopped
 the shapefile export from Javascript

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index 8c8e42a..1029326 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -66,7 +66,8 @@ namespace Osmium {
                     int32_t dest_length;
                     UErrorCode error_code = U_ZERO_ERROR;
                     value->ToString()->Write(source, 0, Osmium::Export::Shapefile::max_dbf_field_length+1);
-                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length()), &error_code);
+                    // with substitution, because the text might have been cut inside a surrogate pair
+                    u_strToUTF8WithSub(dest, shapefile->field(n).width(), &dest_length, source, std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length()), 0xfffd, NULL, &error_code);
                     if (error_code == U_BUFFER_OVERFLOW_ERROR) {
                         // thats ok, it just means we clip the text at that point
                     } else if (U_FAILURE(error_code)) {
-- 
2.43.0


From ba9752eb23d52c8e5994ea540fbbcc0d0e268037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 53/81] fix: ignored geometries were reported as added to a
 shapefile in Javascript

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index 1029326..b121862 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -164,9 +164,7 @@ namespace Osmium {
                     v8::Local<v8::Object> xxx = v8::Local<v8::Object>::Cast(args[0]);
                     Osmium::Geometry::Geometry* geometry = static_cast<Osmium::Geometry::Geometry*>(v8::Local<v8::External>::Cast(xxx->GetInternalField(0))->Value());
 
-                    try {
-                        add(shapefile, geometry, v8::Local<v8::Object>::Cast(args[1]));
-                    } catch (Osmium::Geometry::IllegalGeometry) {
+                    if (!add(shapefile, geometry, v8::Local<v8::Object>::Cast(args[1]))) {
                         std::cerr << "Ignoring object with illegal geometry." << std::endl;
                         return v8::Integer::New(0);
                     }
-- 
2.43.0


From 49dab419623687921395b32582f7ec9af61207a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 54/81] fix: toWKB() in Javascript ended at the first NUL byte

---
 include/osmium/javascript/wrapper/geometry.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/geometry.hpp b/include/osmium/javascript/wrapper/geometry.hpp
index 505e4c3..d2a8bf6 100644
--- a/include/osmium/javascript/wrapper/geometry.hpp
+++ b/include/osmium/javascript/wrapper/geometry.hpp
@@ -23,6 +23,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 */
 
 #include <sstream>
+#include <string>
+#include <vector>
 #include <v8.h>
 
 #include <geos/geom/Geometry.h>
@@ -63,7 +65,14 @@ namespace Osmium {
                         with_srid = args[0]->ToBoolean()->Value();
                     }
                     oss << geometry->as_WKB(with_srid);
-                    return v8::String::New(oss.str().c_str());
+
+                    // each byte becomes one character
+                    const std::string wkb = oss.str();
+                    std::vector<uint16_t> characters;
+                    for (std::string::const_iterator it = wkb.begin(); it != wkb.end(); ++it) {
+                        characters.push_back(static_cast<unsigned char>(*it));
+                    }
+                    return v8::String::New(&characters[0], characters.size());
                 }
 
                 static v8::Handle<v8::Value> to_hexwkb(const v8::Arguments& args, Osmium::Geometry::Geometry* geometry) {
-- 
2.43.0


From b96a1b3a290fe3cae3711edd3b813494235d28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 55/81] fix: rates shown by progress handler were negative
 without later objects or for short times

---
 include/osmium/handler/progress.hpp | 41 ++++++++++++++++-------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/osmium/handler/progress.hpp b/include/osmium/handler/progress.hpp
index dfb5b59..79421ae 100644
--- a/include/osmium/handler/progress.hpp
+++ b/include/osmium/handler/progress.hpp
@@ -58,6 +58,18 @@ namespace Osmium {
             timeval m_first_way;
             timeval m_first_relation;
 
+            /**
+             * Number of objects per second if count objects have been
+             * read in the time between from and to.
+             */
+            static uint64_t per_second(uint64_t count, const timeval& from, const timeval& to) {
+                int64_t diff = (static_cast<int64_t>(to.tv_sec) - from.tv_sec) * 1000000 + (to.tv_usec - from.tv_usec);
+                if (diff < 1) {
+                    diff = 1;
+                }
+                return static_cast<double>(count) / diff * 1000000;
+            }
+
             void update_display(bool show_per_second=true) const {
                 std::cout << "[" << m_count_nodes << "]";
                 if (m_count_ways > 0 || m_count_relations > 0) {
@@ -72,17 +84,11 @@ namespace Osmium {
                     gettimeofday(&now, 0);
 
                     if (m_count_relations > 0) {
-                        float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                        int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
-                        std::cout << " (" << relations_per_sec << " Relations per second)   ";
+                        std::cout << " (" << per_second(m_count_relations, m_first_relation, now) << " Relations per second)   ";
                     } else if (m_count_ways > 0) {
-                        float way_diff = (now.tv_sec - m_first_way.tv_sec) * 1000000 + (now.tv_usec - m_first_way.tv_usec);
-                        int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
-                        std::cout << " (" << ways_per_sec << " Ways per second)   ";
+                        std::cout << " (" << per_second(m_count_ways, m_first_way, now) << " Ways per second)   ";
                     } else if (m_count_nodes > 0) {
-                        float node_diff = (now.tv_sec - m_first_node.tv_sec) * 1000000 + (now.tv_usec - m_first_node.tv_usec);
-                        int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
-                        std::cout << " (" << nodes_per_sec << " Nodes per second)   ";
+                        std::cout << " (" << per_second(m_count_nodes, m_first_node, now) << " Nodes per second)   ";
                     }
                 } else {
                     std::cout << "                                   ";
@@ -165,22 +171,21 @@ namespace Osmium {
                 timeval now;
                 gettimeofday(&now, 0);
 
+                // reading of one kind of object ends when the first object
+                // of the next kind is read or, if there is none, now
+                const timeval& end_of_ways  = m_count_relations > 0 ? m_first_relation : now;
+                const timeval& end_of_nodes = m_count_ways > 0 ? m_first_way : end_of_ways;
+
                 if (m_count_nodes > 0) {
-                    float node_diff = (m_first_way.tv_sec - m_first_node.tv_sec) * 1000000 + (m_first_way.tv_usec - m_first_node.tv_usec);
-                    int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
-                    std::cout << nodes_per_sec << " Nodes ";
+                    std::cout << per_second(m_count_nodes, m_first_node, end_of_nodes) << " Nodes ";
                 }
 
                 if (m_count_ways > 0) {
-                    float way_diff = (m_first_relation.tv_sec - m_first_way.tv_sec) * 1000000 + (m_first_relation.tv_usec - m_first_way.tv_usec);
-                    int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
-                    std::cout << ways_per_sec << " Ways ";
+                    std::cout << per_second(m_count_ways, m_first_way, end_of_ways) << " Ways ";
                 }
 
                 if (m_count_relations > 0) {
-                    float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                    int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
-                    std::cout << relations_per_sec << " Relations ";
+                    std::cout << per_second(m_count_relations, m_first_relation, now) << " Relations ";
                 }
 
                 show_cursor();
-- 
2.43.0


From e6a2aa4fab54af2c8c82381d47eee8eb8cfc6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 56/81] fix: nodedensity placed all nodes in one pixel or a
 part of the image

---
 examples/nodedensity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/nodedensity.cpp b/examples/nodedensity.cpp
index da42a00..a06912a 100644
--- a/examples/nodedensity.cpp
+++ b/examples/nodedensity.cpp
@@ -34,7 +34,7 @@ public:
           m_ysize(size),
           m_min(min),
           m_max(max) {
-        m_factor = m_ysize / 180;
+        m_factor = m_ysize / 180.0;
         m_node_count = static_cast<node_count_t*>(calloc(m_xsize * m_ysize, sizeof(node_count_t)));
         m_max_count = 0;
         m_diff = m_max - m_min;
-- 
2.43.0


From 9bdf1d3debf512a1da35764bf4acb5a9249a431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 57/81] fix: nodedensity divided by zero if MIN and MAX are
 equal

---
 examples/nodedensity.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/examples/nodedensity.cpp b/examples/nodedensity.cpp
index a06912a..73bfdd5 100644
--- a/examples/nodedensity.cpp
+++ b/examples/nodedensity.cpp
@@ -72,9 +72,15 @@ public:
         for (int y=0; y < m_ysize; ++y) {
             for (int x=0; x < m_xsize; ++x) {
                 int val = m_node_count[n++];
-                if (val < m_min) val = m_min;
-                if (val > m_max) val = m_max;
-                gdImageSetPixel(im, x, y, static_cast<uint8_t>((val - m_min) * 255 / m_diff));
+                int color;
+                if (val <= m_min) {
+                    color = 0;
+                } else if (val >= m_max) {
+                    color = 255;
+                } else {
+                    color = (val - m_min) * 255 / m_diff;
+                }
+                gdImageSetPixel(im, x, y, color);
             }
         }
 
-- 
2.43.0


From 1225a4b7a9cad1275532033f32d79aab161de5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 58/81] fix: nodedensity counted nodes without position in a
 corner of the image

---
 examples/nodedensity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/nodedensity.cpp b/examples/nodedensity.cpp
index 73bfdd5..e637e49 100644
--- a/examples/nodedensity.cpp
+++ b/examples/nodedensity.cpp
@@ -45,6 +45,9 @@ public:
     }
 
     void node(const shared_ptr<Osmium::OSM::Node const>& node) {
+        if (!node->position().defined()) {
+            return;
+        }
         int x = int((180 + node->position().lon()) * m_factor);
         int y = int(( 90 - node->position().lat()) * m_factor);
         if (x <        0) x =         0;
-- 
2.43.0


From 546a9aa6287ec3bb2dae9dd8f67e618a89eb8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 59/81] fix: OGR geometries had points at (214.7, 214.7) for
 nodes without position

---
 examples/osmium_to_postgis.cpp  |  2 +-
 examples/osmium_toogr.cpp       |  4 ++--
 include/osmium/geometry/ogr.hpp | 26 ++++++++++++++++++++++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/examples/osmium_to_postgis.cpp b/examples/osmium_to_postgis.cpp
index 108bafc..94d02cc 100644
--- a/examples/osmium_to_postgis.cpp
+++ b/examples/osmium_to_postgis.cpp
@@ -97,8 +97,8 @@ public:
                 try {
                     Osmium::Geometry::Point point(*node);
 
-                    OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
                     OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
+                    OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
                     feature->SetGeometry(ogrpoint);
                     feature->SetField("id", boost::lexical_cast<std::string>(node->id()).c_str());
                     feature->SetField("tags", tags.c_str());
diff --git a/examples/osmium_toogr.cpp b/examples/osmium_toogr.cpp
index 885a3bd..751094a 100644
--- a/examples/osmium_toogr.cpp
+++ b/examples/osmium_toogr.cpp
@@ -128,8 +128,8 @@ public:
             try {
                 Osmium::Geometry::Point point(*node);
 
-                OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
                 OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
+                OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
                 feature->SetGeometry(ogrpoint);
                 feature->SetField("id", static_cast<double>(node->id()));
                 feature->SetField("operator", node->tags().get_value_by_key("operator"));
@@ -164,8 +164,8 @@ public:
             try {
                 Osmium::Geometry::LineString linestring(*way);
 
-                OGRFeature* feature = OGRFeature::CreateFeature(m_layer_linestring->GetLayerDefn());
                 OGRLineString* ogrlinestring = Osmium::Geometry::create_ogr_geometry(linestring);
+                OGRFeature* feature = OGRFeature::CreateFeature(m_layer_linestring->GetLayerDefn());
                 feature->SetGeometry(ogrlinestring);
                 feature->SetField("id", static_cast<double>(way->id()));
                 feature->SetField("type", highway);
diff --git a/include/osmium/geometry/ogr.hpp b/include/osmium/geometry/ogr.hpp
index 84a3586..ec0b3bb 100644
--- a/include/osmium/geometry/ogr.hpp
+++ b/include/osmium/geometry/ogr.hpp
@@ -25,6 +25,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #define OSMIUM_COMPILE_WITH_CFLAGS_OGR `gdal-config --cflags`
 #define OSMIUM_LINK_WITH_LIBS_OGR `gdal-config --libs`
 
+#include <iostream>
+
 #include <boost/foreach.hpp>
 
 #include <ogr_geometry.h>
@@ -37,12 +39,30 @@ namespace Osmium {
 
     namespace Geometry {
 
+        namespace {
+
+            inline void check_positions(const Osmium::Geometry::FromWay& from_way) {
+                BOOST_FOREACH(const Osmium::OSM::WayNode& wn, from_way.nodes()) {
+                    if (!wn.has_position()) {
+                        std::cerr << "error building way geometry for way " << from_way.id() << ": coordinates of node " << wn.ref() << " not available" << std::endl;
+                        throw Osmium::Geometry::IllegalGeometry();
+                    }
+                }
+            }
+
+        }
+
         /**
          * Create OGR geometry of a Point.
          *
          * Caller takes ownership.
+         *
+         * @exception Osmium::Geometry::IllegalGeometry If the point has no position.
          */
         inline OGRPoint* create_ogr_geometry(const Osmium::Geometry::Point& point) {
+            if (!point.position().defined()) {
+                throw Osmium::Geometry::IllegalGeometry();
+            }
             return new OGRPoint(point.lon(), point.lat());
         }
 
@@ -50,8 +70,11 @@ namespace Osmium {
          * Create OGR geometry of a LineString;
          *
          * Caller takes ownership.
+         *
+         * @exception Osmium::Geometry::IllegalGeometry If a node has no position.
          */
         inline OGRLineString* create_ogr_geometry(const Osmium::Geometry::LineString& linestring) {
+            check_positions(linestring);
             OGRLineString* ls = new OGRLineString();
             if (linestring.reverse()) {
                 BOOST_REVERSE_FOREACH(const Osmium::OSM::WayNode& wn, linestring.nodes()) {
@@ -69,8 +92,11 @@ namespace Osmium {
          * Create OGR geometry of a Polygon.
          *
          * Caller takes ownership.
+         *
+         * @exception Osmium::Geometry::IllegalGeometry If a node has no position.
          */
         inline OGRPolygon* create_ogr_geometry(const Osmium::Geometry::Polygon& polygon) {
+            check_positions(polygon);
             OGRPolygon* p = new OGRPolygon();
             OGRLinearRing* r = new OGRLinearRing();
             if (polygon.reverse()) {
-- 
2.43.0


From 23010424aca8460e2b17e0d6c70b87b864ea37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 60/81] fix: shapes of nodes without position were points at
 (214.7, 214.7)

---
 include/osmium/geometry/shplib.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/osmium/geometry/shplib.hpp b/include/osmium/geometry/shplib.hpp
index b085bf5..a381a1c 100644
--- a/include/osmium/geometry/shplib.hpp
+++ b/include/osmium/geometry/shplib.hpp
@@ -46,8 +46,13 @@ namespace Osmium {
          *
          * Caller takes ownership. You have to call
          * SHPDestroyObject() with this geometry when you are done.
+         *
+         * @exception Osmium::Geometry::IllegalGeometry If the point has no position.
          */
         inline SHPObject* create_shp_object(const Osmium::Geometry::Point& point) {
+            if (!point.position().defined()) {
+                throw Osmium::Geometry::IllegalGeometry();
+            }
             double x = point.lon();
             double y = point.lat();
             return SHPCreateSimpleObject(SHPT_POINT, 1, &x, &y, NULL);
-- 
2.43.0


From 8195c70b9142bf66aad22cd837bb36057e9c006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 61/81] fix: osmium_toogr2 wrote wrong ids for areas of ways
 with large ids

---
 examples/osmium_toogr2.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/osmium_toogr2.cpp b/examples/osmium_toogr2.cpp
index 8a78e7d..042150e 100644
--- a/examples/osmium_toogr2.cpp
+++ b/examples/osmium_toogr2.cpp
@@ -61,7 +61,7 @@ public:
             exit(1);
         }
 
-        OGRFieldDefn layer_mp_field_id("id", OFTInteger);
+        OGRFieldDefn layer_mp_field_id("id", OFTReal);
         layer_mp_field_id.SetWidth(10);
 
         if (m_layer_mp->CreateField(&layer_mp_field_id) != OGRERR_NONE) {
@@ -84,8 +84,7 @@ public:
                 OGRFeature* feature = OGRFeature::CreateFeature(m_layer_mp->GetLayerDefn());
                 OGRMultiPolygon* ogrmp = Osmium::Geometry::create_ogr_geometry(mp);
                 feature->SetGeometry(ogrmp);
-                // there are not so many multipolygon relations, so these ids will still fit into a 32bit int
-                feature->SetField("id", static_cast<int>(area->id()));
+                feature->SetField("id", static_cast<double>(area->id()));
 
                 if (m_layer_mp->CreateFeature(feature) != OGRERR_NONE) {
                     std::cerr << "Failed to create feature.\n";
-- 
2.43.0


From 0cf4b87f9f67831ea0ea7949f781ff73ceb8b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 62/81] fix: multipolygons with nodes without position were
 built with a point at (214.7, 214.7)

---
 include/osmium/multipolygon/builder.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 6284ca2..a12c304 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -68,6 +68,12 @@ namespace Osmium {
             }
         };
 
+        struct NodeWithoutPosition : public BuildError {
+            NodeWithoutPosition(const std::string& what) :
+                BuildError(what) {
+            }
+        };
+
         struct NoRings : public BuildError {
             NoRings(const std::string& what) :
                 BuildError(what) {
@@ -653,6 +659,11 @@ namespace Osmium {
 
                     // ignore members that are not ways and ways without nodes
                     if (way && !way->nodes().empty() && (!m_attempt_repair || !added_ways[way->id()])) {
+                        BOOST_FOREACH(const Osmium::OSM::WayNode& wn, way->nodes()) {
+                            if (!wn.has_position()) {
+                                throw NodeWithoutPosition("position of a node is not available");
+                            }
+                        }
                         if (way->timestamp() > m_new_area->timestamp()) {
                             m_new_area->timestamp(way->timestamp());
                         }
-- 
2.43.0


From 877d670a90b46327c397f828e380540bfaec5478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 63/81] fix: areas made from ways with nodes without position
 had a point at (214.7, 214.7)

---
 examples/osmium_mpdump.cpp                | 28 +++++++++++++++--------
 include/osmium/geometry/multipolygon.hpp  | 10 ++++++++
 include/osmium/javascript/wrapper/osm.hpp |  9 ++++++--
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/examples/osmium_mpdump.cpp b/examples/osmium_mpdump.cpp
index 1dc9cce..b461e39 100644
--- a/examples/osmium_mpdump.cpp
+++ b/examples/osmium_mpdump.cpp
@@ -28,17 +28,27 @@ public:
     }
 
     void area(const shared_ptr<Osmium::OSM::Area const>& area) {
-        Osmium::Geometry::MultiPolygon multipolygon(*area);
-
-        std::cout << "Area " << (area->from_way() ? "from way" : "from relation")
-                  << " id=" << area->id() << " (orig_id=" << area->orig_id() << ")"
-                  << " version=" << area->version()
-                  << " timestamp=" << area->timestamp()
-                  << " uid=" << area->uid()
-                  << " user=" << area->user()
+        try {
+            dump(*area);
+        } catch (Osmium::Geometry::IllegalGeometry) {
+            std::cerr << "Ignoring illegal geometry for area " << area->id() << ".\n";
+        }
+    }
+
+private:
+
+    void dump(const Osmium::OSM::Area& area) {
+        Osmium::Geometry::MultiPolygon multipolygon(area);
+
+        std::cout << "Area " << (area.from_way() ? "from way" : "from relation")
+                  << " id=" << area.id() << " (orig_id=" << area.orig_id() << ")"
+                  << " version=" << area.version()
+                  << " timestamp=" << area.timestamp()
+                  << " uid=" << area.uid()
+                  << " user=" << area.user()
                   << "\n  " << multipolygon.as_WKT() << "\n";
 
-        BOOST_FOREACH(const Osmium::OSM::Tag& tag, area->tags()) {
+        BOOST_FOREACH(const Osmium::OSM::Tag& tag, area.tags()) {
             std::cout << "  " << tag.key() << "=" << tag.value() << "\n";
         }
 
diff --git a/include/osmium/geometry/multipolygon.hpp b/include/osmium/geometry/multipolygon.hpp
index 222c1fe..4f48921 100644
--- a/include/osmium/geometry/multipolygon.hpp
+++ b/include/osmium/geometry/multipolygon.hpp
@@ -41,6 +41,11 @@ namespace Osmium {
 
         public:
 
+            /**
+             * Create MultiPolygon geometry from an area.
+             *
+             * @exception Osmium::Geometry::IllegalGeometry If the area was created from a way and a node has no position.
+             */
             MultiPolygon(const Osmium::OSM::Area& area) :
                 Geometry(area.id()),
                 m_area(area) {
@@ -48,6 +53,11 @@ namespace Osmium {
                 // if the area doesn't have a geometry yet it means it was created from a way
                 // and we create the geometry from the node list.
                 if (!area.geos_geometry()) {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = area.m_node_list.begin(); it != area.m_node_list.end(); ++it) {
+                        if (!it->has_position()) {
+                            throw Osmium::Geometry::IllegalGeometry();
+                        }
+                    }
                     Osmium::Geometry::Polygon polygon(area.m_node_list, false, area.id());
                     std::vector<geos::geom::Geometry*>* geos_polygons = new std::vector<geos::geom::Geometry*>(1, Osmium::Geometry::create_geos_geometry(polygon));
                     geos::geom::MultiPolygon* geos_multipolygon = Osmium::Geometry::geos_geometry_factory()->createMultiPolygon(geos_polygons);
diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 10a0000..086b35b 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -326,8 +326,13 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> geom(Osmium::OSM::Area* area) {
-                    Osmium::Geometry::MultiPolygon* geom = new Osmium::Geometry::MultiPolygon(*area);
-                    return Osmium::Javascript::Template::get<GeometryMultiPolygon>().create_persistent_instance<Osmium::Geometry::MultiPolygon>(geom);
+                    try {
+                        Osmium::Geometry::MultiPolygon* geom = new Osmium::Geometry::MultiPolygon(*area);
+                        return Osmium::Javascript::Template::get<GeometryMultiPolygon>().create_persistent_instance<Osmium::Geometry::MultiPolygon>(geom);
+                    } catch (Osmium::Geometry::IllegalGeometry) {
+                        Osmium::Geometry::Null* geom = new Osmium::Geometry::Null();
+                        return Osmium::Javascript::Template::get<GeometryNull>().create_persistent_instance<Osmium::Geometry::Null>(geom);
+                    }
                 }
 
                 OSMArea() :
-- 
2.43.0


From 685e428d5f6415ad6740ac01430784b800b45b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 64/81] restore the example programs

---
 examples/nodedensity.cpp       | 17 ++++-------------
 examples/osmium_mpdump.cpp     | 28 +++++++++-------------------
 examples/osmium_to_postgis.cpp |  2 +-
 examples/osmium_toogr.cpp      |  4 ++--
 examples/osmium_toogr2.cpp     |  5 +++--
 5 files changed, 19 insertions(+), 37 deletions(-)

diff --git a/examples/nodedensity.cpp b/examples/nodedensity.cpp
index e637e49..da42a00 100644
--- a/examples/nodedensity.cpp
+++ b/examples/nodedensity.cpp
@@ -34,7 +34,7 @@ public:
           m_ysize(size),
           m_min(min),
           m_max(max) {
-        m_factor = m_ysize / 180.0;
+        m_factor = m_ysize / 180;
         m_node_count = static_cast<node_count_t*>(calloc(m_xsize * m_ysize, sizeof(node_count_t)));
         m_max_count = 0;
         m_diff = m_max - m_min;
@@ -45,9 +45,6 @@ public:
     }
 
     void node(const shared_ptr<Osmium::OSM::Node const>& node) {
-        if (!node->position().defined()) {
-            return;
-        }
         int x = int((180 + node->position().lon()) * m_factor);
         int y = int(( 90 - node->position().lat()) * m_factor);
         if (x <        0) x =         0;
@@ -75,15 +72,9 @@ public:
         for (int y=0; y < m_ysize; ++y) {
             for (int x=0; x < m_xsize; ++x) {
                 int val = m_node_count[n++];
-                int color;
-                if (val <= m_min) {
-                    color = 0;
-                } else if (val >= m_max) {
-                    color = 255;
-                } else {
-                    color = (val - m_min) * 255 / m_diff;
-                }
-                gdImageSetPixel(im, x, y, color);
+                if (val < m_min) val = m_min;
+                if (val > m_max) val = m_max;
+                gdImageSetPixel(im, x, y, static_cast<uint8_t>((val - m_min) * 255 / m_diff));
             }
         }
 
diff --git a/examples/osmium_mpdump.cpp b/examples/osmium_mpdump.cpp
index b461e39..1dc9cce 100644
--- a/examples/osmium_mpdump.cpp
+++ b/examples/osmium_mpdump.cpp
@@ -28,27 +28,17 @@ public:
     }
 
     void area(const shared_ptr<Osmium::OSM::Area const>& area) {
-        try {
-            dump(*area);
-        } catch (Osmium::Geometry::IllegalGeometry) {
-            std::cerr << "Ignoring illegal geometry for area " << area->id() << ".\n";
-        }
-    }
-
-private:
-
-    void dump(const Osmium::OSM::Area& area) {
-        Osmium::Geometry::MultiPolygon multipolygon(area);
-
-        std::cout << "Area " << (area.from_way() ? "from way" : "from relation")
-                  << " id=" << area.id() << " (orig_id=" << area.orig_id() << ")"
-                  << " version=" << area.version()
-                  << " timestamp=" << area.timestamp()
-                  << " uid=" << area.uid()
-                  << " user=" << area.user()
+        Osmium::Geometry::MultiPolygon multipolygon(*area);
+
+        std::cout << "Area " << (area->from_way() ? "from way" : "from relation")
+                  << " id=" << area->id() << " (orig_id=" << area->orig_id() << ")"
+                  << " version=" << area->version()
+                  << " timestamp=" << area->timestamp()
+                  << " uid=" << area->uid()
+                  << " user=" << area->user()
                   << "\n  " << multipolygon.as_WKT() << "\n";
 
-        BOOST_FOREACH(const Osmium::OSM::Tag& tag, area.tags()) {
+        BOOST_FOREACH(const Osmium::OSM::Tag& tag, area->tags()) {
             std::cout << "  " << tag.key() << "=" << tag.value() << "\n";
         }
 
diff --git a/examples/osmium_to_postgis.cpp b/examples/osmium_to_postgis.cpp
index 94d02cc..108bafc 100644
--- a/examples/osmium_to_postgis.cpp
+++ b/examples/osmium_to_postgis.cpp
@@ -97,8 +97,8 @@ public:
                 try {
                     Osmium::Geometry::Point point(*node);
 
-                    OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
                     OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
+                    OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
                     feature->SetGeometry(ogrpoint);
                     feature->SetField("id", boost::lexical_cast<std::string>(node->id()).c_str());
                     feature->SetField("tags", tags.c_str());
diff --git a/examples/osmium_toogr.cpp b/examples/osmium_toogr.cpp
index 751094a..885a3bd 100644
--- a/examples/osmium_toogr.cpp
+++ b/examples/osmium_toogr.cpp
@@ -128,8 +128,8 @@ public:
             try {
                 Osmium::Geometry::Point point(*node);
 
-                OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
                 OGRFeature* feature = OGRFeature::CreateFeature(m_layer_point->GetLayerDefn());
+                OGRPoint* ogrpoint = Osmium::Geometry::create_ogr_geometry(point);
                 feature->SetGeometry(ogrpoint);
                 feature->SetField("id", static_cast<double>(node->id()));
                 feature->SetField("operator", node->tags().get_value_by_key("operator"));
@@ -164,8 +164,8 @@ public:
             try {
                 Osmium::Geometry::LineString linestring(*way);
 
-                OGRLineString* ogrlinestring = Osmium::Geometry::create_ogr_geometry(linestring);
                 OGRFeature* feature = OGRFeature::CreateFeature(m_layer_linestring->GetLayerDefn());
+                OGRLineString* ogrlinestring = Osmium::Geometry::create_ogr_geometry(linestring);
                 feature->SetGeometry(ogrlinestring);
                 feature->SetField("id", static_cast<double>(way->id()));
                 feature->SetField("type", highway);
diff --git a/examples/osmium_toogr2.cpp b/examples/osmium_toogr2.cpp
index 042150e..8a78e7d 100644
--- a/examples/osmium_toogr2.cpp
+++ b/examples/osmium_toogr2.cpp
@@ -61,7 +61,7 @@ public:
             exit(1);
         }
 
-        OGRFieldDefn layer_mp_field_id("id", OFTReal);
+        OGRFieldDefn layer_mp_field_id("id", OFTInteger);
         layer_mp_field_id.SetWidth(10);
 
         if (m_layer_mp->CreateField(&layer_mp_field_id) != OGRERR_NONE) {
@@ -84,7 +84,8 @@ public:
                 OGRFeature* feature = OGRFeature::CreateFeature(m_layer_mp->GetLayerDefn());
                 OGRMultiPolygon* ogrmp = Osmium::Geometry::create_ogr_geometry(mp);
                 feature->SetGeometry(ogrmp);
-                feature->SetField("id", static_cast<double>(area->id()));
+                // there are not so many multipolygon relations, so these ids will still fit into a 32bit int
+                feature->SetField("id", static_cast<int>(area->id()));
 
                 if (m_layer_mp->CreateFeature(feature) != OGRERR_NONE) {
                     std::cerr << "Failed to create feature.\n";
-- 
2.43.0


From 828a9cf0633f57697dbcab03c67e33c1cf6e923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 65/81] fix: count.js counted NaN for keys like constructor

---
 osmjs/js/count.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/osmjs/js/count.js b/osmjs/js/count.js
index ba8e43c..374b19e 100644
--- a/osmjs/js/count.js
+++ b/osmjs/js/count.js
@@ -8,8 +8,9 @@
 
 */
 
-var tags_counter = {};
-var keys_counter = {};
+// without prototype, so that keys such as 'constructor' are counted like all others
+var tags_counter = Object.create(null);
+var keys_counter = Object.create(null);
 
 Osmium.Callbacks.init = function() {
     print('Start!');
-- 
2.43.0


From 1e738c601eeb07eba3ae141b1ad4ca8a51e8e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 66/81] fix: osm2shape.js named the wrong rule if its output is
 missing

---
 osmjs/js/osm2shape.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osmjs/js/osm2shape.js b/osmjs/js/osm2shape.js
index c74f5db..bcec811 100644
--- a/osmjs/js/osm2shape.js
+++ b/osmjs/js/osm2shape.js
@@ -91,7 +91,7 @@ function rule(type, key, value) {
         },
         attr: function(attr, key) {
             if (this.file == null) {
-                print("Output file not set for rule " + key + '=' + value);
+                print("Output file not set for rule " + this.key + '=' + this.value);
                 throw("config error");
             }
 
-- 
2.43.0


From 024082b2f4d3e34b25380fdf0352b86cb2451b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 67/81] fix: shape_export.js exported objects with keys or
 values like constructor

---
 osmjs/js/shape_export.js | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/osmjs/js/shape_export.js b/osmjs/js/shape_export.js
index 5f79201..4a11c23 100644
--- a/osmjs/js/shape_export.js
+++ b/osmjs/js/shape_export.js
@@ -29,17 +29,20 @@ var node_tags = {
     shop: { supermarket: 'supermarket' }
 }
 
+// true only for own entries, not for things such as node_tags.constructor
+function has(object, key) {
+    return Object.prototype.hasOwnProperty.call(object, key);
+}
+
 Osmium.Callbacks.init = function() {
     print("Init");
 }
 
 Osmium.Callbacks.node = function() {
     for (var key in this.tags) {
-        if (node_tags[key]) {
-            var type = node_tags[key][this.tags[key]];
-            if (type) {
-                shp_pois.add(this.geom, { id: this.id, type: type, name: this.tags.name });
-            }
+        var value = this.tags[key];
+        if (has(node_tags, key) && has(node_tags[key], value)) {
+            shp_pois.add(this.geom, { id: this.id, type: node_tags[key][value], name: this.tags.name });
         }
     }
 }
-- 
2.43.0


From 6e57c6e131dfe96c27e0f10c36104522cadde5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:24 +0000
Subject: [PATCH 68/81] fix: a number that doesn't fit into its field ended
 osmjs

---
 .../javascript/wrapper/export_shapefile.hpp       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index b121862..e9ec77f 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -76,6 +76,17 @@ namespace Osmium {
                     shapefile->add_attribute(n, dest);
                 }
 
+                template <typename T>
+                static void add_number_attribute(Osmium::Export::Shapefile* shapefile, int n, T value) {
+                    try {
+                        shapefile->add_attribute(n, value);
+                    } catch (std::runtime_error) {
+                        // a number that doesn't fit into the field must not end the program
+                        std::cerr << "Ignoring number that doesn't fit into field '" << shapefile->field(n).name() << "'." << std::endl;
+                        shapefile->add_attribute(n);
+                    }
+                }
+
                 static void add_logical_attribute(Osmium::Export::Shapefile* shapefile, int n, v8::Local<v8::Value> value) {
                     v8::String::Utf8Value str(value);
 
@@ -117,10 +128,10 @@ namespace Osmium {
                                         add_string_attribute(shapefile, n, value);
                                         break;
                                     case FTInteger:
-                                        shapefile->add_attribute(n, value->Int32Value());
+                                        add_number_attribute(shapefile, n, value->Int32Value());
                                         break;
                                     case FTDouble:
-                                        shapefile->add_attribute(n, value->NumberValue());
+                                        add_number_attribute(shapefile, n, value->NumberValue());
                                         break;
                                     case FTLogical:
                                         add_logical_attribute(shapefile, n, value);
-- 
2.43.0


From d7729bbeb79ad475b3890d035caf1e2b5bf8b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 69/81] fix: multipolygon assembler ignored the builder class
 it was given

---
 include/osmium/multipolygon/assembler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/assembler.hpp b/include/osmium/multipolygon/assembler.hpp
index 55bb56b..7df93af 100644
--- a/include/osmium/multipolygon/assembler.hpp
+++ b/include/osmium/multipolygon/assembler.hpp
@@ -44,9 +44,9 @@ namespace Osmium {
          * @tparam TBuilder MultiPolygon Builder class.
          */
         template <class THandler, class TBuilder = Osmium::MultiPolygon::Builder>
-        class Assembler : public Osmium::Relations::Assembler<Osmium::MultiPolygon::Assembler<THandler>, Osmium::Relations::RelationInfo, false, true, false, THandler>, public Osmium::WithDebug {
+        class Assembler : public Osmium::Relations::Assembler<Osmium::MultiPolygon::Assembler<THandler, TBuilder>, Osmium::Relations::RelationInfo, false, true, false, THandler>, public Osmium::WithDebug {
 
-            typedef typename Osmium::Relations::Assembler<Osmium::MultiPolygon::Assembler<THandler>, Osmium::Relations::RelationInfo, false, true, false, THandler> AssemblerType;
+            typedef typename Osmium::Relations::Assembler<Osmium::MultiPolygon::Assembler<THandler, TBuilder>, Osmium::Relations::RelationInfo, false, true, false, THandler> AssemblerType;
 
             bool m_attempt_repair;
 
-- 
2.43.0


From d7597dddb6f4e273f5938b6c9c885b7ddbf97fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 70/81] fix: interrupted read ended the parsing of a PBF file
 with an error

---
 include/osmium/input/pbf.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 1838cae..b6a7ade 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -24,6 +24,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 #define OSMIUM_LINK_WITH_LIBS_PBF -lz -lpthread -lprotobuf-lite -losmpbf
 
+#include <cerrno>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -439,6 +440,9 @@ namespace Osmium {
                 int offset = 0;
                 while (offset < static_cast<int>(sizeof(size_in_network_byte_order))) {
                     int nread = ::read(this->fd(), size_in_network_byte_order + offset, sizeof(size_in_network_byte_order) - offset);
+                    if (nread < 0 && errno == EINTR) {
+                        continue;
+                    }
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
@@ -460,6 +464,9 @@ namespace Osmium {
                 offset = 0;
                 while (offset < size) {
                     int nread = ::read(this->fd(), m_input_buffer + offset, size - offset);
+                    if (nread < 0 && errno == EINTR) {
+                        continue;
+                    }
                     if (nread < 1) {
                         throw std::runtime_error("failed to read BlobHeader");
                     }
@@ -484,6 +491,9 @@ namespace Osmium {
                 int offset = 0;
                 while (offset < size) {
                     int nread = ::read(this->fd(), m_input_buffer + offset, size - offset);
+                    if (nread < 0 && errno == EINTR) {
+                        continue;
+                    }
                     if (nread < 1) {
                         throw std::runtime_error("failed to read blob");
                     }
-- 
2.43.0


From 483832e26a6c6e5ab52f2a66524ccabfa8235c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 71/81] fix: interrupted read ended the parsing of an XML file
 with an error

---
 include/osmium/input/xml.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 9e0416a..af01177 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -24,6 +24,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 #define OSMIUM_LINK_WITH_LIBS_EXPAT -lexpat
 
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -82,7 +83,10 @@ namespace Osmium {
                             throw std::runtime_error("out of memory");
                         }
 
-                        int result = ::read(this->fd(), buffer, c_buffer_size);
+                        int result;
+                        do {
+                            result = ::read(this->fd(), buffer, c_buffer_size);
+                        } while (result < 0 && errno == EINTR);
                         if (result < 0) {
                             throw std::runtime_error("read error");
                         }
-- 
2.43.0


From bd43b5bce907fe9ad941e85fa92ab259d45109cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 72/81] fix: exit handlers and buffered output of the program
 ran in the child process, too

---
 include/osmium/osmfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 0a416af..31f5816 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -335,7 +335,7 @@ namespace Osmium {
                     }
                 }
                 if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
-                    exit(1);
+                    _exit(1);
                 }
                 if (pipefd[1-input] != 1-input) {
                     ::close(pipefd[1-input]);
@@ -345,15 +345,15 @@ namespace Osmium {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 } else {
                     if (::open(m_filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
-                        exit(1);
+                        _exit(1);
                     }
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), 0, NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 }
             }
-- 
2.43.0


From 97c20faabfd673961d6b4d65f9c44da1c53d4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 73/81] fix: compressed file with a name starting with a dash
 could not be read

---
 include/osmium/osmfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 31f5816..e1c795a 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -344,7 +344,9 @@ namespace Osmium {
                 if (input == 0) {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
-                    if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
+                    // don't let the program take a filename starting with a dash as an option
+                    const std::string argument = (m_filename[0] == '-' ? "./" : "") + m_filename;
+                    if (::execlp(command.c_str(), command.c_str(), argument.c_str(), NULL) < 0) {
                         _exit(1);
                     }
                 } else {
-- 
2.43.0


From 600e8738e166f00267210b6d438fe2433bd262eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 74/81] fix: errors reported when closing a file were ignored

---
 include/osmium/osmfile.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index e1c795a..ea7853e 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -545,8 +545,12 @@ namespace Osmium {
         }
 
         void close() {
+            int close_errno = 0;
             if (m_fd >= 0) {
-                ::close(m_fd);
+                // some systems report only now that data could not be written
+                if (::close(m_fd) < 0 && errno != EINTR) {
+                    close_errno = errno;
+                }
                 m_fd = -1;
             }
 
@@ -563,6 +567,10 @@ namespace Osmium {
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
             }
+
+            if (close_errno) {
+                throw IOError("Close failed", m_filename, close_errno);
+            }
         }
 
         /**
-- 
2.43.0


From 65b569ac76da03cbdfa818608847dcafa51fe45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 75/81] fix: objects occurring several times in a file were
 counted twice by the relations assembler

---
 include/osmium/relations/assembler.hpp     | 4 ++++
 include/osmium/relations/relation_info.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index 9d61bd7..646e168 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -381,6 +381,10 @@ namespace Osmium {
                         assert(member_info.m_member_id == object->id());
                         assert(member_info.m_relation_pos < m_assembler.m_relations.size());
                         TRelationInfo& relation_info = m_assembler.m_relations[member_info.m_relation_pos];
+                        if (!relation_info.relation()) {
+                            // relation is complete already, this is one more version of the object
+                            continue;
+                        }
                         assert(member_info.m_member_pos < relation_info.relation()->members().size());
                         if (relation_info.add_member(object, member_info.m_member_pos)) {
                             m_assembler.complete_relation(relation_info);
diff --git a/include/osmium/relations/relation_info.hpp b/include/osmium/relations/relation_info.hpp
index 5db34e3..f8f9452 100644
--- a/include/osmium/relations/relation_info.hpp
+++ b/include/osmium/relations/relation_info.hpp
@@ -98,8 +98,13 @@ namespace Osmium {
              * @return true if relation is complete, false otherwise
              */
             bool add_member(const shared_ptr<Osmium::OSM::Object const>& object, osm_sequence_id_t n) {
-                assert(m_need_members > 0);
                 assert(n < m_relation->members().size());
+                if (m_members[n]) {
+                    // one more version of an object we already have
+                    m_members[n] = object;
+                    return false;
+                }
+                assert(m_need_members > 0);
                 m_members[n] = object;
                 return --m_need_members == 0;
             }
-- 
2.43.0


From bd6b986c8ba3c91659c0e90cc0b6509dfc68b249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:15 +0000
Subject: [PATCH 76/81] fix: stores that could not grow lost what was in them
 or wrote outside of their memory

---
 include/osmium/storage/byid/fixed_array.hpp |  6 +++++
 include/osmium/storage/byid/mmap_anon.hpp   | 13 +++++++++--
 include/osmium/storage/byid/mmap_file.hpp   | 25 ++++++++++++++++-----
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/osmium/storage/byid/fixed_array.hpp b/include/osmium/storage/byid/fixed_array.hpp
index f09987f..31f4581 100644
--- a/include/osmium/storage/byid/fixed_array.hpp
+++ b/include/osmium/storage/byid/fixed_array.hpp
@@ -23,6 +23,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 */
 
 #include <cstdlib>
+#include <limits>
+#include <new>
 
 #include <osmium/storage/byid.hpp>
 
@@ -65,6 +67,10 @@ namespace Osmium {
                 FixedArray(const uint64_t max_id) :
                     Base<TValue>(),
                     m_size(max_id) {
+                    // the size in bytes must not overflow
+                    if (max_id > std::numeric_limits<size_t>::max() / sizeof(TValue)) {
+                        throw std::bad_alloc();
+                    }
                     m_items = static_cast<TValue*>(malloc(sizeof(TValue) * max_id));
                     if (!m_items) {
                         throw std::bad_alloc();
diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 81f965e..f4c82d0 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -30,6 +30,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <limits>
+#include <new>
 
 #include <osmium/storage/byid.hpp>
 
@@ -80,10 +82,17 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        // the size in bytes must not overflow
+                        if (new_size < id || new_size > std::numeric_limits<size_t>::max() / sizeof(TValue)) {
                             throw std::bad_alloc();
                         }
+
+                        // if this fails, the old mapping is still there
+                        void* items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (items == MAP_FAILED) {
+                            throw std::bad_alloc();
+                        }
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index 7244c86..1da30e6 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -29,6 +29,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <limits>
+#include <new>
 #include <string>
 
 #include <osmium/storage/byid.hpp>
@@ -95,12 +97,14 @@ namespace Osmium {
                         m_size = get_file_size() / sizeof(TValue);
                     } else {
                         if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
+                            close(m_fd);
                             throw std::bad_alloc();
                         }
                     }
 
                     m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
                     if (m_items == MAP_FAILED) {
+                        close(m_fd);
                         throw std::bad_alloc();
                     }
                 }
@@ -114,20 +118,29 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
+                        // the size in bytes must not overflow
+                        if (new_size < id || new_size > std::numeric_limits<size_t>::max() / sizeof(TValue)) {
+                            throw std::bad_alloc();
+                        }
+
                         // if the file backing this mmap is smaller than needed, increase its size
-                        if (get_file_size() < sizeof(TValue) * new_size) {
+                        const uint64_t old_file_size = get_file_size();
+                        if (old_file_size < sizeof(TValue) * new_size) {
                             if (ftruncate(m_fd, sizeof(TValue) * new_size) < 0) {
                                 throw std::bad_alloc();
                             }
                         }
 
-                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
-                            throw std::bad_alloc();
-                        }
-                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                        if (m_items == MAP_FAILED) {
+                        // keep the old mapping until the new one is there
+                        void* items = mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0);
+                        if (items == MAP_FAILED) {
+                            if (ftruncate(m_fd, old_file_size) < 0) {
+                                // the file stays larger than needed
+                            }
                             throw std::bad_alloc();
                         }
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
-- 
2.43.0


From 6d9e329b7b5d36898858cfa75221354210422ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 77/81] fix: a large object following others made the PBF block
 too large to be written

---
 include/osmium/output/pbf.hpp | 55 +++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 089997c..0ee0cf7 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -89,6 +89,7 @@ More complete outlines of real .osm.pbf files can be created using the osmpbf-ou
 #include <algorithm>
 #include <cerrno>
 #include <cmath>
+#include <cstring>
 #include <osmpbf/osmpbf.h>
 #include <zlib.h>
 
@@ -588,12 +589,15 @@ namespace Osmium {
              * for increasing this counter.
              *
              * this function also checks the estimated size of the current block and calls store_primitive_block
-             * when the estimated size reaches buffer_fill_percent of the maximum uncompressed blob size.
+             * when the estimated size would, with the next object, reach buffer_fill_percent of the maximum
+             * uncompressed blob size.
+             *
+             * @param object_size Estimated size of the object that will be added next.
              */
-            void check_block_contents_counter() {
+            void check_block_contents_counter(size_t object_size) {
                 if (primitive_block_contents >= max_block_contents) {
                     store_primitive_block();
-                } else if (primitive_block_size + string_table.byte_size() > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
+                } else if (primitive_block_contents > 0 && primitive_block_size + string_table.byte_size() + object_size > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
                     if (debug && has_debug_level(1)) {
                         std::cerr << "storing primitive_block with only " << primitive_block_contents << " items, because its ByteSize (" << primitive_block_size << ") reached " <<
                                   (static_cast<float>(primitive_block_size) / static_cast<float>(OSMPBF::max_uncompressed_blob_size) * 100.0) << "% of the maximum blob-size" << std::endl;
@@ -606,6 +610,45 @@ namespace Osmium {
             }
 
 
+            /**
+             * Estimate how many bytes are needed at most for the attributes and tags of an object.
+             */
+            static size_t max_object_size(const Osmium::OSM::Object& object) {
+                size_t size = 100 + strlen(object.user());
+                Osmium::OSM::TagList::const_iterator end = object.tags().end();
+                for (Osmium::OSM::TagList::const_iterator it = object.tags().begin(); it != end; ++it) {
+                    size += strlen(it->key()) + strlen(it->value()) + 2 * (6 + 5);
+                }
+                return size;
+            }
+
+            /**
+             * Estimate how many bytes are needed at most for a node.
+             */
+            static size_t max_size(const Osmium::OSM::Node& node) {
+                return max_object_size(node);
+            }
+
+            /**
+             * Estimate how many bytes are needed at most for a way.
+             */
+            static size_t max_size(const Osmium::OSM::Way& way) {
+                return max_object_size(way) + 10 * way.nodes().size();
+            }
+
+            /**
+             * Estimate how many bytes are needed at most for a relation.
+             */
+            static size_t max_size(const Osmium::OSM::Relation& relation) {
+                size_t size = max_object_size(relation);
+                Osmium::OSM::RelationMemberList::const_iterator end = relation.members().end();
+                for (Osmium::OSM::RelationMemberList::const_iterator it = relation.members().begin(); it != end; ++it) {
+                    size += strlen(it->role()) + 10 + 1 + 6 + 5;
+                }
+                return size;
+            }
+
+
             ///// Block content writing /////
 
             /**
@@ -927,7 +970,7 @@ namespace Osmium {
             void node(const shared_ptr<Osmium::OSM::Node const>& node) {
                 // first of we check the contents-counter which may flush the cached nodes to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*node));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "node " << node->id() << " v" << node->version() << std::endl;
@@ -955,7 +998,7 @@ namespace Osmium {
             void way(const shared_ptr<Osmium::OSM::Way const>& way) {
                 // first of we check the contents-counter which may flush the cached ways to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*way));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "way " << way->id() << " v" << way->version() << " with " << way->nodes().size() << " nodes" << std::endl;
@@ -979,7 +1022,7 @@ namespace Osmium {
             void relation(const shared_ptr<Osmium::OSM::Relation const>& relation) {
                 // first of we check the contents-counter which may flush the cached relations to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*relation));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "relation " << relation->id() << " v" << relation->version() << " with " << relation->members().size() << " members" << std::endl;
-- 
2.43.0


From 1ab165fbdafee88d8edbecdca834e7cd85850734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:38 +0000
Subject: [PATCH 78/81] fix: PBF blobs a few bytes larger than readers accept
 were written without an error

---
 include/osmium/output/pbf.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 0ee0cf7..d5d33a7 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -335,6 +335,11 @@ namespace Osmium {
                 pbf_blob.SerializeToString(&data);
                 pbf_blob.Clear();
 
+                // the limit is for everything in the Blob, readers refuse larger ones
+                if (data.size() > static_cast<size_t>(OSMPBF::max_uncompressed_blob_size)) {
+                    throw std::runtime_error("blob too large");
+                }
+
                 // set the header-type to the supplied string on the BlobHeader
                 pbf_blob_header.set_type(type);
 
-- 
2.43.0


From b16c86e079b7b8534588dd71e72801fbb23b5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 79/81] fix: areas with an id and its negative were equivalent
 whatever their versions

---
 include/osmium/osm/area.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index e0ed286..c9ab717 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -139,6 +139,8 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From a13c0a910f51b1a87026a3f9609a48a4c81b6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:28 +0000
Subject: [PATCH 80/81] fix: coordinates in XML files depended on the locale of
 the process

In a locale with a decimal comma 50.5 was read as 50 and written as 50,5000000.
---
 include/osmium/input/xml.hpp  | 24 ++++++++++++++++++------
 include/osmium/output/xml.hpp | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index af01177..83e6650 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -29,6 +29,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <locale.h>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -169,6 +170,17 @@ namespace Osmium {
                 static_cast<Osmium::Input::XML<THandler> *>(data)->end_element(element);
             }
 
+            /**
+             * Convert string to coordinate. Unlike atof() this doesn't depend
+             * on the locale, coordinates always have a decimal point.
+             */
+            static double coordinate(const char* string) {
+                const locale_t c_locale = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
+                const double value = strtod_l(string, NULL, c_locale);
+                freelocale(c_locale);
+                return value;
+            }
+
             void init_object(Osmium::OSM::Object& obj, const XML_Char** attrs) {
                 if (m_in_delete_section) {
                     obj.visible(false);
@@ -177,11 +189,11 @@ namespace Osmium {
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
                         if (obj.type() == NODE) {
-                            this->m_node->lon(atof(attrs[count+1]));
+                            this->m_node->lon(coordinate(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
                         if (obj.type() == NODE) {
-                            this->m_node->lat(atof(attrs[count+1]));
+                            this->m_node->lat(coordinate(attrs[count+1]));
                         }
                     } else {
                         m_current_object->set_attribute(attrs[count], attrs[count+1]);
@@ -239,13 +251,13 @@ namespace Osmium {
                             Osmium::OSM::Position max;
                             for (int count = 0; attrs[count]; count += 2) {
                                 if (!strcmp(attrs[count], "minlon")) {
-                                    min.lon(atof(attrs[count+1]));
+                                    min.lon(coordinate(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "minlat")) {
-                                    min.lat(atof(attrs[count+1]));
+                                    min.lat(coordinate(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "maxlon")) {
-                                    max.lon(atof(attrs[count+1]));
+                                    max.lon(coordinate(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "maxlat")) {
-                                    max.lat(atof(attrs[count+1]));
+                                    max.lat(coordinate(attrs[count+1]));
                                 }
                             }
                             this->meta().bounds().extend(min).extend(max);
diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 1a2128a..646be3c 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -33,6 +33,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <inttypes.h>
 
 #include <cerrno>
+#include <locale.h>
 #include <unistd.h>
 
 #include <osmium/output.hpp>
@@ -50,6 +51,35 @@ namespace Osmium {
                     throw XMLWriteError();
                 }
             }
+
+            /**
+             * While an object of this class exists the calling thread uses
+             * the "C" locale. Needed for writing numbers, in other locales
+             * they could have a decimal comma.
+             */
+            class UseCLocale {
+
+                // objects of this class can't be copied
+                UseCLocale(const UseCLocale&);
+                UseCLocale& operator=(const UseCLocale&);
+
+                const locale_t m_c_locale;
+                const locale_t m_old_locale;
+
+            public:
+
+                UseCLocale() :
+                    m_c_locale(newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0))),
+                    m_old_locale(uselocale(m_c_locale)) {
+                }
+
+                ~UseCLocale() {
+                    uselocale(m_old_locale);
+                    freelocale(m_c_locale);
+                }
+
+            }; // class UseCLocale
+
         }
 
         class XML : public Base {
@@ -83,6 +113,7 @@ namespace Osmium {
                 check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "version", BAD_CAST "0.6"));
                 check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "generator", BAD_CAST m_generator.c_str()));
                 if (meta.bounds().defined()) {
+                    UseCLocale use_c_locale;
                     check_for_error(xmlTextWriterStartElement(m_xml_writer, BAD_CAST "bounds")); // <bounds>
 
                     check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "minlon", "%.7f", meta.bounds().bottom_left().lon()));
@@ -103,6 +134,7 @@ namespace Osmium {
                 write_meta(node);
 
                 if (node->position().defined()) {
+                    UseCLocale use_c_locale;
                     check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "lat", "%.7f", node->position().lat()));
                     check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "lon", "%.7f", node->position().lon()));
                 }
-- 
2.43.0


From 5798d63613426f4e64816852184ff569f1a217aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 81/81] fix: files called http or https were taken for URLs

---
 include/osmium/osmfile.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index ea7853e..8c41ce7 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -410,6 +410,15 @@ namespace Osmium {
             }
         }
 
+        /**
+         * Get the part of the filename before the first colon or an empty
+         * string if there is none.
+         */
+        std::string url_protocol() const {
+            const size_t n = m_filename.find_first_of(':');
+            return n == std::string::npos ? "" : m_filename.substr(0, n);
+        }
+
         /**
          * Open OSMFile for reading. Handles URLs or normal files. URLs
          * are opened by executing the "curl" program (which must be installed)
@@ -420,7 +429,7 @@ namespace Osmium {
          * @throws IOError if the file can't be opened.
          */
         int open_input_file_or_url() {
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
+            std::string protocol = url_protocol();
             if (protocol == "http" || protocol == "https") {
                 return execute("curl", 0);
             } else {
@@ -453,7 +462,7 @@ namespace Osmium {
             }
 
             // filename is actually a URL
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
+            std::string protocol = url_protocol();
             if (protocol == "http" || protocol == "https") {
                 default_settings_for_url();
                 return;
-- 
2.43.0

