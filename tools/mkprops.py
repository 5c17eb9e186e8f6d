#!/usr/bin/env python3
# Generates properties.jsonl (kept so that the list is easy to maintain by hand).
import json, os
I='include/osmium/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":[I+f if not f.startswith(('examples','osmjs')) else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","PBF write-then-read returns exactly the data that was written",
 "Writing any stream of nodes, ways and relations as PBF and reading the file back delivers the same objects in the same order with identical ids, versions, changesets, timestamps, user ids, user names, visibility (for file types that can hold several versions of an object), tags in order, positions, node references, and relation members in order with type, reference and role, plus the file's bounds and generator. This holds for every combination of writer options (dense or plain nodes, compressed or raw blobs, metadata on or off, where off only drops the metadata) and however many objects, blocks, distinct strings and interleavings of kinds the stream has and however large and uneven the objects are, also if the file existed before (a single object too large for a block is an error). The only permitted change of order is that objects of different kinds which share one block may be grouped by kind.",
 ["inputs","configurations"],"all object streams with representable attribute values (full 64-bit ids, 32-bit changesets and uids, any UTF-8 text, any tag/member counts), all writer options, all block boundaries and string table sizes",
 "The unit tests never write a file and read it back; block flushing (8000 objects), delta resets, string-table remapping and the option matrix are only reachable with generated streams.",
 ["osm/meta.hpp","output/pbf.hpp","input/pbf.hpp","utils/stringtable.hpp","utils/delta.hpp"],
 [("block accumulation and flush","output/pbf.hpp: check_block_contents_counter, store_primitive_block"),("string id remapping","output/pbf.hpp: map_string_ids; utils/stringtable.hpp"),("delta coding","output/pbf.hpp: write_dense_node, write_way, write_relation; input/pbf.hpp: parse_*_group")],
 ["handler callbacks of a reader of the written file"])

p("C02","XML write-then-read returns exactly the data that was written",
 "Writing any stream of objects as OSM XML (plain, history or change file; uncompressed, gzip or bzip2) and reading the file back delivers the same objects in the same order with identical ids, versions, changesets, timestamps, tags, positions, node references and relation members, user id and user name for non-anonymous users, and visibility for history and change files, plus the file's bounds and generator. Text with any characters allowed in XML, including markup characters, quotes, whitespace and non-ASCII, comes back unchanged. The file written is well-formed XML whose change sections (create, modify, delete) match version and visibility of the objects in them. None of this depends on the locale of the programs that write and read.",
 ["inputs","configurations"],"all object streams whose text XML can represent, all three file types and three encodings",
 "No unit test runs the XML writer or reader at all; escaping, change sections and number formatting need arbitrary data.",
 ["output/xml.hpp","input/xml.hpp","osmfile.hpp"],
 [("serialisation","output/xml.hpp: node/way/relation, write_meta, write_tags, open_close_op_tag"),("parsing","input/xml.hpp: start_element, end_element, init_object")])

p("C03","Converting between file formats and types preserves the data",
 "Reading a file in any supported format and writing it through the generic output in any other supported format yields a file that delivers the same objects, bounds and order as the original, up to what the target format cannot express (anonymous users' names, visibility in plain files). Chains of conversions that return to the original format return to the original data. The shipped convert tool does the same for files, and honours explicit source and target format options. Files written or read at the same time do not affect each other.",
 ["inputs","configurations"],"all object streams, all pairs and chains of formats (XML, XML.gz, XML.bz2, PBF) within the same file type, via library and via the convert tool",
 "There is no test of any tool or of any pair of formats.",
 ["output.hpp","output/pbf.hpp","output/xml.hpp","input/pbf.hpp","input/xml.hpp","examples/osmium_convert.cpp"],
 [("format selection","output.hpp: Factory, Handler; ../osmium.hpp: Input::read"),("tool","examples/osmium_convert.cpp: main")])

p("C04","Handlers are called in the documented order, exactly once per object",
 "Reading any file calls a handler's init first and final last, each exactly once, also when the file contains no objects, calls the object callback exactly once per object in file order, and encloses every maximal run of objects of one kind in exactly one matching before/after pair. A handler that asks to stop gets no further object callbacks, only the final call, and reading returns normally. Chained handlers see the same calls: forwarding handlers pass each one on, and a sequence of two handlers gives every call to the first and then the second; this includes areas and the debug level. A callback may itself read other files; neither reading affects the other.",
 ["inputs","histories"],"all files of every encoding, with kinds in any order and interleaving, empty files, any stop point, any nesting of chained handlers",
 "Tests check the chaining of handlers only on a fixed call list, and never through a parser.",
 ["input.hpp","input/pbf.hpp","input/xml.hpp","handler.hpp"],
 [("run tracking","input.hpp: call_after_and_before_on_handler, call_final_on_handler"),("stop","handler.hpp: StopReading; input/*.hpp parse"),("chaining","handler.hpp: Forward, Sequence")])

p("C05","Objects a handler keeps are never changed by further reading",
 "An object that a handler keeps a reference to stays exactly as it was delivered, however much more is read afterwards and whatever subset of objects is kept. An object that is not kept never leaks any attribute, tag, node or member into a later object. Kept objects remain valid after the reader is gone.",
 ["histories","inputs"],"all files and all subsets of objects retained for arbitrary periods, in every encoding",
 "Object recycling depends on which references exist at each step; no test retains objects while parsing.",
 ["input.hpp","input/pbf.hpp","input/xml.hpp"],
 [("object recycling","input.hpp: prepare_node, prepare_way, prepare_relation")])

p("C06","Every valid PBF file is read according to the format specification",
 "Any PBF file that conforms to the published format and needs only supported features is read with the meaning the format defines: coordinates as offset plus granularity times value, timestamps in units of the date granularity, delta-decoded ids, references, members and dense arrays, tags through the string table, missing optional fields as their defaults, raw and compressed blobs, unknown blob types skipped. This holds for any granularities, offsets, block layouts, group orders and string table orders, not just those the bundled writer produces, and however the system splits or interrupts the reads; a read that fails is reported and never taken for the end of the data.",
 ["inputs"],"all files produced by an independent encoder of the format over its full parameter space (granularity, offsets, date granularity, plain and dense nodes, raw and zlib blobs, optional fields present or absent, unknown blobs and fields, several groups per block)",
 "No test reads a PBF file; the bundled writer only ever produces a corner of the format.",
 ["input/pbf.hpp"],
 [("blob framing and reads","input/pbf.hpp: read_blob_header, read_blob"),("decoding","input/pbf.hpp: parse, parse_group, parse_*_group")])

p("C07","Every PBF file written conforms to the format specification",
 "Any PBF file written is decodable by an independent implementation of the format to the same data: a header block first, correct required features (schema always, dense nodes and history exactly when used), one kind of object per group, blocks of at most 8000 objects and blobs within the size limits, correct uncompressed sizes, index zero of each string table reserved and every index in range, each string at most once per table and more frequent strings at lower indexes, and visible flags exactly for file types with several versions.",
 ["inputs","configurations"],"all object streams and all writer options, including location and date granularities",
 "No test inspects a written file; a reader with the matching mistake would hide it from a round trip.",
 ["output/pbf.hpp","utils/stringtable.hpp"],
 [("header","output/pbf.hpp: init, store_header_block"),("blocks","output/pbf.hpp: store_primitive_block, store_blob, map_string_ids"),("string table","utils/stringtable.hpp: store_stringtable")])

p("C08","Damaged or hostile input ends in an exception, never in a crash",
 "Reading any byte sequence, in any encoding, either delivers objects and returns normally or throws an exception; it never reads or writes outside its buffers, aborts, hangs or leaks memory without bound. A PBF file cut off anywhere except on a boundary between blobs is reported as an error, and so is an XML file cut off before its end. Values that are missing in a PBF file, or point outside of its string table, are an error. Objects delivered before the error are those the intact part contains.",
 ["inputs","fault_sequences"],"all byte strings, in particular truncations, bit flips, and structure-aware mutations (indexes, array lengths, sizes) of valid PBF and XML files",
 "The test suite has no malformed input at all.",
 ["input/pbf.hpp","input/xml.hpp"],
 [("size and index checks","input/pbf.hpp: read_blob_header, read_blob, parse_*_group"),("XML error handling","input/xml.hpp: parse, start_element, end_element")])

p("C09","Files of the wrong type, version or with unknown features are refused",
 "Reading a PBF file fails with the corresponding error if it requires a feature this library does not know, if a plain file is expected but it holds history, or if history is expected but it holds none; an XML file that declares a version other than 0.6 is refused. No object of such a file is delivered. Files that match are accepted (change files are not defined for PBF), and an output format that is not supported is refused when it is opened. The first writer registered for an output format stays in use until it is unregistered, registering another one is refused.",
 ["inputs","configurations"],"all combinations of expected type, file content type, and feature or version strings",
 "No test covers any mismatch.",
 ["input/pbf.hpp","input/xml.hpp","osmfile.hpp","output.hpp"],
 [("feature check","input/pbf.hpp: parse (OSMHeader)"),("root check","input/xml.hpp: start_element"),("factory","output.hpp: Factory::create_output")])

p("C10","A file that could not be written completely is always reported",
 "With broken pipes not killing the program, if any operating system write fails while a file is being written, in any format, or closing the file reports an error, or the compression program fails, then an exception reaches the caller no later than the final call; a run that completes without an exception has left a complete file with all data. Writes that transfer only part of the data, or are interrupted, are continued and do not corrupt the file.",
 ["fault_sequences","crash_points"],"every position in the sequence of output system calls, for errors (no space, file size limit, I/O error), short writes and failing compressors, all formats",
 "No test injects any fault, or writes any file.",
 ["output/pbf.hpp","output/xml.hpp","osmfile.hpp"],
 [("PBF writes","output/pbf.hpp: store_blob"),("XML flush","output/xml.hpp: check_for_error, final"),("close","osmfile.hpp: close")])

p("C11","All stores by id behave like one map from id to value",
 "After any sequence of stores with arbitrary ids, each kind of id-indexed storage returns for every id that was set the value last set for it, regardless of growth, gaps, overwriting or order of insertion (ascending ids for the vector-based kind, as documented), and all kinds agree with each other. The reported size is never smaller than what is needed to hold the largest id or count stored, and for an id never set the map-based store reports an error and the vector- and table-based ones give a default value rather than another id's. Clearing releases the storage once, without touching memory of anything else, and a file-backed store kept on disk has the same contents when opened again. A store that grows by mapping memory or a file and cannot grow, because there is no room left or the id is too large to be addressed, reports an error, keeps everything stored before and goes on working.",
 ["histories","inputs"],"all sequences of set, read, clear and reopen with ids from 0 to beyond several growth steps, all storage kinds and several value types",
 "Tests store a handful of ids in one order; growth, overwrite, teardown and reopening are not exercised.",
 ["storage/byid.hpp","storage/byid/fixed_array.hpp","storage/byid/mmap_anon.hpp","storage/byid/mmap_file.hpp","storage/byid/sparse_table.hpp","storage/byid/stl_map.hpp","storage/byid/vector.hpp"],
 [("growth","storage/byid/mmap_anon.hpp, mmap_file.hpp, sparse_table.hpp: set"),("sorted vector","storage/byid/vector.hpp: set, operator[]"),("release","clear and destructors")])

p("C12","Way nodes get exactly the positions of the nodes they refer to",
 "After a stream of nodes and then ways has passed through the coordinates handler, every node reference in every way carries the position of the node with that id last seen in the stream, bit for bit, for positive and negative ids, whichever storage kinds are used. Positive and negative ids with the same absolute value never mix. Nothing else about nodes and ways changes.",
 ["inputs","configurations"],"all node and way streams with referential integrity, all combinations of storages for positive and negative ids",
 "Not tested at all today.",
 ["handler/coordinates_for_ways.hpp","storage/byid.hpp","osm/way_node.hpp"],
 [("store/lookup","handler/coordinates_for_ways.hpp: node, way, get_node_pos")])

p("C13","Object ordering is a consistent order and the object store respects it",
 "Nodes, ways, relations and areas each have a strict weak ordering by absolute id and then version, with a fixed order of an id and its negative, in which two objects are equivalent only if id and version agree. An object store filled in any order feeds every distinct object exactly once, in that order, nodes before ways before relations, with init, before, after and final calls, keeping its contents or emptying itself as requested. Clearing one kind removes that kind only.",
 ["inputs","histories"],"all multisets of objects with arbitrary positive and negative ids and versions, all insertion orders and feed/clear sequences",
 "Tests compare a few pairs; transitivity and the interplay of negative ids with sets are not covered.",
 ["osm/node.hpp","osm/way.hpp","osm/relation.hpp","osm/area.hpp","storage/objectstore.hpp"],
 [("comparison","osm/node.hpp, way.hpp, relation.hpp: operator<"),("store","storage/objectstore.hpp: node/way/relation, feed_to, clear*")])

p("C14","Merging an object store into a stream loses and reorders nothing",
 "When a sorted stream of objects passes a merge with an object store, the next handler receives all objects of the stream and all objects of the store exactly once, in the object order within each kind, each kind within one before/after pair in order node, way, relation, with one init and one final. This includes kinds that occur only in the store or only in the stream.",
 ["inputs","histories"],"all pairs of sorted stream and store contents, including empty ones, disjoint and overlapping kinds",
 "Not tested at all today.",
 ["storage/objectstore.hpp"],
 [("merge","storage/objectstore.hpp: ApplyHandler")])

p("C15","Relations are assembled with exactly their members, exactly once",
 "After both passes over a file, each relation the application asked for is handed over exactly once if all its wanted members are in the file and never otherwise, at the moment its last wanted member arrives, with each wanted member's object at that member's position and nothing at unwanted positions. Objects of followed kinds that no kept relation wants are reported exactly once as not being in any relation, and members used by many relations or several times by one are given to all of them. Nodes and ways that occur in several versions, as in a history, do not count twice. The notice that all members are available comes exactly once after the last followed kind, incomplete relations are still there then, and a nested handler sees the complete second pass.",
 ["inputs","histories"],"all files of nodes, ways and relations with arbitrary membership graphs (shared, repeated, missing, self-referring), all choices of kept relations, members and followed kinds",
 "Only the simplest cases are tested; sharing, repetition, missing members and completion order need generated graphs.",
 ["relations/assembler.hpp","relations/relation_info.hpp"],
 [("pass 1","relations/assembler.hpp: add_relation, sort_member_infos"),("pass 2","relations/assembler.hpp: find_and_add_object, after"),("counting","relations/relation_info.hpp: need_member, add_member")])

p("C16","History handlers compute validity periods and snapshots correctly",
 "For a history stream of distinct versions sorted by kind, id and version every object version is passed on exactly once in order, with its end time set to the start of the next version of the same object and left unset for the last one. Extracting a time range yields exactly the versions that start no later than the range's end and that have no end time or end no earlier than the range's start. The shipped tool for current data writes exactly the latest version of each object.",
 ["inputs","histories"],"all sorted histories of nodes, ways and relations, all ranges including points, empty and reversed ones",
 "One fixed stream of nodes is tested; last versions, changes of id and kind at boundaries and range edges are not.",
 ["handler/endtime.hpp","handler/range_from_history.hpp","examples/osmium_range_from_history.cpp"],
 [("end time","handler/endtime.hpp: node/way/relation/after_*"),("range test","handler/range_from_history.hpp")])

p("C17","Bounding boxes contain exactly the extent of their points",
 "The bounds obtained by extending with any sequence of defined positions are the exact minimum and maximum of their coordinates, in any order, and are undefined if and only if there was none. Undefined positions do not affect them. The bounding box search over a file, and the shipped tool for it, report exactly the extent of the file's nodes, deleted ones included (the tool to the six digits it prints) and stop reading after the nodes.",
 ["inputs"],"all sequences of positions over the whole coordinate range, with undefined ones mixed in; all files",
 "Two fixed extensions are tested.",
 ["osm/bounds.hpp","handler/find_bbox.hpp","examples/osmium_find_bbox.cpp"],
 [("extend","osm/bounds.hpp: extend"),("search","handler/find_bbox.hpp")])

p("C18","Positions keep seven decimal places exactly and order consistently",
 "Every coordinate with up to seven decimal places within the storable range survives storing as a position and reading back, as the nearest double, and setting from fixed-point, floating-point or single coordinates is consistent; other values round to the nearest step, symmetrically for negative values. Positions are undefined exactly until both coordinates are set, and equality and ordering are total and consistent, by longitude and then latitude. An undirected segment does not depend on the order of its ends, has its smaller end first, and segments order consistently by first and then second end.",
 ["inputs"],"all 32-bit coordinate pairs and all doubles in range",
 "Tests try a few round values.",
 ["osm/position.hpp","osm/segment.hpp","osm/undirected_segment.hpp"],
 [("conversion","osm/position.hpp: double_to_fix, fix_to_double"),("order","osm/position.hpp, undirected_segment.hpp: operators")])

p("C19","Timestamps convert to ISO text and back without loss",
 "For every time from 1970 to 9999 the ISO text is the correct UTC calendar time in the form yyyy-mm-ddThh:mm:ssZ and parses back to the same time, whatever was converted before; time zero is the empty text. Every valid ISO text parses to its UTC time independent of the time zone of the process, and text in which any part of a timestamp is missing or not a number is refused without changing the object (trailing text and days a month does not have are left open).",
 ["inputs","configurations"],"all seconds in the range, all valid and arbitrary invalid texts, several time zones",
 "Tests convert a few values in one time zone.",
 ["utils/timestamp.hpp","osm/object.hpp"],
 [("conversion","utils/timestamp.hpp: to_iso, parse_iso"),("setter","osm/object.hpp: timestamp(const char*)")])

p("C20","Geometries are written as exact, standard WKT and (E)WKB",
 "For every point, non-empty linestring and closed polygon with defined coordinates the text form parses back to the original coordinates to all seven decimals, the binary form is the standard little-endian encoding of type, optional SRID 4326, counts and exact coordinates, and the hexadecimal form is exactly the binary one in upper-case hex. The order of points is that of the way, or its reverse if asked for, identically in all output forms and in the GDAL/OGR and GEOS geometries created from it; making an OGR geometry of a position that is not known is refused. Making a polygon from a way that is not closed is refused.",
 ["inputs","configurations"],"all positions and node lists, with and without SRID, reversed or not, any prior stream state",
 "Tests compare a few fixed coordinates; many forms and reversal are not covered.",
 ["geometry.hpp","geometry/point.hpp","geometry/linestring.hpp","geometry/polygon.hpp","geometry/from_way.hpp","geometry/ogr.hpp","geometry/geos.hpp","geometry/null.hpp"],
 [("writers","geometry/*.hpp: write_to_stream"),("binary","geometry.hpp: write_binary, write_hex, *_wkb_header"),("OGR","geometry/ogr.hpp: create_ogr_geometry")])

p("C21","Distances on the sphere are correct and behave like a metric",
 "The distance between two positions agrees with an independent great-circle calculation on the documented earth radius, is zero exactly for equal positions, symmetric, never negative or undefined, and satisfies the triangle inequality up to rounding. The length of a node list is the sum over consecutive nodes, zero for fewer than two nodes, and does not change on reversal.",
 ["inputs"],"all positions on earth including poles, antipodes and the date line; all node lists",
 "One distance is tested.",
 ["geometry/haversine.hpp"],
 [("formula","geometry/haversine.hpp: distance")])

p("C22","Tag filters decide by the first matching rule",
 "A tag filter with any list of rules gives the result of the first rule that matches the tag, or the default if none does: rules match on the exact key, on the key and the exact non-empty value or any value if none is given, or on the whole key and value matching the regular expressions. Filtering a tag list keeps exactly the accepted tags in order, and filtering with accumulation equals filtering and then accumulating.",
 ["inputs","configurations"],"all rule lists, defaults, tag lists and regular expressions of a generated grammar",
 "Tests use a few rules on a few tags.",
 ["tags/key_filter.hpp","tags/key_value_filter.hpp","tags/regex_filter.hpp","utils/filter_and_accumulate.hpp"],
 [("rule evaluation","tags/*_filter.hpp: operator()"),("accumulation","utils/filter_and_accumulate.hpp")])

p("C23","Tags are listed, looked up and rendered without loss",
 "A tag list holds its tags in order of addition, looks a key up to the value of its first tag with that key or nothing, and is independent of copies made of it. Rendering tags as text joins the rendered tags in order with every character that must be escaped preceded by a backslash (unless the first one renders as nothing at all); the hstore rendering can be parsed back to exactly the same keys and values for any text.",
 ["inputs"],"all tag lists with arbitrary text, all rendering parameters",
 "Tests render a few harmless tags.",
 ["osm/tag.hpp","osm/tag_list.hpp","tags/to_string.hpp","osm/tag_ostream.hpp","osm/object.hpp"],
 [("list","osm/tag_list.hpp"),("rendering","tags/to_string.hpp: TagToStringOp")])

p("C24","File name, type and encoding are determined as documented",
 "The type and encoding of a file follow from the suffix after the first dot of the last path component for every known suffix; unknown ones are plain PBF, the empty name or a dash is standard input or output, and URLs, which begin with http: or https:, are plain XML. Explicit type and encoding settings always win and unknown setting names are refused and change nothing. The default suffix for type and encoding is appended to the name stripped of its suffix, keeping directories, and the result is again recognised as the same type and encoding wherever a suffix for that combination exists.",
 ["inputs","configurations"],"all paths including dots in directories, relative prefixes, hidden files and several suffixes; all type and encoding settings",
 "Tests check single names without directories.",
 ["osmfile.hpp"],
 [("suffix","osmfile.hpp: constructor, set_type_and_encoding"),("names","osmfile.hpp: filename_without_suffix, filename_with_default_suffix")])

p("C25","Opening and closing files leaks nothing and reports failures",
 "Files, compressed or not, can be opened, copied, assigned, closed and destroyed in any order: afterwards no file descriptor and no child process is left, copies never share an open file with their original, and closing twice is harmless. Opening something that cannot be opened, and closing after the compression program failed, throws an error naming the file. Standard input and output are used for the empty name. Whatever a file is called, also if its name looks like an option of the compression program or is just http or https, its content is what is read.",
 ["histories","fault_sequences"],"all operation sequences on several file objects over all encodings, with missing, unreadable and corrupt files and failing helpers",
 "Tests look at settings only and never open a compressed file.",
 ["osmfile.hpp"],
 [("lifecycle","osmfile.hpp: open_for_input, open_for_output, execute, close, copy constructor, operator=")])

p("C26","The debug dump shows every callback and every attribute faithfully",
 "The debug handler's output, parsed back, contains every callback in order and every attribute of every object exactly: ids, versions, users, changesets, timestamps, visibility and end time if there can be several versions, all tags, seven-decimal coordinates, node references and members, and the file's generator and bounds (to the digits shown). The shipped dump tool produces the same text for a file in any encoding.",
 ["inputs"],"all object streams without line breaks or bars in text, any number format the output stream was set to, all encodings",
 "Not tested at all today.",
 ["handler/debug.hpp","examples/osmium_debug.cpp"],
 [("dump","handler/debug.hpp: init, node, way, relation, print_meta")])

p("C27","String tables map every recorded string to its place",
 "After recording any sequence of strings, every handed-out interim id maps to the index at which exactly that string is stored, index zero stays empty and reserved, every distinct string appears exactly once, and strings recorded more often come first. Recording the same string again gives the same interim id. A cleared table starts afresh, and delta encoding followed by summing gives back the original sequence.",
 ["inputs","histories"],"all sequences of strings including very many distinct ones, very frequent ones and empty text, over several clears; all integer sequences",
 "Tests record a handful of strings.",
 ["utils/stringtable.hpp","utils/delta.hpp"],
 [("table","utils/stringtable.hpp: record_string, store_stringtable, map_string_id, clear"),("delta","utils/delta.hpp: update")])

p("C28","Object attributes read back as set and limits are enforced",
 "Every attribute of an object reads back as it was last set, whether set directly, from text or by attribute name, and copies are equal and independent. User names and roles up to 255 characters of UTF-8 are accepted and longer than the limit refused without damaging the object. Way and member lists keep order and positions under every list operation, a way is closed exactly if its first and last node have the same id, and access beyond a relation's members yields nothing.",
 ["inputs","histories"],"all attribute values in range, all texts, all sequences of list operations",
 "Tests set each attribute once.",
 ["osm/types.hpp","osm/object.hpp","osm/node.hpp","osm/way.hpp","osm/relation.hpp","osm/way_node.hpp","osm/way_node_list.hpp","osm/relation_member.hpp","osm/relation_member_list.hpp"],
 [("setters","osm/object.hpp: setters, set_attribute"),("lists","osm/way_node_list.hpp, osm/relation_member_list.hpp")])

p("C29","Every valid OSM XML document is read with its standard meaning",
 "Any well-formed OSM XML data or change document is read with the meaning its elements and attributes define, whatever the attribute order, quoting, entity and character references, whitespace, comments, encoding declaration, unknown attributes and unknown elements at top level. Objects in a delete section are invisible unless their own attribute says otherwise, and others visible unless their attribute says otherwise. It does not matter how the document is split into chunks by the input or how often reading is interrupted, nor which locale the program uses; a read that fails is reported and never taken for the end of the document.",
 ["inputs"],"all documents of a generated grammar of OSM and change XML, in several character encodings, delivered in arbitrary chunks",
 "No test reads XML; the bundled writer produces one fixed layout only.",
 ["input/xml.hpp"],
 [("elements","input/xml.hpp: start_element, end_element, init_object, check_tag"),("chunks","input/xml.hpp: parse")])

p("C30","Multipolygon relations are assembled into the areas they describe",
 "For every multipolygon or boundary relation whose member ways are all available and form closed rings that do not cross, exactly one area is built whose geometry is valid and covers exactly the points inside an odd number of rings' nesting (outer minus inner, islands inside holes, to any depth), however the rings are split into ways, in whichever direction and order these are listed and whatever roles they have; the area carries the relation's tags (or, if it has none of its own, those of its outer ways), its id can be traced to the relation, and its metadata is the relation's. Inner rings with tags of their own, and closed tagged ways outside of relations, become areas of their own, exactly once. Small gaps are closed only if repair is asked for and never damage valid input; broken relations and those with nodes whose positions are not known are reported, build nothing invalid and never stop the program. A builder class the application gives to the assembler takes the place of the usual one. Areas give the same shape as WKT, WKB, OGR and shapefile geometry, and copies are equal and independent.",
 ["inputs"],"all nested, touching and adjacent ring arrangements split into ways in any order and direction, with any roles and tags, with gaps and defects; streams of several relations and ways through the assembler and the shipped dump tool",
 "Not tested at all; no test builds the area code.",
 ["multipolygon/assembler.hpp","multipolygon/builder.hpp","osm/area.hpp","geometry/geos.hpp","geometry/multipolygon.hpp","geometry/ogr_multipolygon.hpp","geometry/shplib.hpp","examples/osmium_mpdump.cpp"],
 [("rings","multipolygon/builder.hpp: build, make_one_ring, make_ring, find_and_repair_holes_in_rings, check_ring_contained, add_inner_ring_to_outer"),("areas","multipolygon/assembler.hpp: keep_relation, keep_member, complete_relation, HandlerPass2::way"),("output","geometry/multipolygon.hpp, osm/area.hpp")])

p("C31","Shapefiles hold exactly the shapes and attributes that were added",
 "After adding fields, shapes and attributes and closing, the shape, index and attribute files agree with each other and hold every shape in order with its exact coordinates and every value in its record and field, or the call that added it failed with an exception; missing values are blank. Text cut to a field's width is the longest beginning of whole characters that fits. A missing or wrong kind of shape is refused and writes nothing, limits on fields are enforced. Projection and encoding files are written along, all files have the given name, and when two gigabytes are reached writing goes on in a numbered file with the same fields. Shapes made from points, lines and polygons have the way's positions in its (or the reverse) order without immediate repetitions; geometries that cannot be drawn or have a node without position are refused. The shipped shape program exports exactly the matching nodes and ways.",
 ["inputs","histories"],"all sequences of fields, shapes and values, all widths and texts, any file names, sizes beyond the limit of one file, all node lists",
 "Not tested at all; no test builds the export code.",
 ["export/shapefile.hpp","geometry/shplib.hpp","examples/osmium_toshape.cpp"],
 [("files","export/shapefile.hpp: open, add_field, add_geometry, length_on_disk, add_attribute, add_attribute_with_truncate"),("shapes","geometry/shplib.hpp: create_shp_object, create_line_or_polygon")])

p("C32","Scripts run by osmjs see exactly the data and what they write is written",
 "The Javascript program calls every callback a script has set, and no other, in the order of the file: init first, before and after each section, one call per object, areas when asked for, end last. In a call, every attribute, tag (whatever its key), node reference, member and position of the object has exactly the file's value, whatever is not there is undefined, and enumerating gives each key or index once. Geometries in every form (text, binary, hexadecimal, arrays) agree with the positions; those that cannot be made are undefined. What a script prints or writes to a CSV file is the exact text of its values in UTF-8. Shapefiles written by a script or by the shipped export script hold exactly the matching shapes and attributes, converted to the field's type, long text cut between characters, and adding a shape tells if it was added. All location stores and read modes give the same, whenever garbage is collected. Wrong command lines and broken or missing scripts end with an error and do not process the file.",
 ["inputs","configurations"],"all files, tags with any key and text, references and members; all stores, pass modes, include arrangements and arguments; all values a script can print or store; all configurations of the shape export; any moment of garbage collection",
 "Not tested at all; no test builds the Javascript code.",
 ["javascript/handler.hpp","javascript/template.hpp","javascript/unicode.hpp","javascript/wrapper/osm.hpp","javascript/wrapper/geometry.hpp","javascript/wrapper/position.hpp","javascript/wrapper/export_csv.hpp","javascript/wrapper/export_shapefile.hpp","osmjs/osmjs.cpp","osmjs/js/osm2shape.js"],
 [("callbacks","javascript/handler.hpp: init ... final"),("objects","javascript/wrapper/osm.hpp: accessors and enumerators"),("geometry","javascript/wrapper/geometry.hpp"),("output","javascript/handler.hpp: Print; javascript/wrapper/export_csv.hpp, export_shapefile.hpp; javascript/unicode.hpp"),("program","osmjs/osmjs.cpp: main, find_include_file")])

p("C33","Progress display, counts and density images show what was read",
 "The progress handler shows, on a terminal and after every step objects, exactly how many nodes, ways and relations have been read so far and at which rate, and at the end all counts and the average rate of every kind that occurred, never a negative or impossible number, whichever kinds the file has and however fast it was read; the cursor is hidden during this and shown again afterwards. Without a terminal nothing is printed. The shipped counting tool reports exactly the numbers of objects in the file. The density tool writes an image of the chosen size in which every pixel's brightness is the number of nodes with a position that lie in its part of the world, scaled linearly from MIN (black) to MAX (white).",
 ["inputs","configurations"],"all numbers of objects of each kind, steps and clocks; all files and positions, sizes and limits",
 "Not tested at all today.",
 ["handler/progress.hpp","examples/osmium_progress.cpp","examples/osmium_time.cpp","examples/nodedensity.cpp"],
 [("display","handler/progress.hpp: update_display, node, way, relation, final"),("image","examples/nodedensity.cpp: node, after_nodes")])

p("C34","The GDAL export programs write exactly the selected objects",
 "The shipped export programs write one feature for every selected object and no others, in the order of the file, with its id, its attribute text and its exact geometry: post boxes as points and roads as lines in the chosen format, file and layers; buildings (closed ways and multipolygon relations, with their holes) as multipolygons; and every node with tags other than created_by and odbl as a row in a database table, its remaining tags as hstore text from which exactly these tags can be read back, whatever characters they contain, within one transaction that is committed. Ids of any size are kept. Objects with nodes whose positions are not known are left out with a message and do not stop the program.",
 ["inputs","configurations"],"all files, ids, tags and texts, formats, file names and command lines; incomplete files",
 "Not tested at all; no test builds these programs.",
 ["examples/osmium_toogr.cpp","examples/osmium_toogr2.cpp","examples/osmium_to_postgis.cpp","geometry/ogr.hpp","geometry/ogr_multipolygon.hpp","tags/to_string.hpp"],
 [("post boxes and roads","examples/osmium_toogr.cpp: node, way"),("buildings","examples/osmium_toogr2.cpp: area"),("database","examples/osmium_to_postgis.cpp: node, after_nodes; tags/to_string.hpp: TagToHStoreStringOp"),("geometries","geometry/ogr.hpp, geometry/ogr_multipolygon.hpp: create_ogr_geometry")])

p("C35","The scripts shipped with osmjs report and export exactly what is in the file",
 "Run on any file, each script that comes with osmjs gives what its purpose says. objects.js and objects_2pass.js list every object once, in the order of the file, with its attributes, all its tags, node references and members, and its position or geometry as text; testgeom.js every node, way and area with its geometry in all forms. count.js counts every key and every key with value on nodes exactly, whatever the keys are called; osm2csv.js writes one line per node; time.js counts objects and callback_test.js reports every callback once, in order. area.js, shape_export.js and config.js with osm2shape.js write the matching objects, and no others, to shapefiles, with shapes, ids and attributes as documented in the scripts, and report their files and columns. A configuration of osm2shape.js that names an unknown geometry type, column type, shapefile or column is refused with a message saying which, before any file is written.",
 ["inputs","configurations"],"all files, whatever keys and values the tags have; all wrong configurations",
 "Not tested at all; no test runs the scripts.",
 ["osmjs/js/objects.js","osmjs/js/objects_2pass.js","osmjs/js/testgeom.js","osmjs/js/count.js","osmjs/js/osm2csv.js","osmjs/js/time.js","osmjs/js/callback_test.js","osmjs/js/area.js","osmjs/js/shape_export.js","osmjs/js/config.js","osmjs/js/osm2shape.js","javascript/handler.hpp","javascript/wrapper/osm.hpp","export/csv.hpp"],
 [("reports","osmjs/js: objects.js, objects_2pass.js, testgeom.js, count.js, osm2csv.js, time.js, callback_test.js"),("exports","osmjs/js: area.js, shape_export.js, config.js, osm2shape.js"),("configuration","osmjs/js/osm2shape.js: shapefile, rule")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
