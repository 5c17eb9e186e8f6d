#!/usr/bin/env python3
# Generates MANIFEST.json for the checks that exist in checks/.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from_design={}
T={
"C01":("round-trip property test over generated object streams and writer options, in-process writer and reader","round trip"),
"C02":("round-trip property test over generated streams, with an independent XML parse of every file written","round trip + independent parser"),
"C03":("metamorphic property test over generated chains of conversions, in-process and with the shipped tool","metamorphic"),
"C04":("model-based property test of handler call sequences over generated files and stop points","reference model"),
"C05":("stateful property test: generated files and retention histories against a shadow copy, plain and AddressSanitizer builds","shadow copy"),
"C06":("differential property test: files of an independent structure-aware PBF encoder","independent encoder"),
"C07":("differential property test: independent strict PBF decoder on every file written","independent decoder"),
"C08":("structure-aware mutation fuzzing of PBF and XML files under AddressSanitizer/UBSan with exact truncation oracles","sanitizers, truncation and prefix oracle"),
"C09":("property test over generated combinations of expected type, content type, features and versions against a decision table","decision table"),
"C10":("fault-injection property test: generated streams with generated and enumerated faults of output system calls","complete file or exception"),
"C11":("stateful model-based property test: generated histories of store operations against std::map, all storages in lockstep","std::map model"),
"C12":("model-based property test over generated node and way streams against a map","map model"),
"C13":("stateful model-based property test of order axioms and object store histories against a sorted model","sorted model, order axioms"),
"C14":("model-based property test over generated pairs of stream and store against a reference merge","reference merge"),
"C15":("model-based property test over generated membership graphs against a reference assembler","reference assembler"),
"C16":("model-based property test over generated histories and ranges against a reference snapshot","reference snapshot"),
"C17":("property test over generated positions and files against minimum and maximum","min/max"),
"C18":("property test over generated coordinates against exact decimal arithmetic, and order axioms","exact arithmetic"),
"C19":("round-trip property test of generated times and texts against independent calendar arithmetic","independent calendar"),
"C20":("round-trip property test: independent WKT and WKB parsers on generated geometries, differential against OGR","independent parsers, GDAL"),
"C21":("property test of generated positions against a long double vector formula, and metric axioms","independent formula, axioms"),
"C22":("model-based property test of generated rule lists against a reference evaluation with std::regex","reference evaluation"),
"C23":("model-based and round-trip property test of generated tag lists with an independent hstore parser","independent parser"),
"C24":("property test of generated paths and settings against a reference table","reference table"),
"C25":("stateful property test: generated histories on several file objects with injected faults, counting descriptors and processes","model of open files, leak counting"),
"C26":("round-trip property test: independent parser of the dump on generated streams, and differential between encodings","independent parser"),
"C27":("stateful model-based property test of recorded strings and sums","model"),
"C28":("stateful model-based property test of setters and list operations under AddressSanitizer","model"),
"C29":("differential property test: documents of an independent XML generator in several encodings and chunkings","independent generator"),
"C30":("model-based property test: generated ring arrangements split into ways, assembled and compared with the arrangement","generated arrangement, winding and point-in-area oracle"),
"C31":("stateful model-based property test of shapefile writing with an independent reader of the files","independent reader, model"),
"C32":("property test: generated files and scripts run by osmjs (on the installed V8 through a stand-in for its old interface), compared with a model of what the scripts see and write; differential for areas","model, independent readers"),
"C33":("property test: generated counts, clocks and files; the display, on a terminal or not, and the images are parsed back and compared with a reference computation","reference model, parse-back"),
"C34":("property test: generated files exported by the shipped programs, read back with GDAL (or from the recorded database statements) and compared with a model of the selection; own hstore parser","model, parse-back"),
"C35":("property test: generated files given to the scripts shipped with osmjs, output and shapefiles compared with a model of every script","model, independent readers"),
}
checks=[]
for i in sorted(T):
    if not os.path.exists(f"{V}/checks/{i}.cpp"): continue
    t,o=T[i]
    checks.append({"property":i,"quick_cmd":f"python3 run.py {i} quick","thorough_cmd":f"python3 run.py {i} thorough","technique":"property-based testing and fuzzing: "+t,
      "level":"fault_enumeration" if i=="C10" else "exploration","level_note":f"Generated-input search on the real code built from the current tree; oracle: {o}. Holds on everything explored, not a proof. See DESIGN.md, {i}.",
      "evidence_file":f"evidence/{i}.json"})
m={"version":1,"setup_cmd":"python3 run.py --help","checks":checks,"not_applicable":[]}
json.dump(m,open(f"{V}/MANIFEST.json","w"),indent=1)
print(len(checks))
