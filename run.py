#!/usr/bin/env python3
"""Build one check against the current /repo tree and run it.

  run.py C01 [quick|thorough] [--replay FILE] [--keep] [extra harness options]

The harness is /verif/checks/<ID>.cpp. Lines "// KEY: value" at its top say how to build it:
  FLAGS    extra compiler flags
  LIBS     pbf xml geos gdal regex (what to link)
  GEOS     old: build with the stand-in for the GEOS of the library's time (fw/oldgeos)
  GDAL     old: build the programs with the stand-in for the driver interface of the GDAL of their time (fw/oldgdal)
  TOOLS    programs from /repo/examples to build as well (directory in $VERIF_TOOLS)
  OSMJS    yes: build osmjs as a module for the installed node, on a stand-in for the V8 of its time (fw/oldv8)
  VARIANT  name flags...   (may be repeated: the harness is built and run once for each)
  LEVEL    level recorded in the evidence
  TIMEOUT  seconds after which a case counts as hanging
Exit status: 0 property held, 1 violation, 2 the check could not be built or run.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True).stdout.split()


def header(path):
    h = {"VARIANT": []}
    for line in open(path):
        if not line.startswith("//"):
            break
        k, _, v = line[2:].strip().partition(":")
        if k == "VARIANT":
            h[k].append(v.split())
        elif k.isupper():
            h[k] = (h.get(k, "") + " " + v.strip()).strip()
    return h


BASE = ["-std=gnu++17", "-g1", "-w", "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-I" + REPO + "/include", "-I" + VERIF + "/fw"]
LIBS = {"pbf": ["-lprotobuf-lite", "-losmpbf", "-lz", "-lpthread"], "xml": ["-lexpat", "-lxml2"], "regex": ["-lboost_regex"], "shp": ["-lshp"],
        "dl": ["-ldl"], "gd": ["-lgd"], "geosc": ["-lgeos_c"]}
OLDGEOS = ["-Dgeos=oldgeos", "-I" + VERIF + "/fw/oldgeos"]


def libs(names):
    out = []
    for n in names:
        if n == "geos":
            out += sh("geos-config --libs") + ["-lgeos"]
        elif n == "gdal":
            out += sh("gdal-config --libs")
        else:
            out += LIBS[n]
    return out


def cflags():
    return sh("geos-config --cflags") + sh("gdal-config --cflags") + sh("xml2-config --cflags")


def run(cmd, **kw):
    return subprocess.run(cmd, **kw)


def compile_one(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return (p.returncode, " ".join(cmd) + "\n" + p.stdout + p.stderr)


def merge(parts, prop, tier, seed):
    """one evidence file from the evidence of the variants"""
    if len(parts) == 1:
        return parts[0][1]
    out = {"property": prop, "tier": tier, "seed": seed, "level": parts[0][1]["level"],
           "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": parts[0][1]["coverage"]["rule"], "samples": [], "cases_per_scenario": {}, "classes": {},
                        "discarded": 0, "stopped_by_time_budget": False, "unreproducible_failures": 0, "variants": [n for n, _ in parts]},
           "assumptions": parts[0][1]["assumptions"], "wall_s": 0, "violations": 0}
    o = out["coverage"]
    for name, e in parts:
        c = e["coverage"]
        # the variants run overlapping cases on differently built code
        o["evaluations"] += c["evaluations"]
        o["distinct_nontrivial"] = max(o["distinct_nontrivial"], c["distinct_nontrivial"])
        o["samples"] += c["samples"]
        for k in ("cases_per_scenario", "classes"):
            for a, n in c[k].items():
                o[k][a if k == "classes" else name + "/" + a] = o[k].get(a, 0) + n
        o["discarded"] += c["discarded"]
        o["stopped_by_time_budget"] |= c["stopped_by_time_budget"]
        o["unreproducible_failures"] += c["unreproducible_failures"]
        out["wall_s"] += e["wall_s"]
        out["violations"] += e["violations"]
    return out


def main():
    args = sys.argv[1:]
    if not args or args[0] in ("-h", "--help"):
        print(__doc__)
        return 0
    prop = args.pop(0)
    tier = args.pop(0) if args and args[0] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in args
    if keep:
        args.remove("--keep")
    seed = os.environ.get("VERIF_SEED", "1")
    src = f"{VERIF}/checks/{prop}.cpp"
    h = header(src)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        os.makedirs(tmp + "/tools")
        cf = cflags()
        variants = h["VARIANT"] or [["default"]]
        lib = libs(h.get("LIBS", "pbf xml").split())
        jobs, bins = [], []
        geos = OLDGEOS if h.get("GEOS") == "old" else []
        for v in variants:
            exe = f"{tmp}/{prop}-{v[0]}"
            tier_only = [x for x in v[1:] if x.startswith("@")]
            if tier_only and "@" + tier not in tier_only:
                continue
            fl = [x for x in v[1:] if not x.startswith("@")]
            opt = ["-O1"] if not any(x.startswith("-O") for x in h.get("FLAGS", "").split() + fl) else []
            jobs.append(["g++"] + geos + BASE + opt + h.get("FLAGS", "").split() + fl + cf + [src, "-o", exe] + lib)
            bins.append((v[0], exe))
        # the shipped programs, built as the repository builds them
        for t in h.get("TOOLS", "").split():
            tl = libs(["pbf", "xml", "geosc", "shp", "gdal"] if geos else ["pbf", "xml", "geos"])
            tl += libs(["gd"]) if "gd" in h.get("LIBS", "") else []
            gdal = ["-I" + VERIF + "/fw/oldgdal"] if h.get("GDAL") == "old" else []
            jobs.append(["g++", "-O1"] + geos + gdal + BASE[:-1] + ["-DOSMIUM_WITH_DEBUG"] + cf + [f"{REPO}/examples/{t}.cpp", "-o", f"{tmp}/tools/{t}"] + tl)
        link = []
        if h.get("OSMJS"):
            san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]
            jobs.append(["g++", "-std=c++17", "-O1", "-fPIC", "-w", "-I/usr/include/node", f"-I{VERIF}/fw/oldv8", "-c", f"{VERIF}/fw/oldv8/oldv8.cpp", "-o", f"{tmp}/tools/oldv8.o"])
            for name, fl in (("osmjs", []), ("osmjs-gc", ["-DOSMIUM_V8_FORCE_GC"])):
                o = f"{tmp}/tools/{name}.o"
                jobs.append(["g++", "-O1", "-fPIC", "-Dv8=oldv8", "-DUCHAR_TYPE=uint16_t"] + san + OLDGEOS + BASE[:-1] + [f"-I{VERIF}/fw/oldv8", "-DOSMIUM_WITH_DEBUG"] + fl + cf + ["-c", f"{REPO}/osmjs/osmjs.cpp", "-o", o])
                link += [["objcopy", "--redefine-sym", "main=osmjs_main", o], ["g++", "-shared"] + san + ["-o", o[:-2] + ".node", o, f"{tmp}/tools/oldv8.o"] + libs(["pbf", "xml", "geosc", "shp"]) + ["-licuuc", "-lbz2"]]
                preload = ":".join(sh("gcc -print-file-name=libasan.so") + sh("gcc -print-file-name=libubsan.so"))
                js = "const m={exports:{argv:process.argv.slice(1)}};process.dlopen(m,process.argv[1]+'.node')"
                open(o[:-2], "w").write(f"""#!/bin/sh\nLD_PRELOAD={preload} ASAN_OPTIONS=detect_leaks=0 HOME="$PWD/home" exec node --single-threaded --no-opt -e "{js}" -- "$0" "$@"\n""")
                os.chmod(o[:-2], 0o755)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for rc, out in list(ex.map(compile_one, jobs)) + [compile_one(x) for x in link if not any(not os.path.exists(a) for a in x if a.endswith(".o"))]:
                if rc:
                    print(out)
                    print(f"{prop}: the check does not build against this tree")
                    return 2
        env = dict(os.environ, VERIF_TOOLS=tmp + "/tools")
        if "LOCALE" in h:
            os.makedirs(f"{tmp}/locale")
            subprocess.run(["localedef", "-c", "-i", "de_DE", "-f", "UTF-8", f"{tmp}/locale/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            env["LOCPATH"] = tmp + "/locale"
        if "LEVEL" in h:
            env["VERIF_LEVEL"] = h["LEVEL"]
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        os.makedirs(VERIF + "/replays", exist_ok=True)
        replay = None
        if "--replay" in args:
            i = args.index("--replay")
            replay = args[i + 1]
            del args[i:i + 2]
            name = os.path.basename(replay).split("@")
            if len(name) > 1 and any(n == name[1].split(".")[0] for n, _ in bins):
                bins = [(n, b) for n, b in bins if n == name[1].split(".")[0]]
        rc, parts = 0, []
        for name, exe in bins:
            ev = f"{tmp}/evidence-{name}.json"
            cmd = [exe, "--property", prop, "--tier", tier, "--seed", seed, "--evidence", ev, "--replay-dir", VERIF + "/replays",
                   "--known", VERIF + "/known_findings.txt", "--scratch", f"{tmp}/run-{name}"]
            if "TIMEOUT" in h:
                cmd += ["--hang", h["TIMEOUT"]]
            if len(bins) > 1:
                cmd += ["--budget", str((600 if tier == "thorough" else 300) // len(bins))]
            if replay:
                cmd += ["--replay", replay]
            os.makedirs(f"{tmp}/run-{name}", exist_ok=True)
            if len(bins) > 1:
                print(f"-- variant {name}", flush=True)
            p = subprocess.run(cmd + args, env=env)
            if os.path.exists(ev):
                parts.append((name, json.load(open(ev))))
            if p.returncode not in (0, 1):
                print(f"{prop}: harness ended with status {p.returncode}")
                return 2
            rc = max(rc, p.returncode)
            if rc:
                break
        if parts and not replay:
            e = merge(parts, prop, tier, int(seed))
            json.dump(e, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
        return rc
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
