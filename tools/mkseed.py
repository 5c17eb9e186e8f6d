#!/usr/bin/env python3
"""development helper: builds /verif/seeded/<id>/ from tools/seed/*.seed and confirms every one of them
   mkseed.py [--check] [--tests] ID...      (no ID: all)
A .seed file:  id / property / needs / breaks / file, then <<<< old ==== new >>>> blocks, then ---- and the demo's main()."""
import sys, os, re, json, subprocess, tempfile, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get("VERIF_REPO", "/repo"); S = V + "/tools/seed"
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = r'''#!/bin/bash
# exit 0: behaves as it should; anything else: broken. Works in a scratch directory only.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -O0 -w %s-D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -Iinclude -I"$here" $(xml2-config --cflags) "$here/demo.cpp" -o "$d/demo" \
    -lprotobuf-lite -losmpbf -lz -lpthread -lexpat -lxml2 -lboost_regex%s || exit 2
%sexport REPO="$PWD"
cd "$d" || exit 2
timeout 120 ./demo
'''
AREAS = '-DSEED_AREAS -Dgeos=oldgeos -I"$here/oldgeos" $(geos-config --cflags) $(gdal-config --cflags) '
OSMJS = r'''export OSMJS="$d/osmjs"
inc="-Dgeos=oldgeos -I$here/oldgeos -I$here/oldv8 $(geos-config --cflags) $(gdal-config --cflags) $(xml2-config --cflags)"
g++ -std=c++17 -O0 -fPIC -w -I/usr/include/node -I"$here/oldv8" -c "$here/oldv8/oldv8.cpp" -o "$d/v8.o" &
g++ -std=gnu++17 -O0 -fPIC -w -Dv8=oldv8 -DUCHAR_TYPE=uint16_t -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -Iinclude $inc -c osmjs/osmjs.cpp -o "$d/js.o" || exit 2
wait
objcopy --redefine-sym main=osmjs_main "$d/js.o" && g++ -shared -o "$d/osmjs.node" "$d/js.o" "$d/v8.o" -lprotobuf-lite -losmpbf -lz -lpthread -lexpat -lxml2 -lgeos_c -lshp -licuuc -lbz2 || exit 2
printf '#!/bin/sh\nexec node --single-threaded --no-opt -e "const m={exports:{argv:process.argv.slice(1)}};process.dlopen(m,process.argv[1]+\".node\")" -- "$0" "$@"\n' | sed "s/\"\.node\"/'.node'/" > "$d/osmjs"; chmod +x "$d/osmjs"
'''
TOOLB = r'''export TOOL="$d/tool"
g++ -std=gnu++17 -O0 -w -DOSMIUM_OSM_AREA_HPP -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -Iinclude $(xml2-config --cflags) examples/%s.cpp -o "$d/tool" \
    -lprotobuf-lite -losmpbf -lz -lpthread -lexpat -lxml2 -lgd || exit 2
'''
TOOLG = r'''export TOOL="$d/tool"
g++ -std=gnu++17 -O0 -w -Dgeos=oldgeos -I"$here/oldgeos" -I"$here/oldgdal" $(geos-config --cflags) $(gdal-config --cflags) -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -Iinclude $(xml2-config --cflags) examples/%s.cpp -o "$d/tool" \
    -lprotobuf-lite -losmpbf -lz -lpthread -lexpat -lxml2 -lgeos_c -lshp $(gdal-config --libs) || exit 2
'''
def parse(path):
    t = open(path).read(); head, demo = t.split("\n----\n", 1)
    d = {"demo": demo, "edits": [], "flags": ""}
    cur = None
    for m in re.finditer(r"^(\w+): ([^\n]*)$|^<<<<\n(.*?)\n====\n(.*?)\n>>>>$", head, re.M | re.S):
        if m.group(1):
            if m.group(1) == "file": cur = m.group(2)
            else: d[m.group(1)] = m.group(2)
        else: d["edits"].append((cur, m.group(3), m.group(4)))
    return d
def make(sid):
    d = parse(S + "/" + sid + ".seed")
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); shutil.rmtree(w)
    r = sh(["git", "-C", R, "worktree", "add", "--detach", w, "HEAD"])
    try:
        base = sh("git -C %s rev-list --max-parents=0 HEAD" % R).stdout.split()[0]
        for f, old, new in d["edits"]:
            p = f if f.startswith(("examples/", "osmjs/")) else "include/osmium/" + f
            t = open(w + "/" + p).read()
            if t.count(old) != 1: return sid + ": old text occurs %d times in %s" % (t.count(old), p)
            # the changed lines must be of the original
            line = t[:t.index(old)].count("\n") + 1; newlines = new.split("\n")
            for k, l in enumerate(old.rstrip("\n").split("\n")):
                if l in newlines: continue
                b = sh(["git", "-C", R, "blame", "-l", "-L", "%d,%d" % (line + k, line + k), "HEAD", "--", p]).stdout
                if not b.lstrip("^").startswith(base[:30]): return sid + ": line of a fix: " + l
            open(w + "/" + p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", w, "diff"]).stdout
    finally:
        sh(["git", "-C", R, "worktree", "remove", "--force", w])
    out = V + "/seeded/" + sid; os.makedirs(out, exist_ok=True)
    js = "OSMJS" in d["demo"]; areas = d.get("geos") == "old"
    gd = d.get("gdal") == "old"
    for n, need in (("oldgeos", areas or js or gd), ("oldv8", js), ("oldgdal", gd)):
        shutil.rmtree(out + "/" + n, ignore_errors=True)
        if need: shutil.copytree(V + "/fw/" + n, out + "/" + n)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.cpp", "w").write('#include "common.hpp"\n' + d["demo"])
    shutil.copy(S + "/common.hpp", out)
    open(out + "/demo.sh", "w").write(DEMO % ((AREAS if areas else "") + (d["flags"] + " " if d["flags"] else ""), " -lgeos_c -lshp" if areas else "", ((TOOLG if d.get("gdal") == "old" else TOOLB) % d.get("tool", "osmium_convert") if "TOOL" in d["demo"] else "") + (OSMJS if js else ""))); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    return None
def check(sid, tests):
    out = V + "/seeded/" + sid
    w = tempfile.mkdtemp(prefix="seedchk-", dir="/tmp"); c = w + "/repo"; dm = w + "/demo"
    shutil.copytree(out, dm, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    os.makedirs(c)
    for s in ("include", "examples", "osmjs"): shutil.copytree(R + "/" + s, c + "/" + s)
    try:
        a = sh(["bash", dm + "/demo.sh"], cwd=c)
        p = sh(["patch", "-s", "-p1", "-i", out + "/patch.diff"], cwd=c)
        b = sh(["bash", dm + "/demo.sh"], cwd=c)
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode not in (0, 2)
        return "%s: %s  clean=%d patched=%d %s" % (sid, "ok" if ok else "BAD", a.returncode, b.returncode, (a.stdout if a.returncode else "")[-1500:] + b.stdout.strip()[-150 if b.returncode != 2 else -1500:])
    finally: shutil.rmtree(w)
def tests(sid, c):  # c: a copy of /repo with its build output
    sh(["git", "-C", c, "checkout", "--", "."])
    r = sh(["git", "-C", c, "apply", V + "/seeded/" + sid + "/patch.diff"])
    if r.returncode: return sid + " does not apply " + r.stdout
    b = sh("cd %s && make -j4 -f /opt/vp/osmium.mk all" % c); o = c + ".json"
    r = sh("sed 's#/repo#%s#g' /opt/vp/run_cases.py > %s.py; python3 %s.py %s" % (c, c, c, o))
    got = set(json.load(open(o))["passed"]); base = json.load(open("/opt/vp/BASELINE.json")); want = set(base.get("stable") or base.get("passed") or base.get("tests"))
    return "%s: build %d, stable tests %d failing: %s" % (sid, b.returncode, len(want), sorted(want - got)[:3])
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.path.basename(p)[:-5] for p in glob.glob(S + "/*.seed"))
    from concurrent.futures import ThreadPoolExecutor
    good = []
    for i in ids:
        e = make(i)
        if e: print(e)
        else: good.append(i)
    if "--check" in sys.argv:
        for l in ThreadPoolExecutor(8).map(lambda i: check(i, False), good): print(l, flush=True)
    if "--tests" in sys.argv:
        c = tempfile.mkdtemp(prefix="seedtests-", dir="/tmp"); sh(["cp", "-a", R, c + "/repo"])
        try:
            for i in good: print(tests(i, c + "/repo"), flush=True)
        finally: shutil.rmtree(c)
