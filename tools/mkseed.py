#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ out of a specification SPECS/<id>.py (dict S: property, needs, breaks, edits: [(file, old, new)],
flags, lib: sources of the library to link (None: all, []: none), cxx) and SPECS/<id>.cpp (the demonstration), and tries it:
the demonstration has to succeed on a copy of /repo and to fail on a changed one.   mkseed.py SPECS <id>..."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Exit 0: the property holds; nonzero: it does not. Run in the root of the source tree; writes in a scratch directory only.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gen/obake"
python3 - "$R" "$W" <<'P' || exit 3
import os, re, sys
R, W = sys.argv[1:]
s = open(R + "/config.hpp.in").read()
v = {"obake_VERSION": "0.9.0", "obake_VERSION_MAJOR": "0", "obake_VERSION_MINOR": "9", "obake_VERSION_PATCH": "0"}
open(W + "/gen/obake/config.hpp", "w").write(re.sub(r"@(\w+)@", lambda m: v.get(m.group(1), ""), s))
# (A defect of the flat maps of Boost 1.83.)
src = "/usr/include/boost/unordered/detail/foa/core.hpp"
if os.path.exists(src):
    s = open(src).read()
    a = "  void fast_copy_elements_from(const table_core& x)\n  {\n    if(arrays.elements){"
    if s.count(a) == 1:
        d = W + "/gen/boost/unordered/detail/foa"
        os.makedirs(d)
        open(d + "/core.hpp", "w").write(s.replace(a, a.replace("arrays.elements){", "arrays.elements&&x.arrays.elements){")))
P
INC="-I$W/gen -I$R/include -I$D/env"
FLAGS="-std=c++20 -pthread -w @FLAGS@"
n=0
for f in "$D"/demo.cpp @LIB@; do
    n=$((n + 1))
    @CXX@ $FLAGS $INC -c "$f" -o "$W/$n.o" || touch "$W/failed" &
done
wait
[ -e "$W/failed" ] && exit 3
@CXX@ $FLAGS "$W"/*.o -o "$W/demo" -lfmt -lgmp -lboost_serialization -ltbb -ldl || exit 3
cd "$W" && @RUN@ ./demo
'''
specs = sys.argv[1]
for i in sys.argv[2:]:
    ns = {}
    exec(open(os.path.join(specs, i + ".py")).read(), ns)
    S = ns["S"]
    d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seedw.")
    try:
        R = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
        for f, a, b in S["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert a in s, (f, a)
            open(p, "w").write(s.replace(a, b, 1))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copytree(os.path.join(V, "env"), os.path.join(d, "env"), ignore=shutil.ignore_patterns("*.md"))
        shutil.copy(os.path.join(specs, i + ".cpp"), os.path.join(d, "demo.cpp"))
        for x in S.get("files", []):
            shutil.copy(os.path.join(specs, x), d)
        lib = S.get("lib")
        if lib is None:
            libs = '$(find "$R/src" -name "*.cpp" ! -name "libbacktrace*")'
        else:
            libs = " ".join('"$R/src/%s"' % x for x in lib)
        sh = SH.replace("@FLAGS@", S.get("flags", "-O1")).replace("@LIB@", libs).replace("@CXX@", S.get("cxx", "g++")).replace("@RUN@", S.get("run", "timeout 200"))
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = [subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(S.get("tries", 2))]
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
        good = [subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(S.get("tries", 2))]
        ok = all(x.returncode not in (0, 3) for x in bad) and all(x.returncode == 0 for x in good)
        print(i, "OK" if ok else "BAD", [x.returncode for x in bad], [x.returncode for x in good], flush=True)
        if not ok:
            print(bad[0].stdout[-1500:], "\n--- good\n", good[0].stdout[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
