#!/usr/bin/env python3
"""Maintenance aid: make /verif/seeded/<id>/ from a spec file tools/seeds/<id>.py and confirm it in scratch copies.
The spec defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (C++ text), SRC ("none"|"framing"|"all")."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDR = '''#!/bin/bash
# Runs in the repository root. Builds the demonstration against the sources found there.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -g -w -pthread -fsanitize=address -D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I$D/shim -Iinclude -I$D"
'''
TAIL = {
 "none": 'g++ $F "$D/demo.cpp" -o "$T/demo" || exit 3\n',
 "script": '''python3 scripts/gen_flat_cpp_structs.py "$D/db.json" -al -o "$T/defs.hpp" > /dev/null 2>&1 || exit 1
g++ $F -I"$T" "$D/demo.cpp" -o "$T/demo" || exit 1
''',
 "framing": '''for s in src/common/src/*.cpp src/decoders/common/src/common.cpp src/decoders/common/src/framer.cpp src/decoders/common/src/framer_manager.cpp src/decoders/oem/src/framer*.cpp "$D/demo.cpp"; do echo "$s"; done |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "$1" -o "'"$T"'/$(echo "$1" | tr / _).o"' _ {} || exit 3
g++ $F "$T"/*.o -o "$T/demo" -lspdlog -lfmt || exit 3
''',
 "all": '''for s in $(find src/common/src src/decoders/common/src src/decoders/oem/src -name '*.cpp') "$D/demo.cpp"; do echo "$s"; done |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "$1" -o "'"$T"'/$(echo "$1" | tr / _).o"' _ {} || exit 3
g++ $F "$T"/*.o -o "$T/demo" -lspdlog -lfmt || exit 3
'''}
RUN = 'cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo\nexit $?\n'


def sh(c, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def make(i):
    g = {}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), g)
    out = os.path.join(V, "seeded", i)
    scr = "/tmp/seed-" + i
    shutil.rmtree(scr, ignore_errors=True)
    sh("cp -a %s %s" % (os.environ.get("VERIF_REPO", "/repo"), scr))
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    src = g.get("SRC", "all")
    for n, c in g.get("FILES", {}).items():
        open(os.path.join(out, n), "w").write(c)
    if src not in ("none", "script"):
        shutil.copytree(os.path.join(V, "harness/shim"), os.path.join(out, "shim"))
    open(os.path.join(out, "demo.cpp"), "w").write(g["DEMO"])
    open(os.path.join(out, "demo.sh"), "w").write(HDR + TAIL[src] + RUN)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % out, cwd=scr)
    for f, old, new in g["EDITS"]:
        p = os.path.join(scr, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(i, "EDIT matches", t.count(old), f, old[:60]); return 1
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff", cwd=scr).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    r1 = sh("bash %s/demo.sh" % out, cwd=scr)
    tst = "skip"
    print(i, "clean:", r0.returncode, "patched:", r1.returncode)
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode == 0 or r1.returncode == 3: print(r1.stdout[-1500:])
    a = sh("git apply --check %s/patch.diff" % out, cwd=os.environ.get("VERIF_REPO", "/repo"))
    if a.returncode: print("APPLY", a.stdout)
    shutil.rmtree(scr)
    return 0 if r0.returncode == 0 and r1.returncode not in (0, 3) else 1


sys.exit(max([make(i) for i in sys.argv[1:]] or [0]))
