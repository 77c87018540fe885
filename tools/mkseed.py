#!/usr/bin/env python3
"""mkseed.py [id...]: writes seeded/<id>/ from seedsrc/<id>.seed. Format of a .seed file: sections started by lines
'### name': property, needs, breaks, edit FILE (old text, a line '>>>>', new text; repeatable), demo (C++ body of main; CHECK(c) fails)."""
import os, sys, re, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = os.path.join(V, "seedsrc")
common = open(os.path.join(V, "harness", "cascommon.hpp")).read().replace('#include "symx.h"', '#include <cstring>\n#include <cstdint>\n#include <cstdio>\n#include <cstdlib>')
SH = '''#!/bin/bash
# builds the demonstration against /repo's build tree and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); cd "$W" || exit 99
J=/usr/lib/jvm/java-17-openjdk-amd64/include; L=/repo/_build/tree/src/framework/.libs
g++ -std=gnu++17 -O1 -DNDEBUG -fno-access-control -w -D_REENTRANT -D_GNU_SOURCE -D_LARGEFILE64_SOURCE -I/repo/src/framework -I/repo/src/cas -I/repo/src/jni -I/repo/src/utils -I/usr/include/apr-1.0 -I$J -I$J/linux "$D/demo.cpp" -o demo -L$L -luima -lapr-1 -lxerces-c -licuuc -licuio -licui18n -licudata -pthread || { rm -rf "$W"; exit 98; }
LD_LIBRARY_PATH=$L timeout 120 ./demo; rc=$?
cd /; rm -rf "$W"; exit $rc
'''
ids = sys.argv[1:] or sorted(f[:-5] for f in os.listdir(src) if f.endswith(".seed"))
for i in ids:
    secs = re.split(r"^### (.*)$\n", open(os.path.join(src, i + ".seed")).read(), flags=re.M)[1:]
    d = {}; edits = []
    for n, b in zip(secs[::2], secs[1::2]):
        if n.startswith("edit "): edits.append((n[5:].strip(), b))
        else: d[n.strip()] = b.strip("\n")
    o = os.path.join(V, "seeded", i); os.makedirs(o, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"]); 
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x" % (tmp, tmp), shell=True)
        for f, b in edits:
            old, new = b.split("\n>>>>\n") if "\n>>>>\n" in b else (b.split(">>>>\n")[0], b.split(">>>>\n")[1])
            old = old.rstrip("\n"); new = new.rstrip("\n")
            p = os.path.join(tmp, f); t = open(p, newline="", encoding="latin-1").read()
            if "\r\n" in t: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
            if t.count(old) != 1: print(i, "edit matches", t.count(old), "times:", old[:80]); sys.exit(1)
            open(p, "w", newline="", encoding="latin-1").write(t.replace(old, new))
        open(os.path.join(o, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", tmp, "diff"]))
    finally: shutil.rmtree(tmp)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    open(os.path.join(o, "democommon.hpp"), "w").write(common)
    inc = d.get("include", "")
    if '"eng.hpp"' in inc: open(os.path.join(o, "eng.hpp"), "w").write(open(os.path.join(V, "harness", "eng.hpp")).read().replace("cascommon.hpp", "democommon.hpp"))
    open(os.path.join(o, "demo.cpp"), "w").write('#include "democommon.hpp"\n#include <cassert>\n%s\n#define CHECK(c) do{ if(!(c)){ fprintf(stderr,"failed: %%s\\n",#c); exit(1);} }while(0)\n%s\nint main(){\n%s\n return 0; }\n' % (inc, d.get("decl", ""), d["demo"]))
    open(os.path.join(o, "demo.sh"), "w").write(SH); os.chmod(os.path.join(o, "demo.sh"), 0o755)
    print(i, "written")
