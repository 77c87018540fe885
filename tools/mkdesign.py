#!/usr/bin/env python3
"""Regenerates DESIGN.md: the fixed text below plus, per property, the bounds stated in its harness."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, "tools/design_head.md")).read()
TAIL = open(os.path.join(V, "tools/design_tail.md")).read()
# what is compared with what, and why tests do not settle it
HOW = {}
for l in open(os.path.join(V, "tools/design_how.txt")):
    l = l.rstrip("\n")
    if not l: continue
    k, t = l.split(" ", 1); HOW[k] = t
na = {}
m = json.load(open(os.path.join(V, "MANIFEST.json")))
for x in m["not_applicable"]: na[x["property"]] = x["reason"]
out = [HEAD.rstrip("\n"), "", "## 3. Per property", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s %s" % (i, p["title"])); out.append("")
    if i in na: out += ["Not applicable: " + na[i] + ".", ""]; continue
    src = open(os.path.join(V, "harness", i + ".cpp")).read()
    b = re.findall(r"^// BOUND: (.*)$", src, re.M); o = re.findall(r"^// OUTSIDE: (.*)$", src, re.M)
    if not b:
        for f in re.findall(r'#include "((?:S|E|F|I)\d\d\.cpp)"', src):
            s2 = open(os.path.join(V, "harness", f)).read(); b += re.findall(r"^// BOUND: (.*)$", s2, re.M); o += re.findall(r"^// OUTSIDE: (.*)$", s2, re.M)
    sc = re.findall(r"^SYMX_SCENARIO(?:_SETUP)?\((\w+)", src, re.M)
    out.append("How: " + HOW.get(i, "the real functions run on symbolic inputs against an oracle written in the harness") + "."); out.append("")
    for x in b: out.append("- within: " + x.rstrip(".") + ".")
    for x in o: out.append("- outside: " + x.rstrip(".") + ".")
    ev = os.path.join(V, "evidence", i + ".json")
    if sc: out.append("- scenarios: " + ", ".join(sc) + ".")
    out.append("")
out.append("## 4. Findings"); out.append("")
out.append("Every entry was first reported by a check with inputs that fail natively. All but the ones marked known are repaired by `fix:` commits in /repo.")
out.append("")
for l in open(os.path.join(V, "known_findings.txt")):
    mm = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if mm: out.append("- %s `%s` %s" % mm.groups()); continue
    mm = re.match(r"known: property=(\w+) id=(\w+) (.*)", l)
    if mm: out.append("- %s **known, not repaired** (id %s): %s" % mm.groups())
out += ["", "## 5. Planted bugs", "", "Each is in seeded/<id>/ (generated from seedsrc/ by tools/mkseed.py, confirmed by tools/seedtest.sh). \"caught by\" lists the checks that were run against it and report it.", "", "| id | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    x = json.load(open(d)); out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), x["property"], x["needs"], x["what_it_breaks"]))
out += ["", TAIL.rstrip("\n")]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
