#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [--keep-going]
Decides one property: builds the harness of the property against /repo's current tree (instrumented and native), lets the
symbolic executor explore every scenario, replays every candidate counterexample against the native (ASan) build of the
same code and reports only reproduced ones."""
import os, sys, json, subprocess, time, re, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.update(LC_ALL="C", LANG="C", TZ="UTC")
import symxbuild
from symxbuild import VERIF, REPO, BuildError
QUICK_BUDGET, THOROUGH_BUDGET = 140.0, 760.0

def known_file():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def demangle(names):
    if not names: return {}
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    o = r.stdout.decode(errors="replace").split("\n")
    return {n: (o[i] if i < len(o) else n) for i, n in enumerate(names)}

def replay(exe, scen, assigns, wd, tag, thorough):
    """native runs; returns list of (status, obs, [labels], stderr excerpt)"""
    if not assigns: return []
    inf, outf = os.path.join(wd, tag + ".in"), os.path.join(wd, tag + ".out")
    with open(inf, "w") as f:
        for a in assigns: f.write(a + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_container_overflow=0:strict_string_checks=0:detect_odr_violation=0")
    try:
        subprocess.run([exe, "--scenario", scen, "--replay", inf, "--out", outf] + (["--thorough"] if thorough else []), env=env, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        lines = open(outf).read().split("\n")
    except Exception as e:
        return [("norun", "-", [], str(e))] * len(assigns)
    res = []
    for i in range(len(assigns)):
        p = (lines[i] if i < len(lines) else "norun|-|").split("|", 2)
        err = ""
        ef = outf + ".err.%d" % i
        if os.path.exists(ef):
            t = open(ef, errors="replace").read()
            m = re.search(r"ERROR: AddressSanitizer: .*?(?=\n\n|\nSUMMARY|\Z)", t, re.S)
            err = (m.group(0) if m else t)[:1500]
        res.append((p[0], p[1], [l for l in p[2].split("\t") if l] if len(p) > 2 else [], err))
    return res

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]; thorough = "--thorough" in sys.argv
    only = [a[len("--scenario="):] for a in sys.argv if a.startswith("--scenario=")]
    verbose = "--verbose" in sys.argv
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = THOROUGH_BUDGET if thorough else QUICK_BUDGET
    for a in sys.argv:
        if a.startswith("--budget="): budget = float(a[9:])
    wd = os.path.join(VERIF, "build", "run", "%s-%d" % (pid, os.getpid())); os.makedirs(wd, exist_ok=True)
    evdir = os.path.join(VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay"); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"): os.unlink(os.path.join(rdir, f))
    try:
        exes = symxbuild.build_harness([pid])
    except BuildError as e:
        print("BUILD ERROR\n%s" % e); sys.exit(2)
    sym, asan = exes[(pid, "sym")], exes[(pid, "asan")]
    tb = time.time() - t0
    scens = subprocess.run([sym, "--list"], stdout=subprocess.PIPE).stdout.decode().split()[::-1]
    if not thorough: scens = [s for s in scens if not s.startswith("deep_")]
    if only: scens = only
    known = known_file()
    tot = dict(paths=0, assume_killed=0, branch_steps=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0, asserts=0, mem_checks=0, concs=0, observations=0, native_overwrites=0)
    validated = mism = 0; viols = []; knowns = {}; unrep = []; samples = []; reached = set(); sites = {}; perscen = []; mismatches = []; incomplete = []; errors = []
    spent0 = time.time()
    for i, s in enumerate(scens):
        left = budget - (time.time() - spent0)
        share = max(3.0, 2 * left / (len(scens) - i + 1))
        of = os.path.join(wd, s + ".json")
        cmd = [sym, "--scenario", s, "--out", of, "--budget", "%.1f" % share, "--jobs", str(symxbuild.JOBS), "--path-timeout", "90" if thorough else "30"] + (["--thorough"] if thorough else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=share + 120, cwd=wd)
            d = json.load(open(of))
        except Exception as e:
            # the explorer itself died (for example because set-up code crashed): ask the native build
            rr = replay(asan, s, [""], wd, s + ".setup", thorough)[0]
            if rr[0].startswith("crash") or rr[0] == "norun":
                n = run_setup_native(asan, s, wd)
                if n: viols.append((s, "crash in set-up: " + n[:200], "", n)); continue
            errors.append("%s: explorer failed: %s" % (s, e)); incomplete.append(s); continue
        for k in tot: tot[k] += d.get(k, 0)
        reached.update(d["reached"])
        for st, kind, cnt in d["sites"]:
            o = sites.setdefault(st, [0, 0]); o[0] |= kind; o[1] += cnt
        # candidates
        cand = [(l, a) for l, a, _ in d["violations"]] + [("memory: " + l, a) for l, a in d["mem"]] + [("crash: " + l, a) for l, a in d["crash"]]
        res = replay(asan, s, [a for _, a in cand], wd, s + ".cand", thorough)
        for (l, a), (st, ob, labels, err) in zip(cand, res):
            kn = [x[6:] for x in labels if x.startswith("KNOWN:")]
            lab = [x for x in labels if not x.startswith("KNOWN:")]
            for k in kn: knowns.setdefault(k, (s, a))
            if lab: viols.append((s, lab[0] if l not in lab else l, a, ""))
            elif st.startswith("crash") or st == "timeout": viols.append((s, "%s (%s)" % (l, st), a, err))
            else: unrep.append("%s: %s [%s] native: %s" % (s, l, a[:200], st))
        kr = replay(asan, s, [a for _, a in d["known"]], wd, s + ".known", thorough)
        for (k, a), (st, ob, labels, err) in zip(d["known"], kr):
            if "KNOWN:" + k in labels: knowns.setdefault(k, (s, a))
            elif st.startswith("crash"): viols.append((s, "crash at known " + k, a, err))
            else: unrep.append("%s: known %s [%s] native: %s" % (s, k, a[:200], st))
        # validation of the encoding: explored paths run natively must observe the same values
        sm = d["samples"]; step = max(1, len(sm) // (300 if thorough else 100)); sm = sm[::step]
        sr = replay(asan, s, [a for a, _ in sm], wd, s + ".smp", thorough)
        for (a, ob), (st, nob, labels, err) in zip(sm, sr):
            for x in labels:
                if x.startswith("KNOWN:"): knowns.setdefault(x[6:], (s, a))
                else: viols.append((s, x, a, ""))
            if st == "ok" and nob == ob: validated += 1
            elif st == "ok" or st == "assume" or st == "norun": mism += 1; mismatches.append("%s: [%s] %s" % (s, a[:200], st))
            elif st.startswith("crash"): viols.append((s, "native crash (%s)" % st, a, err))
            elif st == "timeout": mism += 1
        samples += [{"scenario": s, "inputs": a} for a, _ in sm[:3]]
        if not d["complete"]: incomplete.append("%s (%s%s%s)" % (s, d["stop"], "; %d errors" % len(d["errors"]) if d["errors"] else "", "; unknown %s" % d["unknown_at"][:3] if d["unknown_at"] else ""))
        errors += ["%s: %s" % (s, x) for x in d["errors"][:3]]
        perscen.append({k: d[k] for k in ("scenario", "complete", "stop", "paths", "assume_killed", "pending", "queries", "unsat", "sat", "unknown", "cached", "solver_s", "asserts", "wall", "max_pc")})
        if verbose: print(json.dumps(perscen[-1]), "viol", len(d["violations"]), "mem", len(d["mem"]), "crash", len(d["crash"]), "err", d["errors"][:2], "unk", d["unknown_at"][:3], flush=True)
    # report
    rc = 0
    seen = set(); out = []
    for s, l, a, err in viols:
        if (s, l) in seen: continue
        seen.add((s, l)); out.append((s, l, a, err))
    for n, (s, l, a, err) in enumerate(out):
        p = os.path.join(rdir, "%s-%d.txt" % (pid, n))
        with open(p, "w") as f:
            f.write("property: %s\nscenario: %s\nviolated: %s\ninputs: %s\nreplay: echo '%s' > in; %s --scenario %s --replay in --out out%s\n%s\n" % (pid, s, l, a, a, asan, s, " --thorough" if thorough else "", err))
        if n < 12:
            print("VIOLATION property=%s replay=%s" % (pid, p)); print("  scenario %s: %s; inputs %s" % (s, l, a[:400]))
        rc = 1
    for k, (s, a) in sorted(knowns.items()):
        if (pid, k) in known: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[(pid, k)]))
        else:
            p = os.path.join(rdir, "%s-k-%s.txt" % (pid, k))
            with open(p, "w") as f: f.write("property: %s\nscenario: %s\nviolated: %s (not a listed finding)\ninputs: %s\n" % (pid, s, k, a))
            print("VIOLATION property=%s replay=%s" % (pid, p)); rc = 1
    src = open(os.path.join(VERIF, "harness", pid + ".cpp")).read()
    want = set(re.findall(r'symx_reached\("([^"]+)"\)', src))
    missing = sorted(want - reached)
    fn = {}
    for st, (kind, cnt) in sites.items():
        f, _, loc = st.partition("|")
        o = fn.setdefault((f, loc.split(":")[0]), [0, 0]); o[0] |= kind; o[1] += cnt
    dm = demangle([k[0] for k in fn])
    own = [v for k, v in [((f, l), dm[f]) for f, l in fn] if "symxbody" not in k[0]]
    def infra(k): return k[1] in ("icu_model.cpp", "libc_model.c", "main.cpp", pid + ".cpp") or k[1].startswith("stl_") or k[1].endswith(".tcc")
    enc = sorted(set("%s (%s)" % (dm[k[0]][:140], k[1]) for k in fn if not infra(k) and "symx" not in k[0]))
    bounds = re.findall(r"^// BOUND: (.*)$", src, re.M); outside = re.findall(r"^// OUTSIDE: (.*)$", src, re.M)
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["branch_steps"], "traces_validated_against_impl": validated,
                       "samples": samples[:12], "exhaustive": not incomplete and not errors,
                       "paths_explored": tot["paths"], "paths_outside_bounds": tot["assume_killed"], "property_assertions_evaluated": tot["asserts"],
                       "solver_queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "queries_answered_from_cache": tot["cached"], "solver_s": round(tot["solver_s"], 3),
                       "memory_safety_queries": tot["mem_checks"], "observations": tot["observations"],
                       "functions_encoded_with_symbolic_data": enc[:400], "n_functions_encoded": len(enc),
                       "bounds": bounds, "outside_bounds": outside, "scenarios": perscen, "incomplete": incomplete, "engine_errors": errors[:10],
                       "reach_labels_expected": sorted(want), "reach_labels_missing": missing,
                       "candidates_not_reproduced": unrep[:20], "model_mismatches": mism, "mismatch_samples": mismatches[:5], "known_findings_seen": sorted(knowns)},
          "assumptions": ["bounds as listed; loops are executed, not unrolled: every path within the bounds is followed to its end",
                          "clang -O1 IR of the current source is what is encoded; ICU string functions and libc string functions are modelled (validated by native replay)",
                          "z3 4.8.12 answers are trusted; path/branch engine in /verif/symx"],
          "wall_s": round(time.time() - t0, 2), "violations": len(out)}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s: %d scenarios, %d paths, %d queries (%d unsat, %d unknown), %.1fs solver, %d asserts, %d/%d traces validated, incomplete %s, missing %s, unreproduced %d, errors %d, build %.1fs, wall %.1fs" % (
        pid, len(scens), tot["paths"], tot["queries"], tot["unsat"], tot["unknown"], tot["solver_s"], tot["asserts"], validated, validated + mism, incomplete, missing, len(unrep), len(errors), tb, time.time() - t0))
    if verbose:
        for x in unrep[:10]: print("UNREPRODUCED", x)
        for x in mismatches[:10]: print("MISMATCH", x)
        for x in errors[:10]: print("ERROR", x)
    shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def run_setup_native(exe, scen, wd):
    inf = os.path.join(wd, "setup.in"); open(inf, "w").write("\n")
    r = subprocess.run([exe, "--scenario", scen, "--replay", inf, "--out", os.path.join(wd, "setup.out")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=wd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:detect_odr_violation=0"))
    return r.stdout.decode(errors="replace")[-1500:] or "exit %d" % r.returncode if r.returncode != 0 else ""

if __name__ == "__main__":
    main()
