"""Builds the tool (pass, runtime), the instrumented and the native objects of /repo, and harness executables.
Objects are cached under /verif/build by the content of every file they depend on, so a changed /repo is always rebuilt."""
import os, sys, json, hashlib, subprocess, re, threading, fcntl, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(VERIF, "symx")
JOBS = len(os.sched_getaffinity(0)) or 4
CLANG, CLANGC = "clang++", "clang"
LLVMC = "/usr/lib/llvm-18/bin/llvm-config"

def sh(b):
    return hashlib.sha256(b).hexdigest()[:32]
_fh = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    h = _fh.get(k)
    if h is None:
        with open(p, "rb") as f: h = sh(f.read())
        _fh[k] = h
    return h

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")

def tool_so(name, src, cmd):
    os.makedirs(BUILD, exist_ok=True)
    key = sh((fhash(src) or "").encode() + " ".join(cmd).encode())
    out = os.path.join(BUILD, "%s-%s.so" % (name, key[:12]))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(cmd + [src, "-o", tmp] + (["-lz3"] if name == "symxrt" else []))
        os.rename(tmp, out)
    return out

def tools():
    cxxflags = run([LLVMC, "--cxxflags"]).split()
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(tool_so, "symxpass", os.path.join(SYMX, "SymxPass.cpp"), [CLANG, "-O2", "-fPIC", "-shared"] + cxxflags)
        b = ex.submit(tool_so, "symxrt", os.path.join(SYMX, "rt.cpp"), [CLANG, "-O2", "-g1", "-fPIC", "-shared", "-fvisibility=hidden", "-std=c++17"])
        return a.result(), b.result()

DEFS = ["-DNDEBUG", "-DTRACEOFF", "-D_REENTRANT", "-D_GNU_SOURCE", "-D_LARGEFILE64_SOURCE", "-DUIMA_PREFIX=/repo/_build/install", "-DUIMA_VERSION=2.5.0"]
def includes():
    jdk = "/usr/lib/jvm/java-17-openjdk-amd64/include"
    return ["-I" + REPO + "/src/framework", "-I" + REPO + "/src/cas", "-I" + REPO + "/src/jni", "-I/usr/include/apr-1.0", "-I/usr/include/apr-1", "-I" + jdk, "-I" + jdk + "/linux"]
COMMON = ["-std=gnu++17", "-fno-access-control", "-w", "-fPIC", "-pthread"]
SYMFLAGS = ["-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-include", os.path.join(SYMX, "symxpre.h"), "-fno-stack-protector", "-U_FORTIFY_SOURCE"]
ASANFLAGS = ["-O1", "-gline-tables-only", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSYMX_NATIVE"]

def flags(mode, pass_so, lib):
    f = COMMON + DEFS + (["-D_UIMA_LIBRARY_"] if lib else []) + includes() + ["-I" + SYMX]
    if mode == "sym":
        return f + SYMFLAGS + ["-fpass-plugin=" + pass_so]
    return f + ASANFLAGS

def lib_sources():
    mk = open(os.path.join(REPO, "src/framework/Makefile.am")).read()
    out = []
    for m in re.finditer(r"^libuima_la_SOURCES\s*\+?=\s*(\S+)", mk, re.M):
        out.append(os.path.normpath(os.path.join(REPO, "src/framework", m.group(1))))
    return out

_lock = threading.Lock()
def compile_obj(src, mode, pass_so, lib, extra=()):
    """returns the object path; direct-mode cache on the hashes of all non-system dependencies"""
    cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)
    fl = flags(mode, pass_so, lib) + list(extra)
    isc = src.endswith(".c")
    if isc: fl = [x for x in fl if not x.startswith("-std=") and x != "-fno-access-control"]
    base = sh((src + "\0" + "\0".join(fl)).encode())
    man = os.path.join(cdir, base + ".json")
    ents = []
    if os.path.exists(man):
        try: ents = json.load(open(man))
        except Exception: ents = []
    for e in ents:
        if all(fhash(p) == h for p, h in e["deps"]) and os.path.exists(os.path.join(cdir, e["obj"])):
            return os.path.join(cdir, e["obj"])
    dep = os.path.join(cdir, base + ".%d.d" % os.getpid()); tmp = os.path.join(cdir, base + ".%d.o" % os.getpid())
    run([CLANGC if isc else CLANG] + fl + ["-MMD", "-MF", dep, "-c", src, "-o", tmp])
    txt = open(dep).read().replace("\\\n", " "); os.unlink(dep)
    deps = [d for d in txt.split(":", 1)[1].split()]
    deps = sorted(set(os.path.normpath(d) for d in deps))
    dl = [(d, fhash(d)) for d in deps]
    key = sh(json.dumps([base, dl]).encode())
    obj = key + ".o"
    os.rename(tmp, os.path.join(cdir, obj))
    ents = [e for e in ents if e["obj"] != obj][-6:] + [{"deps": dl, "obj": obj}]
    t2 = man + ".%d.tmp" % os.getpid()
    json.dump(ents, open(t2, "w")); os.rename(t2, man)
    return os.path.join(cdir, obj)

LIBS = ["-lxerces-c", "-lapr-1", "-laprutil-1", "-licuuc", "-licuio", "-licui18n", "-licudata", "-lpthread", "-ldl"]

def build_harness(names, modes=("sym", "asan"), log=None):
    """names: harness source names (without .cpp). Returns {(name,mode): exe}."""
    os.makedirs(BUILD, exist_ok=True)
    lockf = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        pass_so, rt_so = tools()
        jobs = []  # (kind, mode, src, lib, extra)
        for mode in modes:
            for s in lib_sources(): jobs.append(("lib", mode, s, True, ()))
            jobs.append(("sup", mode, os.path.join(SYMX, "main.cpp"), False, ()))
            if mode == "sym":
                jobs.append(("sup", mode, os.path.join(SYMX, "icu_model.cpp"), False, ()))
                jobs.append(("sup", mode, os.path.join(SYMX, "libc_model.c"), False, ("-fno-builtin",)))
            else:
                jobs.append(("sup", mode, os.path.join(SYMX, "native.cpp"), False, ()))
            for n in names: jobs.append(("h:" + n, mode, os.path.join(VERIF, "harness", n + ".cpp"), False, ()))
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: compile_obj(j[2], j[1], pass_so, j[3], j[4]), jobs))
        res = {}
        def link(nm):
            n, mode = nm
            os_ = [o for o, j in zip(objs, jobs) if j[1] == mode and (j[0] in ("lib", "sup") or j[0] == "h:" + n)]
            key = sh(("\0".join(os_) + mode + (rt_so if mode == "sym" else "")).encode())
            exe = os.path.join(BUILD, "exe", "%s-%s-%s" % (n, mode, key[:16]))
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = exe + ".%d.tmp" % os.getpid()
                for f in os.listdir(os.path.dirname(exe)):
                    if f.startswith("%s-%s-" % (n, mode)) and time.time() - os.path.getmtime(os.path.join(os.path.dirname(exe), f)) > 1800:
                        try: os.unlink(os.path.join(os.path.dirname(exe), f))
                        except OSError: pass
                cmd = [CLANG, "-fuse-ld=lld", "-pthread", "-o", tmp] + os_
                cmd += ["-fsanitize=address"] if mode == "asan" else [rt_so, "-Wl,-rpath," + BUILD, "-rdynamic"]
                run(cmd + LIBS); os.rename(tmp, exe)
            return (nm, exe)
        with ThreadPoolExecutor(JOBS) as ex:
            for nm, exe in ex.map(link, [(n, m) for n in names for m in modes]): res[nm] = exe
        return res
    finally:
        lockf.close()

def prune_cache(max_age_s=6*3600, keep_bytes=6 << 30):
    cdir = os.path.join(BUILD, "cache")
    if not os.path.isdir(cdir): return
    refd = set()
    for f in os.listdir(cdir):
        if f.endswith(".json"):
            try:
                for e in json.load(open(os.path.join(cdir, f))): refd.add(e["obj"])
            except Exception: pass
    for f in os.listdir(cdir):
        if f.endswith(".o") and f not in refd:
            try: os.unlink(os.path.join(cdir, f))
            except OSError: pass

if __name__ == "__main__":
    names = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp"))
    t = time.time()
    try:
        for k, v in build_harness(names).items(): print(k, v)
    except BuildError as e:
        print(e); sys.exit(2)
    print("built in %.1fs" % (time.time() - t))
