"""Compile a driver against the current sources of /repo: the prebuilt archive is used only for
translation units whose transitive text equals the pinned baseline; everything else is recompiled."""
import hashlib, json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import extract
BASE = os.path.join(extract.VERIF, "tools/base_hashes.json")
INC = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
LIBS = ["-lsundials_cvodes", "-lsundials_idas", "-lfmt", "-lyaml-cpp", "-lopenblas", "-lpthread"]
ALWAYS = ["src/base/Array.cpp", "src/numerics/BandMatrix.cpp", "src/kinetics/PlogRate.cpp", "src/kinetics/ChebyshevRate.cpp", "src/thermo/ConstCpPoly.cpp", "src/base/Units.cpp", "src/zeroD/flowControllers.cpp", "src/numerics/Func1.cpp", "src/numerics/Func1Factory.cpp"]   # files repaired by fix: commits (the prebuilt archive may predate them)

def tree(repo):
    out = {}
    for base in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(repo, base)):
            for f in fs:
                if f.endswith((".h", ".hpp", ".inl", ".cpp", ".c")):
                    p = os.path.join(d, f); out[os.path.relpath(p, repo)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out

def closure(repo, rel, memo, deps):
    """transitive repo-relative includes"""
    seen = set(); todo = [rel]
    while todo:
        r = todo.pop()
        if r in seen: continue
        seen.add(r)
        if r not in deps:
            L = []
            try: txt = open(os.path.join(repo, r), "rb").read()
            except OSError: txt = b""
            for m in INC.finditer(txt):
                inc = m.group(1).decode()
                for c in (os.path.join("include", inc), os.path.join("src", inc), os.path.normpath(os.path.join(os.path.dirname(r), inc))):
                    if os.path.exists(os.path.join(repo, c)): L.append(c); break
            deps[r] = L
        todo.extend(deps[r])
    return seen

GENERATED = {"include/cantera/base/config.h"}
SKIP = ("src/fortran/", "src/matlab", "src/extensions/", "src/SCons", "interfaces/")
def changed_tus(repo=None):
    repo = repo or extract.REPO
    base = json.load(open(BASE)); cur = tree(repo)
    ch = {f for f, h in cur.items() if f not in GENERATED and base.get(f) != h}
    gone = [f for f in base if f not in cur and f.endswith(".cpp")]
    deps = {}; out = []
    for f in sorted(cur):
        if f.endswith((".cpp", ".c")) and f.startswith("src/") and not f.startswith(SKIP):
            if closure(repo, f, None, deps) & (ch | set(ALWAYS)): out.append(f)
    return out, ch, gone

class BuildError(Exception): pass

def compile_objs(tus, outdir, opt="-O1", extra=()):
    os.makedirs(outdir, exist_ok=True)
    def one(rel):
        p = os.path.join(extract.REPO, rel)
        o = os.path.join(outdir, rel.replace("/", "_") + ".o")
        cmd = ["g++", "-std=c++17", opt, "-fPIC", "-pthread", "-w"] + list(extra) + extract.incflags() + ["-c", p, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return (rel, o, r.returncode, r.stderr)
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for rel, o, rc, err in ex.map(one, tus):
            if rc: raise BuildError("compiling %s: %s" % (rel, err[-1500:]))
            objs.append(o)
    return objs

def build_driver(src, workdir, defs=()):
    """returns path of the executable"""
    tus, ch, gone = changed_tus()
    lib = os.path.join(extract.REPO, "build/lib/libcantera.a")
    if not os.path.exists(lib):
        tus = sorted(f for f in tree(extract.REPO) if f.endswith(".cpp") and f.startswith("src/") and not f.startswith(SKIP)); lib = None
    opt = "-O1" if len(tus) <= 24 else "-O0"
    do = os.path.join(workdir, "driver.o"); res = {}
    def dr():
        r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-fno-access-control", "-DVERIF_DATA=\"%s\"" % os.path.join(extract.REPO, "data"),
                            "-I" + os.path.join(extract.VERIF, "drivers")] + list(defs) + extract.incflags() + ["-c", src, "-o", do], capture_output=True, text=True)
        res["rc"] = r.returncode; res["err"] = r.stderr
    import threading
    th = threading.Thread(target=dr); th.start()
    objs = compile_objs(tus, os.path.join(workdir, "objs"), opt)
    th.join()
    if res["rc"]: raise BuildError("driver: " + res["err"][-3000:])
    exe = os.path.join(workdir, "driver")
    cmd = ["g++", "-Wl,-S", do] + objs + ([lib] if lib else []) + LIBS + ["-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
    return exe, tus

if __name__ == "__main__":
    if sys.argv[1] == "manifest":
        json.dump(tree(extract.REPO), open(BASE, "w"), indent=0, sort_keys=True)
    elif sys.argv[1] == "changed": print(changed_tus())
