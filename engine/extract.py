"""Mechanical extraction of /repo's current C++ sources (clang front end -> JSON)."""
import hashlib, json, os, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
FLAGS = ["-std=c++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

class ExtractError(Exception): pass

_lock = threading.Lock(); _tool = None
def ensure_dirs():
    global CACHE
    try:
        os.makedirs(CACHE, exist_ok=True)
        fd, t = tempfile.mkstemp(dir=CACHE); os.close(fd); os.unlink(t)
    except OSError:
        CACHE = "/tmp/verif-cache"; os.makedirs(CACHE, exist_ok=True)

def cxxdump():
    """path of the extractor, built once per process (and cached on disk)"""
    global _tool
    with _lock:
        if _tool: return _tool
        ensure_dirs()
        src = os.path.join(VERIF, "tools/cxxdump/cxxdump.cpp")
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        exe = os.path.join(CACHE, "cxxdump-" + h)
        if not os.path.exists(exe):
            fd, tmp = tempfile.mkstemp(dir=CACHE, prefix="cxxdump."); os.close(fd)
            r = subprocess.run([os.path.join(VERIF, "tools/cxxdump/build.sh"), tmp], capture_output=True, text=True)
            if r.returncode: raise ExtractError("cxxdump build failed: " + r.stderr[-2000:])
            os.chmod(tmp, 0o755); os.rename(tmp, exe)
        _tool = (exe, h)
        return _tool

_hdr = {}
def header_hash():
    if REPO in _hdr: return _hdr[REPO]
    h = hashlib.sha256()
    for base in ("include", "src", "ext"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            if base == "ext" and "cantera" not in d: pass
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inl", ".h.in")):
                    p = os.path.join(d, f)
                    h.update(p[len(REPO):].encode()); h.update(open(p, "rb").read())
    _hdr[REPO] = h.hexdigest()
    return _hdr[REPO]

def incflags():
    fl = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    if not os.path.exists(os.path.join(REPO, "include/cantera/base/config.h")):
        fl.append("-I" + os.path.join(VERIF, "tools/fallback"))
    fl += ["-I/usr/include/eigen3", "-include", os.path.join(REPO, "src/pch/system.h")]
    return fl

def dump_one(rel):
    exe, eh = cxxdump()
    p = os.path.join(VERIF, "tools/inst", rel[1:]) if rel.startswith("@") else os.path.join(REPO, rel)
    if not os.path.exists(p): raise ExtractError("missing source " + p)
    key = hashlib.sha256((eh + header_hash() + rel + REPO).encode() + open(p, "rb").read()).hexdigest()[:32]
    out = os.path.join(CACHE, "tu-%s-%s.json" % (os.path.basename(rel).replace(".", "_").replace("@", ""), key))
    if not os.path.exists(out):
        for att in range(60):
            try:
                r = subprocess.run([exe, REPO + "/", p, "--"] + FLAGS + incflags(), capture_output=True, text=True); break
            except OSError as e:      # ETXTBSY right after the tool was written
                if e.errno != 26 or att == 59: raise ExtractError("cannot run the extractor: %s" % e)
                time.sleep(0.5)
        if r.returncode: raise ExtractError("extraction of %s failed: %s" % (rel, r.stderr[-1500:]))
        fd, tmp = tempfile.mkstemp(dir=CACHE, prefix="tu.")
        with os.fdopen(fd, "w") as fh: fh.write(r.stdout)
        os.rename(tmp, out)
    return json.load(open(out))

class Program:
    def __init__(self, tus):
        cxxdump(); header_hash()
        self.fns = {}; self.byq = {}; self.records = {}; self.enums = set(); self.tus = list(tus)
        with ThreadPoolExecutor(8) as ex:
            ds = list(ex.map(dump_one, tus))
        for d in ds: self.add(d)
    def add(self, d):
        for f in d["functions"]:
            if f["sig"] in self.fns: continue
            self.fns[f["sig"]] = f
            self.byq.setdefault(f["q"], []).append(f)
        for k, r in d["records"].items(): self.records.setdefault(k, r)
        self.enums.update(d.get("enums", []))
    def find(self, q, sub=None):
        """function by qualified name (optionally a substring of its signature)"""
        c = [f for f in self.byq.get(q, []) if sub is None or sub in f["sig"]]
        if not c and sub is None:
            c = [f for s, f in self.fns.items() if s.startswith(q + "(")]
        if not c: c = [f for s, f in self.fns.items() if s == q]
        return c
