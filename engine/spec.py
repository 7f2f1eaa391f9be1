"""Contract DSL and obligation management.

A property module (specs/Cxx.py) defines  TUS (translation units extracted from /repo on every run),
DRIVER (C++ replay/bounded driver) and functions  v_*(V)  that put real functions under contract:

    r = V.fn("Cantera::Phase::massFraction", this="Cantera::Phase", requires=[...])
    r.ensures("name", goal)

`fn` symbolically executes the body of the real function from an arbitrary pre-state satisfying
`requires`; each ensures clause, each loop invariant (initialisation, preservation) and each lemma is
one obligation discharged by engine.prover.
"""
import time, traceback, os, sys, json, re
from . import terms as tm
from .terms import *
from . import exec as xx
from .exec import Exec, Loc, Ptr, PObj, NULL, EArr, PyFn, Unsupported, Unreach, NONNEG, conjuncts, nonneg
from . import lib, eigen, prover, ctypes_ as ct
from .extract import Program, ExtractError
from fractions import Fraction as Fr

PR = prover

def load_phys():
    import math
    xx.PHYS.update({"Avogadro": 6.02214076e26, "Boltzmann": 1.380649e-23, "GasConstant": 8314.46261815324, "OneAtm": 101325.0,
        "OneBar": 1e5, "Faraday": 96485332.1233, "Pi": math.pi, "Sqrt2": math.sqrt(2), "StefanBoltz": 5.670374419e-8,
        "ElectronCharge": 1.602176634e-19, "Planck": 6.62607015e-34, "Tiny": 1e-20, "SmallNumber": 1e-300, "BigNumber": 1e300,
        "ElectronMass": 9.1093837015e-31, "lightSpeed": 299792458.0, "epsilon_0": 8.8541878128e-12, "GasConst_cal_mol_K": 1.987204})
load_phys()

# ---- term helpers for specs -------------------------------------------------
def Rs(n): return sym(n, "R")
def Is(n, nonneg=True):
    if nonneg: NONNEG.add(n)
    return sym(n, "I")
def Bs(n): return sym(n, "B")
def Ss(n): return sym(n, "S")
def Os(n): return sym(n, "O")
def As(n, elem="R", dim=1): return sym(n, asort(dim, elem))
def at(a, *i): return sel(a, tuple(lift(x) for x in i))
def lift(x): return x if isinstance(x, T) else (I(x) if isinstance(x, int) else R(x))
def L(x, like): return x if isinstance(x, T) else num(Fr(x), like.sort)
def bv(): return freshbv()
def summ(n, f, lo=0):
    v = freshbv(); return Sum(v, lift(lo), lift(n), f(v))
def prodd(n, f, lo=0):
    v = freshbv(); return Prod(v, lift(lo), lift(n), f(v))
def forall(n, f, lo=0):
    v = freshbv(); return Forall(v, lift(lo), lift(n), f(v))
def exists(n, f, lo=0):
    v = freshbv(); return Exists(v, lift(lo), lift(n), f(v))
def array(f, dim=1):
    vs = tuple(freshbv() for _ in range(dim)); return lam(vs, f(*vs))
def pos(t): return lt(num(0, t.sort), t)
def nneg(t): return le(num(0, t.sort), t)
def fn_r(name, *args): return mk("uf", (name,) + tuple(args), "R")

class Obl:
    __slots__ = ("name", "hyps", "goal", "kind", "fn", "status", "how", "info", "secs", "model", "timeout")
    def __init__(s, name, hyps, goal, kind, fn="", timeout=None):
        s.name, s.hyps, s.goal, s.kind, s.fn = name, list(hyps), goal, kind, fn
        s.status = None; s.how = ""; s.info = ""; s.secs = 0.0; s.model = None; s.timeout = timeout

def lo_eq(a, b):
    if isinstance(a.sort, tuple):
        ks = tuple(fresh("ix", "I") for _ in range(a.sort[1]))
        return eq(sel(a, ks), sel(b, ks))
    if a.sort == "O": return TRUE if a is b else mk("eq", (a, b), "B")
    return eq(a, b)
class ContractMissing(Exception): pass

class V:
    def __init__(self, pid, prog, timeout=30.0):
        self.pid = pid; self.prog = prog; self.obls = []; self.functions = []; self.timeout = timeout
        self.notes = set(); self.opaque = set(); self.assume_list = set(); self.runs = []; self.section = ""
    def find(self, q, sub=None):
        c = self.prog.find(q, sub)
        c = [f for f in c if f.get("body")]
        if not c: raise ContractMissing("function %s%s not found in the extracted sources" % (q, " (%s)" % sub if sub else ""))
        return c[0]
    def assume(self, text): self.assume_list.add(text)
    def fn(self, q, this=None, sub=None, requires=(), mem=None, args=None, contracts=None, dyn=None, opaque=(), extents=None,
           immut=(), name=None, loops=True, strict=False, count=True, this_loc=None, expect_throw=False, nn=(), recur=(), recur_axioms=(), invariants=None):
        fd = self.find(q, sub)
        ex = Exec(self.prog, contracts or {}, dyn or {}, opaque)
        ex.extents = dict(extents or {}); ex.immut = set(immut); ex.strict_inline = strict
        ex.invariants = dict(invariants or {})
        ex.recur = list(recur); ex.recur_axioms = list(recur_axioms)      # candidate loop invariants for recurrences
        th = None
        if fd.get("method") or fd.get("cls"):
            if not fd.get("static"):
                th = this_loc or Loc(("this",))
                if this: ex.dyn[th.path] = this
        for k, v in (mem or {}).items():
            ex.st.mem[tuple(k.split(".")) if isinstance(k, str) else k] = v
        for h in requires:
            for c in conjuncts(lift(h)): ex.assume(c) if c is not TRUE else None
        a = args
        if a is None: a = self.default_args(ex, fd)
        elif callable(a): a = a(ex, fd)
        r = Run(self, ex, fd, list(requires), name or short(fd["q"]))
        r.args = a; r.this_loc = th
        r.premem = dict(ex.st.mem)
        try:
            r.ret = ex.call_fn(fd, th, a, ctor=bool(fd.get("isctor")))
            r.alive = True
        except Unreach:
            r.ret = None; r.alive = False
        r.rt = fd.get("rt", "void")
        r.finish()
        if count:
            self.functions.append(fd["sig"]); self.runs.append(r)
        for s in ex.inlined: 
            if s != fd["sig"]: r.inl.add(s)
        self.notes |= {"%s: %s" % (r.name, n) for n in ex.notes}
        self.opaque |= ex.opaque_used
        if loops:
            for i, lo in enumerate(ex.loop_obls):
                for what, g in zip(("init", "preserved"), lo.goal):
                    gg = lo_eq(*g)
                    if gg is TRUE and what == "init": continue
                    self.obls.append(Obl("%s.%s.loop.%s.%s.%s#%d" % (self.pid, r.name, short(lo.fn) if lo.fn else "", what, re.sub("~[0-9]+", "", lo.what), i), list(requires) + list(recur_axioms) + list(lo.hyp), gg, "loop invariant", fd["sig"]))
        return r
    def default_args(self, ex, fd):
        out = []
        for i, p in enumerate(fd["params"]):
            out.append((self.argval(ex, p["t"], "arg%d" % i), p["t"]))
        return out
    def argval(self, ex, t, root):
        k = ex.cls(t)
        l = Loc((root,))
        if ct.is_ref(t): return l
        if k[0] in ("R", "I", "B", "S"):
            if ct.is_unsigned(t): NONNEG.add(root)
            return sym(root, k[0])
        if k[0] in ("ptr", "iter"):
            pk = ex.cls(k[1])[0]
            if k[0] == "iter" or pk in ("R", "I", "B", "S", "ptr"): return Ptr(l, IZERO)
            return PObj(l)
        if k[0] == "sptr": return PObj(l.f("*"))
        return l
    def lemma(self, name, hyps, goal, kind="lemma", timeout=None):
        self.obls.append(Obl("%s.%s" % (self.pid, name), list(hyps), goal, kind, "", timeout))

def short(q):
    return re.sub(r"\(.*", "", q).replace("Cantera::", "")

def in_range(t):
    """drop from the body of sums, products and foralls the conditions their range implies"""
    memo = {}
    def go(t):
        if t in memo: return memo[t]
        if t.op in ("sum", "prod", "forall"):
            fr, rest = tm.open_binder(t); lo, hi, body = rest[:3]; b = fr[0]
            body = replace(body, {le(lo, b): TRUE, lt(b, hi): TRUE}); body = go(body); lo = go(lo); hi = go(hi)
            r = {"sum": tm.Sum, "prod": tm.Prod, "forall": tm.Forall}[t.op](b, lo, hi, body)
        else:
            m = {x: go(x) for x in tm.kids(t)} if t.op not in tm.BINDERS else {}
            m = {k: v for k, v in m.items() if k is not v}
            r = replace(t, m) if m else t
        memo[t] = r
        return r
    return go(t)

class Run:
    def __init__(self, V, ex, fd, requires, name):
        self.V, self.ex, self.fd, self.requires, self.name = V, ex, fd, requires, name; self.inl = set()
    def finish(self):
        ex = self.ex
        self.st = ex.st
        self.pc = list(ex.st.pc) if self.alive and ex.st is not None else [FALSE]
        self.throws = or_(*[and_(*s.pc) for s, _ in ex.throws if s is not None]) if ex.throws else FALSE
        if self.alive: ex.st = self.st
    def _path(self, p): return tuple(p.split(".")) if isinstance(p, str) else tuple(p)
    # value of memory leaf after / before the call
    def post(self, path, sort="R", dim=0):
        p = self._path(path)
        if self.st is None: raise Unsupported("no normal exit")
        self.ex.st = self.st
        if dim == 0 and "[]" not in p: return self.ex.rdarr(p, sort)
        return self.ex.rdarr(p, sort)
    def postnn(self, path):
        """is the pointer stored at path non-null after the call"""
        p = self._path(path); self.ex.st = self.st
        v = self.st.mem.get(p)
        if v is None: return self.ex.rdarr(p + ("#nn",), "B")
        return self.ex.truth(v)
    def postat(self, path, idx, sort="R"):
        return at(self.post(path, sort), *(idx if isinstance(idx, tuple) else (idx,)))
    def pre(self, path, sort="R", dim=None):
        p = self._path(path); n = p.count("[]") if dim is None else dim
        return sym(".".join(p), asort(n, sort) if n else sort)
    @property
    def result(self):
        v = self.ret
        if isinstance(v, (Loc, xx.LIte)):
            self.ex.st = self.st
            k = self.ex.cls(self.rt)[0]
            if k in ("R", "I", "B", "S"): return self.ex.load(v, self.rt)
        return v
    def retpath(self):
        if isinstance(self.ret, Loc): return self.ret
        raise Unsupported("return value is not an object")
    def retleaf(self, *suffix, sort="R"):
        l = self.retpath()
        self.ex.st = self.st
        A = self.ex.rdarr(l.path + tuple(suffix), sort)
        if l.idx: A = sel(A, l.idx)
        return A
    def ensures(self, name, goal, extra=(), timeout=None):
        self.V.obls.append(Obl("%s.%s.%s" % (self.V.pid, self.name, name), self.requires + self.pc + list(extra), goal, "postcondition", self.fd["sig"], timeout))
    def always(self, name, goal, extra=()):
        """goal under the requires only (also when an exception is thrown)"""
        self.V.obls.append(Obl("%s.%s.%s" % (self.V.pid, self.name, name), self.requires + list(extra), goal, "postcondition", self.fd["sig"]))
    def throws_iff(self, name, cond):
        self.V.obls.append(Obl("%s.%s.%s" % (self.V.pid, self.name, name), self.requires, eq(in_range(self.throws), cond), "exceptional postcondition", self.fd["sig"]))
    def throws_if(self, name, cond):
        self.V.obls.append(Obl("%s.%s.%s" % (self.V.pid, self.name, name), self.requires + [cond], self.throws, "exceptional postcondition", self.fd["sig"]))
    def nothrow(self, name="no_exception"):
        self.V.obls.append(Obl("%s.%s.%s" % (self.V.pid, self.name, name), self.requires, not_(self.throws), "exceptional postcondition", self.fd["sig"]))
    def throw_ensures(self, name, f, only=None):
        """f(get) must hold in the state of every exceptional exit; get(path, sort) reads that state"""
        keep = self.ex.st
        for i, (s, what) in enumerate(self.ex.throws):
            if s is None or (only and only not in str(what)): continue
            self.ex.st = s
            g = f(lambda path, sort="R": self.ex.rdarr(self._path(path), sort))
            self.V.obls.append(Obl("%s.%s.%s#%d" % (self.V.pid, self.name, name, i), self.requires + list(s.pc), g, "exceptional postcondition", self.fd["sig"]))
        self.ex.st = keep
    def throw_frame(self, allowed=(), roots=("this",), name="unchanged_when_rejected"):
        keep = self.st
        for i, (s, what) in enumerate(self.ex.throws):
            if s is None: continue
            self.st = s; pc = self.pc; self.pc = list(s.pc)
            try: self.frame(allowed, roots, name + "#%d" % i)
            finally: self.st = keep; self.pc = pc
    def frame(self, allowed, roots=("this",), name="frame"):
        """only the listed paths (prefixes) under the given roots may differ from the pre-state; every other
        written leaf must equal its initial value"""
        al = [self._path(a) for a in allowed]
        goals = []
        self.ex.st = self.st
        for k, v in self.st.mem.items():
            if k[0] not in roots or not isinstance(v, T): continue
            if any(k[:len(a)] == a for a in al): continue
            so = v.sort
            ini = self.premem.get(k)
            if ini is None: ini = sym(".".join(k), so)
            if v is ini: continue
            if isinstance(so, tuple):
                vs = tuple(fresh("fr", "I") for _ in range(so[1]))
                goals.append(eq(sel(v, vs), sel(ini, vs)))
            else: goals.append(eq(v, ini))
        for (p, tok) in self.st.epoch:
            if p[0] in roots and not any(p[:len(a)] == a for a in al) and "~" not in p[0]:
                goals.append(FALSE)
        self.ensures(name, and_(*goals) if goals else TRUE)

# ------------------------------------------------------------------ discharge
def discharge(o, timeout, seed=1, refute=True):
    t0 = time.time()
    try:
        r = PR.prove(o.hyps, o.goal, o.timeout or timeout)
        o.status, o.how, o.info = r.status, r.how, r.info
    except Exception as e:
        o.status, o.how, o.info = "unknown", "internal", "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_TRACE"): traceback.print_exc()
    if o.status != "proved" and refute:
        try:
            f, md, n = PR.refute(o.hyps, o.goal, seed=seed)
            if f is True:
                o.status = "refuted"; o.model = PR.model_report(md)
            elif f is None:
                o.status = "unknown"; o.info += " (counterexample depends on an abstracted value)"
            else: o.info += " (no counterexample in %d models)" % n
        except Exception as e: o.info += " refuter: %r" % e
    o.secs = time.time() - t0
    return o
