"""Symbolic executor over the extracted C++ AST: computes, for every function body and for all
inputs, the post-state as closed terms over the pre-state (strongest postcondition).
Loops are summarised by closed-form invariants, each of which is emitted as an
initialisation and a preservation obligation (see self.loop_obls)."""
from . import terms as tm
from .terms import *
from . import ctypes_ as ct
from fractions import Fraction as Fr
import math

class Unsupported(Exception): pass
class Unreach(Exception): pass

class Loc:
    __slots__ = ("path", "idx")
    def __init__(s, path, idx=()): s.path = tuple(path); s.idx = tuple(idx)
    def f(s, name): return Loc(s.path + (name,), s.idx)
    def el(s, i): return Loc(s.path + ("[]",), s.idx + (i,))
    def __repr__(s): return "Loc(%s;%s)" % (".".join(s.path), ",".join(map(str, s.idx)))
    def same(s, o): return s.path == o.path and s.idx == o.idx
class Ptr:
    __slots__ = ("loc", "off")
    def __init__(s, loc, off): s.loc = loc; s.off = off
    def __repr__(s): return "Ptr(%r+%s)" % (s.loc, s.off)
class PObj:
    __slots__ = ("loc",)
    def __init__(s, loc): s.loc = loc
    def __repr__(s): return "PObj(%r)" % s.loc
class Null:
    def __repr__(s): return "NULL"
NULL = Null()
class PIte:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
class LIte:
    """conditional lvalue"""
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __repr__(s): return "LIte(%s,%r,%r)" % (s.c, s.a, s.b)
class Clo:
    def __init__(s, node, env, this, frame): s.node, s.env, s.this, s.frame = node, env, this, frame
class Functor:
    def __init__(s, name): s.name = name
class FnRef:
    def __init__(s, node): s.node = node
class PyFn:
    def __init__(s, f): s.f = f
class EArr:
    """Eigen/elementwise expression: length and element function"""
    def __init__(s, n, f): s.n = n; s.f = f

PYVAL = (Ptr, PObj, Null, PIte, Clo, Functor, FnRef, PyFn, EArr)

NONNEG = set()          # names of integer symbols of unsigned type
SYMTYPE = {}            # symbol name -> C++ type (for reports / replay)
PHYS = {}               # physical constants: name -> float

PHYSNAMES = {"GasConstant", "Avogadro", "Boltzmann", "Faraday", "OneAtm", "OneBar", "ElectronCharge", "ElectronMass",
             "Planck", "lightSpeed", "StefanBoltz", "epsilon_0", "permeability_0", "Pi", "Sqrt2", "GasConst_cal_mol_K", "toSI",
             "Tiny", "SmallNumber", "BigNumber", "CK_Tmin", "CK_Tmax", "CK_Pmin", "CK_Pmax", "Undef", "Polymer_max"}
FLOATNAMES = {}

class State:
    __slots__ = ("mem", "pc", "epoch")
    def __init__(s, mem=None, pc=(), epoch=()):
        s.mem = mem if mem is not None else {}; s.pc = pc; s.epoch = epoch
    def clone(s): return State(dict(s.mem), s.pc, s.epoch)

class Frame:
    def __init__(s, fn, this):
        s.fn = fn; s.this = this; s.env = {}; s.returns = []; s.dyn = None; s.retloc = None; s.clos = {}

_ctr = [0]
def uid():
    _ctr[0] += 1; return _ctr[0]

NOOPS = {"Cantera::warn_user", "Cantera::writelog", "Cantera::writelogf", "Cantera::warn_deprecated", "Cantera::writeline",
         "Cantera::writelogendl", "Cantera::debuglog", "Cantera::warn", "Cantera::_warn", "Cantera::_warn_user", "Cantera::_warn_deprecated",
         "Cantera::checkFinite", "printf", "std::printf", "fprintf", "Cantera::AssertTrace", "std::__debug_assert"}
STDMATH1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh",
            "erf": "erf", "log10": "log10", "floor": "floor", "ceil": "ceil", "atan": "atan", "asin": "asin", "acos": "acos", "cbrt": "cbrt",
            "log1p": "log1p", "expm1": "expm1", "round": "round", "tgamma": "tgamma", "lgamma": "lgamma", "log2": "log2", "exp2": "exp2", "erfc": "erfc"}

def addpart(t, h):
    """t = h + delta with delta free of h, or None"""
    if t is h: return num(0, h.sort)
    if not occurs(t, h): return None
    if t.op == "ite" and not occurs(t.args[0], h):
        a = addpart(t.args[1], h); b = addpart(t.args[2], h)
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.op == "add":
        hs = [a for a in t.args if occurs(a, h)]
        if len(hs) != 1: return None
        d = addpart(hs[0], h)
        return None if d is None else add(d, *[a for a in t.args if a is not hs[0]])
    return None
def mulpart(t, h):
    if t is h: return num(1, h.sort)
    if not occurs(t, h): return None
    if t.op == "ite" and not occurs(t.args[0], h):
        a = mulpart(t.args[1], h); b = mulpart(t.args[2], h)
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.op == "mul":
        hs = [a for a in t.args if occurs(a, h)]
        if len(hs) != 1: return None
        d = mulpart(hs[0], h)
        return None if d is None else mul(d, *[a for a in t.args if a is not hs[0]])
    if t.op == "add":
        ds = [mulpart(a, h) for a in t.args]
        return None if any(d is None for d in ds) else add(*ds)
    return None

def linear_in(t, v):
    """t = a*v + b with numeric a, b free of v -> (a, b) or None"""
    if not occurs(t, v): return Fr(0), t
    if t is v: return Fr(1), num(0, t.sort)
    if t.op == "add":
        a = Fr(0); rest = []
        for x in t.args:
            r = linear_in(x, v)
            if r is None: return None
            a += r[0]; rest.append(r[1])
        return a, add(*rest) if len(rest) > 1 else rest[0]
    if t.op == "mul" and isnum(t.args[0]):
        rest = mul(*t.args[1:]) if len(t.args) > 2 else t.args[1]
        r = linear_in(rest, v)
        if r is None: return None
        return r[0] * val(t.args[0]), mul(t.args[0], r[1])
    return None

def solve_eq(c, v):
    """if boolean c (a conjunct) is an integer equation with unique solution v = e, return e"""
    if c.op != "eq" or c.args[0].sort != "I": return None
    r = linear_in(sub(c.args[0], c.args[1]), v)
    if r is None or abs(r[0]) != 1: return None
    return mul(num(-r[0], "I"), r[1])

def conjuncts(c): return c.args if c.op == "and" else (c,)

def nonneg(t):
    """syntactic: integer term known >= 0"""
    if t.op == "num": return val(t) >= 0
    if t.op == "sym": return t.args[0] in NONNEG
    if t.op == "sel": return t.args[0].op == "sym" and t.args[0].args[0] in NONNEG
    if t.op == "add" or t.op == "mul": return all(nonneg(a) for a in t.args)
    if t.op == "ite": return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "uf": return t.args[0] in NONNEG
    return False

def smallmax0(n): return n if nonneg(n) else ite(le(IZERO, n), n, IZERO)

def mkexists(v, lo, hi, c):
    """exists with unique-solution elimination"""
    if c is FALSE: return FALSE
    if v not in c.fv: return and_(lt(lo, hi), c)
    for cj in conjuncts(c):
        e = solve_eq(cj, v)
        if e is not None:
            return and_(subst(c, {v: e}), le(lo, e), lt(e, hi))
    if c.op == "or":
        return or_(*[mkexists(v, lo, hi, x) for x in c.args])
    return Exists(v, lo, hi, c)

def mksum(v, lo, hi, body):
    if body.op == "num" and val(body) == 0: return body
    if body.op == "ite":
        for z, pos in ((body.args[2], True), (body.args[1], False)):
            if z.op == "num" and val(z) == 0:
                c = body.args[0] if pos else not_(body.args[0])
                for cj in conjuncts(c):
                    e = solve_eq(cj, v)
                    if e is not None:
                        other = body.args[1] if pos else body.args[2]
                        return ite(and_(subst(c, {v: e}), le(lo, e), lt(e, hi)), subst(other, {v: e}), z)
    if v not in body.fv and isnum(sub(hi, lo)): pass
    return Sum(v, lo, hi, body)

class LoopObl:
    def __init__(s, fn, line, what, hyp, goal): s.fn, s.line, s.what, s.hyp, s.goal = fn, line, what, hyp, goal

class Exec:
    def __init__(self, prog, contracts=None, dyn=None, opaque=(), inline_depth=40):
        self.prog = prog; self.contracts = contracts or {}; self.dyn = dict(dyn or {})
        self.opaque = set(opaque); self.st = State(); self.frames = []; self.throws = []
        self.loops = []; self.depth = 0; self.maxdepth = inline_depth
        self.notes = set(); self.invariants = {}; self.loop_obls = []; self.inlined = set(); self.used_contracts = set()
        self.enums = frozenset(prog.enums); self.ptypes = {}; self.havocs = set(); self.nloops = 0
        self.immut = set(); self.extents = {}; self.pure_roots = set(); self.globals = {}
        self.tokcache = {}; self.opaque_used = set(); self.havoc_calls = set()
    # ---- types ---------------------------------------------------------------
    def cls(self, t): return ct.cls(t, self.enums)
    def sortof(self, t):
        k = self.cls(t)[0]
        return k if k in ("R", "I", "B", "S") else "O"
    def is_scalar(self, t): return self.cls(t)[0] in ("R", "I", "B", "S")
    # ---- memory --------------------------------------------------------------
    def fieldtype(self, t, f):
        r = self.prog.records.get(ct.strip(t))
        if r is None: return None
        for x in r["fields"]:
            if x["name"] == f: return x["t"]
        for b in r["bases"]:
            y = self.fieldtype(b, f)
            if y: return y
        return None
    def initsym(self, path, sort, t=None):
        n = path.count("[]")
        s = sort if n == 0 else asort(n, sort)
        name = ".".join(path)
        if t is not None and ct.is_unsigned(t): NONNEG.add(name)
        if path[-1] == "#len": NONNEG.add(name)
        # epoch (opaque mutation of an enclosing object)
        for (p, tok) in reversed(self.st.epoch):
            if path[:len(p)] == p and path[-1] != "#st":
                nm = "fld:" + ".".join(path[len(p):]) 
                if t is not None and ct.is_unsigned(t) or path[-1] == "#len": NONNEG.add(nm)
                if isinstance(tok.sort, tuple):
                    k = tok.sort[1]
                    bv = tuple(freshbv() for _ in range(n))
                    inner = mk("uf", (nm, sel(tok, bv[:k])), asort(n - k, sort) if n > k else sort)
                    return lam(bv, sel(inner, bv[k:]) if n > k else inner)
                return mk("uf", (nm, tok), s)
        if t is not None: SYMTYPE.setdefault(name, t)
        return sym(name, s)
    def rdarr(self, path, sort, t=None):
        v = self.st.mem.get(path)
        if v is None:
            v = self.initsym(path, sort, t)
        return v
    def rd(self, loc, t=None, sort=None):
        sort = sort or self.sortof(t)
        v = self.rdarr(loc.path, sort, t)
        if not isinstance(v, T): raise Unsupported("pointer read as scalar %s" % (loc,))
        if loc.idx:
            v = sel(v, loc.idx)
        if v.sort != sort and v.sort in ("I", "R", "B") and sort in ("I", "R", "B"):
            v = self.conv(v, sort)
        return v
    def conv(self, v, sort):
        if v.sort == sort: return v
        if sort == "R": return toR(v)
        if sort == "I": return trunc(v) if v.sort == "R" else b2n(v, "I")
        if sort == "B": return ne(v, num(0, v.sort))
        raise Unsupported("conv %s->%s" % (v.sort, sort))
    def wr(self, loc, v, sort=None, t=None):
        sort = sort or self.sortof(t)
        if v.sort != sort: v = self.conv(v, sort)
        if not loc.idx: self.st.mem[loc.path] = v
        else: self.st.mem[loc.path] = store(self.rdarr(loc.path, sort, t), loc.idx, v)
    def rdptr(self, loc, t):
        v = self.st.mem.get(loc.path)
        if v is not None:
            if isinstance(v, PYVAL) : return v
            raise Unsupported("bad pointer value at %s" % (loc,))
        k = self.cls(t)
        pt = k[1] if len(k) > 1 else "void"
        return self.defptr(loc.f("*"), pt, k[0])
    def defptr(self, l, pointee, kind="ptr"):
        pk = self.cls(pointee)[0]
        if kind == "iter" or (kind == "ptr" and pk in ("R", "I", "B", "S", "ptr")): return Ptr(l, IZERO)
        return PObj(l)
    def load(self, v, t):
        if isinstance(v, LIte): return self.mergeval(v.c, self.load(v.a, t), self.load(v.b, t))
        if not isinstance(v, Loc): return v
        k = self.cls(t)[0]
        if k in ("R", "I", "B", "S"): return self.rd(v, t)
        if k in ("ptr", "sptr", "iter"): return self.rdptr(v, t)
        if k in ("fn", "functor"):
            x = self.st.mem.get(v.path)
            if x is not None: return x
            return v
        return v
    # enumerate leaf suffixes of a type: list of (suffix, sort or 'P', type)
    def leaves(self, t, depth=0):
        k = self.cls(t)
        if depth > 5: return []
        if k[0] in ("R", "I", "B", "S"): return [((), k[0], t)]
        if k[0] in ("ptr", "sptr", "iter", "fn", "functor"): return [((), "P", t)]
        if k[0] in ("vec", "map"):
            return [(("#len",), "I", "unsigned long")] + [(("[]",) + s, so, tt) for s, so, tt in self.leaves(k[1], depth + 1)]
        if k[0] == "evec":
            return [(("#len",), "I", "unsigned long"), (("[]",), "R", k[1])]
        if k[0] == "arr":
            return [(("[]",) + s, so, tt) for s, so, tt in self.leaves(k[1], depth + 1)]
        if k[0] == "pair":
            return [(("first",) + s, so, tt) for s, so, tt in self.leaves(k[1], depth + 1)] + \
                   [(("second",) + s, so, tt) for s, so, tt in self.leaves(k[2], depth + 1)]
        if k[0] == "rec":
            out = []; seen = set()
            def rec(n):
                if n in seen: return
                seen.add(n)
                r = self.prog.records.get(n)
                if r is None: return
                for f in r["fields"]:
                    out.extend(((f["name"],) + s, so, tt) for s, so, tt in self.leaves(f["t"], depth + 1))
                for b in r["bases"]: rec(ct.strip(b))
            rec(k[1])
            return out + [(("#st",), "O", "opaque")]
        return [(("#st",), "O", "opaque")]
    def copy_agg(self, dst, src, t):
        if isinstance(src, EArr):
            self.store_earr(dst, src); return
        if not isinstance(src, Loc): raise Unsupported("copy from %r" % (src,))
        if dst.same(src): return
        new = []
        lv = list(self.leaves(t))
        if src.path + ("el", "[]", "[]") in self.st.mem: lv.append(((("el", "[]", "[]")), "R", "double"))   # element view of a matrix object, see Array2D contracts
        for suf, so, tt in lv:
            sp = src.path + suf; dp = dst.path + suf
            if so == "P":
                if dst.idx or suf.count("[]"):
                    self.notes.add("pointer elements inside copied containers not tracked"); continue
                try: v = self.rdptr(Loc(sp, src.idx), tt) if self.cls(tt)[0] not in ("fn", "functor") else self.st.mem.get(sp)
                except Unsupported: v = None
                if v is not None: new.append((dp, v))
                continue
            n = suf.count("[]")
            A = self.rdarr(sp, so, tt)
            if not dst.idx:
                if not src.idx: new.append((dp, A))
                elif n == 0: new.append((dp, sel(A, src.idx)))
                else:
                    bv = tuple(freshbv() for _ in range(n)); new.append((dp, lam(bv, sel(A, src.idx + bv))))
            else:
                m = len(dst.idx)
                bi = tuple(freshbv() for _ in range(m)); bv = tuple(freshbv() for _ in range(n))
                old = self.rdarr(dp, so, tt)
                s = sel(A, src.idx + bv) if (src.idx + bv) else A
                new.append((dp, lam(bi + bv, ite(and_(*[eq(x, y) for x, y in zip(bi, dst.idx)]), s, sel(old, bi + bv)))))
        for p, v in new: self.st.mem[p] = v
    def store_earr(self, dst, e):
        bv = freshbv()
        body = e.f(bv)
        if dst.idx: raise Unsupported("store Eigen expression into indexed location")
        self.st.mem[dst.path + ("#len",)] = e.n
        self.st.mem[dst.path + ("[]",)] = lam((bv,), body)
    def tmp(self, t=None, name="tmp"): return Loc(("%s~%d" % (name, uid()),))
    # ---- object token --------------------------------------------------------
    def token(self, loc):
        """a term that determines the whole abstract state of the object at loc"""
        p = loc.path
        st = self.rdarr(p + ("#st",), "O")
        if loc.idx: st = sel(st, loc.idx)
        ch = []
        for k in sorted(self.st.mem):
            if k[:len(p)] == p and k[-1] != "#st" and len(k) > len(p):
                v = self.st.mem[k]
                if isinstance(v, T):
                    if v.op in ("sym",) and v.args[0] == ".".join(k): continue
                    if loc.idx and isinstance(v.sort, tuple):
                        n = v.sort[1]; m = len(loc.idx)
                        if n == m: v = sel(v, loc.idx)
                        else:
                            bv = tuple(freshbv() for _ in range(n - m)); v = lam(bv, sel(v, loc.idx + bv))
                    ini = self.initsym(k, v.sort[2] if isinstance(v.sort, tuple) and not loc.idx else v.sort) if not loc.idx else None
                    if ini is v: continue
                    ch.append((k[len(p):], v))
        if not ch: return st
        return mk("uf", ("obj:" + ";".join(".".join(k) for k, _ in ch), st) + tuple(v for _, v in ch), "O")
    def bump(self, loc, name, args):
        tok = self.token(loc)
        new = mk("uf", (name + "#st", tok) + tuple(args), "O")
        p = loc.path
        st = self.rdarr(p + ("#st",), "O")
        if loc.idx:
            arr = store(st, loc.idx, new)
        else: arr = new
        keep = {}
        for k in list(self.st.mem):
            if k[:len(p)] == p and len(k) > len(p) and k[len(p)] not in self.immut:
                del self.st.mem[k]
        self.st.mem[p + ("#st",)] = arr
        self.st.epoch = self.st.epoch + ((p, arr),)
    # ---- values --------------------------------------------------------------
    def term_of(self, v, t):
        """any value as a term (for UF arguments)"""
        if isinstance(v, T): return v
        if isinstance(v, Loc):
            k = self.cls(t)[0]
            if k in ("R", "I", "B", "S"): return self.rd(v, t)
            if k in ("vec", "evec", "arr", "map", "pair", "rec", "opaque", "emat"): return self.agg_term(v, t)
            if k in ("ptr", "sptr", "iter"): return self.term_of(self.rdptr(v, t), t)
            return self.token(v)
        if isinstance(v, PScalar):
            if self.is_scalar(self.cls(t)[1] if len(self.cls(t)) > 1 else "double"): return self.rd(v.loc, self.cls(t)[1])
            return mk("uf", ("ptr:" + ".".join(v.loc.path),) + v.loc.idx, "O")
        if isinstance(v, Ptr):
            k = self.cls(t)
            pt = k[1] if len(k) > 1 and k[0] in ("ptr", "iter", "sptr") else "double"
            if self.is_scalar(pt) or self.cls(pt)[0] == "void":
                so = self.sortof(pt) if self.is_scalar(pt) else "R"
                bv = freshbv()
                A = self.rdarr(v.loc.path + ("[]",), so, pt)
                return lam((bv,), sel(A, v.loc.idx + (add(v.off, bv),)))
            return mk("uf", ("ptr:" + ".".join(v.loc.path),) + v.loc.idx + (v.off,), "O")
        if isinstance(v, PObj): return self.token(v.loc)
        if isinstance(v, Null): return sym("NULL", "O")
        if isinstance(v, PIte): return ite(v.c, self.term_of(v.a, t), self.term_of(v.b, t))
        if isinstance(v, Clo): return strlit("lambda@%s" % v.node.get("l"))
        if isinstance(v, EArr):
            bv = freshbv(); return lam((bv,), v.f(bv))
        return strlit(repr(v))
    def agg_term(self, loc, t):
        parts = []
        for suf, so, tt in self.leaves(t):
            if so == "P": continue
            n = suf.count("[]"); A = self.rdarr(loc.path + suf, so, tt)
            if loc.idx:
                bv = tuple(freshbv() for _ in range(n))
                A = lam(bv, sel(A, loc.idx + bv)) if n else sel(A, loc.idx)
            parts.append(A)
        if len(parts) == 1: return parts[0]
        return mk("uf", ("agg",) + tuple(parts), "O")
    def truth(self, v, t=None):
        if isinstance(v, T): return self.conv(v, "B") if v.sort in ("I", "R", "B") else uf("truth", [v], "B")
        if isinstance(v, PObj): return self.nn(v.loc)
        if isinstance(v, Ptr): return self.nn(v.loc)
        if isinstance(v, Null): return FALSE
        if isinstance(v, PIte): return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Clo, Functor, FnRef, PyFn)): return TRUE
        if isinstance(v, Loc):  # std::function
            return self.nn(v.f("*"))
        raise Unsupported("truth of %r" % (v,))
    def nn(self, l):
        p = l.path
        root = p[0]
        if "~" in root or root == "this" and len(p) == 1: return TRUE
        if p[-1] == "*" or root.startswith("arg"):
            return self.rd(Loc((p[:-1] if p[-1] == "*" else p) + ("#nn",), l.idx[:(p[:-1] if p[-1]=="*" else p).count("[]")]), sort="B")
        return TRUE
    def mergeval(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if a is None: return b
        if b is None: return a
        if c is TRUE: return a
        if c is FALSE: return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc.path == b.loc.path:
            return Ptr(Loc(a.loc.path, [ite(c, x, y) for x, y in zip(a.loc.idx, b.loc.idx)]), ite(c, a.off, b.off))
        if isinstance(a, Loc) and isinstance(b, Loc) and a.path == b.path:
            return Loc(a.path, [ite(c, x, y) for x, y in zip(a.idx, b.idx)])
        if isinstance(a, PObj) and isinstance(b, PObj) and a.loc.path == b.loc.path:
            return PObj(Loc(a.loc.path, [ite(c, x, y) for x, y in zip(a.loc.idx, b.loc.idx)]))
        if isinstance(a, (Ptr, PObj, Null, PIte)) and isinstance(b, (Ptr, PObj, Null, PIte)): return PIte(c, a, b)
        if isinstance(a, (Loc, LIte)) and isinstance(b, (Loc, LIte)): return LIte(c, a, b)
        # a literal 0 used as a pointer (its implicit conversion is not printed by the extractor)
        z = lambda x: NULL if isinstance(x, T) and x.op == "num" and val(x) == 0 else x
        if isinstance(a, (Ptr, PObj, PIte)) and z(b) is NULL or isinstance(b, (Ptr, PObj, PIte)) and z(a) is NULL: return PIte(c, z(a), z(b))
        if isinstance(a, EArr) and isinstance(b, EArr): return EArr(ite(c, a.n, b.n), lambda i: ite(c, a.f(i), b.f(i)))
        raise Unsupported("merge of %r and %r" % (a, b))
    # ---- state merge ---------------------------------------------------------
    def merge(self, items, base_pc):
        """items: list of (state, value); returns (state, value)"""
        items = [x for x in items if x[0] is not None]
        if not items: return None, None
        if len(items) == 1: return items[0]
        n = len(base_pc)
        rels = [and_(*s.pc[n:]) for s, _ in items]
        acc, v = items[-1]; acc = acc.clone()
        for (s, sv), r in list(zip(items, rels))[-2::-1]:
            mem = {}
            keys = set(acc.mem) | set(s.mem)
            save = self.st
            for k in keys:
                a = s.mem.get(k); b = acc.mem.get(k)
                if a is b: mem[k] = a; continue
                if a is None or b is None:
                    if "~" in k[0]:
                        # local that lives in one branch only (or a lazily initialised one)
                        mem[k] = a if b is None else b; continue
                    other = b if a is None else a
                    if isinstance(other, T):
                        self.st = s if a is None else acc
                        so = other.sort[2] if isinstance(other.sort, tuple) else other.sort
                        ini = self.initsym(k, so)
                        if a is None: a = ini
                        else: b = ini
                    else:
                        # pointer default
                        self.st = s if a is None else acc
                        d = self.defptr(Loc(k + ("*",)), "double" if isinstance(other, Ptr) else "opaque_t")
                        if a is None: a = d
                        else: b = d
                try: mem[k] = self.mergeval(r, a, b)
                except Unsupported:
                    if "~" in k[0]: continue
                    raise
            self.st = save
            ep = acc.epoch if acc.epoch == s.epoch else None
            if ep is None:
                # merge epochs: object tokens already merged through #st leaves
                m = min(len(acc.epoch), len(s.epoch)); i = 0
                while i < m and acc.epoch[i] == s.epoch[i]: i += 1
                ex = {}
                for (p, _) in acc.epoch[i:] + s.epoch[i:]: ex[p] = mem.get(p + ("#st",))
                # leaves under p in either branch unread before: determined by merged token through branch tokens
                ep = acc.epoch[:i] + tuple((p, x) for p, x in ex.items() if x is not None)
                self.notes.add("opaque mutation merged across branches")
            acc = State(mem, acc.pc, ep)
            v = self.mergeval(r, sv, v) if (sv is not None and v is not None) else (sv if v is None else v)
        acc.pc = base_pc + self.simp_or(rels)
        return acc, v
    def simp_or(self, rels):
        """disjunction of conjunctions, absorbing complementary literals"""
        cs = [frozenset(conjuncts(r)) if r is not TRUE else frozenset() for r in rels]
        ch = True
        while ch:
            ch = False
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    a, b = cs[i], cs[j]
                    if a <= b: cs.pop(j); ch = True; break
                    if b <= a: cs.pop(i); ch = True; break
                    d = a ^ b
                    if len(d) == 2:
                        x, y = tuple(d)
                        if not_(x) is y: cs[i] = a & b; cs.pop(j); ch = True; break
                    # (a) | (!lit & a') with a subset
                    da, db = a - b, b - a
                    if len(da) == 1 and not_(next(iter(da))) in db:
                        cs[j] = b - {not_(next(iter(da)))}; ch = True; break
                    if len(db) == 1 and not_(next(iter(db))) in da:
                        cs[i] = a - {not_(next(iter(db)))}; ch = True; break
                    # da conj negation: not(and(da)) in db
                    if da and not_(and_(*da)) in db:
                        cs[j] = b - {not_(and_(*da))}; ch = True; break
                    if db and not_(and_(*db)) in da:
                        cs[i] = a - {not_(and_(*db))}; ch = True; break
                if ch: break
        if any(not c for c in cs): return ()
        r = or_(*[and_(*sorted(c, key=lambda t: t.id)) for c in cs])
        return () if r is TRUE else tuple(conjuncts(r))
    def assume(self, c):
        if c is TRUE: return
        if c is FALSE: self.st = None; return
        for x in self.st.pc:
            if x is c: return
            if not_(x) is c: self.st = None; return
        self.st.pc = self.st.pc + tuple(conjuncts(c))
    def decide(self, c):
        if c is TRUE or c is FALSE: return c
        pcs = set(self.st.pc)
        if c in pcs: return TRUE
        if not_(c) in pcs: return FALSE
        if c.op == "and" and all(x in pcs for x in c.args): return TRUE
        if c.op == "or" and all(not_(x) in pcs for x in c.args): return FALSE
        if c.op == "or" and any(x in pcs for x in c.args): return TRUE
        if c.op == "and" and any(not_(x) in pcs for x in c.args): return FALSE
        return c
    def fork(self, c, fa, fb):
        """run fa under c and fb under !c, merging; returns merged value"""
        c = self.decide(c)
        if c is TRUE: return fa()
        if c is FALSE: return fb()
        base = self.st.pc; s0 = self.st
        res = []
        for cond, f in ((c, fa), (not_(c), fb)):
            self.st = s0.clone()
            self.assume(cond)
            v = None
            if self.st is not None:
                try: v = f()
                except Unreach: self.st = None
            res.append((self.st, v))
        self.st, v = self.merge(res, base)
        if self.st is None: raise Unreach()
        return v
    # ---- expressions ---------------------------------------------------------
    def ev(self, n):
        """rvalue"""
        v = self.evl(n)
        return self.load(v, n["t"]) if isinstance(v, (Loc, LIte)) else v
    def lv(self, n):
        v = self.evl(n)
        if isinstance(v, Loc): return v
        # temporary
        l = self.tmp(); self.store_any(l, v, n["t"]); return l
    def store_any(self, loc, v, t):
        k = self.cls(t)[0]
        if isinstance(v, Loc) and k not in ("R", "I", "B", "S", "ptr", "sptr", "iter", "fn", "functor"):
            self.copy_agg(loc, v, t); return
        v = self.load(v, t)
        if isinstance(v, T):
            if k in ("R", "I", "B", "S"): self.wr(loc, v, t=t)
            elif k in ("evec", "vec"): raise Unsupported("scalar to vector")
            else: self.st.mem[loc.path] = v
        elif isinstance(v, EArr):
            if hasattr(v, "ptr") and "Eigen::Map<" in t: self.st.mem[loc.path] = v
            else: self.store_earr(loc, v)
        else:
            if loc.idx: 
                self.notes.add("pointer stored in container element not tracked"); return
            self.st.mem[loc.path] = v
    def evl(self, n):
        m = getattr(self, "e_" + n["k"], None)
        if m is None: raise Unsupported("expr %s (%s)" % (n["k"], n.get("cls", "")))
        return m(n)
    def e_int(self, n): return I(int(n["v"])) if self.cls(n["t"])[0] != "R" else R(int(n["v"]))
    def e_float(self, n):
        s = n.get("src") or n["v"]
        s = s.rstrip("fFlL").replace("'", "")
        try: return R(Fr(s))
        except Exception:
            try: return R(Fr(n["v"]))
            except Exception: raise Unsupported("float literal " + s)
    def e_bool(self, n): return boolc(n["v"])
    def e_char(self, n): return I(int(n["v"]))
    def e_str(self, n): return strlit(n["v"])
    def e_null(self, n): return NULL
    def e_zero(self, n):
        k = self.cls(n["t"])[0]
        if k in ("R", "I"): return num(0, k)
        if k == "B": return FALSE
        if k in ("ptr", "sptr"): return NULL
        l = self.tmp(); self.default_init(l, n["t"]); return l
    def e_this(self, n):
        f = self.frames[-1]
        return PObj(f.this)
    def e_enum(self, n): return I(int(n["v"]))
    def e_fn(self, n): return FnRef(n)
    def e_memfn(self, n): return FnRef(n)
    def e_sizeof(self, n): raise Unsupported("sizeof")
    def e_typeid(self, n): return self.fresh_o("typeid")
    def fresh_o(self, nm):
        return fresh("havoc_" + nm, "O")
    def e_ref(self, n):
        kd = n.get("kind")
        if kd in ("param", "local", "binding"):
            for f in reversed(self.frames):
                if n["id"] in f.env:
                    return f.env[n["id"]]
            raise Unsupported("unbound %s" % n["name"])
        q = n.get("q", n["name"]); c = n.get("const") or {}
        short = q.split("::")[-1]
        if "f" in c or "i" in c:
            if short == "NaN": return sym("NaN", "R")
            if short in PHYSNAMES and "f" in c and q.startswith("Cantera::"):
                PHYS[short] = float(c["f"])
                return sym("#" + short, "R")
            if "i" in c:
                v = int(c["i"])
                return I(v) if self.cls(n["t"])[0] != "B" else boolc(v)
            try: return R(Fr(repr(float(c["f"]))))
            except Exception: return sym("#" + short, "R")
        if n.get("init"):
            root = "glob:" + q
            l = Loc((root,))
            if root not in self.globals:
                self.globals[root] = True
            key = [k for k in self.st.mem if k[0] == root]
            if not key:
                if kd == "staticlocal" and not ct.is_const(n["t"]):
                    return l
                v = self.evl(n["init"])
                self.store_any(l, v, n["t"])
            return l
        return Loc(("glob:" + q,))
    def e_mem(self, n):
        b = self.evl(n["b"])
        if n["arrow"] : b = self.deref(self.load(b, n["b"]["t"]), n["b"]["t"])
        if not isinstance(b, Loc):
            raise Unsupported("member of %r" % (b,))
        l = b.f(n["f"])
        t = n["t"]
        # reference-typed fields
        return l
    def deref(self, p, t=None):
        if isinstance(p, PObj): return p.loc
        if isinstance(p, PScalar): return p.loc
        if isinstance(p, Ptr): return p.loc.el(p.off)
        if isinstance(p, Loc): return p
        if isinstance(p, PIte):
            # prune with null / path condition
            c = self.decide(p.c)
            if c is TRUE: return self.deref(p.a, t)
            if c is FALSE: return self.deref(p.b, t)
            if isinstance(p.a, Null): return self.deref(p.b, t)
            if isinstance(p.b, Null): return self.deref(p.a, t)
            a = self.deref(p.a, t); b = self.deref(p.b, t)
            return self.mergeval(p.c, a, b)
        if isinstance(p, Null): raise Unreach()
        raise Unsupported("deref %r" % (p,))
    def e_idx(self, n):
        a = self.evl(n["a"]); i = self.ev(n["b"])
        return self.index(a, n["a"]["t"], i)
    def index(self, a, t, i):
        if isinstance(a, T) and a.sort == "I" and not isinstance(i, T):  # i[a]
            a, i = i, a
        k = self.cls(t)[0]
        if isinstance(a, Loc):
            if k in ("arr", "vec", "evec"): return a.el(i)
            if k in ("ptr", "iter", "sptr"): a = self.load(a, t)
            elif k == "S": return uf("charat", [self.rd(a, t), i], "I")
        if isinstance(a, T) and a.sort == "S": return uf("charat", [a, i], "I")
        if isinstance(a, PScalar):
            if isnum(i) and val(i) == 0: return a.loc
            raise Unsupported("index of scalar pointer")
        if isinstance(a, Ptr): return a.loc.el(add(a.off, i))
        if isinstance(a, PObj):
            if isnum(i) and val(i) == 0: return a.loc
            return a.loc.el(i)
        if isinstance(a, EArr): return a.f(i)
        if isinstance(a, PIte):
            c = self.decide(a.c)
            x, y = self.index(a.a, t, i) if not isinstance(a.a, Null) else None, self.index(a.b, t, i) if not isinstance(a.b, Null) else None
            if x is None: return y
            if y is None: return x
            try: return self.mergeval(a.c, x, y)
            except Unsupported:
                pt = self.cls(t)[1]
                return self.mergeval(a.c, self.load(x, pt), self.load(y, pt))
        raise Unsupported("index of %r" % (a,))
    def e_cast(self, n):
        ck = n["ck"]
        if ck in ("ToVoid",):
            self.evl(n["a"]); return None
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "NoOp"):
            return self.evl(n["a"])
        if ck == "Dynamic":
            v = self.ev(n["a"])
            l = self.deref(v)
            tt = ct.strip(n["t"].rstrip("&* ")).replace(" *", "")
            d = self.dyn.get(l.path)
            c = None
            if d is not None: c = boolc(self.derives(d, tt.split(" ")[-1] if tt.startswith("const ") else tt))
            if c is None: c = uf("dyncast:" + tt, [self.rd(l.f("#class"), sort="O")], "B")
            if ct.is_ref(n["t"]) or not n["t"].rstrip().endswith("*"):
                return l
            if c is TRUE: return PObj(l)
            if c is FALSE: return NULL
            return PIte(c, PObj(l), NULL)
        v = self.ev(n["a"])
        if ck in ("IntegralToFloating", "FloatingCast"): return toR(v) if isinstance(v, T) else v
        if ck == "FloatingToIntegral": return trunc(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "UserDefinedConversion"): return self.truth(v)
        if ck == "IntegralCast":
            if not isinstance(v, T): return v
            if v.sort == "B": return b2n(v, "I")
            if isnum(v) and ct.strip(n["t"]) == "unsigned long" and val(v) < 0: return I(int(val(v)) + 2**64)
            return v
        if ck in ("NullToPointer",): return NULL
        return v
    def derives(self, c, b):
        if c == b: return True
        r = self.prog.records.get(c)
        return bool(r) and any(self.derives(ct.strip(x), b) for x in r["bases"])
    def e_un(self, n):
        op = n["op"]
        if op in ("++", "--"):
            l = self.evl(n["a"])
            if not isinstance(l, Loc): raise Unsupported("++ on rvalue")
            t = n["a"]["t"]; old = self.load(l, t)
            new = self.padd(old, IONE if op == "++" else I(-1)) if not isinstance(old, T) else add(old, num(1 if op == "++" else -1, old.sort))
            self.store_any(l, new, t)
            return old if n.get("post") else l
        if op == "*":
            v = self.evl(n["a"])
            return self.deref(self.load(v, n["a"]["t"]))
        if op == "&":
            v = self.evl(n["a"])
            if isinstance(v, Loc):
                if v.path[-1] == "[]": return Ptr(Loc(v.path[:-1], v.idx[:-1]), v.idx[-1])
                if self.is_scalar(n["a"]["t"]):
                    return PScalar(v)
                return PObj(v)
            if isinstance(v, FnRef): return v
            raise Unsupported("& of rvalue")
        v = self.ev(n["a"])
        if op == "-": return neg(v)
        if op == "+": return v
        if op == "!": return not_(self.truth(v))
        if op == "~": return uf("bitnot", [v], "I")
        raise Unsupported("unary " + op)
    def padd(self, p, k):
        if isinstance(p, Ptr): return Ptr(p.loc, add(p.off, k))
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        if isinstance(p, PObj):
            if p.loc.path[-1] == "[]": return Ptr(Loc(p.loc.path[:-1], p.loc.idx[:-1]), add(p.loc.idx[-1], k))
        if isnum(k) and val(k) == 0: return p
        raise Unsupported("pointer arithmetic on %r" % (p,))
    def arith(self, op, a, b, t=None):
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, (Ptr, PIte, PObj, Null)) and isinstance(b, T):
                if op == "+": return self.padd(a, b)
                if op == "-": return self.padd(a, neg(b))
            if isinstance(b, (Ptr, PIte, PObj, Null)) and isinstance(a, T) and op == "+": return self.padd(b, a)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.loc.same(b.loc):
                    if op == "-": return sub(a.off, b.off)
                    return self.cmpop(op, a.off, b.off)
                if op in ("==", "!=") and a.loc.path == b.loc.path:
                    e = and_(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.loc.idx, b.loc.idx)])
                    return e if op == "==" else not_(e)
            if op in ("==", "!="):
                if isinstance(a, T) and isnum(a) and val(a) == 0: a = Null()
                if isinstance(b, T) and isnum(b) and val(b) == 0: b = Null()
                e = self.ptreq(a, b)
                return e if op == "==" else not_(e)
            if isinstance(a, EArr) or isinstance(b, EArr): return self.earith(op, a, b)
            raise Unsupported("arith %s on %r %r" % (op, a, b))
        if op in ("==", "!=", "<", ">", "<=", ">="): return self.cmpop(op, a, b)
        if a.sort == "B": a = b2n(a, "I")
        if b.sort == "B": b = b2n(b, "I")
        if a.sort == "S" or b.sort == "S":
            if op == "+": return uf("strcat", [a, b], "S")
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            if a.sort == "I" and b.sort == "I": return idiv(a, b)
            return div(a, b)
        if op == "%": return imod(a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if isnum(a) and isnum(b):
                x, y = int(val(a)), int(val(b))
                return I({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            return uf("bit" + op, [a, b], "I")
        raise Unsupported("binary " + op)
    def cmpop(self, op, a, b):
        if a.sort in ("S", "O") or b.sort in ("S", "O"):
            if op == "==": return eq(a, b)
            if op == "!=": return ne(a, b)
            if op == "<": return uf("slt", [a, b], "B")
            if op == ">": return uf("slt", [b, a], "B")
            if op == "<=": return not_(uf("slt", [b, a], "B"))
            if op == ">=": return not_(uf("slt", [a, b], "B"))
        if a.sort == "B" and b.sort == "B" and op in ("<", ">", "<=", ">="):
            a, b = b2n(a, "I"), b2n(b, "I")
        return {"==": eq, "!=": ne, "<": lt, "<=": le, ">": lambda x, y: lt(y, x), ">=": lambda x, y: le(y, x)}[op](a, b)
    def ptreq(self, a, b):
        if isinstance(a, PIte): return ite(a.c, self.ptreq(a.a, b), self.ptreq(a.b, b))
        if isinstance(b, PIte): return ite(b.c, self.ptreq(a, b.a), self.ptreq(a, b.b))
        if isinstance(a, Null) and isinstance(b, Null): return TRUE
        if isinstance(a, Null): return not_(self.truth(b))
        if isinstance(b, Null): return not_(self.truth(a))
        la = a.loc.el(a.off) if isinstance(a, Ptr) else a.loc
        lb = b.loc.el(b.off) if isinstance(b, Ptr) else b.loc
        if la.path == lb.path: return and_(*[eq(x, y) for x, y in zip(la.idx, lb.idx)])
        x = mk("uf", ("addr:" + ".".join(la.path),) + la.idx, "O"); y = mk("uf", ("addr:" + ".".join(lb.path),) + lb.idx, "O")
        return eq(x, y)
    def e_bin(self, n):
        op = n["op"]
        if op == "&&":
            a = self.truth(self.ev(n["a"])); a = self.decide(a)
            return self.sc(a, n["b"], True)
        if op == "||":
            a = self.truth(self.ev(n["a"])); a = self.decide(a)
            return self.sc(a, n["b"], False)
        if op == ",":
            self.evl(n["a"]); return self.evl(n["b"])
        a = self.ev(n["a"]); b = self.ev(n["b"])
        if n["a"]["t"] == n["b"]["t"]: pass
        return self.arith(op, a, b, n["t"])
    def sc(self, a, nb, isand):
        if a is FALSE and isand: return FALSE
        if a is TRUE and not isand: return TRUE
        if a is TRUE or a is FALSE: return self.truth(self.ev(nb))
        base = self.st; s1 = base.clone(); self.st = s1
        nth = len(self.throws)
        self.assume(a if isand else not_(a))
        if self.st is None:
            self.st = base; return a
        s1 = self.st; memsnap = dict(s1.mem); ep = s1.epoch; pcsnap = s1.pc
        try:
            b = self.truth(self.ev(nb))
        except Unreach:
            self.st = base; self.assume(not_(a) if isand else a)
            if self.st is None: raise
            return boolc(not isand)
        s1 = self.st
        changed = s1.epoch != ep or s1.pc != pcsnap or any(s1.mem.get(k) is not v for k, v in memsnap.items()) or \
            any(k not in memsnap and "~" not in k[0] for k in s1.mem)
        if not changed:
            base.mem.update({k: v for k, v in s1.mem.items() if k not in base.mem})
            self.st = base
        else:
            s2 = base.clone(); self.st = s2; self.assume(not_(a) if isand else a)
            self.st, _ = self.merge([(s1, None), (self.st, None)], base.pc)
        return and_(a, b) if isand else or_(a, b)
    def e_cond(self, n):
        c = self.truth(self.ev(n["c"]))
        def br(x):
            def f():
                v = self.evl(x)
                k = self.cls(n["t"])[0]
                if k in ("R", "I", "B", "S", "ptr", "sptr", "iter", "fn"):
                    return v if isinstance(v, Loc) and False else self.load(v, x["t"])
                return v
            return f
        c = self.decide(c)
        if c is TRUE: return br(n["a"])()
        if c is FALSE: return br(n["b"])()
        k = self.cls(n["t"])[0]
        if k not in ("R", "I", "B", "S", "ptr", "sptr", "iter", "fn", "void"):
            # aggregates: copy into a common temporary
            res = self.tmp()
            def cp(x):
                def f():
                    v = self.evl(x); self.store_any(res, v, n["t"]); return None
                return f
            try:
                return self.fork(c, br(n["a"]), br(n["b"]))
            except Unsupported: pass
            self.fork(c, cp(n["a"]), cp(n["b"])); return res
        v = self.fork(c, br(n["a"]), br(n["b"]))
        if isinstance(v, T) and k in ("R",) and v.sort == "I": v = toR(v)
        return v
    def e_assign(self, n):
        op = n["op"]; t = n["a"]["t"]
        if op == "=":
            v = self.ev(n["b"]); l = self.evl(n["a"])
            if isinstance(l, PScalarLoc): l = l.loc
            self.store_any(l, v, t); return l
        l = self.evl(n["a"]); b = self.ev(n["b"]); a = self.load(l, t)
        if isinstance(a, T) and a.sort == "I" and isinstance(b, T) and b.sort == "R": a = toR(a)
        r = self.arith(op[:-1], a, b, t)
        self.store_any(l, r, t); return l
    def e_throw(self, n):
        self.do_throw(n.get("a", "?")); raise Unreach()
    def do_throw(self, what):
        self.throws.append((self.st, what)); 
        self.st = None
    def throw_if(self, c, what):
        c = self.decide(c)
        if c is FALSE: return
        s = self.st.clone(); cur = self.st
        self.st = s; self.assume(c)
        if self.st is not None: self.throws.append((self.st, what))
        self.st = cur; self.assume(not_(c))
        if self.st is None: raise Unreach()
    def e_init(self, n):
        l = self.tmp(); t = n["t"]; k = self.cls(t)
        if k[0] in ("R", "I", "B", "S", "ptr", "sptr", "iter"):
            if n["a"]: return self.ev(n["a"][0])
            return self.e_zero(n)
        if k[0] in ("arr", "vec"):
            for i, x in enumerate(n["a"]):
                self.store_any(l.el(I(i)), self.evl(x), x["t"])
            if k[0] == "arr" and len(n["a"]) < k[2] and self.is_scalar(k[1]):
                so = self.sortof(k[1])
                bv = freshbv(); old = self.rdarr(l.path + ("[]",), so)
                self.st.mem[l.path + ("[]",)] = lam((bv,), ite(lt(bv, I(len(n["a"]))), sel(old, (bv,)), FALSE if so == "B" else num(0, so)))
            self.st.mem[l.path + ("#len",)] = I(len(n["a"]))
            return l
        if k[0] == "pair":
            for nm, x in zip(("first", "second"), n["a"]): self.store_any(l.f(nm), self.evl(x), x["t"])
            return l
        if k[0] == "rec":
            r = self.prog.records.get(k[1])
            if r:
                for f, x in zip(r["fields"], n["a"]): self.store_any(l.f(f["name"]), self.evl(x), f["t"])
                return l
        raise Unsupported("init list for " + t)
    def default_init(self, l, t):
        k = self.cls(t)
        if k[0] in ("R", "I"): self.wr(l, num(0, k[0]), t=t)
        elif k[0] == "B": self.wr(l, FALSE, t=t)
        elif k[0] == "S": self.wr(l, strlit(""), t=t)
        elif k[0] in ("vec", "map"): self.wr(l.f("#len"), IZERO, sort="I")
        elif k[0] == "evec": self.wr(l.f("#len"), I(max(k[2], 0)), sort="I")
        elif k[0] == "pair":
            self.default_init(l.f("first"), k[1]); self.default_init(l.f("second"), k[2])
        elif k[0] in ("ptr", "sptr"):
            if not l.idx: self.st.mem[l.path] = NULL
        elif k[0] == "rec": self.default_rec(l, k[1])
    def default_rec(self, l, cname):
        r = self.prog.records.get(cname)
        if not r: return
        for b in r["bases"]: self.default_rec(l, ct.strip(b))
        for f in r["fields"]:
            if f.get("init"):
                self.frames.append(Frame(None, l))
                try: self.store_any(l.f(f["name"]), self.evl(f["init"]), f["t"])
                finally: self.frames.pop()
            elif self.cls(f["t"])[0] in ("vec", "map", "S", "sptr"):
                self.default_init(l.f(f["name"]), f["t"])
            elif self.cls(f["t"])[0] == "rec": self.default_rec(l.f(f["name"]), self.cls(f["t"])[1])
    def e_ctor(self, n):
        k = self.cls(n["t"]); a = n["a"]
        if n.get("copy") and a:
            if k[0] in ("fn", "functor", "ptr", "sptr", "iter"): return self.ev(a[0])
            return self.evl(a[0])       # copy happens at the store
        if k[0] == "functor": return Functor(k[1])
        if k[0] == "fn":
            return self.ev(a[0]) if a else NULL
        if k[0] == "S":
            if not a: return strlit("")
            v = self.ev(a[0])
            if isinstance(v, T): return v if v.sort == "S" else uf("str", [self.term_of(self.ev(x), x["t"]) for x in a], "S")
            return uf("str", [self.term_of(v, a[0]["t"])], "S")
        if k[0] in ("sptr", "ptr"):
            if not a: return NULL
            return self.ev(a[0])
        if k[0] == "iter": return self.ev(a[0]) if a else NULL
        if k[0] == "evec":
            from . import eigen
            v = eigen.ctor(self, n, k)
            if v is not NotImplemented:
                if isinstance(v, eigen.EMap): return v
                l = self.tmp(); self.store_earr(l, v); return l
        l = self.tmp()
        if k[0] in ("vec", "evec"):
            if n.get("il") or (len(a) == 1 and self.cls(a[0]["t"])[0] == "vec"):
                self.copy_agg(l, self.evl(a[0]), n["t"]); return l
            if not a or (len(a) == 1 and "allocator" in a[0]["t"]): self.default_init(l, n["t"]); return l
            pt = n.get("pt", [])
            k0 = self.cls(a[0]["t"])[0]
            if k0 == "I":
                cnt = self.ev(a[0])
                self.wr(l.f("#len"), cnt, sort="I")
                if k[0] == "evec": return l
                has = len(a) > 1 and "allocator" not in ct.strip(a[1]["t"]).split("<")[0]
                self.fill_all(l, k[1], self.evl(a[1]) if has else None, a[1]["t"] if has else None)
                return l
            if k0 in ("iter", "ptr") and len(a) >= 2:
                f = self.ev(a[0]); e = self.ev(a[1])
                nn = self.arith("-", e, f)
                self.wr(l.f("#len"), nn, sort="I")
                self.copy_range(f, nn, Ptr(l, IZERO), k[1]); return l
            if len(a) == 1:
                v = self.evl(a[0])
                self.store_any(l, v, n["t"]); return l
            raise Unsupported("vector ctor")
        if k[0] == "map":
            if not a: self.default_init(l, n["t"]); return l
            if n.get("il") or self.cls(a[0]["t"])[0] == "vec":
                self.copy_agg(l, self.evl(a[0]), n["t"]); return l
        if k[0] == "pair":
            if not a: self.default_init(l, n["t"]); return l
            if len(a) == 1: return self.evl(a[0])
            self.store_any(l.f("first"), self.conv_to(self.evl(a[0]), a[0]["t"], k[1]), k[1])
            self.store_any(l.f("second"), self.conv_to(self.evl(a[1]), a[1]["t"], k[2]), k[2]); return l
        if k[0] == "rec":
            fd = self.prog.fns.get(n["sig"])
            if fd is not None and fd.get("body"):
                self.run_ctor(fd, l, a); return l
            self.default_rec(l, k[1])
            if a:
                args = [self.term_of(self.evl(x), x["t"]) for x in a]
                self.st.mem[l.path + ("#st",)] = mk("uf", ("ctor:" + n["q"],) + tuple(args), "O")
            return l
        # opaque
        args = []
        for x in a:
            try: args.append(self.term_of(self.evl(x), x["t"]))
            except Unsupported: args.append(strlit("?"))
        self.st.mem[l.path + ("#st",)] = mk("uf", ("ctor:" + n.get("q", "?"),) + tuple(args), "O")
        return l
    def conv_to(self, v, t0, t1):
        return self.load(v, t0) if self.is_scalar(t0) else v
    def run_ctor(self, fd, l, argnodes):
        args = [self.evl(x) for x in argnodes]
        cname = fd["cls"]
        c = self.contracts.get(fd["sig"]) or self.contracts.get("ctor " + fd["q"])
        if c is not None:
            self.default_rec(l, cname)
            if c(self, l, list(zip(args, [x["t"] for x in argnodes])), {"pt": fd.get("pt", [])}) is not NotImplemented: self.used_contracts.add(fd["sig"]); return
        if not any("deleg" in i for i in fd.get("inits", [])):
            r = self.prog.records.get(cname)
        self.call_fn(fd, l, list(zip(args, [x["t"] for x in argnodes])), ctor=True)
    def fill_all(self, l, et, v, vt):
        """set every element of the (fresh) vector at l to value"""
        for suf, so, tt in self.leaves(et):
            p = l.path + ("[]",) + suf
            n = suf.count("[]")
            if so == "P": continue
            if v is None:
                if suf and suf[-1] != "#len" and n: continue
                x = FALSE if so == "B" else strlit("") if so == "S" else sym("O0", "O") if so == "O" else num(0, so)
                if n == 0: body = x
                else: continue
            elif isinstance(v, Loc):
                A = self.rdarr(v.path + suf, so, tt); bv2 = tuple(freshbv() for _ in range(n))
                body = None
                m = len(l.idx)
                bi = tuple(freshbv() for _ in range(m)); b0 = freshbv()
                s = sel(A, v.idx + bv2) if (v.idx + bv2) else A
                if m == 0: self.st.mem[p] = lam((b0,) + bv2, s)
                else:
                    old = self.rdarr(p, so, tt)
                    self.st.mem[p] = lam(bi + (b0,) + bv2, ite(and_(*[eq(x, y) for x, y in zip(bi, l.idx)]), s, sel(old, bi + (b0,) + bv2)))
                continue
            else:
                body = self.conv(self.load(v, vt), so)
            m = len(l.idx); bi = tuple(freshbv() for _ in range(m)); b0 = freshbv()
            if m == 0: self.st.mem[p] = lam((b0,), body)
            else:
                old = self.rdarr(p, so, tt)
                self.st.mem[p] = lam(bi + (b0,), ite(and_(*[eq(x, y) for x, y in zip(bi, l.idx)]), body, sel(old, bi + (b0,))))
    def map_range(self, dst, n, et, f):
        """dst[off+i].suf = f(suf, sort, i, rest) for 0<=i<n"""
        new = []
        for suf, so, tt in self.leaves(et):
            if so == "P":
                self.notes.add("pointer elements inside copied ranges not tracked"); continue
            k = suf.count("[]"); m = len(dst.loc.idx)
            p = dst.loc.path + ("[]",) + suf
            old = self.rdarr(p, so, tt)
            bi = tuple(freshbv() for _ in range(m)); b0 = freshbv(); bs = tuple(freshbv() for _ in range(k))
            rel = sub(b0, dst.off)
            v = f(suf, so, rel, bs, tt)
            inr = and_(le(IZERO, rel), lt(rel, n), *[eq(x, y) for x, y in zip(bi, dst.loc.idx)])
            new.append((p, lam(bi + (b0,) + bs, ite(inr, v, sel(old, bi + (b0,) + bs)))))
        for p, v in new: self.st.mem[p] = v
    def copy_range(self, src, n, dst, et):
        if isinstance(dst, PIte): raise Unsupported("copy to conditional pointer")
        if isinstance(src, PIte):
            raise Unsupported("copy from conditional pointer")
        def f(suf, so, rel, bs, tt):
            A = self.rdarr(src.loc.path + ("[]",) + suf, so, tt)
            return sel(A, src.loc.idx + (add(src.off, rel),) + bs)
        self.map_range(dst, n, et, f)
    def e_new(self, n):
        l = self.tmp(name="new")
        if n.get("ctor"):
            v = self.evl(n["ctor"])
            if isinstance(v, Loc): self.dyn[v.path] = ct.strip(n["nt"]); return PObj(v)
        self.default_init(l, n["nt"]); self.dyn[l.path] = ct.strip(n["nt"])
        return PObj(l)
    def e_delete(self, n):
        self.ev(n["a"]); return None
    def e_lambda(self, n):
        f = self.frames[-1]
        env = {}
        for fr in self.frames: env.update(fr.env)
        # by-copy captures of scalars
        for c in n.get("caps", []):
            if "id" in c and not c["ref"] and c["id"] in env:
                pass
        return Clo(n, env, f.this, f)
    def e_unk(self, n): raise Unsupported("unknown expr " + n["cls"])
    # ---- calls ---------------------------------------------------------------
    def e_call(self, n): 
        from . import lib
        return lib.free_call(self, n)
    def e_mcall(self, n):
        from . import lib
        return lib.method_call(self, n)
    def e_opcall(self, n):
        from . import lib
        return lib.op_call(self, n)
    def apply(self, fv, args):
        """call a function value with argument values [(value,type)]"""
        if isinstance(fv, PyFn): return fv.f(*args)
        if isinstance(fv, Functor):
            x = [self.load(v, t) for v, t in args]
            nm = fv.name
            if nm == "std::negate": return neg(x[0])
            op = {"std::multiplies": "*", "std::plus": "+", "std::minus": "-", "std::divides": "/", "std::less": "<", "std::greater": ">"}[nm]
            return self.arith(op, x[0], x[1])
        if isinstance(fv, Clo):
            fr = Frame(None, fv.this); fr.env = dict(fv.env)
            for p, (v, t) in zip(fv.node["params"], args): self.bind(fr, p, v, t)
            self.frames.append(fr)
            return self.run_body(fr, fv.node["body"], None)
        if isinstance(fv, FnRef):
            from . import lib
            nd = fv.node
            return lib.call_by_sig(self, nd["q"], nd["sig"], None, args, {"t": "?", "rt": nd.get("rt", "double"), "pt": [t for _, t in args], "n": nd["q"].split("::")[-1]})
        if isinstance(fv, Loc):
            x = [self.term_of(v, t) for v, t in args]
            return uf("call:" + ".".join(fv.path), list(fv.idx) + x, "R")
        raise Unsupported("apply %r" % (fv,))
    def bind(self, fr, p, v, t):
        pt = p["t"]; k = self.cls(pt)[0]
        if k == "ptr":
            if isinstance(v, Loc) and t and self.cls(t)[0] == "arr": v = Ptr(v, IZERO)
            elif isinstance(v, T) and v.op == "num" and val(v) == 0: v = NULL
        if ct.is_ref(pt):
            if isinstance(v, Loc): fr.env[p["id"]] = v
            elif isinstance(v, PScalarLoc): fr.env[p["id"]] = v.loc
            else:
                l = self.tmp(name=p["name"] or "p"); self.store_any(l, v, pt); fr.env[p["id"]] = l
        elif k in ("fn", "functor") and not isinstance(v, Loc):
            l = self.tmp(name=p["name"] or "p"); self.st.mem[l.path] = v; fr.env[p["id"]] = l
        else:
            l = self.tmp(name=p["name"] or "p")
            self.store_any(l, v, pt) ; fr.env[p["id"]] = l
    def call_fn(self, fd, this, args, dyn=None, ctor=False):
        if self.depth > self.maxdepth: raise Unsupported("inline depth")
        active = [f.fn["sig"] for f in self.frames if f.fn]
        if active.count(fd["sig"]) >= 3: raise Unsupported("recursion " + fd["sig"])
        fr = Frame(fd, this)
        self.inlined.add(fd["sig"])
        for p, (v, t) in zip(fd["params"], args): self.bind(fr, p, v, t)
        self.frames.append(fr)
        if ctor:
            inits = {i.get("f"): i for i in fd.get("inits", []) if i.get("f")}
            r = self.prog.records.get(fd["cls"])
            for i in fd.get("inits", []):
                if "base" in i or "deleg" in i:
                    e = i["e"]
                    if e and e["k"] == "ctor":
                        bfd = self.prog.fns.get(e["sig"])
                        if bfd is not None and bfd.get("body"): self.run_ctor(bfd, this, e["a"])
                        else: self.default_rec(this, ct.strip(e["cls"]))
            if r and not any("deleg" in i for i in fd.get("inits", [])):
                for f in r["fields"]:
                    i = inits.get(f["name"])
                    if i is not None and i["e"] is not None:
                        self.store_any(this.f(f["name"]), self.evl(i["e"]), f["t"])
                    elif f.get("init"): self.store_any(this.f(f["name"]), self.evl(f["init"]), f["t"])
                    elif self.cls(f["t"])[0] in ("vec", "map", "S", "sptr", "rec"): self.default_init(this.f(f["name"]), f["t"])
        return self.run_body(fr, fd["body"], fd.get("rt"))
    def run_body(self, fr, body, rt):
        loops = self.loops; self.loops = []
        base = self.st.pc
        self.depth += 1
        fr.rt = rt
        nf = len(self.frames)
        try:
            self.ex(body)
            fall = self.st
        finally:
            self.depth -= 1
            del self.frames[nf - 1:]
            self.loops = loops
        items = list(fr.returns)
        if fall is not None: items.append((fall, None))
        self.st, v = self.merge(items, base)
        if self.st is None: raise Unreach()
        return v
    # ---- statements ----------------------------------------------------------
    def ex(self, s):
        if s is None or self.st is None: return
        k = s["k"]
        try:
            getattr(self, "s_" + k)(s)
        except Unreach:
            self.st = None
        except AttributeError as e:
            if "s_" + k in str(e): raise Unsupported("statement " + k)
            raise
    def s_block(self, s):
        for x in s["a"]:
            if self.st is None: return
            self.ex(x)
    def s_null(self, s): pass
    def s_expr(self, s):
        self.evl(s["e"])
    def s_decl(self, s):
        for v in s["a"]: self.decl(v)
    def decl(self, v):
        fr = self.frames[-1]; t = v["t"]
        if v.get("static"):
            fr.env[v["id"]] = Loc(("static:%s:%s" % (fr.fn["q"] if fr.fn else "", v["name"]),)); return
        if v.get("bindings"):
            src = self.evl(v["init"])
            bt = ct.strip(v["init"]["t"])
            if not isinstance(src, Loc): raise Unsupported("structured binding")
            if not ct.is_ref(t):
                l = self.tmp(name="sb"); self.copy_agg(l, src, bt); src = l
            k = self.cls(bt)
            names = ["first", "second"] if k[0] == "pair" else [f["name"] for f in self.prog.records.get(bt, {"fields": []})["fields"]]
            for b, nm in zip(v["bindings"], names): fr.env[b["id"]] = src.f(nm)
            return
        if ct.is_ref(t):
            x = self.evl(v["init"])
            if isinstance(x, Loc): fr.env[v["id"]] = x
            else:
                l = self.tmp(name=v["name"]); self.store_any(l, x, t); fr.env[v["id"]] = l
            return
        l = self.tmp(name=v["name"] or "v"); fr.env[v["id"]] = l
        k = self.cls(t)[0]
        if v.get("init"):
            x = self.evl(v["init"])
            if k in ("rec", "opaque", "pair", "vec", "map", "arr", "evec", "emat") and isinstance(x, Loc) and "~" in x.path[0] and not x.idx and len(x.path) == 1 and v["init"]["k"] in ("ctor", "init") and not v["init"].get("copy"):
                fr.env[v["id"]] = x; return
            if k in ("rec", "opaque") and isinstance(x, (EArr,) + PYVAL):
                self.st.mem[l.path] = x; return
            self.store_any(l, x, t)
        # uninitialised: lazily symbolic
    def s_return(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e"):
            rt = getattr(fr, "rt", None)
            e = s["e"]
            if rt and ct.is_ref(rt): v = self.evl(e)
            else:
                v = self.evl(e)
                t = e["t"] if rt is None else rt
                k = self.cls(t)[0]
                if k in ("R", "I", "B", "S", "ptr", "sptr", "iter", "fn", "functor"):
                    v = self.load(v, e["t"])
                    if isinstance(v, T) and k in ("R", "I", "B") and v.sort != k and v.sort in ("R", "I", "B"): v = self.conv(v, k)
                elif isinstance(v, Loc):
                    if fr.retloc is None: fr.retloc = self.tmp(name="ret")
                    l = fr.retloc
                    if not l.same(v): self.copy_agg(l, v, t)
                    v = l
        fr.returns.append((self.st, v)); self.st = None
    def s_if(self, s):
        if s.get("init"): self.ex(s["init"])
        if s.get("cv"): self.decl(s["cv"])
        if self.st is None: return
        c = self.truth(self.ev(s["c"])); c = self.decide(c)
        if c is TRUE: self.ex(s["a"]); return
        if c is FALSE:
            if s.get("b"): self.ex(s["b"])
            return
        base = self.st.pc; s0 = self.st
        self.st = s0.clone(); self.assume(c)
        if self.st is not None: self.ex(s["a"])
        sa = self.st
        self.st = s0.clone(); self.assume(not_(c))
        if self.st is not None and s.get("b"): self.ex(s["b"])
        sb = self.st
        self.st, _ = self.merge([(sa, None), (sb, None)], base)
    def s_break(self, s):
        self.loops[-1]["breaks"].append(self.st); self.st = None
    def s_continue(self, s):
        for l in reversed(self.loops):
            if l["kind"] == "loop": l["conts"].append(self.st); break
        self.st = None
    def s_switch(self, s):
        v = self.ev(s["c"])
        body = s["a"]["a"] if s["a"]["k"] == "block" else [s["a"]]
        # flatten case labels
        items = []
        def flat(x):
            labs = []
            while x["k"] in ("case", "default"):
                labs.append(x["iv"] if x["k"] == "case" else None); x = x["a"]
            return labs, x
        allc = []
        for x in body:
            labs, st = flat(x); items.append((labs, st)); allc += [l for l in labs if l is not None]
        base = self.st.pc; entry = self.st
        fall = None
        self.loops.append({"kind": "switch", "breaks": [], "conts": []})
        hasdef = False
        for labs, st in items:
            if labs:
                conds = []
                for l in labs:
                    if l is None:
                        hasdef = True
                        conds.append(and_(*[ne(v, I(int(x))) for x in allc]))
                    else: conds.append(eq(v, I(int(l))))
                c = or_(*conds)
                self.st = entry.clone(); self.assume(c)
                ent = self.st
                self.st, _ = self.merge([(ent, None), (fall, None)], base)
            else: self.st = fall
            if self.st is not None: self.ex(st)
            fall = self.st
        lp = self.loops.pop()
        outs = [(x, None) for x in lp["breaks"]]
        if fall is not None: outs.append((fall, None))
        if not hasdef:
            self.st = entry.clone(); self.assume(and_(*[ne(v, I(int(x))) for x in allc]))
            if self.st is not None: outs.append((self.st, None))
        self.st, _ = self.merge(outs, base)
    def s_case(self, s): raise Unsupported("stray case")
    s_default = s_case
    def s_try(self, s):
        n0 = len(self.throws); base = self.st.pc
        self.ex(s["a"])
        thrown = self.throws[n0:]; del self.throws[n0:]
        outs = [(self.st, None)] if self.st is not None else []
        if thrown:
            h = s["h"][-1]
            for st, what in thrown:
                hh = None
                for x in s["h"]:
                    if x["t"] == "..." or ct.strip(x["t"]) in (what, "std::exception") or ct.strip(x["t"]) == "Cantera::CanteraError": hh = x; break
                if hh is None: self.throws.append((st, what)); continue
                self.st = st
                self.ex(hh["a"])
                if self.st is not None: outs.append((self.st, None))
        self.st, _ = self.merge(outs, base)
    def s_unk(self, s): raise Unsupported("unknown stmt " + s["cls"])
    # ---- loops ---------------------------------------------------------------
    def s_for(self, s):
        if s.get("init"): self.ex(s["init"])
        if self.st is None: return
        self.do_loop(lambda: self.truth(self.ev(s["c"])) if s.get("c") else TRUE, lambda: self.ex(s["a"]),
                     lambda: self.evl(s["inc"]) if s.get("inc") else None, s["l"])
    def s_while(self, s):
        self.do_loop(lambda: self.truth(self.ev(s["c"])), lambda: self.ex(s["a"]), lambda: None, s["l"])
    def s_do(self, s):
        # body once, then while
        self.loops.append({"kind": "loop", "breaks": [], "conts": []})
        base = self.st.pc
        self.ex(s["a"])
        lp = self.loops.pop()
        self.st, _ = self.merge([(x, None) for x in lp["conts"]] + ([(self.st, None)] if self.st is not None else []), base)
        outs = [(x, None) for x in lp["breaks"]]
        if self.st is not None:
            self.s_while(s)
            if self.st is not None: outs.append((self.st, None))
        self.st, _ = self.merge(outs, base)
    def s_range(self, s):
        r = self.evl(s["range"]); rt = ct.strip(s["rt"]); k = self.cls(rt)
        if isinstance(r, (Ptr, PObj, PIte)): r = self.deref(r)
        if k[0] == "arr": n = I(k[2])
        elif k[0] in ("vec", "map", "evec"): n = self.rd(r.f("#len"), sort="I")
        else: raise Unsupported("range-for over " + rt)
        cl = self.tmp(name="it"); self.wr(cl, IZERO, sort="I")
        et = k[1]
        def body():
            i = self.rd(cl, sort="I")
            el = r.el(i)
            v = s["var"]; fr = self.frames[-1]
            if v.get("bindings"):
                bt = ct.strip(et)
                kk = self.cls(bt)
                names = ["first", "second"] if kk[0] == "pair" else [f["name"] for f in self.prog.records.get(bt, {"fields": []})["fields"]]
                for b, nm in zip(v["bindings"], names): fr.env[b["id"]] = el.f(nm)
            elif ct.is_ref(v["t"]): fr.env[v["id"]] = el
            else:
                l = self.tmp(name=v["name"]); fr.env[v["id"]] = l
                self.store_any(l, el, et)
            self.ex(s["a"])
        def inc():
            self.wr(cl, add(self.rd(cl, sort="I"), IONE), sort="I")
        self.do_loop(lambda: lt(self.rd(cl, sort="I"), n), body, inc, s["l"])
    def count_loop(self, n, bodyf, line=0):
        """for (i=0;i<n;i++) bodyf(i)"""
        cl = self.tmp(name="it"); self.wr(cl, IZERO, sort="I")
        self.do_loop(lambda: lt(self.rd(cl, sort="I"), n), lambda: bodyf(self.rd(cl, sort="I")),
                     lambda: self.wr(cl, add(self.rd(cl, sort="I"), IONE), sort="I"), line)
        if self.st is None: raise Unreach()
    def iterate(self, st, cond, body, inc, evalcond=True):
        """one abstract iteration from state st; returns dict"""
        fr = self.frames[-1]
        r0 = len(fr.returns); t0 = len(self.throws)
        self.st = st
        base = st.pc
        self.loops.append({"kind": "loop", "breaks": [], "conts": []})
        try:
            c = cond()
            stc = self.st.clone()
            pc1 = self.st.pc
            self.assume(c)
            post = None
            if self.st is not None:
                body_base = self.st.pc
                try:
                    body()
                except Unreach: self.st = None
                lp = self.loops[-1]
                self.st, _ = self.merge([(x, None) for x in lp["conts"]] + ([(self.st, None)] if self.st is not None else []), body_base)
                if self.st is not None:
                    try: inc()
                    except Unreach: self.st = None
                post = self.st
            lp = self.loops[-1]
        finally:
            self.loops.pop()
        exits = [("break", s, None) for s in lp["breaks"]]
        exits += [("return", s, v) for s, v in fr.returns[r0:]]; del fr.returns[r0:]
        exits += [("throw", s, w) for s, w in self.throws[t0:]]; del self.throws[t0:]
        return dict(c=c, stc=stc, post=post, exits=exits, base=base)
    def do_loop(self, cond, body, inc, line=0):
        if self.st is None: return
        # ---- constant trip count: unroll
        pre = self.st
        if self.try_unroll(cond, body, inc): return
        self.st = pre
        self.nloops += 1
        self.summarise(cond, body, inc, line)
    def try_unroll(self, cond, body, inc, limit=40):
        pre = self.st; fr = self.frames[-1]; base = pre.pc
        r0 = len(fr.returns); t0 = len(self.throws); no = len(self.loop_obls)
        save_notes = set(self.notes)
        self.st = pre.clone()
        # quick probe: first condition must be decided
        try: c = self.decide(cond())
        except Unreach: self.st = pre; return False
        if c is not TRUE and c is not FALSE: self.st = pre; del self.throws[t0:]; return False
        if c is FALSE: return True
        probe = self.st
        # probe the trip count cheaply: run body, look whether the next condition stays decided
        outs = []
        for it in range(limit + 1):
            if it == limit:
                self.st = pre; del fr.returns[r0:]; del self.throws[t0:]; del self.loop_obls[no:]; return False
            self.loops.append({"kind": "loop", "breaks": [], "conts": []})
            bb = self.st.pc
            try:
                try: body()
                except Unreach: self.st = None
                lp = self.loops[-1]
                self.st, _ = self.merge([(x, None) for x in lp["conts"]] + ([(self.st, None)] if self.st is not None else []), bb)
                if self.st is not None:
                    try: inc()
                    except Unreach: self.st = None
            finally: lp = self.loops.pop()
            outs += [(x, None) for x in lp["breaks"]]
            if self.st is None: break
            try: c = self.decide(cond())
            except Unreach: c = FALSE; self.st = None; break
            if c is FALSE: outs.append((self.st, None)); break
            if c is not TRUE:
                self.st = pre; del fr.returns[r0:]; del self.throws[t0:]; del self.loop_obls[no:]; return False
        self.st, _ = self.merge(outs, base)
        return True
    def summarise(self, cond, body, inc, line):
        """arrays holding large terms are generalised to arbitrary arrays while a loop is summarised; the terms are put back afterwards"""
        pre = self.st; fr = self.frames[-1]; g = {}
        if self.user_inv(fr, line) is None:
            st = pre.clone()
            for k, v in pre.mem.items():
                if isinstance(v, T) and isinstance(v.sort, tuple) and v.op != "sym" and sum(1 for _ in subterms(v)) > 60:
                    h = next((h for h, w in g.items() if w is v), None)
                    if h is None: h = fresh("gen", v.sort); g[h] = v
                    st.mem[k] = h
        if not g: return self.summarise1(cond, body, inc, line)
        no, nr, nt, notes, hv, env = len(self.loop_obls), len(fr.returns), len(self.throws), set(self.notes), set(self.havocs), dict(fr.env)
        self.st = st
        try:
            self.summarise1(cond, body, inc, line); ok = self.notes == notes and self.havocs == hv
        except Unsupported: ok = False
        if not ok:
            del self.loop_obls[no:]; del fr.returns[nr:]; del self.throws[nt:]; self.notes.clear(); self.notes.update(notes); self.havocs.clear(); self.havocs.update(hv); fr.env.clear(); fr.env.update(env)
            self.st = pre; return self.summarise1(cond, body, inc, line)
        sb = lambda x: subst(x, g) if isinstance(x, T) else Loc(x.path, [sb(i) for i in x.idx]) if isinstance(x, Loc) else Ptr(sb(x.loc), sb(x.off)) if isinstance(x, Ptr) else PObj(sb(x.loc)) if isinstance(x, PObj) else type(x)(sb(x.c), sb(x.a), sb(x.b)) if isinstance(x, (PIte, LIte)) else x
        def back(s):
            if s is None: return None
            pc = []
            for c in s.pc:
                for cj in conjuncts(sb(c)):
                    if cj is not TRUE and cj not in pc: pc.append(cj)
            return State({k: sb(v) for k, v in s.mem.items()}, tuple(pc) if isinstance(s.pc, tuple) else pc, s.epoch)
        self.st = back(self.st)
        fr.returns[nr:] = [(back(s), sb(v)) for s, v in fr.returns[nr:]]; self.throws[nt:] = [(back(s), sb(v)) for s, v in self.throws[nt:]]
    def summarise1(self, cond, body, inc, line):
        pre = self.st; fr = self.frames[-1]
        base = pre.pc; ep0 = pre.epoch
        live = set(k[0] for k in pre.mem) | {"this"}
        for f in self.frames:
            for l in f.env.values():
                if isinstance(l, Loc): live.add(l.path[0])
        isloc = lambda k: "~" in k[0] and k[0] not in live
        H = {}     # path -> (havoc sym, sort, init term)  (for pointers: off)
        no = len(self.loop_obls)
        inv = self.user_inv(fr, line)
        for rnd in range(8):
            del self.loop_obls[no:]
            st = pre.clone()
            for p, (h, ini, kind) in H.items():
                if kind == "T": st.mem[p] = h
                else: st.mem[p] = Ptr(kind.loc, h)
            hst = st.clone()
            mark = freshmark(); nb = len(base); invh = None
            if inv:
                self.st = st; invh = inv(self); self.assume(invh); st = self.st; nb = len(st.pc)
            it = self.iterate(st, cond, body, inc)
            if it["post"] is not None and it["post"].epoch != ep0: raise Unsupported("opaque mutation inside loop")
            new = False
            if it["post"] is not None:
                pm = it["post"].mem
                for k in pm:
                    if isloc(k) or k in H: continue
                    a = hst.mem.get(k); b = pm[k]
                    if a is b: continue
                    if isinstance(b, T):
                        so = b.sort[2] if isinstance(b.sort, tuple) else b.sort
                        if a is None:
                            self.st = pre; a = self.initsym(k, so)
                            if a is b: continue
                        h = fresh("h." + ".".join(k), a.sort); H[k] = (h, a, "T"); new = True
                    elif isinstance(b, Ptr) and isinstance(a, Ptr) and a.loc.same(b.loc):
                        if a.off is b.off: continue
                        h = fresh("h." + ".".join(k), "I"); H[k] = (h, a.off, a); new = True
                    else:
                        if type(a) == type(b) and repr(a) == repr(b): continue
                        raise Unsupported("loop changes pointer %s: %r -> %r" % (".".join(k), a, b))
            if not new: break
        else: raise Unsupported("loop modification set does not stabilise")
        post = it["post"]; c = it["c"]; stc = it["stc"]
        hs = {h for h, _, _ in H.values()}
        def local(x):      # symbols born inside the iteration: a different value in every iteration
            return {y for y in symbols(x) if y not in hs and freshno(y) >= mark}
        if post is None:
            # body always leaves the loop: at most one iteration
            self.finish_once(it, pre, c, base); return
        t = freshbv()
        postv = {}
        for p, (h, ini, kind) in H.items():
            v = post.mem[p]
            if kind != "T":
                if not isinstance(v, Ptr): raise Unsupported("loop pointer")
                v = v.off
            postv[p] = v
        # side effects of the condition itself (i-- > 0)
        condv = {}
        for p, (h, ini, kind) in H.items():
            v = stc.mem.get(p)
            if v is None: continue
            v = v if kind == "T" else v.off
            if v is not h: condv[p] = v
        # induction variables
        closed = {}   # h -> term in t
        for p, (h, ini, kind) in H.items():
            if h.sort in ("I", "R"):
                d = sub(postv[p], h)
                if isnum(d) or (not (symbols(d) & hs)):
                    if isnum(d) or h.sort == "R" or not (d.fv):
                        if h.sort == "I" or isnum(d) or not (symbols(d) & hs):
                            closed[h] = add(ini, mul(d, t if h.sort == "I" else toR(t)))
        # range from condition
        N = None; early = []
        cc = c
        for cj in conjuncts(cc):
            if N is None:
                r = self.trip(cj, closed, hs, t)
                if r is not None: N = r; continue
            early.append(cj)
        partial = N is None and bool(inv)
        if partial:
            # partial correctness: an arbitrary number of iterations, known only through the supplied invariant
            N = fresh("trips", "I"); NONNEG.add(N.args[0]); self.havocs.add(N); early = []
        if N is None:
            self.havoc_loop(it, pre, H, hs, postv, line, "no trip count in condition %s" % (c,)); return
        # resolve remaining
        for p, (h, ini, kind) in H.items():
            if h in closed and local(postv[p]): del closed[h]
        if not partial and local(N): self.havoc_loop(it, pre, H, hs, postv, line, "trip count")
        pend = {p: (h, ini, kind) for p, (h, ini, kind) in H.items() if h not in closed}
        failed = set()
        prog_ = True
        while pend and prog_:
            prog_ = False
            for p, (h, ini, kind) in list(pend.items()):
                rhs = subst(postv[p], closed)
                other = (symbols(rhs) & hs) - {h}
                if other or local(postv[p]): continue
                f = self.closeform(rhs, h, ini, t, N)
                if f is not None and not (inv and any(x.op in ("maxo", "mino") for x in subterms(f))):
                    closed[h] = f; del pend[p]; prog_ = True
        recmap = {}; recset = set()
        if pend and getattr(self, "recur", None):
            from . import prover
            cand = {}
            for p, (h, ini, kind) in pend.items():
                if isinstance(h.sort, tuple): continue
                if local(postv[p]): continue
                cs = [f(t) for f in self.recur if f(IZERO).sort == h.sort and f(IZERO) is ini]
                if cs: cand[p] = cs
            if cand:
                import itertools
                ps = list(cand); t2 = fresh("t", "I")
                for combo in itertools.islice(itertools.product(*[cand[p] for p in ps]), 400):
                    trial = dict(closed)
                    for p, cf in zip(ps, combo): trial[pend[p][0]] = cf
                    ok = True
                    for p, cf in zip(ps, combo):
                        nx = subst(postv[p], {x: subst(trial[x], {t: t2}) for x in trial})
                        if symbols(nx) & hs: ok = False; break
                        hy = list(base) + [le(IZERO, t2), lt(t2, N)] + list(self.recur_axioms)
                        if prover.prove(hy, eq(subst(cf, {t: add(t2, IONE)}), nx), 3.0).status != "proved": ok = False; break
                    if ok:
                        # the updated value is known to equal the closed form at t+1: use that name for it
                        for p in ps:
                            nx = subst(postv[p], trial)
                            if nx.op not in ("sym", "num") and nx not in trial.values(): recmap[nx] = subst(trial[pend[p][0]], {t: add(t, IONE)})
                        recset |= set(ps)
                        for p in ps: closed[pend[p][0]] = trial[pend[p][0]]; del pend[p]
                        break
            prog_ = True
            while pend and prog_:
                prog_ = False
                for p, (h, ini, kind) in list(pend.items()):
                    rhs = subst(postv[p], closed)
                    if (symbols(rhs) & hs) - {h} or local(postv[p]): continue
                    if recmap: rhs = replace(rhs, recmap)
                    f = self.closeform(rhs, h, ini, t, N)
                    if f is not None: closed[h] = f; del pend[p]; prog_ = True
        for p, (h, ini, kind) in pend.items():
            # unresolved: leave an arbitrary value, noted
            hv = fresh("havoc." + ".".join(p), h.sort); closed[h] = hv; self.havocs.add(hv)
            self.notes.add("loop at line %s: no closed form for %s" % (line, ".".join(p)))
        # invariants: obligations (init is by construction; preservation)
        tt = fresh("t", "I")
        for p, (h, ini, kind) in H.items():
            if p in pend: continue
            cl = closed[h]
            nxt = subst(postv[p], {x: subst(closed[x], {t: tt}) for x in closed})
            if recmap and p not in recset: nxt = replace(nxt, {subst(a, {t: tt}): subst(b, {t: tt}) for a, b in recmap.items()})    # equalities proved by the recurrences' own obligations
            hyp = list(base) + [le(IZERO, tt), lt(tt, N)]
            g0 = (subst(cl, {t: IZERO}), ini)
            g1 = (subst(cl, {t: add(tt, IONE)}), nxt)
            if cl.op in ("maxo", "mino"):
                # running extremum: unfold one step of its definition, generalising the accumulated value and the new element
                fr_, (lo_, hi_, b_, i_) = open_binder(cl)
                acc = subst(cl, {t: tt}); b1 = subst(b_, {fr_[0]: tt, t: tt}); A_ = fresh("acc", acc.sort); X_ = fresh("new", acc.sort)
                if hi_ is t: g1 = (ite(lt(A_, X_) if cl.op == "maxo" else lt(X_, A_), X_, A_), replace(nxt, {acc: A_, b1: X_}))
            self.loop_obls.append(LoopObl(fr.fn["q"] if fr.fn else "lambda", line, ".".join(p), hyp, [g0, g1]))
        # exits
        exits = it["exits"]
        full = {h: closed[h] for h in closed}
        if inv:
            sb = {x: subst(closed[x], {t: tt}) for p, (x, _, _) in H.items() if p not in pend}
            self.st = pre; i0 = inv(self)
            self.st = post; i1 = inv(self)
            hyp = list(base) + [le(IZERO, tt), TRUE if partial else lt(tt, N)] + list(conjuncts(subst(invh, sb))) + [subst(x, sb) for x in post.pc[nb:]]
            q_ = fr.fn["q"] if fr.fn else "lambda"
            for k, g in enumerate(conjuncts(i0)): self.loop_obls.append(LoopObl(q_, line, "invariant%d" % k, list(base), [(g, TRUE)]))
            for k, g in enumerate(conjuncts(subst(i1, sb))): self.loop_obls.append(LoopObl(q_, line, "invariant%d" % k, hyp, [(TRUE, TRUE), (g, TRUE)]))
            for p in pend: self.notes.discard("loop at line %s: no closed form for %s" % (line, ".".join(p)))
        def at(term, tv): return subst(subst(term, full), {t: tv}) if isinstance(term, T) else term
        notearly = and_(*early)
        ex_list = []
        condset = set(conjuncts(c))
        if early:
            e = not_(notearly)
            ex_list.append((subst(e, full), "break", None, None))
        for kind, s, v in exits:
            rel = [x for x in s.pc[nb:] if x not in condset]
            cond_k = subst(and_(notearly, *rel), full)
            ex_list.append((cond_k, kind, s, v))
        C = or_(*[x[0] for x in ex_list]) if ex_list else FALSE
        Nf = smallmax0(N)
        if Nf.op == "ite" and any(nonneg(sub(N, q)) for q in ([sub(y.args[1], y.args[0]) for x in pre.pc for y in conjuncts(x) if y.op == "le" and y.args[0].sort == "I"])): Nf = N
        if C is FALSE:
            hasExit = FALSE; te = None
        elif partial or local(C) or (symbols(C) & {closed[h] for h, _, _ in pend.values()}):
            # the exit condition depends on values without closed form: whether and when the loop is left early is arbitrary
            hasExit = fresh("exit", "B"); te = fresh("te", "I"); self.havocs |= {hasExit, te}
            if inv is None: self.notes.add("loop at line %s: early exit left arbitrary" % line)
        else:
            if t not in C.fv:
                hasExit = and_(lt(IZERO, N), C); te = IZERO
            else:
                hasExit = mkexists(t, IZERO, N, C) if False else Exists(t, IZERO, N, C); te = First(t, IZERO, N, C)
                ue = None
        def final(tv, src_state=None, extra=None):
            m = dict(pre.mem)
            for p, (h, ini, kind) in H.items():
                v = at(h, tv)
                m[p] = v if kind == "T" else Ptr(kind.loc, v)
            return m
        # normal completion
        outs = []
        if hasExit is not TRUE and not (partial and c is TRUE):
            s = State(final(Nf), base, ep0)
            self.st = s; self.assume(not_(hasExit))
            if self.st is not None and inv: self.assume(at(invh, Nf))
            if self.st is not None and partial: self.assume(not_(at(c, Nf)))
            if self.st is not None:
                if condv:
                    cond()     # replay side effects of the failing test
                outs.append((self.st, None))
        for cond_k, kind, s, v in ex_list:
            if cond_k is FALSE: continue
            m = final(te)
            if s is not None:
                for p, x in s.mem.items():
                    if isloc(p): continue
                    if isinstance(x, T): m[p] = at(x, te)
                    elif isinstance(x, Ptr): m[p] = Ptr(Loc(x.loc.path, [at(i, te) for i in x.loc.idx]), at(x.off, te))
                    else: m[p] = x
                if kind == "return" and isinstance(v, Loc):
                    for p, x in s.mem.items():
                        if p[0] == v.path[0]: m[p] = at(x, te) if isinstance(x, T) else x
            ns = State(m, base, ep0)
            self.st = ns; self.assume(hasExit)
            if self.st is None: continue
            if hasExit.op == "sym": self.assume(le(IZERO, te)); self.assume(TRUE if partial else lt(te, N))
            if self.st is None: continue
            if inv: self.assume(at(invh, te))
            if self.st is None: continue
            self.assume(subst(cond_k, {t: te}) if hasExit.op == "sym" or len([1 for q in ex_list if q[0] is not FALSE]) > 1 else TRUE)
            if self.st is None: continue
            if kind == "break": outs.append((self.st, None))
            elif kind == "return":
                vv = at(v, te) if isinstance(v, T) else (Loc(v.path, [at(i, te) for i in v.idx]) if isinstance(v, Loc) else (Ptr(Loc(v.loc.path, [at(i, te) for i in v.loc.idx]), at(v.off, te)) if isinstance(v, Ptr) else v))
                fr.returns.append((self.st, vv))
            else: self.throws.append((self.st, v))
        # restore variable bindings of enclosing scopes
        self.st, _ = self.merge(outs, base)
    def user_inv(self, fr, line):
        """loop invariant supplied by the contract for the k-th loop of the function: f(S) with S(name) the value of a local"""
        if not self.invariants or not fr.fn: return None
        for (q, k), f in self.invariants.items():
            if fr.fn["q"].split("::")[-1] != q and fr.fn["q"] != q: continue
            ls = []
            def walk(x):
                if isinstance(x, dict):
                    if x.get("k") in ("for", "while", "do", "range"): ls.append(x["l"])
                    for v in x.values(): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(fr.fn.get("body"))
            if k < len(ls) and ls[k] == line:
                def g(ex, f=f):
                    def S(name, sort="R"):
                        if "." in name: return ex.rdarr(tuple(name.split(".")), sort)
                        l = [l for l in fr.env.values() if isinstance(l, Loc) and l.path[0].split("~")[0] == name]
                        if not l: raise Unsupported("loop invariant: no local %s" % name)
                        l = l[-1]
                        m = ex.st.mem.get(l.path)
                        if m is None: m = ex.rd(l, sort="I")
                        return m.off if isinstance(m, Ptr) else m
                    return f(S)
                return g
        return None
    def finish_once(self, it, pre, c, base):
        fr = self.frames[-1]; outs = []
        s = it["stc"]; self.st = State(dict(s.mem), base, pre.epoch); self.assume(not_(c))
        if self.st is not None: outs.append((self.st, None))
        for kind, s, v in it["exits"]:
            if kind == "break": outs.append((s, None))
            elif kind == "return": fr.returns.append((s, v))
            else: self.throws.append((s, v))
        self.st, _ = self.merge(outs, base)
    def havoc_loop(self, it, pre, H, hs, postv, line, why):
        self.notes.add("loop at line %s not summarised (%s)" % (line, why))
        raise Unsupported("loop at line %s: %s" % (line, why))
    def trip(self, c, closed, hs, t):
        """number of iterations implied by condition conjunct c, as a term free of t"""
        c = subst(c, closed)
        if symbols(c) & (hs - set(closed)): return None
        if symbols(c) & hs: return None
        if t not in c.fv: return None
        if c.op == "le" and c.args[0].sort == "I":
            r = linear_in(sub(c.args[0], c.args[1]), t)
            if r is None: return None
            a, b = r       # a*t + b <= 0
            if a > 0 and not b.fv & {t}:
                if a == 1: return add(neg(b), IONE)
                return add(idiv(neg(b), I(a)), IONE)
            return None
        if c.op == "not" and c.args[0].op == "eq" and c.args[0].args[0].sort == "I":
            r = linear_in(sub(*c.args[0].args), t)
            if r is None: return None
            a, b = r
            if abs(a) == 1: return mul(num(-a, "I"), b)
            if a != 0 : 
                return idiv(mul(num(-1 if a > 0 else 1, "I"), b), I(abs(a)))
            return None
        return None
    def closeform(self, rhs, h, ini, t, N):
        if isinstance(h.sort, tuple): return self.closearr(rhs, h, ini, t, N)
        u = freshbv()
        return self.closescalar(rhs, h, ini, t, u)
    def closescalar(self, rhs, h, ini, t, u):
        """closed form at t of x_{t+1} = rhs(x_t, t), x_0 = ini"""
        if not occurs(rhs, h):
            if t not in rhs.fv: return ite(le(t, IZERO), ini, rhs)
            return ite(le(t, IZERO), ini, subst(rhs, {t: sub(t, IONE)}))
        if rhs is h: return ini
        if rhs.op == "ite":
            c, a, b = rhs.args
            for (cc, x, y) in ((c, a, b), (not_(c), b, a)):
                if y is h and not occurs(cc, h):
                    cu = subst(cc, {t: u})
                    for cj in conjuncts(cu):
                        e = solve_eq(cj, u)
                        if e is not None and t not in e.fv:
                            return ite(and_(subst(cu, {u: e}), le(IZERO, e), lt(e, t)), subst(subst(x, {h: ini}), {t: e}), ini)
        if h.sort in ("R", "I"):
            d = addpart(rhs, h)
            if d is not None:
                if t not in d.fv: return add(ini, mul(d, t if h.sort == "I" else toR(t)))
                return add(ini, mksum(u, IZERO, t, subst(d, {t: u})))
            f = mulpart(rhs, h)
            if f is not None:
                p = Prod(u, IZERO, t, subst(f, {t: u}))
                return mul(ini, p)
        if h.sort == "B":
            if rhs.op == "or" and h in rhs.args:
                r = or_(*[x for x in rhs.args if x is not h])
                if not occurs(r, h): return or_(ini, mkexists(u, IZERO, t, subst(r, {t: u})))
            if rhs.op == "and" and h in rhs.args:
                r = and_(*[x for x in rhs.args if x is not h])
                if not occurs(r, h): return and_(ini, not_(mkexists(u, IZERO, t, not_(subst(r, {t: u})))))
        if rhs.op == "ite":
            c, a, b = rhs.args
            for (cc, x, y) in ((c, a, b), (not_(c), b, a)):
                # cc ? x : y  with y = h
                if y is h and not occurs(x, h) and not occurs(cc, h):
                    cu = subst(cc, {t: u}); xu = subst(x, {t: u})
                    for cj in conjuncts(cu):
                        e = solve_eq(cj, u)
                        if e is not None and t not in e.fv:
                            return ite(and_(subst(cu, {u: e}), le(IZERO, e), lt(e, t)), subst(xu, {u: e}), ini)
                    if not cu.fv & {u}:
                        return ite(and_(cu, lt(IZERO, t)), subst(xu, {u: sub(t, IONE)}), ini)
                    w = freshbv()
                    last = sub(sub(t, IONE), First(w, IZERO, t, subst(cu, {u: sub(sub(t, IONE), w)})))
                    return ite(Exists(u, IZERO, t, cu), subst(xu, {u: last}), ini)
                if y is h and cc.op in ("lt", "le") and not occurs(x, h) and h.sort in ("R", "I"):
                    l, r = cc.args
                    ufree = subst(x, {t: u})
                    if l is h and r is x: return MaxO(u, IZERO, t, ufree, ini)
                    if r is h and l is x: return MinO(u, IZERO, t, ufree, ini)
                    # canonical comparisons may have been rearranged
                    dd = sub(l, r)
                    if dd is sub(h, x): return MaxO(u, IZERO, t, ufree, ini)
                    if dd is sub(x, h): return MinO(u, IZERO, t, ufree, ini)
                    if h.sort == "I" and dd is add(sub(h, x), IONE): return MaxO(u, IZERO, t, ufree, ini)
                    if h.sort == "I" and dd is add(sub(x, h), IONE): return MinO(u, IZERO, t, ufree, ini)
                # in-place update at a unique iteration
                if y is h and not occurs(cc, h):
                    cu = subst(cc, {t: u})
                    for cj in conjuncts(cu):
                        e = solve_eq(cj, u)
                        if e is not None and t not in e.fv:
                            return ite(and_(subst(cu, {u: e}), le(IZERO, e), lt(e, t)), subst(subst(x, {h: ini}), {t: e}), ini)
            # split: independent condition of t  -> recurse
            if not occurs(c, h) and t not in c.fv:
                A = self.closescalar(a, h, ini, t, u); B = self.closescalar(b, h, ini, t, u)
                if A is not None and B is not None: return ite(c, A, B)
            # nested unique-iteration updates: c has equation in t, both branches
            if not occurs(c, h):
                cu = subst(c, {t: u})
                for cj in conjuncts(cu):
                    e = solve_eq(cj, u)
                    if e is not None and t not in e.fv:
                        # value changes to a at t==e, otherwise by b; handle b = another unique update
                        bb = self.closescalar(b, h, ini, t, u)
                        if bb is not None and bb is ini: pass
        # max written with rmax on h inside: ite(lt(h,x), x, h) covered
        return None
    def closearr(self, rhs, h, ini, t, N):
        n = h.sort[1]
        js = tuple(freshbv() for _ in range(n))
        b = sel(rhs, js)
        if b is sel(h, js): return ini
        x = fresh("x", h.sort[2])
        own = sel(h, js)
        b = self.drop_negative(b, t)
        b0 = b; cf = None
        b = self.rewrite_own(b, h, js, x, t, ini, own, TRUE)
        if b is not None and not occurs(b, h):
            u = freshbv()
            if b.op == "ite" and b.args[2] is x and not occurs(b.args[1], x):
                # an overwritten element: name the element itself instead of the index expression that selected it
                for cj in conjuncts(b.args[0]):
                    if cj.op != "eq": continue
                    for j_, e_ in (cj.args, cj.args[::-1]):
                        if j_ in js and e_.op == "sel" and t in e_.fv: b = ite(b.args[0], replace(b.args[1], {e_: j_}), x); break
                    if b.op != "ite": break
            def close1(b, q):
                cf = self.closescalar(b, x, q, t, u)
                if cf is None: cf = self.close_pieces(b, x, q, t, u)
                if cf is None: cf = self.close_once(b, x, q, t)
                return cf
            cf = close1(b, sel(ini, js))
            if cf is None: cf = self.close_split(b, js, t, x, sel(ini, js), close1)
        if cf is None: cf = self.close_cases(b0, h, js, own, sel(ini, js), t)
        if cf is None: return None
        return lam(js, cf)
    def drop_negative(self, b, t):
        """the iteration number t is not negative"""
        neg_ = {}
        for y in subterms(b):
            if y.op == "eq" and t in y.fv and y.args[0].sort == "I":
                e = solve_eq(y, t)
                if e is not None and isnum(e) and val(e) < 0: neg_[y] = FALSE
        return replace(b, neg_) if neg_ else b
    def close_split(self, b, js, t, x, ini, close1, depth=0):
        """by cases on conditions that do not change from one iteration to the next (a fixed element, say)"""
        if depth > 4: return None
        p = None; seen = set(); st = [b]
        while st and p is None:
            z = st.pop()
            if z in seen or z.op in BINDERS: continue
            seen.add(z)
            if z.op == "ite":
                for cj in conjuncts(z.args[0]):
                    if t not in cj.fv and not occurs(cj, x) and cj.op == "eq" and any(j in cj.fv for j in js): p = cj; break
            st.extend(kids(z))
        if p is None: return None
        m = {}
        for j in js:
            e = solve_eq(p, j)
            if e is not None and j not in e.fv: m[j] = e; break
        b1 = replace(b, {p: TRUE}); b1 = subst(b1, m) if m else b1
        b1 = self.drop_negative(b1, t)
        i1 = subst(ini, m) if m else ini
        c1 = close1(b1, i1)
        if c1 is None: c1 = self.close_split(b1, js, t, x, i1, close1, depth + 1)
        if c1 is None: return None
        b2 = replace(b, {p: FALSE})
        c2 = close1(b2, ini)
        if c2 is None: c2 = self.close_split(b2, js, t, x, ini, close1, depth + 1)
        return None if c2 is None else ite(p, c1, c2)
    def close_cases(self, b, h, js, own, ini, t):
        """several updates of elements of one array in an iteration, whose targets may coincide: by cases on which targets
        are this element, the iteration adds (multiplies by) an amount free of the array: the loop adds their sum"""
        if h.sort[2] not in ("R", "I"): return None
        def outside(y):
            """ite conditions of y outside binders, branches containing h"""
            seen = set(); st = [y]
            while st:
                z = st.pop()
                if z in seen or not occurs(z, h): continue
                seen.add(z)
                if z.op in BINDERS: return "binder"
                if z.op == "ite": return z.args[0]
                st.extend(kids(z))
            return None
        def same(i, j, cls):
            if i is j: return True
            f = lambda q: cls.get(q, q)
            return f(i) is f(j)
        count = [0]
        def leaves_(b, cls, act):
            count[0] += 1
            if count[0] > 200: return None
            m = {}
            for y in subterms(b):
                if y.op == "sel" and y.args[0] is h and y is not own and all(same(i, j, cls) for i, j in zip(y.args[1:], js)): m[y] = own
            if m: b = replace(b, m)
            c = outside(b)
            if c == "binder": return None
            if c is None: return act(b)
            if occurs(c, h): return None
            cls2 = dict(cls)
            for cj in conjuncts(c):
                if cj.op == "eq" and cj.args[0].sort == "I":
                    p, q = cj.args; f = lambda z: cls2.get(z, z)
                    a, r = f(p), f(q)
                    if a is r: continue
                    for z in set(cls2) | {p, q, a, r}:
                        if f(z) is a: cls2[z] = r
            A = leaves_(replace(b, {c: TRUE}), cls2, act)
            if A is None: return None
            B = leaves_(replace(b, {c: FALSE}), cls, act)
            return None if B is None else ite(c, A, B)
        if outside(b) is None: return None
        u = freshbv()
        def addl(b):
            d = sub(b, own); return None if occurs(d, h) else d
        d = leaves_(b, {}, addl)
        if d is not None: return add(ini, mksum(u, IZERO, t, subst(d, {t: u})))
        count[0] = 0
        def mull(b):
            if b is own: return num(1, own.sort)
            if isnum(b) and val(b) == 0: return b
            X = fresh("x", own.sort); f = mulpart(replace(b, {own: X}), X)
            return None if f is None or occurs(f, h) else f
        d = leaves_(b, {}, mull)
        if d is not None: return mul(ini, Prod(u, IZERO, t, subst(d, {t: u})))
        return None
    def close_once(self, b, x, ini, t):
        """every write to the element happens in the one iteration e in which the written index equals it: the value after
        the loop is what that iteration makes of the initial value"""
        e = None; eqs = {}
        for y in list(subterms(b)):
            if y.op != "ite": continue
            for cj in conjuncts(y.args[0]):
                if cj.op != "eq" or cj in eqs: continue
                s = solve_eq(cj, t)
                if s is None or t in s.fv or occurs(s, x): continue
                if e is None: e = s
                if s is not e: return None
                eqs[cj] = FALSE
        if e is None or replace(b, eqs) is not x: return None
        return ite(and_(le(IZERO, e), lt(e, t)), subst(subst(b, {x: ini}), {t: e}), ini)
    def close_pieces(self, b, x, ini, t, u):
        """several unique-iteration writes to the same array element set: ite(c1, v1, ite(c2, v2, x)) with
        solvable c's and x-free values: the last written wins; sound when the solutions are ordered"""
        pieces = []
        r = b
        while r.op == "ite" and not occurs(r.args[0], x):
            c = subst(r.args[0], {t: u}); e = None
            for cj in conjuncts(c):
                e = solve_eq(cj, u)
                if e is not None and t not in e.fv: break
                e = None
            if e is None: break
            pieces.append((c, e, r.args[1])); r = r.args[2]
        if r is not x or not pieces: return None
        # require pairwise constant difference of the solutions (program order known)
        val_ = ini
        def key(p): return p[1]
        es = [p[1] for p in pieces]
        base = es[0]; offs = []
        for e in es:
            d = sub(e, base)
            if not isnum(d): 
                # accept if conditions are mutually exclusive for the same element (all in-place x-free or single writes)
                offs = None; break
            offs.append(val(d))
        if offs is None:
            # no fixed order: the write of the latest iteration counts (within one iteration, the last of the body)
            if len(pieces) > 3 or any(occurs(v, x) or occurs(c, x) for c, e, v in pieces): return None
            ok = [and_(subst(c, {u: e}), le(IZERO, e), lt(e, t)) for c, e, v in pieces]
            for i in range(len(pieces) - 1, -1, -1):
                c, e, v = pieces[i]
                best = [or_(not_(ok[j]), lt(pieces[j][1], e) if j < i else le(pieces[j][1], e)) for j in range(len(pieces)) if j != i]
                val_ = ite(and_(ok[i], *best), subst(subst(v, {t: u}), {u: e}), val_)
            return val_
        order = sorted(range(len(pieces)), key=lambda i: (offs[i], -i))
        for i in order:
            c, e, v = pieces[i]
            vv = subst(subst(v, {x: val_}), {t: e})
            val_ = ite(and_(subst(c, {u: e}), le(IZERO, e), lt(e, t)), vv, val_)
        return val_
    def rewrite_own(self, b, h, js, x, t, ini, own, ctx):
        """replace reads of h inside the update of element js"""
        memo = {}
        def go(b, eqs):
            if not occurs(b, h): return b
            key = (b, eqs)
            if key in memo: return memo[key]
            if b is own: r = x
            elif b.op == "sel" and b.args[0] is h:
                idx = [go(i, eqs) if occurs(i, h) else i for i in b.args[1:]]
                r = None
                if all(not occurs(i, h) for i in idx):
                    # equal to js under the equalities in context?
                    m = dict(eqs)
                    if all(i is j or subst(i, m) is subst(j, m) or val0(sub(i, j), m) for i, j in zip(idx, js)): r = x
                    elif self.notwritten(idx, b, h, t): r = sel(ini, idx)
                if r is None: r = b
            elif b.op == "ite":
                c = go(b.args[0], eqs)
                e2 = dict(eqs)
                for cj in conjuncts(c):
                    if cj.op == "eq":
                        for j in js:
                            s = solve_eq(cj, j)
                            if s is not None and j not in s.fv: e2[j] = s; break
                a2 = go(b.args[1], tuple(sorted(e2.items(), key=lambda p: p[0].id))); b2 = go(b.args[2], eqs)
                r = ite(c, a2, b2)
            elif b.op in BINDERS:
                fr_, rest = open_binder(b)
                rest = [go(z, eqs) for z in rest]
                r = lam(fr_, rest[0]) if b.op == "lam" else rebinder(b.op, fr_[0], rest[0], rest[1], rest[2], rest[3:])
            else:
                ks = [go(a, eqs) for a in kids(b)]
                r = rebuild(b, ks)
            memo[key] = r
            return r
        def val0(d, m):
            d = subst(d, m)
            return isnum(d) and val(d) == 0
        self._wr = self.written(h, js, b)
        return go(b, ())
    def written(self, h, js, b):
        """list of index tuples written (from the eq-conditions of b's ite spine)"""
        out = []
        def walk(b):
            if b.op == "ite":
                idx = [None] * len(js)
                for cj in conjuncts(b.args[0]):
                    for q, j in enumerate(js):
                        s = solve_eq(cj, j)
                        if s is not None and j not in s.fv: idx[q] = s
                out.append((idx, b.args[0]))
                walk(b.args[2])
        walk(b)
        return out
    def notwritten(self, idx, b, h, t):
        """h[idx] is certainly not written by iterations u < t"""
        u = freshbv()
        if not self._wr: return False
        for w, c in self._wr:
            ok = False
            for i, e in zip(idx, w):
                if e is None: continue
                d = sub(subst(e, {t: u}), i)       # zero iff written at iteration u in this dimension
                r = linear_in(d, u)
                if r is None: continue
                a, rest = r
                if a == 0:
                    if isnum(rest) and val(rest) != 0: ok = True
                    continue
                # u = -rest/a ; compare with t
                sol = mul(num(Fr(-1) / a, "R"), toR(rest)) if abs(a) != 1 else mul(num(-a, "I"), rest)
                dd = sub(sol, t if sol.sort == "I" else toR(t))
                if isnum(dd) and (val(dd) >= 0 or val(dd).denominator != 1): ok = True
                if isnum(sol) and (val(sol) < 0 or val(sol).denominator != 1): ok = True
            if not ok: return False
        return True

class PScalar(Ptr):
    """pointer to a single scalar variable / field"""
    __slots__ = ()
    def __init__(s, loc): s.loc = loc; s.off = IZERO
class PScalarLoc: pass
