"""Equational/arithmetical prover for the obligations.

Back ends, in order: (1) canonical polynomial normal form with finite-sum calculus
("poly"), with case splits whose infeasible branches are discharged by z3; (2) z3 on the
abstracted obligation ("z3"); (3) cvc5 as a second opinion on (2) when z3 answers unknown.
A refuter evaluates undischarged obligations on random models ("eval")."""
from .terms import *
from . import terms as tm
from .exec import NONNEG, PHYS, linear_in, solve_eq, conjuncts, mkexists
from fractions import Fraction as Fr
import itertools, math, random, time, zlib
import z3

STAT = {"poly": 0, "z3": 0, "cvc5": 0, "z3_time": 0.0, "cvc5_time": 0.0, "splits": 0}
IMPL_POS = {"exp"}

class Budget(Exception): pass

# ---------------------------------------------------------------------------- z3 translation
class Z3T:
    def __init__(self):
        self.memo = {}; self.n = 0; self.side = []; self.fn = {}
    def sort(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}.get(s, z3.IntSort())
    def atom(self, t):
        self.n += 1
        return z3.Const("a%d" % t.id, self.sort(t.sort))
    def func(self, name, dom, rng):
        k = (name, tuple(dom), rng)
        if k not in self.fn:
            self.fn[k] = z3.Function("f%d_%s" % (len(self.fn), "".join(c if c.isalnum() else "_" for c in str(name))[:30]), *([self.sort(d) for d in dom] + [self.sort(rng)]))
        return self.fn[k]
    def tr(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        r = self._tr(t); self.memo[t] = r
        if t.sort == "I" and t.op in ("sym", "sel", "uf"):
            nm = t.args[0].args[0] if t.op == "sel" and t.args[0].op == "sym" else t.args[0] if isinstance(t.args[0], str) else None
            if nm in NONNEG or nm == "strlen": self.side.append(r >= 0)
        if t.op == "sym" and t.args[0][0] == "#": 
            self.side.append(r > 0 if t.args[0] not in ("#dbl_lowest", "#Undef") else r < 0)
        return r
    def _tr(self, t):
        op = t.op; a = t.args
        if op == "num":
            v = a[0]
            if t.sort == "I": return z3.IntVal(int(v))
            return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "strlit": return z3.IntVal(zlib.crc32(a[0].encode()) + 10)
        if op == "add": return z3.Sum([self.tr(x) for x in a])
        if op == "mul":
            r = self.tr(a[0])
            for x in a[1:]: r = r * self.tr(x)
            return r
        if op == "pw":
            b, q = a
            if q.denominator == 1 and 0 < q <= 6:
                x = self.tr(b); r = x
                for _ in range(int(q) - 1): r = r * x
                return r
            f = self.func("pw%s" % q, [b.sort], "R")
            x = self.tr(b); r = f(x)
            if q == -1 and b.sort == "R":
                self.side.append(z3.Implies(x != 0, r * x == 1)); self.side.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)))
            elif q == Fr(1, 2):
                self.side.append(z3.Implies(x >= 0, z3.And(r * r == x, r >= 0)))
            else: self.side.append(z3.Implies(x > 0, r > 0))
            return r
        if op == "lt": return self.tr(a[0]) < self.tr(a[1])
        if op == "le": return self.tr(a[0]) <= self.tr(a[1])
        if op == "eq":
            if isinstance(a[0].sort, tuple): return z3.Bool("aeq%d" % t.id)
            return self.tr(a[0]) == self.tr(a[1])
        if op == "not": return z3.Not(self.tr(a[0]))
        if op == "and": return z3.And([self.tr(x) for x in a])
        if op == "or": return z3.Or([self.tr(x) for x in a])
        if op == "ite" and not isinstance(t.sort, tuple): return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
        if op == "toR": return z3.ToReal(self.tr(a[0]))
        if op == "trunc":
            x = self.tr(a[0]); return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == "idiv":
            x, y = self.tr(a[0]), self.tr(a[1])
            return z3.If(x >= 0, x / y, -((-x) / y))
        if op == "imod":
            x, y = self.tr(a[0]), self.tr(a[1])
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op in ("sel", "uf"):
            nm = a[0] if op == "uf" else ("arr%d" % a[0].id)
            args = a[1:]
            if any(isinstance(x.sort, tuple) for x in args if isinstance(x, T)) or isinstance(t.sort, tuple):
                # array-valued arguments by identity
                aa = [(x if not isinstance(x.sort, tuple) else None) for x in args]
                nm = str(nm) + "|" + ",".join(str(x.id) for x in args if isinstance(x.sort, tuple))
                args = [x for x in aa if x is not None]
                if isinstance(t.sort, tuple): return z3.Int("arrv%d" % t.id)
            if not args: return self.atom(t)
            r = self.func(nm, [x.sort for x in args], t.sort)(*[self.tr(x) for x in args])
            if op == "uf" and nm == "exp": self.side.append(r > 0)
            return r
        if op in ("forall", "exists"):
            bv = z3.Int("bv%d_%d" % (t.id, self.n)); self.n += 1
            fr, (lo, hi, body) = open_binder(t)
            sub_ = Z3T.__new__(Z3T); sub_.memo = dict(self.memo); sub_.n = self.n; sub_.side = []; sub_.fn = self.fn
            sub_.memo[fr[0]] = bv
            b = sub_.tr(body); l = self.tr(lo); h = self.tr(hi); self.n = sub_.n
            sd = sub_.side
            rng = z3.And(l <= bv, bv < h)
            if op == "forall": return z3.ForAll([bv], z3.Implies(z3.And(rng, *sd), b))
            return z3.Exists([bv], z3.And(rng, b))
        if op == "first":
            # First(v in [lo,hi): c) axioms
            r = self.atom(t)
            fr, (lo, hi, body) = open_binder(t)
            l = self.tr(lo); h = self.tr(hi)
            ce = self.tr(subst(body, {fr[0]: self.symfor(t)})) if False else None
            return r
        return self.atom(t)
    def symfor(self, t): return t

_dec_cache = {}
def z3_check(hyps, timeout=300):
    """is the conjunction of hyps satisfiable? 'sat' 'unsat' 'unknown'"""
    key = frozenset(hyps)
    r = _dec_cache.get(key)
    if r is not None: return r
    t0 = time.time()
    tr = Z3T(); s = z3.Solver(); s.set("timeout", timeout)
    fs = [tr.tr(h) for h in hyps]
    # properties of first() terms and binder atoms
    for t in list(tr.memo):
        if t.op == "first":
            fr, (lo, hi, body) = open_binder(t)
            r = tr.memo[t]; l = tr.tr(lo); h = tr.tr(hi)
            fs.append(z3.Implies(l <= h, z3.And(l <= r, r <= h)))
            at = tr.tr(subst(body, {fr[0]: t}))
            fs.append(z3.Implies(z3.And(l <= r, r < h), at))
            ex = mk("exists", (t.args[0], t.args[1], t.args[2], t.args[3]), "B")
            fs.append(tr.tr(ex) == z3.And(l <= r, r < h))
    s.add(fs); s.add(tr.side)
    try: r = str(s.check())
    except z3.Z3Exception: r = "unknown"
    STAT["z3_time"] += time.time() - t0
    _dec_cache[key] = r
    return r

def entails(hyps, c, timeout=300):
    return z3_check(list(hyps) + [not_(c)], timeout) == "unsat"

# ---------------------------------------------------------------------------- facts
class Facts:
    """conjunction of known atoms with quick lookup"""
    def __init__(self, hyps=(), parent=None):
        self.atoms = dict(parent.atoms) if parent else {}
        self.lin = dict(parent.lin) if parent else {}
        self.key = None
        for h in hyps: self.add(h)
    def add(self, h):
        for c in conjuncts(h):
            if c in self.atoms: continue
            self.atoms[c] = True
            if c.op in ("le", "lt"):
                d = sub(c.args[0], c.args[1])
                k, b = _split(d)
                st = c.op == "lt"
                # k + b <= 0 (or <)
                old = self.lin.get(k)
                if old is None or (b, st) > old: self.lin[k] = (b, st)
            elif c.op == "eq" and c.args[0].sort in ("I", "R"):
                d = sub(c.args[0], c.args[1]); k, b = _split(d)
                for kk, bb in ((k, b), (neg(k), -b)):
                    old = self.lin.get(kk)
                    if old is None or (bb, False) > old: self.lin[kk] = (bb, False)
    def with_(self, *hs):
        f = Facts(hs, self); return f
    def under(self, v, lo, hi):
        """facts inside a binder: range of v and the instances at v of the universal facts that cover it"""
        f = Facts((le(lo, v), lt(v, hi)), self)
        for h in list(self.atoms):
            if h.op != "forall": continue
            fr, (l2, h2, body) = open_binder(h)
            if fr[0].sort != v.sort: continue
            if (l2 is lo or f.quick(le(l2, v)) is TRUE) and (h2 is hi or f.quick(lt(v, h2)) is TRUE):
                f.add(subst(body, {fr[0]: v}))
        return f
    def quick(self, c):
        if c is TRUE or c is FALSE: return c
        if c in self.atoms: return TRUE
        n = not_(c)
        if n in self.atoms: return FALSE
        if c.op == "and":
            rs = [self.quick(x) for x in c.args]
            if all(r is TRUE for r in rs): return TRUE
            if any(r is FALSE for r in rs): return FALSE
            return None
        if c.op == "or":
            rs = [self.quick(x) for x in c.args]
            if any(r is TRUE for r in rs): return TRUE
            if all(r is FALSE for r in rs): return FALSE
            return None
        if c.op == "not":
            r = self.quick(c.args[0])
            return None if r is None else not_(r)
        if c.op in ("le", "lt"):
            r = self._lin(c)
            if r is not None: return r
        if c.op == "eq" and c.args[0].sort in ("I", "R"):
            d = sub(c.args[0], c.args[1])
            k, b = _split(d)
            for kk, bb in ((k, b), (neg(k), -b)):
                f = self.lin.get(kk)
                if f is not None:
                    # kk + f0 <= 0 ; and kk + bb == 0 -> kk = -bb ; need -bb + f0 <= 0
                    v = f[0] - bb
                    if v > 0 or (v == 0 and f[1]): return FALSE
            f = self.lin.get(k); g = self.lin.get(neg(k))
            if f and g and f[0] == b and g[0] == -b: return TRUE
        return None
    def _lin(self, c):
        d = sub(c.args[0], c.args[1]); k, b = _split(d); st = c.op == "lt"
        f = self.lin.get(k)
        if f is not None:
            # know k <= -f0 ; want k <= -b
            if f[0] > b or (f[0] == b and (f[1] or not st)): return TRUE
        g = self.lin.get(neg(k))
        if g is not None:
            # know -k + g0 <= 0 -> k >= g0 ; c says k <= -b
            if g[0] > -b or (g[0] == -b and (st or g[1])): return FALSE
        if c.args[0].sort == "I" and _nn(neg(k)) and b <= 0 : return TRUE if (b < 0 or not st) else None
        if _nn(k) and (b > 0 ): return FALSE
        return None

def _split(d):
    if d.op == "add" and isnum(d.args[0]):
        c = val(d.args[0]); r = add(*d.args[1:]) if len(d.args) > 2 else d.args[1]
    elif isnum(d): return num(0, d.sort), val(d)
    else: c = Fr(0); r = d
    # scale to primitive
    ts = r.args if r.op == "add" else (r,)
    cs = [abs(tm._coefterm(t)[0]) for t in ts]
    s = min(cs)
    if s != 1 and s != 0:
        r = mul(num(1 / s, "R" if r.sort == "R" else r.sort), r) if r.sort == "R" or all((x / s).denominator == 1 for x in cs) else r
        if r.sort == "R" or all((x / s).denominator == 1 for x in cs): c = c / s
    return r, c

def _nn(t):
    from .exec import nonneg
    if t.op == "toR": return _nn(t.args[0])
    if t.op in ("sym", "sel", "uf") and t.sort == "I": return nonneg(t)
    if t.op == "num": return val(t) >= 0
    if t.op in ("add", "mul"): return all(_nn(a) for a in t.args)
    return False

# ---------------------------------------------------------------------------- polynomials
# poly: dict {monomial: Fr}; monomial: tuple of (atom, Fr exponent) sorted by atom id
def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c == 0: r.pop(m, None)
        else: r[m] = c
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        e2 = d.get(x, 0) + e
        if x.op == "ind" and e2 > 1: e2 = Fr(1)
        if e2 == 0: d.pop(x, None)
        else: d[x] = e2
    return tuple(sorted(d.items(), key=lambda z: z[0].id))
def pmul(p, q, limit=60000):
    if len(p) * len(q) > limit: raise Budget("polynomial product too large")
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = mmul(a, b); c = r.get(m, 0) + x * y
            if c == 0: r.pop(m, None)
            else: r[m] = c
    return r
ONEP = {(): Fr(1)}
def pconst(p):
    if not p: return Fr(0)
    if len(p) == 1 and () in p: return p[()]
    return None

def ind(c): return mk("ind", (c,), "R")

class NF:
    def __init__(self, facts, deadline=None, assume_pos=True):
        self.f = facts; self.memo = {}; self.deadline = deadline; self.dec = {}; self.assume_pos = assume_pos
        self.used_pos = set()
        self.pmemo = {}
    # --- conditions
    def decide(self, c):
        if c is TRUE or c is FALSE: return c
        r = self.f.quick(c)
        if r is not None: return r
        if c in self.dec: return self.dec[c]
        r = c
        if c.op in ("le", "lt", "eq", "and", "or", "not"):
            # semantic check, integers/linear only (cheap)
            rel = self.relevant(c)
            if rel and c.args and (c.op not in ("le", "lt", "eq") or c.args[0].sort in ("I",) or rel):
                if z3_check(rel + [not_(c)], 150) == "unsat": r = TRUE
                elif z3_check(rel + [c], 150) == "unsat": r = FALSE
        self.dec[c] = r
        return r
    def relevant(self, c):
        sy = set(symbols(c)) | set(c.fv)
        if not sy: return []
        out = []; cand = list(self.f.atoms)
        syms = {h: (set(symbols(h)) | set(h.fv)) for h in cand}
        ch = True; used = set()
        while ch:
            ch = False
            for h in cand:
                if h in used: continue
                if h.op in ("forall", "exists") : continue
                if syms[h] & sy:
                    used.add(h); sy |= {s for s in syms[h] if s.sort in ("I", "R", "B")} ; ch = True
                    if len(used) > 40: return list(used)
        return list(used)
    # --- positivity
    def pos(self, t):
        if t.op == "num": return val(t) > 0
        if t.op == "sym" and t.args[0][0] == "#": return t.args[0] not in ("#dbl_lowest", "#Undef")
        if t.op == "uf" and t.args[0] == "ipow": return self.pos(t.args[1])
        if t.op == "prod":
            fr, (lo, hi, body) = open_binder(t)
            if NF(self.f.under(fr[0], lo, hi), self.deadline).pos(body): return True
        if t.op == "uf" and t.args[0] == "exp": return True
        if t.op == "pw": return self.pos(t.args[0])
        if t.op == "mul":
            return all(self.pos(a) for a in t.args)
        if t.op == "add":
            if all(self.pos(a) or self.nneg(a) for a in t.args) and any(self.pos(a) for a in t.args): return True
        z = num(0, t.sort)
        if self.f.quick(lt(z, t)) is TRUE: return True
        if t.op == "sel" or t.op == "sym":
            for h in self.f.atoms:
                if h.op == "forall":
                    fr, (lo, hi, body) = open_binder(h)
                    for cj in conjuncts(body):
                        if cj.op == "lt" and cj.args[0].op == "num" and val(cj.args[0]) >= 0 and cj.args[1].op == "sel" and t.op == "sel" and cj.args[1].args[0] is t.args[0]:
                            m = match_idx(cj.args[1].args[1:], t.args[1:], fr[0])
                            if m is not None and self.f.quick(and_(le(lo, m), lt(m, hi))) is TRUE: return True
        if t.op == "ite": return self.pos(t.args[1]) and self.pos(t.args[2])
        if t.op == "toR": return self.f.quick(lt(IZERO, t.args[0])) is TRUE
        if t.op == "sum":
            fr, (lo, hi, body) = open_binder(t)
            nf2 = NF(self.f.under(fr[0], lo, hi), self.deadline)
            return nf2.pos(body) and self.f.quick(lt(lo, hi)) is TRUE
        if t.op == "maxo": return self.pos(t.args[4])
        return False
    def nneg(self, t):
        if t.op == "num": return val(t) >= 0
        if self.pos(t): return True
        if t.op == "ind": return True
        if t.op == "mul": 
            return all(self.nneg(a) for a in t.args)
        if t.op == "add": return all(self.nneg(a) for a in t.args)
        if t.op == "pw":
            if t.args[1].denominator == 1 and t.args[1] % 2 == 0: return True
            if t.args[1].denominator == 2: return True
            return self.nneg(t.args[0])
        if t.op == "ite": 
            f0 = self.f
            a = NF(f0.with_(t.args[0]), self.deadline).nneg(t.args[1]); b = NF(f0.with_(not_(t.args[0])), self.deadline).nneg(t.args[2])
            return a and b
        if self.f.quick(le(num(0, t.sort), t)) is TRUE: return True
        if t.op == "toR": return _nn(t.args[0]) or self.f.quick(le(IZERO, t.args[0])) is TRUE
        if t.op == "sum":
            fr, (lo, hi, body) = open_binder(t)
            return NF(self.f.under(fr[0], lo, hi), self.deadline).nneg(body)
        if t.op == "maxo": return self.nneg(t.args[4])
        if t.op == "sel":
            for h in self.f.atoms:
                if h.op == "forall":
                    fr, (lo, hi, body) = open_binder(h)
                    for cj in conjuncts(body):
                        if cj.op in ("lt", "le") and cj.args[0].op == "num" and val(cj.args[0]) >= 0 and cj.args[1].op == "sel" and cj.args[1].args[0] is t.args[0]:
                            m = match_idx(cj.args[1].args[1:], t.args[1:], fr[0])
                            if m is not None and self.f.quick(and_(le(lo, m), lt(m, hi))) is TRUE: return True
        return False
    def posA(self, t):
        """positivity, or recorded assumption where a real power / logarithm of t is taken"""
        if self.pos(t): return True
        return False
    # --- normal form of terms
    def nf(self, t):
        """normalised term"""
        r = self.memo.get(t)
        if r is not None: return r
        if self.deadline and time.time() > self.deadline: raise Budget("time")
        if t.sort in ("R", "I"):
            if t.op in ("num",): r = t
            else: r = self.toterm(self.poly(t), t.sort)
        elif t.sort == "B": r = self.nfb(t)
        else: r = self.nfo(t)
        self.memo[t] = r; self.memo[r] = r
        return r
    def nfo(self, t):
        if t.op == "lam":
            fr, (b,) = open_binder(t)
            return lam(fr, self.nf(b))
        if t.op in ("sym", "strlit"): return t
        if t.op == "ite":
            c = self.decide(self.nf(t.args[0]))
            if c is TRUE: return self.nf(t.args[1])
            if c is FALSE: return self.nf(t.args[2])
            return ite(c, self.nf(t.args[1]), self.nf(t.args[2]))
        return rebuild(t, [self.nf(a) for a in kids(t)])
    def nfb(self, t):
        op = t.op
        if op in ("true", "false"): return t
        if op in ("and", "or"):
            r = (and_ if op == "and" else or_)(*[self.nf(a) for a in t.args])
            if r.op in ("and", "or") and r is not t: return self.decide(r)
            return self.decide(r)
        if op == "not": return self.decide(not_(self.nf(t.args[0])))
        if op in ("lt", "le"):
            a, b = self.nf(t.args[0]), self.nf(t.args[1])
            r = (lt if op == "lt" else le)(a, b)
            if r.op in ("lt", "le"):
                # strip positive common factors is not attempted
                pass
            return self.decide(r)
        if op == "eq":
            a, b = self.nf(t.args[0]), self.nf(t.args[1])
            r = eq(a, b)
            return self.decide(r)
        if op == "ite":
            c = self.nf(t.args[0])
            return self.decide(ite(c, self.nf(t.args[1]), self.nf(t.args[2])))
        if op in ("forall", "exists"):
            fr, (lo, hi, body) = open_binder(t)
            lo = self.nf(lo); hi = self.nf(hi)
            n2 = NF(self.f.under(fr[0], lo, hi), self.deadline)
            b = n2.nf(body)
            r = Forall(fr[0], lo, hi, b) if op == "forall" else mkexists(fr[0], lo, hi, b)
            return self.decide(r)
        if op == "sym": return self.decide(t)
        return self.decide(rebuild(t, [self.nf(a) for a in kids(t)]))
    def toterm(self, p, sort):
        if not p: return num(0, sort)
        ts = []
        for m, c in p.items():
            if not m: ts.append(num(c, sort)); continue
            fs = []
            for x, e in m:
                if e == 1: fs.append(x)
                else: fs.append(mk("pw", (x, e), x.sort))
            if sort == "R": fs = [x if x.sort == "R" else toR(x) for x in fs]
            ts.append(mul(num(c, sort), *fs))
        return add(*ts) if len(ts) > 1 else ts[0]
    # --- polynomial of arithmetic term
    def poly(self, t):
        r = self.pmemo.get(t)
        if r is None:
            r = self._poly(t); self.pmemo[t] = r
        return r
    def _poly(self, t):
        op = t.op
        if op == "num": return {(): val(t)} if val(t) != 0 else {}
        if op == "add":
            r = {}
            for a in t.args: r = padd(r, self.poly(a))
            return r
        if op == "mul":
            r = ONEP
            for a in t.args:
                r = pmul(r, self.poly(a))
                if not r: return r
            return r
        if op == "pw": return self.ppow(self.poly(t.args[0]), t.args[1], t.args[0].sort)
        if op == "ind": 
            return self.indp(t.args[0])
        if op == "ite":
            c = self.nf(t.args[0])
            c = self.decide(c)
            if c is TRUE: return self.poly(t.args[1])
            if c is FALSE: return self.poly(t.args[2])
            a = NFsub(self, c).poly(t.args[1]); b = NFsub(self, not_(c)).poly(t.args[2])
            if a == b: return a
            p = self.indp(c)
            return padd(b, pmul(p, padd(a, b, -1)))
        if op == "toR":
            p = self.poly(t.args[0])
            r = {}
            for m, c in p.items():
                mm = ()
                for x, e in m:
                    mm = mmul(mm, ((toR(x) if x.sort != "R" else x, e),))
                r = padd(r, {mm: c})
            return r
        if op == "uf":
            n = t.args[0]
            if n == "exp": return self.pexp(self.poly(t.args[1]))
            if n == "log": return self.plog(self.poly(t.args[1]))
            if n == "pow":
                b, e = t.args[1], t.args[2]
                ep = self.poly(e); k = pconst(ep)
                if k is not None: return self.ppow(self.poly(b), k, "R")
                bp = self.poly(b)
                if len(bp) == 1 and not next(iter(bp)) and bp[()] <= 0: pass
                return self.pexp(pmul(ep, self.plog(bp)))
            a = rebuild(t, [self.nf(x) for x in kids(t)])
            return self.atomp(a)
        if op == "sum": return self.psum(t)
        if op == "prod": return self.pprod(t)
        if op in ("first", "maxo", "mino"):
            fr, rest = open_binder(t)
            lo = self.nf(rest[0]); hi = self.nf(rest[1])
            if op != "first":
                if lo is hi: return self.poly(rest[3])
                if hi.op == "add" and isnum(hi.args[0]) and 0 < val(hi.args[0]) <= 3:
                    h1 = sub(hi, IONE)
                    if self.decide(le(lo, h1)) is TRUE:
                        acc = rebinder(op, fr[0], lo, h1, rest[2], [rest[3]]); b = subst(rest[2], {fr[0]: h1})
                        return self.poly(ite(lt(acc, b) if op == "maxo" else lt(b, acc), b, acc))
            n2 = NF(self.f.under(fr[0], lo, hi), self.deadline)
            b = n2.nf(rest[2])
            a = rebinder(op, fr[0], lo, hi, b, [self.nf(x) for x in rest[3:]])
            return self.atomp(a)
        if op in ("sym",): return self.atomp(t)
        if op == "sel":
            ks = [self.nf(a) for a in t.args[1:]]
            A = t.args[0] if t.args[0].op == "sym" else self.nf(t.args[0])
            a = sel(A, ks)
            if a.op != "sel": return self.poly(a)
            return self.atomp(a)
        if op in ("idiv", "imod", "trunc"):
            a = rebuild(t, [self.nf(x) for x in kids(t)])
            if a.op != op: return self.poly(a)
            return self.atomp(a)
        raise TypeError("poly of " + op)
    def atomp(self, a):
        if a.op == "num": return {(): val(a)} if val(a) else {}
        return {((a, Fr(1)),): Fr(1)}
    def indp(self, c):
        """indicator polynomial of a normalised condition"""
        c = self.decide(c)
        if c is TRUE: return ONEP
        if c is FALSE: return {}
        if c.op == "and":
            r = ONEP
            for x in c.args: r = pmul(r, self.indp(x))
            return r
        if c.op == "or":
            r = ONEP
            for x in c.args: r = pmul(r, padd(ONEP, self.indp(x), -1))
            return padd(ONEP, r, -1)
        if c.op == "not": return padd(ONEP, self.indp(c.args[0]), -1)
        n = not_(c)
        if n.op in ("le", "lt") and c.op in ("le", "lt"):
            # canonical polarity
            if c.args[0].sort == "R":
                if c.op == "le": return padd(ONEP, {((ind(n), Fr(1)),): Fr(1)}, -1)
            elif n.id < c.id:
                return padd(ONEP, {((ind(n), Fr(1)),): Fr(1)}, -1)
        return {((ind(c), Fr(1)),): Fr(1)}
    # --- powers
    def content(self, p):
        """p = coef * monomial * rest (rest primitive, leading coefficient 1)"""
        ms = list(p)
        common = None
        for m in ms:
            d = dict(m)
            if common is None: common = d
            else:
                common = {x: (min(e, d[x]) if (e > 0) == (d[x] > 0) else None) if x in d else None for x, e in common.items()}
                common = {x: (e) for x, e in common.items() if e is not None}
                if not common: break
        # also pull negative exponents that appear in some monomials (common denominator)
        den = {}
        for m in ms:
            for x, e in m:
                if e < 0 and x.op != "ind": den[x] = min(den.get(x, 0), e)
        g = {}
        for x, e in (common or {}).items():
            if e > 0: g[x] = e
        for x, e in den.items(): g[x] = e
        g = {x: e for x, e in g.items() if x.op != "ind"}
        mono = tuple(sorted(g.items(), key=lambda z: z[0].id))
        inv = tuple((x, -e) for x, e in mono)
        q = {mmul(m, inv): c for m, c in p.items()}
        lead = min(q, key=lambda m: tuple((x.id, e) for x, e in m))
        c0 = q[lead]
        q = {m: c / c0 for m, c in q.items()}
        return c0, mono, q
    def ppow(self, p, q, sort):
        q = Fr(q)
        if q == 0: return ONEP
        if not p:
            if q > 0: return {}
            return self.atomp(mk("pw", (num(0, "R"), q), "R"))
        if q.denominator == 1 and q > 0:
            if q <= 8 or len(p) == 1:
                if len(p) == 1:
                    (m, c), = p.items()
                    return {tuple((x, (e * q if x.op != "ind" else e)) for x, e in m): c ** int(q)}
                r = ONEP
                for _ in range(int(q)): r = pmul(r, p)
                return r
        # indicators: power of a piecewise value -> split on the indicator
        inds = [x for m in p for x, e in m if x.op == "ind"]
        if inds:
            x = inds[0]
            p1 = {}; p0 = {}
            for m, c in p.items():
                if any(y is x for y, _ in m):
                    p1 = padd(p1, {tuple(z for z in m if z[0] is not x): c})
                else:
                    p1 = padd(p1, {m: c}); p0 = padd(p0, {m: c})
            a = self.ppow(p1, q, sort); b = self.ppow(p0, q, sort)
            I_ = {((x, Fr(1)),): Fr(1)}
            return padd(b, pmul(I_, padd(a, b, -1)))
        if len(p) == 1:
            (m, c), = p.items(); return self.mpow(c, m, q)
        c, mono, rest = self.content(p)
        if len(rest) == 1 and () in rest: return self.mpow(c, mono, q)
        if q.denominator != 1 and c < 0: 
            c = -c; rest = {m: -x for m, x in rest.items()}
        b = self.toterm(rest, "R")
        if q.denominator == 1 or (c > 0 and (not mono or all(self.posA(x) for x, e in mono))):
            r = self.mpow(c, mono, q)
            return pmul(r, {((b, q),): Fr(1)})
        full = self.toterm(p, "R")
        return {((full, q),): Fr(1)}
    def mpow(self, c, m, q):
        if q.denominator == 1:
            return {tuple((x, e * q) for x, e in m): Fr(c) ** int(q)}
        # fractional power
        outm = []; inner = []
        for x, e in m:
            if self.posA(x): outm.append((x, e * q))
            elif (e / 2).denominator == 1 and False: pass
            else: inner.append((x, e))
        if len(inner) == 1 and (inner[0][1].denominator == 1 and inner[0][1] % 2 == 1 or inner[0][1].denominator != 1) and c > 0:
            # single factor left: (x^e)^q = x^(e q) whenever the left side is real (odd e)
            x, e = inner[0]; outm.append((x, e * q)); inner = []
        r = {tuple(sorted(outm, key=lambda z: z[0].id)): Fr(1)}
        if inner:
            t = self.toterm({tuple(inner): Fr(1) if c > 0 else Fr(-1)}, "R")
            r = pmul(r, {((t, q),): Fr(1)}); c = abs(c)
        if c != 1:
            if c > 0:
                # perfect powers
                k = q.denominator
                def root(n):
                    x = round(n ** (1.0 / k)) if n < 10 ** 300 else 0
                    return x if x ** k == n else None
                a, b = root(c.numerator), root(c.denominator)
                if a is not None and b is not None:
                    return pmul(r, {(): Fr(a, b) ** int(q * k)})
                nn = num(c.numerator); dd = num(c.denominator)
                if c.numerator != 1: r = pmul(r, {((nn, q),): Fr(1)})
                if c.denominator != 1: r = pmul(r, {((dd, -q),): Fr(1)})
            else: r = pmul(r, {((num(c), q),): Fr(1)})
        # canonicalise numeric powers n^(q): reduce integer part
        out = {}
        for m2, cc in r.items():
            mm = []
            for x, e in m2:
                if x.op == "num" and e.denominator != 1 and (e >= 1 or e < 0):
                    k = math.floor(e); cc = cc * val(x) ** k; e = e - k
                    if e: mm.append((x, e))
                elif x.op == "num" and e.denominator == 1: cc = cc * val(x) ** int(e)
                else: mm.append((x, e))
            out[tuple(mm)] = cc
        return out
    def pexp(self, p):
        inds = [x for m in p for x, e in m if x.op == "ind"]
        if inds:
            x = inds[0]; p1 = {}; p0 = {}
            for m, c in p.items():
                if any(y is x for y, _ in m): p1 = padd(p1, {tuple(z for z in m if z[0] is not x): c})
                else: p1 = padd(p1, {m: c}); p0 = padd(p0, {m: c})
            a = self.pexp(p1); b = self.pexp(p0)
            return padd(b, pmul({((x, Fr(1)),): Fr(1)}, padd(a, b, -1)))
        r = ONEP
        for m, c in p.items():
            # c * m
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uf" and m[0][0].args[0] == "log":
                arg = m[0][0].args[1]
                r = pmul(r, self.ppow(self.poly(arg), c, "R")); continue
            a = mk("uf", ("exp", self.toterm({m: Fr(1)}, "R")), "R")
            r = pmul(r, {((a, c),): Fr(1)})
        return r
    def plog(self, p):
        inds = [x for m in p for x, e in m if x.op == "ind"]
        if inds:
            x = inds[0]; p1 = {}; p0 = {}
            for m, c in p.items():
                if any(y is x for y, _ in m): p1 = padd(p1, {tuple(z for z in m if z[0] is not x): c})
                else: p1 = padd(p1, {m: c}); p0 = padd(p0, {m: c})
            a = self.plog(p1); b = self.plog(p0)
            return padd(b, pmul({((x, Fr(1)),): Fr(1)}, padd(a, b, -1)))
        if not p: return self.atomp(mk("uf", ("log", ZERO), "R"))
        c, mono, rest = self.content(p) if len(p) > 1 else (next(iter(p.values())), next(iter(p)), None)
        if c < 0:
            return self.atomp(mk("uf", ("log", self.toterm(p, "R")), "R"))
        r = {}
        bad = []
        for x, e in mono:
            if x.op == "uf" and x.args[0] == "exp": r = padd(r, self.poly(x.args[1]), e)
            elif self.posA(x) or len(mono) == 1: r = padd(r, {((mk("uf", ("log", x), "R"), Fr(1)),): e})
            else: bad.append((x, e))
        if len(bad) == 1 and (rest is None or len(rest) == 1 or self.pos(self.toterm(rest, "R"))):
            x, e = bad[0]; r = padd(r, {((mk("uf", ("log", x), "R"), Fr(1)),): e}); bad = []
        if rest is not None and not (len(rest) == 1 and () in rest):
            rt = self.toterm(rest, "R")
            if bad:
                inner = pmul({tuple(bad): Fr(1)}, rest)
                r = padd(r, {((mk("uf", ("log", self.toterm(inner, "R")), "R"), Fr(1)),): Fr(1)}); bad = []
            else: r = padd(r, {((mk("uf", ("log", rt), "R"), Fr(1)),): Fr(1)})
        if bad:
            r = padd(r, {((mk("uf", ("log", self.toterm({tuple(bad): Fr(1)}, "R")), "R"), Fr(1)),): Fr(1)})
        if c != 1:
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                if n == 1: continue
                for pr, k in factorint(n).items():
                    r = padd(r, {((mk("uf", ("log", num(pr)), "R"), Fr(1)),): Fr(s * k)})
        return r
    # --- sums
    def indsub(self, p):
        """[x = k] * F(x)  ->  [x = k] * F(k)  for a numeric k"""
        r = {}
        for m, c in p.items():
            sb = None
            for x, e in m:
                if x.op == "ind" and x.args[0].op == "eq":
                    a, b = x.args[0].args
                    if isnum(a): a, b = b, a
                    if isnum(b) and a.op in ("sel", "sym", "uf") and a.sort in ("R", "I") and any(y is not x and any(s is a for s in subterms(y)) for y, _ in m): sb = (x, a, b); break
            if sb is None: r = padd(r, {m: c}); continue
            x, a, b = sb
            rest = self.toterm({tuple(z for z in m if z[0] is not x): Fr(1)}, "R")
            q = self.indsub(self.poly(replace(rest, {a: b})))
            r = padd(r, pmul({((x, Fr(1)),): c}, q))
        return r
    def indcanon(self, p):
        """[a=b][b=c] -> canonical product for the equivalence class {a,b,c}"""
        if not any(sum(1 for x, _ in m if x.op == "ind" and x.args[0].op == "eq" and x.args[0].args[0].sort == "I") > 1 for m in p): return p
        r = {}
        for m, c in p.items():
            es = [x for x, _ in m if x.op == "ind" and x.args[0].op == "eq" and x.args[0].args[0].sort == "I"]
            if len(es) < 2: r = padd(r, {m: c}); continue
            cl = {}
            f = lambda z: cl.get(z, z)
            for x in es:
                a, b = x.args[0].args; a, b = f(a), f(b)
                if a is b: continue
                for z in set(cl) | {a, b, *x.args[0].args}:
                    if f(z) is a: cl[z] = b
            groups = {}
            for x in es:
                for z in x.args[0].args: groups.setdefault(f(z), set()).add(z)
            q = {tuple(z for z in m if z[0] not in es): c}
            for g in groups.values():
                g = sorted(g, key=skey)
                for z in g[1:]: q = pmul(q, self.indp(eq(g[0], z)))
            r = padd(r, q)
        return r
    def psum(self, t):
        fr, (lo, hi, body) = open_binder(t)
        v = fr[0]
        lo = self.nf(lo); hi = self.nf(hi)
        c = self.decide(lt(lo, hi))
        if c is FALSE: return {}
        # shift to zero-based
        if not (lo.op == "num" and val(lo) == 0):
            body = subst(body, {v: add(v, lo)}); hi = self.nf(sub(hi, lo)); lo = IZERO
        if hi.op == "num":
            r = {}
            for k in range(int(val(hi))): r = padd(r, self.poly(subst(body, {v: I(k)})))
            return r
        extra = {}
        # peel constant part of the upper bound
        if hi.op == "add" and isnum(hi.args[0]):
            k = int(val(hi.args[0])); base = sub(hi, I(k))
            if 0 < k <= 4 and self.decide(le(IZERO, base)) is TRUE:
                for q in range(k): extra = padd(extra, self.poly(subst(body, {v: add(base, I(q))})))
                hi = base
            elif -4 <= k < 0 and self.decide(le(IZERO, hi)) is TRUE:
                for q in range(-k): extra = padd(extra, self.poly(subst(body, {v: add(hi, I(q))})), -1)
                hi = base
        n2 = NF(self.f.under(v, IZERO, hi), self.deadline)
        p = n2.indcanon(n2.indsub(n2.poly(body)))
        r = extra
        for m, cf in p.items():
            r = padd(r, self.sum1(v, hi, m, n2), cf)
        return r
    def sum1(self, v, hi, m, n2):
        # delta elimination
        for x, e in m:
            if x.op == "ind" and v in x.fv:
                s = solve_eq(x.args[0], v)
                if s is not None and v not in s.fv:
                    rest = tuple(z for z in m if z[0] is not x)
                    c = and_(le(IZERO, s), lt(s, hi))
                    body = subst(self.toterm({rest: Fr(1)}, "R"), {v: s})
                    cn = self.nf(c); cn = self.decide(cn)
                    if cn is FALSE: return {}
                    sub_ = NFsub(self, cn) if cn is not TRUE else self
                    return pmul(self.indp(cn), sub_.poly(body))
        # interval indicators: v < e (e free of v): split the range when ordered
        for x, e in m:
            if x.op == "ind" and v in x.fv and x.args[0].op == "le" and x.args[0].args[0].sort == "I":
                r = linear_in(sub(x.args[0].args[0], x.args[0].args[1]), v)
                if r is None or abs(r[0]) != 1 or v in r[1].fv: continue
                rest = tuple(z for z in m if z[0] is not x)
                if r[0] == 1:      # v <= -b  : upper limit ub = -b+1
                    ub = add(neg(r[1]), IONE)
                    if self.decide(le(ub, IZERO)) is TRUE: return {}
                    if self.decide(le(ub, hi)) is TRUE and self.decide(le(IZERO, ub)) is TRUE:
                        return self.poly(Sum(v, IZERO, ub, self.toterm({rest: Fr(1)}, "R")))
                else:              # v >= b
                    lb = r[1]
                    if self.decide(le(lb, hi)) is TRUE and self.decide(le(IZERO, lb)) is TRUE:
                        # sum over [lb,hi) = sum [0,hi) - sum[0,lb)
                        b = self.toterm({rest: Fr(1)}, "R")
                        return padd(self.poly(Sum(v, IZERO, hi, b)), self.poly(Sum(v, IZERO, lb, b)), -1)
        out = []; inn = []
        for x, e in m:
            (inn if v in x.fv else out).append((x, e))
        out = tuple(out)
        if not inn:
            n = toR(hi)
            c = self.decide(le(IZERO, hi))
            if c is not TRUE: n = ite(c, n, ZERO)
            return pmul({out: Fr(1)}, self.poly(n))
        # flatten nested sums
        binders = [(v, hi)]; fac = []
        work = list(inn)
        while work:
            x, e = work.pop(0)
            if x.op == "sum" and e == 1:
                f2, (lo2, hi2, b2) = open_binder(x)
                ok = isnum(lo2) and val(lo2) == 0
                if ok:
                    fs = b2.args if b2.op == "mul" else (b2,)
                    if not any(f.op == "num" for f in fs):
                        binders.append((f2[0], hi2))
                        for f in fs:
                            if f.op == "pw": work.append((f.args[0], f.args[1]))
                            else: work.append((f, Fr(1)))
                        continue
            fac.append((x, e))
        if len(binders) > 1:
            # an index fixed by an equation: eliminate its sum inside the others
            for q, (b, h) in enumerate(binders):
                if any(b in h2.fv for b2, h2 in binders if b2 is not b): continue
                for x, e in fac:
                    if x.op != "ind" or b not in x.fv: continue
                    s = solve_eq(x.args[0], b)
                    if s is None or b in s.fv: continue
                    rest = tuple(sorted([z for z in fac if z[0] is not x], key=lambda z: z[0].id)); mm = ()
                    for z in rest: mm = mmul(mm, (z,))
                    body = mul(ite(and_(le(IZERO, s), lt(s, h)), ONE, ZERO), subst(self.toterm({mm: Fr(1)}, "R"), {b: s}))
                    left = [z for z in binders if z[0] is not b]; order = []
                    while left:      # a bound may only depend on variables further out
                        for z in left:
                            if not any(y in z[1].fv for y, _ in left): order.append(z); left.remove(z); break
                        else: break
                    if left: continue
                    for b2, h2 in reversed(order): body = Sum(b2, IZERO, h2, body)
                    return pmul({out: Fr(1)}, self.poly(body))
        if len(binders) == 1:
            b = self.toterm({tuple(sorted(inn, key=lambda z: z[0].id)): Fr(1)}, "R")
            return pmul({out: Fr(1)}, self.atomp(Sum(v, IZERO, hi, b)))
        best = None
        if len(binders) <= 4:
            mm = ()
            for z in fac: mm = mmul(mm, (z,))
            for perm in itertools.permutations(binders):
                # outermost first; a bound may only depend on outer variables
                ok = True; seen = set(); allv = {b for b, _ in perm}
                for b, h in perm:
                    if (h.fv & allv) - seen: ok = False; break
                    seen.add(b)
                if not ok: continue
                cur = list(mm); 
                term = None
                facs = list(mm)
                inner = []
                for b, h in reversed(perm):
                    dep = [z for z in facs if b in z[0].fv]
                    facs = [z for z in facs if b not in z[0].fv]
                    bt = self.toterm({tuple(sorted(dep, key=lambda z: z[0].id)): Fr(1)}, "R")
                    if term is not None:
                        bt = mul(bt, term) if b in term.fv else None if bt.op == "num" and False else (mul(bt, term) if b in term.fv else (bt, term))
                    if isinstance(bt, tuple):
                        # independent factors: product of sums
                        term = mul(Sum(b, IZERO, h, bt[0]), bt[1]) if not (bt[0].op == "num") else None
                        if term is None: ok = False; break
                    else:
                        if bt.op == "num": ok = False; break
                        term = Sum(b, IZERO, h, bt)
                if not ok: continue
                if facs: term = mul(self.toterm({tuple(facs): Fr(1)}, "R"), term)
                k = skey(term)
                if best is None or k < best[0]: best = (k, term)
        if best is None:
            b = self.toterm({tuple(sorted(inn, key=lambda z: z[0].id)): Fr(1)}, "R")
            return pmul({out: Fr(1)}, self.atomp(Sum(v, IZERO, hi, b)))
        term = best[1]
        mm = ()
        for f in (term.args if term.op == "mul" else (term,)):
            if f.op == "pw": mm = mmul(mm, ((f.args[0], f.args[1]),))
            elif f.op == "num": return pmul({out: val(f)}, self.poly(term))
            else: mm = mmul(mm, ((f, Fr(1)),))
        return pmul({out: Fr(1)}, {mm: Fr(1)})
    def pprod(self, t):
        fr, (lo, hi, body) = open_binder(t); v = fr[0]
        lo = self.nf(lo); hi = self.nf(hi)
        if self.decide(lt(lo, hi)) is FALSE: return ONEP
        if not (lo.op == "num" and val(lo) == 0):
            body = subst(body, {v: add(v, lo)}); hi = self.nf(sub(hi, lo)); lo = IZERO
        if hi.op == "num":
            r = ONEP
            for k in range(int(val(hi))): r = pmul(r, self.poly(subst(body, {v: I(k)})))
            return r
        extra = ONEP
        if hi.op == "add" and isnum(hi.args[0]):
            k = int(val(hi.args[0])); base = sub(hi, I(k))
            if 0 < k <= 4 and self.decide(le(IZERO, base)) is TRUE:
                for q in range(k): extra = pmul(extra, self.poly(subst(body, {v: add(base, I(q))})))
                hi = base
        n2 = NF(self.f.under(v, IZERO, hi), self.deadline)
        p = n2.indsub(n2.poly(body))
        if len(p) == 1:
            (m, c), = p.items()
            if all(x.op != "ind" for x, _ in m):
                r = extra
                for x, e in m:
                    if v in x.fv and x.op == "uf" and x.args[0] == "exp": r = pmul(r, self.poly(mk("uf", ("exp", Sum(v, IZERO, hi, mul(num(e), x.args[1]))), "R")))
                    elif v in x.fv: r = pmul(r, {((Prod(v, IZERO, hi, x), e),): Fr(1)})
                    else: r = pmul(r, self.atomp(mk("uf", ("ipow", x if e == 1 else mk("pw", (x, e), "R"), hi), "R")))
                if c != 1: r = pmul(r, self.atomp(mk("uf", ("ipow", num(c), hi), "R")))
                return r
        # a factor that differs from one at a single index only
        for x in {x for m, _ in p.items() for x, e in m if x.op == "ind" and v in x.fv and x.args[0].op == "eq"}:
            if {m: c for m, c in p.items() if not any(y is x for y, _ in m)} != {(): Fr(1)}: continue
            a, b = x.args[0].args; r = linear_in(sub(a, b), v)
            if r is None or abs(r[0]) != 1: continue
            w = mul(num(-r[0], "I"), r[1])
            if v in w.fv: continue
            val1 = self.poly(subst(self.toterm({tuple(z for z in m if z[0] is not x): c for m, c in p.items() if m}, "R"), {v: w}))
            return pmul(extra, padd(ONEP, pmul(self.indp(and_(le(IZERO, w), lt(w, hi))), val1)))
        return pmul(extra, self.atomp(Prod(v, IZERO, hi, self.toterm(p, "R"))))

class NFsub(NF):
    def __init__(self, parent, c):
        NF.__init__(self, parent.f.with_(c), parent.deadline)

def match_idx(pat, idx, v):
    m = None
    for p, i in zip(pat, idx):
        if p is v:
            if m is not None and m is not i: return None
            m = i
        elif p.fv & {v}:
            r = linear_in(p, v)
            if r is None or abs(r[0]) != 1: return None
            x = mul(num(r[0], "I"), sub(i, r[1]))
            if m is not None and m is not x: return None
            m = x
        elif p is not i: return None
    return m

_fac = {}
def factorint(n):
    if n in _fac: return _fac[n]
    r = {}; m = n
    p = 2
    while p * p <= m and p < 2000:
        while m % p == 0: r[p] = r.get(p, 0) + 1; m //= p
        p += 1
    if m > 1: r[m] = r.get(m, 0) + 1
    _fac[n] = r
    return r

_sk = {}
def skey(t):
    if t not in _sk: _sk[t] = show(t)
    return _sk[t]

# ---------------------------------------------------------------------------- proving
class Result:
    def __init__(self, status, how="", info=""): self.status, self.how, self.info = status, how, info
    def __repr__(self): return "%s(%s) %s" % (self.status, self.how, self.info)

def prep_hyps(hyps):
    """definitional hypotheses become substitutions"""
    out = []; sub_ = {}
    for h in hyps:
        for c in conjuncts(h): out.append(c)
    changed = True
    while changed:
        changed = False
        for c in list(out):
            if c.op == "eq":
                a, b = c.args
                for x, y in ((a, b), (b, a)):
                    if x.op == "sym" and x.args[0][0] not in "%#" and x not in symbols(y) and x.sort in ("I", "R", "B", "S", "O"):
                        out.remove(c); m = {x: y}
                        out = [z for q in out for z in conjuncts(subst(q, m)) if z is not TRUE]
                        if x.sort == "I" and nonneg(x) and not nonneg(y): out.append(le(IZERO, y))
                        sub_ = {k: subst(v, m) for k, v in sub_.items()}; sub_[x] = y; changed = True; break
                if changed: break
            if c.op == "forall":
                fr, (lo, hi, body) = open_binder(c)
                for cj in conjuncts(body):
                    if cj.op == "eq":
                        for x, y in ((cj.args[0], cj.args[1]), (cj.args[1], cj.args[0])):
                            if x.op == "sel" and x.args[0].op == "sym" and x.args[1:] == (fr[0],) and x.args[0] not in symbols(y):
                                A = x.args[0]
                                v = freshbv()
                                L = lam((v,), ite(and_(le(lo, v), lt(v, hi)), subst(y, {fr[0]: v}), sel(mk("sym", (A.args[0] + "'",), A.sort), (v,))))
                                if body is cj: out.remove(c)
                                else:
                                    out.remove(c); out.append(Forall(fr[0], lo, hi, and_(*[z for z in conjuncts(body) if z is not cj])))
                                m = {A: L}
                                out = [z for q in out for z in conjuncts(subst(q, m)) if z is not TRUE]
                                sub_ = {k: subst(v2, m) for k, v2 in sub_.items()}; sub_[A] = L; changed = True; break
                    if changed: break
            if changed: break
    return out, sub_

def conds(t, acc, seen):
    """undecided closed conditions occurring in t (free of bound variables), innermost first"""
    if t in seen: return
    seen.add(t)
    for k in kids(t): conds(k, acc, seen)
    if t.op == "ite" and not t.args[0].fv: acc.append(t.args[0])
    if t.op == "ind" and not t.args[0].fv: acc.append(t.args[0])

ALT = [False]
def flatten_goal(hyps, goal):
    """split a goal into (hyps, atomic goal) pairs, skolemising universals"""
    if goal is TRUE: return
    if goal.op == "and":
        for g in goal.args: yield from flatten_goal(hyps, g)
        return
    if goal.op == "forall":
        fr, (lo, hi, body) = open_binder(goal)
        k = fresh("sk", fr[0].sort)
        yield from flatten_goal(hyps + [le(lo, k), lt(k, hi)], subst(body, {fr[0]: k}))
        return
    if goal.op == "or":
        # (not a) or b : use negations of literals as hypotheses
        lits = list(goal.args)
        comp = [g for g in lits if g.op in ("forall", "and")]
        if ALT[0] and len(comp) < len(lits): comp = []
        if len(comp) >= 1:
            g = comp[-1]
            yield from flatten_goal(hyps + [not_(x) for x in lits if x is not g], g); return
        eqs = [g for g in lits if g.op == "eq"]
        g = eqs[-1] if eqs else ([x for x in lits if x.op not in ("forall", "exists")] or lits)[-1]
        yield from flatten_goal(hyps + [not_(x) for x in lits if x is not g], g); return
    if goal.op == "ite":
        yield from flatten_goal(hyps + [goal.args[0]], goal.args[1])
        yield from flatten_goal(hyps + [not_(goal.args[0])], goal.args[2]); return
    if goal.op == "eq" and goal.args[0].sort == "B":
        a, b = goal.args
        yield from flatten_goal(hyps + [a], b)
        yield from flatten_goal(hyps + [not_(a)], not_(b)); return
    if goal.op == "eq" and isinstance(goal.args[0].sort, tuple):
        a, b = goal.args; n = a.sort[1]
        if a.op in ("lam",) or b.op in ("lam",):
            ks = tuple(fresh("sk", "I") for _ in range(n))
            yield from flatten_goal(hyps, eq(sel(a, ks), sel(b, ks))); return
    yield hyps, goal

def instantiate(hyps, goal):
    """instances of universal hypotheses at index terms occurring in the goal and ground hypotheses"""
    out = []
    fa = [h for h in hyps if h.op == "forall"]
    if not fa: return []
    idx = set()
    for t in [goal] + [h for h in hyps if h.op != "forall"]:
        for s in subterms(t):
            if s.op == "sel":
                for i in s.args[1:]:
                    if isinstance(i, T) and i.sort == "I" and not i.fv: idx.add(i)
    for s in symbols(goal):
        if s.op == "sym" and s.args[0].startswith("sk!"): idx.add(s)
    idx = sorted(idx, key=lambda t: t.id)[:12]
    def inst(h, pre, depth):
        fr, (lo, hi, body) = open_binder(h)
        for i in idx:
            rng = not_(and_(le(lo, i), lt(i, hi))); b = subst(body, {fr[0]: i})
            if b.op == "forall" and depth < 1: inst(b, pre + [rng], depth + 1)
            else: out.append(or_(*pre, rng, b))
    for h in fa: inst(h, [], 0)
    return out

def first_axioms(hyps, goal):
    """defining properties of the least-index operator for the closed occurrences of it"""
    out = []; seen = set()
    for t in list(hyps) + [goal]:
        for s in subterms(t):
            if s.op == "first" and not s.fv and s not in seen:
                seen.add(s)
                fr, (lo, hi, body) = open_binder(s)
                v = freshbv()
                out += [or_(not_(le(lo, hi)), and_(le(lo, s), le(s, hi))), or_(le(hi, s), subst(body, {fr[0]: s})),
                        Forall(v, lo, s, not_(subst(body, {fr[0]: v}))), eq(Exists(v, lo, hi, subst(body, {fr[0]: v})), lt(s, hi))]
                if len(seen) >= 4: return out
    return out

def first_resolve(hyps, goal):
    """cases (hyps, goal) in which a closed least-index term of the goal is replaced by a known index, or None"""
    fs = []
    for s in subterms(goal):
        if s.op == "first" and not s.fv and s not in fs: fs.append(s)
    for F in fs:
        fr, (lo, hi, body) = open_binder(F); v = fr[0]; cand = []
        for c in conjuncts(body):
            if c.op == "eq" and c.args[0].sort == "I":
                for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    w = unify_at(a, b, v)
                    if w is not None: cand.append(w)
        base = [h for h in hyps if not any(x.op in ("sum", "prod") for x in subterms(h))]
        for w in cand:
            # w satisfies the condition; any index that does is w
            u = fresh("u", "I")
            if entails(base + [not_(and_(le(lo, w), lt(w, hi), subst(body, {v: w})))], FALSE, 1000) and entails(base + [le(lo, u), lt(u, hi), subst(body, {v: u})], eq(u, w), 1500):
                return [(list(hyps), replace(goal, {F: w}))]
        if entails(base, lt(lo, hi), 300):
            c0 = subst(body, {v: lo}); w = freshbv(); n = sub(hi, add(lo, IONE)); rest = add(add(lo, IONE), First(w, IZERO, n, subst(body, {v: add(add(lo, IONE), w)})))
            if any(x is not F and x.op == "first" for x in subterms(goal)) or True:
                return [(list(hyps) + [c0], replace(goal, {F: lo})), (list(hyps) + [not_(c0)], replace(goal, {F: rest}))]
    return None

def inj_resolve(hyps, goal):
    """conditions A[v] == A[w] under sums and products become v == w where the hypotheses make A injective"""
    base = None; m = {}
    for s in subterms(goal):
        if s.op not in ("sum", "prod") or s.fv: continue
        fr, rest = open_binder(s); v = fr[0]; lo, hi, body = rest[0], rest[1], rest[2]; rep = {}
        for c in subterms(body):
            if c.op != "eq" or c.args[0].sort != "I" or v not in symbols(c) or any(x.args[0][0] == "%" and x is not v for x in symbols(c) if x.op == "sym" and isinstance(x.args[0], str)): continue
            for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if v in symbols(b): continue
                w = unify_at(a, b, v)
                if w is None: continue
                if base is None: base = [h for h in hyps if not any(x.op in ("sum", "prod") for x in subterms(h))]
                u = fresh("u", "I")
                if entails(base + [le(lo, u), lt(u, hi), subst(c, {v: u})], eq(u, w), 1500): rep[c] = eq(v, w); break
        if rep: m[s] = rebinder(s.op, v, lo, hi, replace(body, rep), rest[3:])
    return replace(goal, m) if m else None

def unify_at(a, b, v):
    """index w without v such that a[v:=w] is b, when a and b differ in one linear index"""
    if a is b: return None
    if a.op == "sel" and b.op == "sel" and a.args[0] is b.args[0] and len(a.args) == len(b.args):
        w = None
        for x, y in zip(a.args[1:], b.args[1:]):
            if x is y: continue
            z = unify_at(x, y, v) if x.op == "sel" else None
            if z is None:
                d = sub(x, subst(x, {v: IZERO}))
                if d is v: z = sub(y, subst(x, {v: IZERO}))
                elif d is neg(v): z = sub(subst(x, {v: IZERO}), y)
                else: return None
            if z is None or (w is not None and w is not z): return None
            w = z
        return w
    return None

def prove(hyps, goal, timeout=20.0):
    r = prove1(hyps, goal, timeout)
    if r.status == "proved": return r
    t0 = time.time(); how = set(); todo = []
    try:
        any_ = False
        for hs, g in flatten_goal(list(hyps), goal):
            g2 = inj_resolve(hs, g)
            if g2 is not None and g2 is not g: any_ = True; g = g2
            todo.append((hs, g, 0))
        while todo:
            hs, g, d = todo.pop()
            cs = first_resolve(hs, g) if d < 3 else None
            if cs is None:
                if not any_: return r
                q = prove1(hs, g, timeout)
                if q.status != "proved": return r
                how.add(q.how); continue
            any_ = True
            for h2, g2 in cs:
                for h3, g3 in flatten_goal(h2, g2): 
                    q = prove1(h3, g3, timeout)
                    if q.status == "proved": how.add(q.how)
                    else: todo.append((h3, g3, d + 1))
            if time.time() - t0 > 3 * timeout: return r
        return Result("proved", "+".join(sorted(how)) or "simplification")
    except (Budget, RecursionError): return r

def prove1(hyps, goal, timeout=20.0):
    t0 = time.time()
    deadline = t0 + timeout
    try:
        hyps, m = prep_hyps(hyps)
        if m: goal = subst_all(goal, m)
        hyps = list(hyps) + first_axioms(hyps, goal)
        def run(dl):
            how = set()
            for hs, g in flatten_goal(list(hyps), goal):
                r = prove_atom(hs, g, dl)
                if r.status != "proved": return r
                how.add(r.how)
            return Result("proved", "+".join(sorted(how)) or "simplification")
        mixed = any(s.op == "or" and any(x.op in ("forall", "and") for x in s.args) and not all(x.op in ("forall", "and") for x in s.args) for s in subterms(goal) if s.sort == "B")
        try: r = run(t0 + timeout * 0.6 if mixed else deadline)
        except Budget:
            if not mixed: raise
            r = Result("unknown", "budget", "")
        if r.status != "proved" and mixed:
            ALT[0] = True
            try:
                r2 = run(deadline)
                if r2.status == "proved": r = r2
            finally: ALT[0] = False
        return r
    except Budget as e:
        return Result("unknown", "budget", str(e))
    except RecursionError:
        return Result("unknown", "recursion", "")

def subst_all(g, m):
    for _ in range(4):
        g2 = subst(g, m)
        if g2 is g: break
        g = g2
    return g

def nonneg(t):
    from . import exec as _x
    return _x.nonneg(t)

def prove_atom(hyps, goal, deadline, depth=0):
    if time.time() > deadline: return Result("unknown", "timeout", show(goal)[:400])
    hs, m = prep_hyps(hyps) if depth == 0 else (hyps, None)
    if m: goal = subst_all(goal, m)
    m = int_equalities(hs)
    if m:
        hs = [x for h in hs for x in conjuncts(subst(h, m)) if x is not TRUE] + [le(IZERO, y) for x, y in m.items() if nonneg(x) and not nonneg(y)]; goal = subst_all(goal, m)
        if goal is TRUE: return Result("proved", "simplification")
    ground = [h for h in hs if h.op not in ("forall",)]
    inst = instantiate(hs, goal)
    facts = Facts(hs)
    for i in inst:
        q = i
        if q.op == "or":
            rest = [x for x in q.args if facts.quick(x) is not FALSE]
            if len(rest) < len(q.args): q = or_(*rest)
            if q.op == "or":
                # try to discharge the range side conditions
                ok = []
                for x in q.args:
                    if x.op in ("le", "lt") and x.args[0].sort == "I" and z3_check([h for h in ground if h.op in ("le", "lt", "eq")] + [x], 100) == "unsat": continue
                    ok.append(x)
                q = or_(*ok)
        if q is not TRUE: facts.add(q)
    if facts.quick(FALSE) is TRUE or any(h is FALSE for h in hs): return Result("proved", "poly")
    nfz = NF(facts, deadline)
    if goal.op in ("eq",) and goal.args[0].sort in ("R", "I"):
        r = prove_eq(nfz, goal, deadline)
        if r == "yes": STAT["poly"] += 1; return Result("proved", "poly")
        split = r
    else:
        g = nfz.nf(goal)
        if g is TRUE: STAT["poly"] += 1; return Result("proved", "poly")
        if g.op in ("lt", "le"):
            d = nfz.nf(sub(g.args[1], g.args[0]))
            if (nfz.nneg(d) if g.op == "le" else nfz.pos(d)): STAT["poly"] += 1; return Result("proved", "poly")
        if g.op in ("and", "or", "forall") and g is not goal:
            for hs2, g2 in flatten_goal(list(hs), g):
                r = prove_atom(hs2, g2, deadline, depth + 1)
                if r.status != "proved": return r
            return r
        split = (g,)
    # z3 on the whole (first, cheap for boolean/linear goals)
    if goal.sort == "B" and (goal.op not in ("eq",) or goal.args[0].sort not in ("R",)):
        if z3_check([h for h in facts.atoms] + [not_(goal)], 3000) == "unsat":
            STAT["z3"] += 1; return Result("proved", "z3")
    # case split
    if depth < 14:
        acc = []; seen = set()
        for t in split: conds(t, acc, seen)
        ats = []
        for c in acc:
            for a in leaf_atoms(c):
                if facts.quick(a) is None and a not in ats: ats.append(a)
        if ats:
            # most frequent first
            a = ats[0]
            STAT["splits"] += 1
            for h in (a, not_(a)):
                rel = [x for x in facts.atoms if x.op not in ("forall",)]
                if z3_check(rel + [h], 300) == "unsat": continue
                fs, g2 = list(facts.atoms) + [h], goal
                if h.op == "eq" and h.args[0].sort == "R":
                    for x, y in (h.args, h.args[::-1]):
                        if x.op == "sym" and x.args[0][0] not in "%#" and isnum(y):
                            fs = [z for q in facts.atoms for z in conjuncts(subst(q, {x: y})) if z is not TRUE] + [h]; g2 = subst(goal, {x: y}); break
                r = prove_atom(fs, g2, deadline, depth + 1)
                if r.status != "proved": return r
            return Result("proved", "poly+split")
    # final attempt
    if z3_check([h for h in facts.atoms] + [not_(goal)], 5000) == "unsat":
        STAT["z3"] += 1; return Result("proved", "z3")
    r = cvc5_try(list(facts.atoms), goal)
    if r: STAT["cvc5"] += 1; return Result("proved", "cvc5")
    return Result("unknown", "", "residual " + show(split[0])[:1500])

def int_equalities(hs):
    """integer symbols fixed by a pair a <= b, b <= a"""
    les = {}
    for h in hs:
        if h.op == "eq" and h.args[0].sort == "I" and not h.fv:
            d = sub(h.args[1], h.args[0]); les[d] = h; les[neg(d)] = h
        if h.op in ("le", "lt") and h.args[0].sort == "I" and not h.fv:
            d = sub(h.args[1], h.args[0])
            if h.op == "lt": d = sub(d, IONE)
            les[d] = h
    for d in les:
        if neg(d) in les:
            for s in sorted(symbols(d), key=lambda t: -t.id):
                if s.sort != "I" or s.op != "sym": continue
                a = sub(d, s)
                if s not in symbols(a): return {s: neg(a)}
                a = add(d, s)
                if s not in symbols(a): return {s: a}
    return None

def leaf_atoms(c):
    if c.op in ("and", "or"):
        for x in c.args: yield from leaf_atoms(x)
    elif c.op == "not": yield from leaf_atoms(c.args[0])
    elif c.op == "ite":
        for x in c.args: yield from leaf_atoms(x)
    elif c.op == "eq" and c.args[0].sort == "B":
        for x in c.args: yield from leaf_atoms(x)
    else: yield c

def prove_eq(nfz, goal, deadline):
    d = nfz.indcanon(nfz.poly(sub(goal.args[0], goal.args[1])))
    if not d: return "yes"
    # clear denominators
    for _ in range(6):
        den = {}
        for m in d:
            for x, e in m:
                if e < 0 and e.denominator == 1 and x.op == "add": den[x] = min(den.get(x, 0), e)
                elif e < 0 and x.op == "pw" and False: pass
        if not den: break
        r = {}
        mult = ()
        for m, c in d.items():
            dm = dict(m); p = {(): c}
            rest = []
            for x, e in m:
                if x not in den: rest.append((x, e))
            p = {tuple(rest): c}
            for x, e in den.items():
                k = dm.get(x, Fr(0)) - e
                if k: p = pmul(p, nfz.ppow(nfz.poly(x), k, "R"))
            r = padd(r, p)
        d = r
        if not d: return "yes"
    so = goal.args[0].sort
    ge = ground_eqs(nfz)
    def vanishes(p):
        if not p: return True
        if not ge: return False
        return not nfz.poly(replace(nfz.toterm(p, so), ge))
    if ge and vanishes(d): return "yes"
    if any(x.op == "sum" for m in d for x, e in m):
        d2 = shift_sums(nfz, d)
        if d2 is not None and vanishes(d2): return "yes"
    # factors raised to fractional powers of sums etc. are left
    if nfz.toterm(d, goal.args[0].sort) is num(0, goal.args[0].sort): return "yes"
    return (nfz.toterm(d, goal.args[0].sort),)

def ground_eqs(nfz):
    """known ground equations  f(args) = value  or  A[i] = value  as rewrite rules (normalised left-hand sides)"""
    m = {}
    for h in nfz.f.atoms:
        if h.op == "eq" and h.args[0].sort in ("R", "I") and not h.fv:
            for a, b in (h.args, h.args[::-1]):
                if a.op == "uf" and a.args[0] not in ("exp", "log", "pow") or a.op == "sel":
                    na = nfz.nf(a)
                    if na.op == a.op and not any(s is na for s in subterms(b)) and na not in m: m[na] = b; break
    return m

def shift_sums(nfz, d):
    """re-index sums to a common offset:  sum_{b<h} F(b+k) = sum_{b<h} F(b) + sum_{q<k} F(h+q) - sum_{q<k} F(q)  (h >= 0)"""
    out = {}; changed = False
    for m, c in d.items():
        p = {(): c}
        for x, e in m:
            q = None
            if x.op == "sum" and e == 1:
                fr, (lo, hi, body) = open_binder(x); v = fr[0]
                if lo is IZERO and nfz.decide(le(IZERO, hi)) is TRUE:
                    n2 = NF(nfz.f.under(v, IZERO, hi), nfz.deadline)
                    best = (len(show(body)), 0, body)
                    for k in (1, 2, -1, -2):
                        b2 = nfz.toterm(nfz.poly(subst(body, {v: sub(v, I(k))})), "R")
                        if len(show(b2)) < best[0]: best = (len(show(b2)), k, b2)
                    if best[1]:
                        k, F = best[1], best[2]
                        q = nfz.poly(Sum(v, IZERO, hi, F))
                        rng = range(k) if k > 0 else range(k, 0)
                        sg = 1 if k > 0 else -1
                        for j in rng: q = padd(padd(q, nfz.poly(subst(F, {v: add(hi, I(j))})), sg), nfz.poly(subst(F, {v: I(j)})), -sg)
                        changed = True
            p = pmul(p, q if q is not None else {((x, e),): Fr(1)})
        out = padd(out, p)
    return out if changed else None

def cvc5_try(hyps, goal):
    return False

# ---------------------------------------------------------------------------- numeric refuter
class Undef(Exception): pass
class Model:
    def __init__(self, seed):
        self.rng = random.Random(seed); self.seed = seed; self.vals = {}; self.style = self.rng.random()
    def h(self, *k):
        return random.Random(zlib.crc32(repr((self.seed,) + k).encode()))
    def scalar(self, name, sort, args=()):
        k = (name, args)
        if k in self.vals: return self.vals[k]
        if name == "NaN": return 1.2345e77
        if name.startswith("#") and not args:
            v = PHYS.get(name[1:], 1.0)
        else:
            r = self.h(name, args)
            base = name
            if sort == "R":
                z = r.random()
                v = r.choice([0.0, 1.0, -1.0, 2.0, 0.5]) if z < 0.12 else (r.uniform(0.05, 3.0) if z < 0.75 else r.uniform(-2.5, 2.5))
            elif sort == "I":
                v = r.choice([0, 1, 2, 2, 3, 3, 4]) if (name in NONNEG or r.random() < 0.9) else -1
            elif sort == "B": v = r.random() < 0.5
            elif sort == "S": v = r.choice(["", "a", "b", "c"])
            else: v = r.randrange(4)
        self.vals[k] = v
        return v

def ev_num(t, md, env, memo, depth=0):
    key = t if not t.fv else None
    if key is not None and key in memo: return memo[key]
    r = _ev(t, md, env, memo, depth + 1)
    if key is not None: memo[key] = r
    return r

def _chk(x):
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)): raise Undef()
    return x

def _ev(t, md, env, memo, d):
    op = t.op; a = t.args
    E = lambda x: ev_num(x, md, env, memo, d)
    if op == "sym":
        if a[0][0] == "%":
            return env[t]
        if isinstance(t.sort, tuple): return ("arr", a[0], t.sort)
        return md.scalar(a[0], t.sort)
    if op == "num": return int(a[0]) if t.sort == "I" else float(a[0])
    if op == "true": return True
    if op == "false": return False
    if op == "strlit": return a[0]
    if op == "add": return _chk(sum(E(x) for x in a))
    if op == "mul":
        r = 1 if t.sort == "I" else 1.0
        for x in a:
            r = r * E(x)
        return _chk(r)
    if op == "pw":
        b = E(a[0]); q = a[1]
        try:
            if b == 0 and q < 0: raise Undef()
            if q.denominator != 1 and b < 0: raise Undef()
            r = float(b) ** float(q) if t.sort == "R" else b ** int(q)
        except (OverflowError, ZeroDivisionError): raise Undef()
        return _chk(r)
    if op == "ite": return E(a[1]) if E(a[0]) else E(a[2])
    if op == "ind": return 1.0 if E(a[0]) else 0.0
    if op == "lt": 
        x, y = E(a[0]), E(a[1])
        if isinstance(x, float) and x != y and abs(x - y) < 1e-9 * (abs(x) + abs(y)): raise Undef()
        return x < y
    if op == "le":
        x, y = E(a[0]), E(a[1])
        if isinstance(x, float) and x != y and abs(x - y) < 1e-9 * (abs(x) + abs(y)): raise Undef()
        return x <= y
    if op == "eq":
        x, y = E(a[0]), E(a[1])
        if isinstance(x, float) or isinstance(y, float): return feq(x, y)
        if isinstance(x, tuple) and x and x[0] in ("arr", "lam", "ufarr"): return arr_eq(x, y, md, memo)
        return x == y
    if op == "and": return all(E(x) for x in a)
    if op == "or": return any(E(x) for x in a)
    if op == "not": return not E(a[0])
    if op == "toR": return float(E(a[0]))
    if op == "trunc": return int(E(a[0]))
    if op == "idiv":
        x, y = E(a[0]), E(a[1])
        if y == 0: raise Undef()
        return int(Fr(x, y))
    if op == "imod":
        x, y = E(a[0]), E(a[1])
        if y == 0: raise Undef()
        return x - int(Fr(x, y)) * y
    if op == "sel":
        A = E(a[0]); idx = tuple(E(x) for x in a[1:])
        return arr_at(A, idx, md, memo)
    if op == "lam":
        return ("lam", t, tuple(sorted(((k, v) for k, v in env.items() if k in t.fv), key=lambda z: z[0].id)))
    if op == "uf":
        n = a[0]; xs = tuple(E(x) for x in a[1:])
        try:
            if n == "exp": return _chk(math.exp(xs[0]))
            if n == "log":
                if xs[0] <= 0: raise Undef()
                return math.log(xs[0])
            if n == "pow":
                if xs[0] < 0 and xs[1] != int(xs[1]): raise Undef()
                if xs[0] == 0 and xs[1] <= 0: raise Undef()
                return _chk(xs[0] ** xs[1])
            if n == "ipow": return _chk(xs[0] ** xs[1])
            if n in ("sin", "cos", "tan", "tanh", "sinh", "cosh", "erf", "floor", "ceil", "atan", "asin", "acos", "erfc"): return float(getattr(math, n)(xs[0]))
            if n == "fmod": return math.fmod(xs[0], xs[1])
            if n == "copysign": return math.copysign(xs[0], xs[1])
            if n == "atan2": return math.atan2(xs[0], xs[1])
        except (OverflowError, ValueError, ZeroDivisionError): raise Undef()
        if isinstance(t.sort, tuple): return ("ufarr", n, tuple(keyof(x, md, memo) for x in xs), t.sort)
        return md.scalar(n, t.sort, tuple(keyof(x, md, memo) for x in xs))
    if op in ("sum", "prod", "forall", "exists", "first", "maxo", "mino"):
        lo, hi = E(a[1]), E(a[2]); v = a[0][0]
        if hi - lo > 60: raise Undef()
        acc = {"sum": 0 if t.sort == "I" else 0.0, "prod": 1 if t.sort == "I" else 1.0, "forall": True, "exists": False, "first": hi}.get(op)
        if op in ("maxo", "mino"): acc = E(a[4])
        e2 = dict(env)
        for i in range(lo, hi):
            e2[v] = i
            x = ev_num(a[3], md, e2, memo, d)
            if op == "sum": acc += x
            elif op == "prod": acc *= x
            elif op == "forall":
                if not x: return False
            elif op == "exists":
                if x: return True
            elif op == "first":
                if x: return i
            elif op == "maxo": acc = max(acc, x)
            elif op == "mino": acc = min(acc, x)
        return _chk(acc)
    raise Undef(op)

def arr_at(A, idx, md, memo):
    if A[0] == "arr": return md.scalar(A[1], A[2][2], idx)
    if A[0] == "ufarr": return md.scalar(A[1], A[3][2], (A[2], idx))
    t = A[1]; env = dict(A[2]); env.update(zip(t.args[0], idx))
    return ev_num(t.args[1], md, env, memo)
def arr_eq(x, y, md, memo):
    if x == y: return True
    n = (x[1].sort[1] if x[0] == "lam" else x[2][1] if x[0] == "arr" else x[3][1])
    for idx in itertools.product(range(0, 5), repeat=n):
        a, b = arr_at(x, idx, md, memo), arr_at(y, idx, md, memo)
        if isinstance(a, float) and not feq(a, b) or (not isinstance(a, float) and a != b): return False
    return True
def keyof(x, md, memo):
    if isinstance(x, float): return float("%.7g" % x)
    if isinstance(x, tuple) and x and x[0] in ("lam", "arr", "ufarr"):
        n = (x[1].sort[1] if x[0] == "lam" else x[2][1] if x[0] == "arr" else x[3][1])
        try: return tuple(keyof(arr_at(x, idx, md, memo), md, memo) for idx in itertools.product(range(0, 4), repeat=n))
        except Undef: return "?"
    return x
def feq(x, y, tol=1e-7):
    return abs(x - y) <= tol * max(1e-3, abs(x), abs(y)) 

def refute(hyps, goal, tries=400, seed=1, budget=20.0, need=12):
    """search a model of hyps & not goal. returns (found, model dict | None, checked)"""
    t0 = time.time(); checked = 0
    has_havoc = any(s.args[0].startswith("havoc") for s in symbols(goal) if s.op == "sym")
    for md in z3_models(hyps, goal, seed):
        try:
            if not satisfy(hyps, md, {}): continue
            memo = {}
            if not all(ev_num(h, md, {}, memo) for h in hyps): continue
            ok = ev_num(goal, md, {}, memo)
        except (Undef, OverflowError, RecursionError, ZeroDivisionError): continue
        checked += 1
        if not ok: return (None if has_havoc else True), md, checked
    for k in range(tries):
        if time.time() - t0 > budget: break
        md = Model(seed * 100003 + k)
        memo = {}
        try:
            if not satisfy(hyps, md, memo): continue
            memo = {}
            if not all(ev_num(h, md, {}, memo) for h in hyps): continue
            ok = ev_num(goal, md, {}, memo)
        except (Undef, OverflowError, RecursionError, ZeroDivisionError): continue
        checked += 1
        if not ok:
            if has_havoc: return None, md, checked
            return True, md, checked
        if checked >= 60: break
    return False, None, checked

def z3_models(hyps, goal, seed, n=4):
    """candidate counterexamples proposed by z3 on the abstracted obligation (scalars and the array elements read); the caller
    evaluates the obligation exactly on them"""
    try:
        tr = Z3T(); s = z3.Solver(); s.set("timeout", 2000); s.set("random_seed", seed)
        fs = [tr.tr(h) for h in list(hyps) + [not_(goal)]]
        s.add(fs); s.add(tr.side)
        ts = [t for t in list(tr.memo) if not t.fv and not isinstance(t.sort, tuple) and t.sort in ("R", "I", "B") and (t.op == "sym" and t.args[0][0] not in "#%" or t.op == "sel" and t.args[0].op == "sym")]
        rng = random.Random(seed); dense = {}
        for k in range(n):
            if str(s.check()) != "sat": return
            m = s.model(); md = Model(seed * 7 + k)
            def num_(t):
                v = m.eval(tr.memo[t], model_completion=True)
                if t.sort == "B": return z3.is_true(v)
                if z3.is_int_value(v): return v.as_long()
                if z3.is_algebraic_value(v): v = v.approx(20)
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            for t in ts:
                if t.op == "sym":
                    try: md.vals[(t.args[0], ())] = num_(t)
                    except Exception: pass
            for t in ts:
                if t.op == "sel":
                    try: md.vals[(t.args[0].args[0], tuple(ev_num(x, md, {}, {}) for x in t.args[1:]))] = num_(t)
                    except Exception: pass
            yield md
            c = [t for t in ts if t.sort == "R"]
            if not c: return
            t = rng.choice(c); s.push(); s.add(tr.memo[t] != m.eval(tr.memo[t], model_completion=True))
    except z3.Z3Exception: return

def satisfy(hyps, md, memo):
    """repair simple hypotheses by assigning symbols"""
    for _ in range(3):
        allok = True
        for h in hyps:
            for c in conjuncts(h):
                m2 = {}
                try: ok = ev_num(c, md, {}, m2)
                except Undef: ok = False
                if ok: continue
                allok = False
                repair(c, md, {}, m2)
        if allok: return True
    return False

def setval(t, v, md, env, memo):
    if t.op == "sym" and t.args[0][0] not in "%#" and not isinstance(t.sort, tuple):
        md.vals[(t.args[0], ())] = v; return True
    if t.op == "sel" and t.args[0].op == "sym":
        idx = tuple(ev_num(x, md, env, {}) for x in t.args[1:])
        md.vals[(t.args[0].args[0], idx)] = v; return True
    if t.op == "uf" and not isinstance(t.sort, tuple) and t.args[0] not in ("exp", "log", "pow"):
        xs = tuple(keyof(ev_num(x, md, env, {}), md, {}) for x in t.args[1:])
        md.vals[(t.args[0], xs)] = v; return True
    if t.op == "toR": return setval(t.args[0], int(v), md, env, memo)
    return False

def repair(c, md, env, memo):
    r = md.h("repair", c.id, len(md.vals))
    try:
        if c.op == "eq":
            for x, y in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if x.op in ("sym", "sel", "uf") and setval(x, ev_num(y, md, env, {}), md, env, memo): return
            # linear: a + rest == b -> solve for first symbol
            if c.args[0].sort in ("I", "R"):
                d = sub(c.args[0], c.args[1])
                for t in (d.args if d.op == "add" else (d,)):
                    k, x = tm._coefterm(t)
                    if x is not None and x.op in ("sym", "sel", "uf") and abs(k) == 1:
                        cur = ev_num(x, md, env, {}); tot = ev_num(d, md, env, {})
                        if setval(x, cur - tot / k if c.args[0].sort == "R" else int(cur - tot / k), md, env, memo): return
        elif c.op in ("lt", "le"):
            a, b = c.args
            va, vb = ev_num(a, md, env, {}), ev_num(b, md, env, {})
            if c.args[0].sort == "I":
                if a.op == "num" and setval(b, va + r.randrange(0, 3) + (1 if c.op == "lt" else 0), md, env, memo): return
                if b.op == "num" and setval(a, vb - r.randrange(0, 2) - (1 if c.op == "lt" else 0), md, env, memo): return
                d = sub(a, b)
                for t in (d.args if d.op == "add" else (d,)):
                    k, x = tm._coefterm(t)
                    if x is not None and abs(k) == 1 and x.op in ("sym", "sel", "uf"):
                        cur = ev_num(x, md, env, {}); tot = ev_num(d, md, env, {})
                        nv = int(cur - (tot + (1 if c.op == "lt" else 0)) * int(k)) 
                        if nv >= 0 and setval(x, nv, md, env, memo): return
            else:
                if a.op == "num" and setval(b, va + r.uniform(0.05, 2.0), md, env, memo): return
                if b.op == "num" and setval(a, vb - r.uniform(0.05, 2.0), md, env, memo): return
                if b.op in ("sym", "sel", "uf") and setval(b, va + r.uniform(0.01, 1.0), md, env, memo): return
                if a.op in ("sym", "sel", "uf") and setval(a, vb - r.uniform(0.01, 1.0), md, env, memo): return
        elif c.op == "forall":
            lo, hi = ev_num(c.args[1], md, env, {}), ev_num(c.args[2], md, env, {})
            for i in range(lo, min(hi, lo + 12)):
                e2 = dict(env); e2[c.args[0][0]] = i
                for cj in conjuncts(c.args[3]):
                    if not ev_num(cj, md, e2, {}): repair(cj, md, e2, {})
        elif c.op == "exists":
            lo, hi = ev_num(c.args[1], md, env, {}), ev_num(c.args[2], md, env, {})
            if hi > lo:
                e2 = dict(env); e2[c.args[0][0]] = r.randrange(lo, hi)
                for cj in conjuncts(c.args[3]): repair(cj, md, e2, {})
        elif c.op == "or":
            repair(r.choice(c.args), md, env, memo)
        elif c.op == "and":
            for x in c.args: repair(x, md, env, memo)
        elif c.op == "not":
            x = c.args[0]
            if x.op in ("sym", "sel", "uf"): setval(x, False, md, env, memo)
            elif x.op == "eq":
                a, b = x.args
                if a.sort in ("R", "I"):
                    for p, q in ((a, b), (b, a)):
                        if setval(p, ev_num(q, md, env, {}) + (1 if a.sort == "I" else 0.7), md, env, memo): return
                elif a.sort == "S": setval(a, "zz", md, env, memo) or setval(b, "zz", md, env, memo)
        elif c.op in ("sym", "sel", "uf"): setval(c, True, md, env, memo)
        elif c.op == "ite":
            repair(c.args[1] if ev_num(c.args[0], md, env, {}) else c.args[2], md, env, memo)
    except (Undef, OverflowError, TypeError, KeyError): pass

def model_report(md, limit=60):
    out = {}
    for (n, a), v in list(md.vals.items())[:limit]:
        nm = n if not a else "%s%s" % (n, list(a))
        out[str(nm)[:120]] = v if not isinstance(v, tuple) else str(v)
    return out
