"""Hash-consed terms over reals, integers, booleans, strings and opaque values.

Machine doubles are treated as mathematical reals and machine integers as unbounded
integers (stated assumption of every check).  Arrays are lambda terms.
Binders (sum, prod, forall, exists, first, lam) are kept alpha-canonical.
"""
from fractions import Fraction as Fr
import itertools, sys
sys.setrecursionlimit(100000)

_table = {}
_fresh = itertools.count(1)

class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "bh", "_poly", "__weakref__")
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    # operator sugar
    def __add__(self, o): return add(self, lift(o, self))
    def __radd__(self, o): return add(lift(o, self), self)
    def __sub__(self, o): return sub(self, lift(o, self))
    def __rsub__(self, o): return sub(lift(o, self), self)
    def __mul__(self, o): return mul(self, lift(o, self))
    def __rmul__(self, o): return mul(lift(o, self), self)
    def __truediv__(self, o): return div(self, lift(o, self))
    def __rtruediv__(self, o): return div(lift(o, self), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o):
        if isinstance(o, (int, Fr)): return pw(self, Fr(o))
        if isinstance(o, float): return pw(self, Fr(o))
        return powt(self, o)
    def __lt__(self, o): return lt(self, lift(o, self))
    def __le__(self, o): return le(self, lift(o, self))
    def __gt__(self, o): return lt(lift(o, self), self)
    def __ge__(self, o): return le(lift(o, self), self)
    def __and__(self, o): return and_(self, o)
    def __or__(self, o): return or_(self, o)
    def __invert__(self): return not_(self)

BINDERS = ("sum", "prod", "forall", "exists", "first", "lam", "maxo", "mino")
EMPTY = frozenset()

def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None: return t
    t = T()
    t.op = op; t.args = args; t.sort = sort; t.id = len(_table); t._poly = None
    if op == "sym":
        n = args[0]
        t.fv = frozenset((t,)) if n[0] == "%" else EMPTY
        t.bh = 0
    else:
        fv = EMPTY; bh = 0
        for a in args:
            if isinstance(a, T):
                if a.fv: fv = fv | a.fv if fv else a.fv
                if a.bh > bh: bh = a.bh
        if op in BINDERS:
            bvs = args[0]
            fv = fv - frozenset(bvs)
            bh = bh + len(bvs)
        t.fv = fv; t.bh = bh
    _table[key] = t
    return t

def sym(name, sort): return mk("sym", (name,), sort)
def fresh(prefix, sort): return sym("%s!%d" % (prefix, next(_fresh)), sort)
def freshmark(): return next(_fresh)
def freshno(y):
    n = y.args[0]; i = n.rfind("!")
    return int(n[i + 1:]) if i >= 0 and n[i + 1:].isdigit() else -1
def freshbv(sort="I"): return sym("%%f%d" % next(_fresh), sort)
def num(x, sort="R"):
    if isinstance(x, float): x = Fr(repr(x))
    return mk("num", (Fr(x),), sort)
def I(x): return num(x, "I")
def R(x): return num(x, "R")
TRUE = mk("true", (), "B"); FALSE = mk("false", (), "B")
def boolc(b): return TRUE if b else FALSE
ZERO = R(0); ONE = R(1); IZERO = I(0); IONE = I(1)

def lift(x, like=None):
    if isinstance(x, T):
        if like is not None and like.sort == "R" and x.sort == "I": return toR(x)
        return x
    if isinstance(x, bool): return boolc(x)
    if isinstance(x, (int, Fr, float)):
        return num(x, like.sort if like is not None and like.sort in ("I", "R") else ("I" if isinstance(x, int) else "R"))
    raise TypeError("lift %r" % (x,))

def isnum(t): return t.op == "num"
def val(t): return t.args[0]

def coerce2(a, b):
    if a.sort == b.sort: return a, b
    if a.sort == "I" and b.sort == "R": return toR(a), b
    if a.sort == "R" and b.sort == "I": return a, toR(b)
    if a.sort == "B" and b.sort in ("I", "R"): return b2n(a, b.sort), b
    if b.sort == "B" and a.sort in ("I", "R"): return a, b2n(b, a.sort)
    raise TypeError("sort mismatch %s:%s %s:%s" % (a, a.sort, b, b.sort))

def b2n(b, sort): return ite(b, num(1, sort), num(0, sort))

# ---- arithmetic -------------------------------------------------------------
def _coefterm(t):
    """t = c * rest"""
    if t.op == "mul" and isnum(t.args[0]):
        rest = t.args[1:]
        if len(rest) == 1: return val(t.args[0]), rest[0]
        return val(t.args[0]), mk("mul", rest, t.sort)
    if t.op == "num": return val(t), None
    return Fr(1), t

def add(*xs):
    s = None
    for x in xs:
        if x.sort == "R": s = "R"
    if s is None: s = "I"
    acc = {}; c = Fr(0)
    def push(t, k):
        nonlocal c
        if t.sort != s: t = toR(t) if t.sort == "I" else b2n(t, s)
        if t.op == "add":
            for a in t.args: push(a, k)
        elif t.op == "num": c += k * val(t)
        else:
            cc, r = _coefterm(t)
            if r is not None and r.op == "add" :
                for a in r.args: push(a, k * cc)
                return
            acc[r] = acc.get(r, 0) + cc * k
    for x in xs: push(x, Fr(1))
    out = []
    for r, k in acc.items():
        if k == 0: continue
        out.append(r if k == 1 else _mulc(k, r))
    out.sort(key=lambda t: t.id)
    if c != 0 or not out: out.insert(0, num(c, s))
    if len(out) == 1: return out[0]
    return mk("add", tuple(out), s)

def _mulc(k, r):
    if r.op == "mul": return mk("mul", (num(k, r.sort),) + r.args, r.sort)
    return mk("mul", (num(k, r.sort), r), r.sort)

def neg(a): return mul(num(-1, a.sort), a)
def sub(a, b): return add(a, neg(b))

def mul(*xs):
    s = "I"
    for x in xs:
        if x.sort == "R": s = "R"
    c = Fr(1); acc = {}
    def push(t, e):
        nonlocal c
        if t.sort != s: t = toR(t) if t.sort == "I" else b2n(t, s)
        if t.op == "mul":
            for a in t.args: push(a, e)
        elif t.op == "num" and e.denominator == 1 and (val(t) != 0 or e >= 0):
            c *= val(t) ** int(e)
        elif t.op == "pw": acc[t.args[0]] = acc.get(t.args[0], 0) + t.args[1] * e
        else: acc[t] = acc.get(t, 0) + e
    for x in xs: push(x, Fr(1))
    if c == 0: return num(0, s)
    out = []
    for b, e in acc.items():
        if e == 0: continue
        out.append(b if e == 1 else mk("pw", (b, e), s))
    out.sort(key=lambda t: t.id)
    if not out: return num(c, s)
    if c == 1:
        return out[0] if len(out) == 1 else mk("mul", tuple(out), s)
    if len(out) == 1 and out[0].op == "add":
        return add(*[mul(num(c, s), a) for a in out[0].args])
    return mk("mul", (num(c, s),) + tuple(out), s)

def pw(a, q):
    q = Fr(q)
    if a.sort == "I" and (q.denominator != 1 or q < 0): a = toR(a)
    if q == 0: return num(1, a.sort)
    if q == 1: return a
    if a.op == "num" and q.denominator == 1 and (val(a) != 0 or q > 0): return num(val(a) ** int(q), a.sort)
    if a.op == "num" and q.denominator == 2 and a.sort == "R" and 0 < val(a) < 10**6 and val(a).denominator < 10**6:
        n = val(a).numerator * val(a).denominator; r, s2 = n, 1          # sqrt(p/d) = sqrt(p d)/d, square factors taken out
        for f in range(2, 100):
            while r % (f * f) == 0: r //= f * f; s2 *= f
        if s2 > 1 or val(a).denominator != 1 or r == 1:
            k = int(q * 2); c = (Fr(s2) / val(a).denominator) ** k
            return mul(num(c, "R"), num(1, "R") if r == 1 else mk("pw", (num(r, "R"), q), "R"))
    if a.op == "pw" and (q.denominator == 1): 
        return pw(a.args[0], a.args[1] * q)
    if a.op == "mul" and q.denominator == 1: return mul(*[pw(x, q) for x in a.args])
    if a.op == "ite" and q == -1 and isnum(a.args[1]) and isnum(a.args[2]) and val(a.args[1]) and val(a.args[2]):
        return ite(a.args[0], pw(a.args[1], q), pw(a.args[2], q))
    return mk("pw", (a, q), a.sort)

def div(a, b):
    if a.sort == "I": a = toR(a)
    if b.sort == "I": b = toR(b)
    return mul(a, pw(b, -1))
def sqrt(a): return pw(toR(a) if a.sort == "I" else a, Fr(1, 2))
def powt(a, b):
    if a.sort == "I": a = toR(a)
    if isnum(b) : return pw(a, val(b)) if val(b).denominator <= 12 else mk("uf", ("pow", a, num(val(b))), "R")
    if b.sort == "I": b = toR(b)
    return uf("pow", [a, b], "R")

def toR(t):
    if t.sort == "R": return t
    if t.sort == "B": return b2n(t, "R")
    if t.op == "num": return num(val(t), "R")
    if t.op == "add": return add(*[toR(a) for a in t.args])
    if t.op == "mul": return mul(*[toR(a) for a in t.args])
    if t.op == "ite": return ite(t.args[0], toR(t.args[1]), toR(t.args[2]))
    return mk("toR", (t,), "R")
def trunc(t):
    """C++ double -> integer conversion"""
    if t.sort == "I": return t
    if t.op == "num":
        v = val(t); return I(int(v))
    if t.op == "toR": return t.args[0]
    if t.op == "ite" : return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    return mk("trunc", (t,), "I")
def idiv(a, b):
    if isnum(a) and isnum(b) and val(b) != 0: return I(int(Fr(val(a), val(b))))
    if isnum(b) and val(b) == 1: return a
    return mk("idiv", (a, b), "I")
def imod(a, b):
    if isnum(a) and isnum(b) and val(b) != 0:
        q = int(Fr(val(a), val(b))); return I(val(a) - q * val(b))
    return mk("imod", (a, b), "I")

# ---- booleans ---------------------------------------------------------------
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "lt": return le(a.args[1], a.args[0])
    if a.op == "le": return lt(a.args[1], a.args[0])
    if a.op == "forall": 
        return mk("exists", (a.args[0], a.args[1], a.args[2], not_(a.args[3])), "B")
    if a.op == "exists":
        return mk("forall", (a.args[0], a.args[1], a.args[2], not_(a.args[3])), "B")
    if a.op == "and": return or_(*[not_(x) for x in a.args])
    if a.op == "or": return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")
def and_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == "and" else (x,)):
            if y is FALSE: return FALSE
            if y is TRUE or y in seen: continue
            if not_(y) in seen: return FALSE
            seen.add(y); out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")
def or_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == "or" else (x,)):
            if y is TRUE: return TRUE
            if y is FALSE or y in seen: continue
            if not_(y) in seen: return TRUE
            seen.add(y); out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), "B")
def implies(a, b): return or_(not_(a), b)

def _diffconst(a, b):
    d = sub(a, b)
    return val(d) if d.op == "num" else None

def lt(a, b):
    a, b = coerce2(a, b)
    d = sub(a, b)
    if d.op == "num": return boolc(val(d) < 0)
    if a.sort == "I":
        if b.op == "first" and False: pass
        # a < b  <=>  a + 1 <= b
        return _le_int(add(d, IONE))
    return _cmp("lt", d)
def le(a, b):
    a, b = coerce2(a, b)
    d = sub(a, b)
    if d.op == "num": return boolc(val(d) <= 0)
    if a.sort == "I": return _le_int(d)
    return _cmp("le", d)
def _le_int(d):
    """d <= 0 over integers, canonical split into (negative part) <= (positive part)"""
    if d.op == "num": return boolc(val(d) <= 0)
    return _cmp("le", d)
def _cmp(op, d):
    """ d op 0 ; split d into L - R with R the negated negative-coefficient part"""
    s = d.sort
    terms = d.args if d.op == "add" else (d,)
    # scale: positive rational content
    L = []; Rr = []
    cs = [abs(_coefterm(t)[0]) for t in terms if t.op != "num"]
    c0 = None
    if cs:
        from math import gcd
        n = 0; dn = 1
        for c in cs:
            n = gcd(n, c.numerator); dn = dn * c.denominator // gcd(dn, c.denominator)
        c0 = Fr(n, dn)
    const = Fr(0)
    for t in terms:
        c, r = _coefterm(t)
        if r is None:
            const = c / c0; continue
        c = c / c0
        if c > 0: L.append(r if c == 1 else _mulc(c, r))
        else: Rr.append(r if c == -1 else _mulc(-c, r))
    if s == "I" and const.denominator != 1:
        # d/c0 + const <= 0 -> floor
        import math
        const = Fr(math.ceil(const))
    if const > 0 and L or (const > 0 and not Rr): L.append(num(const, s))
    elif const > 0: L.append(num(const, s))
    elif const < 0: Rr.append(num(-const, s))
    a = add(*L) if L else num(0, s)
    b = add(*Rr) if Rr else num(0, s)
    if s == "I" and op == "le":
        # lt(first, hi)  <=> exists ; first + 1 <= hi
        r = _first_cmp(a, b)
        if r is not None: return r
    return mk(op, (a, b), "B")

def _first_cmp(a, b):
    # a <= b with a = first(...)+1, b = hi : exists
    if a.op == "add" and len(a.args) == 2 and isnum(a.args[0]) and val(a.args[0]) == 1 and a.args[1].op == "first":
        f = a.args[1]
        if f.args[2] is b: return mk("exists", (f.args[0], f.args[1], f.args[2], f.args[3]), "B")
    # hi <= first : not exists
    if b.op == "first" and b.args[2] is a:
        return not_(mk("exists", (b.args[0], b.args[1], b.args[2], b.args[3]), "B"))
    if a.op == "first" and a.args[2] is b: return TRUE
    if b.op == "first" and b.args[1] is a and False: return TRUE
    return None

def eq(a, b):
    if a is b: return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if a is not_(b): return FALSE
        return mk("eq", tuple(sorted((a, b), key=lambda t: t.id)), "B")
    if a.sort in ("I", "R", "B") and b.sort in ("I", "R", "B"):
        a, b = coerce2(a, b)
        d = sub(a, b)
        if d.op == "num": return boolc(val(d) == 0)
        # push through ite with constant branches
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and isnum(x.args[1]) and isnum(x.args[2]) and isnum(y):
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        if a.sort == "I":
            for x, y in ((a, b), (b, a)):
                if x.op == "first" and x.args[2] is y:
                    return not_(mk("exists", (x.args[0], x.args[1], x.args[2], x.args[3]), "B"))
        # canonical: scale so that the leading (smallest id) coefficient is +1
        terms = [t for t in (d.args if d.op == "add" else (d,))]
        lead = [t for t in terms if t.op != "num"][0]
        c, _ = _coefterm(lead)
        d = mul(num(Fr(1) / c, "R"), d) if d.sort == "R" else d if c > 0 else neg(d)
        L = []; Rr = []
        for t in (d.args if d.op == "add" else (d,)):
            k, r = _coefterm(t)
            if k > 0: L.append(t)
            else: Rr.append(neg(t))
        x = add(*L) if L else num(0, a.sort); y = add(*Rr) if Rr else num(0, a.sort)
        return mk("eq", (x, y), "B")
    if a.op == "strlit" and b.op == "strlit": return boolc(a.args == b.args)
    return mk("eq", tuple(sorted((a, b), key=lambda t: t.id)), "B")
def ne(a, b): return not_(eq(a, b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and a.sort != b.sort: a, b = coerce2(a, b)
    if a.sort == "B":
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    if isinstance(a.sort, tuple):
        return lam_ite(c, a, b)
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if b.op == "ite" and b.args[0].op == "and":      # not c refutes a conjunction that contains c
        cs = c.args if c.op == "and" else (c,)
        if all(x in b.args[0].args for x in cs): b = b.args[2]
    if a is b: return a
    return mk("ite", (c, a, b), a.sort)

def rmax(a, b):
    a, b = coerce2(a, b)
    return ite(lt(a, b), b, a)
def rmin(a, b):
    a, b = coerce2(a, b)
    return ite(lt(b, a), b, a)
def rabs(a): return ite(lt(a, num(0, a.sort)), neg(a), a)

# ---- functions and arrays ---------------------------------------------------
def uf(name, args, sort):
    args = tuple(args)
    if name == "exp" :
        if args[0].op == "num" and val(args[0]) == 0: return ONE
    if name == "log":
        if args[0].op == "num" and val(args[0]) == 1: return ZERO
        if args[0].op == "uf" and args[0].args[0] == "exp": return args[0].args[1]
        if args[0].op == "uf" and args[0].args[0] == "pow" and isnum(args[0].args[1]) and val(args[0].args[1]) > 0: return mul(args[0].args[2], mk("uf", ("log", args[0].args[1]), "R"))
    return mk("uf", (name,) + args, sort)
def exp(a): return uf("exp", [toR(a)], "R")
def log(a): return uf("log", [toR(a)], "R")
def strlit(s): return mk("strlit", (s,), "S")

def asort(n, elem): return ("A", n, elem)
def arrsym(name, n, elem): return sym(name, asort(n, elem))
def lam(bvs, body):
    bvs = tuple(bvs)
    # eta: lam j. sel(A, j) -> A
    if body.op == "sel" and body.args[1:] == bvs and not (body.args[0].fv & frozenset(bvs)):
        return body.args[0]
    return _close("lam", bvs, (body,), asort(len(bvs), body.sort))
def sel(A, idxs):
    idxs = tuple(idxs)
    if A.op == "lam":
        bvs = A.args[0]
        return subst(A.args[1], dict(zip(bvs, idxs)))
    if A.op == "sym" or A.op == "uf":
        return mk("sel", (A,) + idxs, A.sort[2])
    raise TypeError("sel of %s" % A.op)
def store(A, idxs, v):
    n = A.sort[1]
    bvs = tuple(freshbv() for _ in range(n))
    c = and_(*[eq(b, i) for b, i in zip(bvs, idxs)])
    return lam(bvs, ite(c, v, sel(A, bvs)))
def lam_ite(c, A, B):
    n = A.sort[1]
    bvs = tuple(freshbv() for _ in range(n))
    return lam(bvs, ite(c, sel(A, bvs), sel(B, bvs)))

def _close(op, bvs, rest, sort):
    """rename bound variables to canonical names by binder height"""
    h = 0
    for r in rest:
        if isinstance(r, T) and r.bh > h: h = r.bh
    names = tuple(sym("%%b%d" % (h + 1 + i), b.sort) for i, b in enumerate(bvs))
    if names != bvs:
        m = dict(zip(bvs, names))
        rest = tuple(_rename(r, m) for r in rest)
    return mk(op, (names,) + rest, sort)

def _rename(t, m): return subst(t, m)

def binder(op, bv, lo, hi, body, sort):
    h = body.bh
    name = sym("%%b%d" % (h + 1), bv.sort)
    if name is not bv:
        # lo, hi never contain bv
        body = subst(body, {bv: name})
    return mk(op, ((name,), lo, hi, body), sort)

def Sum(bv, lo, hi, body):
    if body.op == "num" and val(body) == 0: return num(0, body.sort)
    d = sub(hi, lo)
    if isnum(d) :
        n = int(val(d))
        if n <= 0: return num(0, body.sort)
        if n <= 24: return add(*[subst(body, {bv: add(lo, I(k))}) for k in range(n)])
    return binder("sum", bv, lo, hi, body, body.sort)
def Prod(bv, lo, hi, body):
    if body.op == "num" and val(body) == 1: return num(1, body.sort)
    d = sub(hi, lo)
    if isnum(d):
        n = int(val(d))
        if n <= 0: return num(1, body.sort)
        if n <= 24: return mul(*[subst(body, {bv: add(lo, I(k))}) for k in range(n)])
    return binder("prod", bv, lo, hi, body, body.sort)
def Forall(bv, lo, hi, body):
    if body is TRUE: return TRUE
    d = sub(hi, lo)
    if isnum(d):
        n = int(val(d))
        if n <= 0: return TRUE
        if n <= 8: return and_(*[subst(body, {bv: add(lo, I(k))}) for k in range(n)])
    if bv not in body.fv:
        return or_(le(hi, lo), body)
    return binder("forall", bv, lo, hi, body, "B")
def Exists(bv, lo, hi, body):
    if body is FALSE: return FALSE
    d = sub(hi, lo)
    if isnum(d):
        n = int(val(d))
        if n <= 0: return FALSE
        if n <= 8: return or_(*[subst(body, {bv: add(lo, I(k))}) for k in range(n)])
        if n <= 128 and isnum(lo):
            cs = []
            for k in range(n):
                c = subst(body, {bv: add(lo, I(k))})
                if c is TRUE: return TRUE
                if c is not FALSE: cs = None; break
            if cs is not None: return FALSE
    if bv not in body.fv:
        return and_(lt(lo, hi), body)
    return binder("exists", bv, lo, hi, body, "B")
def First(bv, lo, hi, cond):
    if cond is FALSE: return hi
    if cond is TRUE: return ite(lt(lo, hi), lo, hi)
    if isnum(lo) and isnum(hi) and val(hi) - val(lo) <= 128:
        for k in range(int(val(lo)), int(val(hi))):
            c = subst(cond, {bv: I(k)})
            if c is TRUE: return I(k)
            if c is not FALSE: break
        else: return hi
    return binder("first", bv, lo, hi, cond, "I")
def MaxO(bv, lo, hi, body, init):
    """max(init, max over range); bound variable also not in init"""
    if lo is hi: return init
    h = body.bh
    name = sym("%%b%d" % (h + 1), bv.sort)
    if name is not bv: body = subst(body, {bv: name})
    return mk("maxo", ((name,), lo, hi, body, init), body.sort)
def MinO(bv, lo, hi, body, init):
    if lo is hi: return init
    h = body.bh
    name = sym("%%b%d" % (h + 1), bv.sort)
    if name is not bv: body = subst(body, {bv: name})
    return mk("mino", ((name,), lo, hi, body, init), body.sort)

def open_binder(t):
    """returns fresh bound variables and opened rest args"""
    bvs = t.args[0]
    fr = tuple(freshbv(b.sort) for b in bvs)
    m = dict(zip(bvs, fr))
    if t.op == "lam": return fr, (subst(t.args[1], m),)
    return fr, (t.args[1], t.args[2], subst(t.args[3], m)) + tuple(t.args[4:])

def rebuild(t, args):
    op = t.op
    if op == "add": return add(*args)
    if op == "mul": return mul(*args)
    if op == "pw": return pw(args[0], t.args[1])
    if op == "lt": return lt(*args)
    if op == "le": return le(*args)
    if op == "eq": return eq(*args)
    if op == "not": return not_(*args)
    if op == "and": return and_(*args)
    if op == "or": return or_(*args)
    if op == "ite": return ite(*args)
    if op == "sel": return sel(args[0], args[1:])
    if op == "uf": return uf(t.args[0], args, t.sort)
    if op == "toR": return toR(args[0])
    if op == "trunc": return trunc(args[0])
    if op == "idiv": return idiv(*args)
    if op == "imod": return imod(*args)
    return mk(op, tuple(args), t.sort)

def kids(t):
    return [a for a in t.args if isinstance(a, T)]

def rebinder(op, bv, lo, hi, body, rest=()):
    if op == "sum": return Sum(bv, lo, hi, body)
    if op == "prod": return Prod(bv, lo, hi, body)
    if op == "forall": return Forall(bv, lo, hi, body)
    if op == "exists": return Exists(bv, lo, hi, body)
    if op == "first": return First(bv, lo, hi, body)
    if op == "maxo": return MaxO(bv, lo, hi, body, rest[0])
    if op == "mino": return MinO(bv, lo, hi, body, rest[0])
    raise ValueError(op)

def subst(t, m):
    """m: dict sym -> term (capture-free because binders are re-opened when needed)"""
    if not m: return t
    onlybv = all(k.op == "sym" and k.args[0][0] == "%" for k in m)
    memo = {}
    mfv = EMPTY
    for v in m.values(): mfv = mfv | v.fv
    keys = frozenset(m)
    def go(t):
        if onlybv and not (t.fv & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == "sym":
            r = m.get(t, t)
        elif t.op in ("num", "true", "false", "strlit"):
            r = t
        elif t.op in BINDERS:
            fr, rest = open_binder(t)
            rest2 = tuple(go(x) for x in rest)
            if t.op == "lam": r = lam(fr, rest2[0])
            else: r = rebinder(t.op, fr[0], rest2[0], rest2[1], rest2[2], rest2[3:])
        else:
            ks = [go(a) for a in t.args if isinstance(a, T)]
            r = rebuild(t, ks) if any(x is not y for x, y in zip(ks, kids(t))) else t
        memo[t] = r
        return r
    return go(t)

def replace(t, m):
    """replace arbitrary subterms (not under binders' bound variables)"""
    memo = {}
    def go(t):
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if t.op in ("sym", "num", "true", "false", "strlit"): r = t
        elif t.op in BINDERS:
            fr, rest = open_binder(t)
            rest2 = tuple(go(x) for x in rest)
            if t.op == "lam": r = lam(fr, rest2[0])
            else: r = rebinder(t.op, fr[0], rest2[0], rest2[1], rest2[2], rest2[3:])
        else:
            ks = [go(a) for a in t.args if isinstance(a, T)]
            r = rebuild(t, ks) if any(x is not y for x, y in zip(ks, kids(t))) else t
        memo[t] = r
        return r
    return go(t)

_symcache = {}
def symbols(t):
    """set of all free symbol terms (including arrays), excluding canonical bound variables"""
    r = _symcache.get(t)
    if r is not None: return r
    if t.op == "sym":
        r = frozenset((t,))
    else:
        r = EMPTY
        for a in kids(t): r = r | symbols(a)
        if t.op in BINDERS: r = r - frozenset(t.args[0])
    _symcache[t] = r
    return r

def occurs(t, s): return s in symbols(t)

def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        st.extend(kids(x))

# ---- printing ---------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 40: return "..."
    op = t.op
    s = lambda x: show(x, d + 1)
    if op == "sym": return t.args[0]
    if op == "num":
        v = val(t)
        if v.denominator == 1: return str(v.numerator)
        f = float(v)
        return repr(f) if Fr(repr(f)) == v else "%s/%s" % (v.numerator, v.denominator)
    if op in ("true", "false"): return op
    if op == "strlit": return '"%s"' % t.args[0]
    if op == "add": return "(" + " + ".join(map(s, t.args)) + ")"
    if op == "mul": return "*".join(map(s, t.args))
    if op == "pw": return "%s^%s" % (s(t.args[0]), t.args[1])
    if op in ("lt", "le", "eq"): return "(%s %s %s)" % (s(t.args[0]), {"lt": "<", "le": "<=", "eq": "=="}[op], s(t.args[1]))
    if op == "not": return "!" + s(t.args[0])
    if op in ("and", "or"): return "(" + (" && " if op == "and" else " || ").join(map(s, t.args)) + ")"
    if op == "ite": return "(%s ? %s : %s)" % tuple(map(s, t.args))
    if op == "sel": return "%s[%s]" % (s(t.args[0]), ", ".join(map(s, t.args[1:])))
    if op == "uf": return "%s(%s)" % (t.args[0], ", ".join(map(s, t.args[1:])))
    if op == "lam": return "(\\%s. %s)" % (",".join(map(s, t.args[0])), s(t.args[1]))
    if op in BINDERS: return "%s(%s in [%s,%s): %s)" % (op, s(t.args[0][0]), s(t.args[1]), s(t.args[2]), s(t.args[3])) 
    return "%s(%s)" % (op, ", ".join(map(s, t.args)))
