"""minimal Eigen model: vectors are (#len, []) objects, expressions are elementwise"""
from .exec import *
from . import ctypes_ as ct

class EMap(EArr):
    """Eigen::Map over a pointer range; assignments write through"""
    def __init__(s, ex, ptr, n):
        s.ptr = ptr; s.n = n; s.ex = ex
    def f(s, i):
        return s.ex.rd(s.ptr.loc.el(add(s.ptr.off, i)), sort="R")
    def write(s, e):
        # evaluate the source before writing
        vals = e.f
        ex = s.ex; p = s.ptr.loc.path + ("[]",); m = len(s.ptr.loc.idx)
        old = ex.rdarr(p, "R"); bi = tuple(freshbv() for _ in range(m)); b0 = freshbv()
        rel = sub(b0, s.ptr.off)
        inr = and_(le(IZERO, rel), lt(rel, s.n), *[eq(x, y) for x, y in zip(bi, s.ptr.loc.idx)])
        ex.st.mem[p] = lam(bi + (b0,), ite(inr, vals(rel), sel(old, bi + (b0,))))
def ctor(ex, n, k):
    """Eigen object constructor; NotImplemented to fall through"""
    a = n["a"]; t = n["t"]
    if not a: return NotImplemented
    if "Eigen::Map<" in ct.strip(t)[:12] and len(a) >= 2 and k[0] == "evec":
        p = ex.ev(a[0])
        if isinstance(p, Ptr): return EMap(ex, p, ex.ev(a[1]))
        return NotImplemented
    k0 = ex.cls(a[0]["t"])
    if k0[0] == "I": return NotImplemented
    v = ex.evl(a[0])
    if isinstance(v, EArr) or k0[0] == "evec":
        return as_arr(ex, v, a[0]["t"])
    return NotImplemented
def as_arr(ex, v, t):
    if isinstance(v, EArr): return v
    if isinstance(v, (PObj, Ptr)): v = ex.deref(v)
    if isinstance(v, Loc):
        m = ex.st.mem.get(v.path)
        if isinstance(m, EArr): return m
        k = ex.cls(t)
        if k[0] in ("evec", "vec") :
            n = ex.rd(v.f("#len"), sort="I", t="unsigned long")
            A = ex.rdarr(v.path + ("[]",), "R")
            return EArr(n, lambda i: sel(A, v.idx + (i,)))
        if k[0] == "R": 
            x = ex.rd(v, "double"); return x
        raise Unsupported("Eigen operand %s" % t)
    return v

def ew(op, a, b, ex):
    fa = a.f if isinstance(a, EArr) else (lambda i: a)
    fb = b.f if isinstance(b, EArr) else (lambda i: b)
    n = a.n if isinstance(a, EArr) else b.n
    return EArr(n, lambda i: ex.arith(op, toR(fa(i)) , toR(fb(i))))

def earith(self, op, a, b): return ew(op, a, b, self)
Exec.earith = earith

def method(ex, n, obj, k):
    nm = n["n"]; t = n["obj"]["t"] if not n.get("arrow") else n["ot"]
    if nm in ("array", "matrix", "eval", "noalias", "derived"):
        return obj
    if nm == "cast": return obj
    if nm in ("setZero", "setConstant", "setOnes", "fill"):
        if isinstance(obj, (PObj, Ptr)): obj = ex.deref(obj)
        if k[0] != "evec": return NotImplemented
        if nm == "setZero" and n["a"]:
            ex.wr(obj.f("#len"), ex.ev(n["a"][0]), sort="I"); v = ZERO
        elif nm == "setZero": v = ZERO
        elif nm == "setOnes": v = ONE
        else: v = toR(ex.ev(n["a"][-1]))
        mm = obj if isinstance(obj, EMap) else ex.st.mem.get(obj.path) if isinstance(obj, Loc) else None
        if isinstance(mm, EMap): mm.write(EArr(mm.n, lambda i: v)); return obj
        ln = ex.rd(obj.f("#len"), sort="I")
        ex.store_earr(obj, EArr(ln, lambda i: v)); return obj
    if nm in ("resize", "conservativeResize") and k[0] == "evec":
        ex.wr(obj.f("#len"), ex.ev(n["a"][0]), sort="I"); return None
    if nm == "data" and k[0] == "evec":
        mm = obj if isinstance(obj, EMap) else ex.st.mem.get(obj.path) if isinstance(obj, Loc) else None
        return mm.ptr if isinstance(mm, EMap) else Ptr(obj, IZERO)
    if nm in ("size", "rows") and (k[0] == "evec" or isinstance(obj, EArr)): return as_arr(ex, obj, t).n
    a = as_arr(ex, obj, t)
    if nm in ("tail", "head", "segment"):
        c = ex.ev(n["a"][-1]); off = IZERO
        if nm == "tail": off = sub(a.n, c)
        if nm == "segment": off = ex.ev(n["a"][0])
        if isinstance(a, EMap): return EMap(ex, Ptr(a.ptr.loc, add(a.ptr.off, off)), c)
        return EArr(c, lambda i: a.f(add(i, off)))
    if nm in ("any", "all"):
        v = freshbv(); return (mkexists if nm == "any" else lambda v, l, h, b: Forall(v, l, h, b))(v, IZERO, a.n, a.f(v))
    if nm in ("maxCoeff", "minCoeff", "mean", "norm"): return NotImplemented
    if nm == "sum":
        v = freshbv(); return Sum(v, IZERO, a.n, a.f(v))
    if nm == "dot":
        b = as_arr(ex, ex.evl(n["a"][0]), n["a"][0]["t"]); v = freshbv(); return Sum(v, IZERO, a.n, mul(a.f(v), b.f(v)))
    if nm == "exp": return EArr(a.n, lambda i: exp(a.f(i)))
    if nm == "log": return EArr(a.n, lambda i: log(a.f(i)))
    if nm == "sqrt": return EArr(a.n, lambda i: sqrt(a.f(i)))
    if nm == "square": return EArr(a.n, lambda i: mul(a.f(i), a.f(i)))
    if nm == "inverse": return EArr(a.n, lambda i: div(ONE, a.f(i)))
    if nm == "abs": return EArr(a.n, lambda i: rabs(a.f(i)))
    if nm == "cwiseProduct":
        b = as_arr(ex, ex.evl(n["a"][0]), n["a"][0]["t"]); return ew("*", a, b, ex)
    if nm == "cwiseQuotient":
        b = as_arr(ex, ex.evl(n["a"][0]), n["a"][0]["t"]); return ew("/", a, b, ex)
    if nm == "pow":
        e = ex.ev(n["a"][0]); return EArr(a.n, lambda i: powt(a.f(i), e))
    if nm == "value": return a
    return NotImplemented

def op(ex, n):
    o = n["op"]; a = n["a"]
    t0 = a[0]["t"]; k0 = ex.cls(t0)
    if o in ("()", "[]"):
        l = ex.evl(a[0]); i = ex.ev(a[1])
        if isinstance(l, (PObj, Ptr)): l = ex.deref(l)
        if isinstance(l, Loc) and isinstance(ex.st.mem.get(l.path), EArr): l = ex.st.mem[l.path]
        if isinstance(l, EMap): return l.ptr.loc.el(add(l.ptr.off, i))
        if isinstance(l, EArr): return l.f(i)
        if k0[0] == "evec": return l.el(i)
        if k0[0] == "emat" and len(a) == 3: return l.f("m").el(i).el(ex.ev(a[2]))
        return NotImplemented
    if o == "=":
        l = ex.evl(a[0]); v = ex.evl(a[1])
        mm = l if isinstance(l, EMap) else ex.st.mem.get(l.path) if isinstance(l, Loc) else None
        if isinstance(mm, EMap): mm.write(as_arr(ex, v, a[1]["t"])); return l
        if k0[0] != "evec" or not isinstance(l, Loc) or l.idx: return NotImplemented
        e = as_arr(ex, v, a[1]["t"])
        ex.store_earr(l, e); return l
    if o in ("+=", "-=", "*=", "/="):
        l = ex.evl(a[0]); v = as_arr(ex, ex.evl(a[1]), a[1]["t"])
        v = ex.load(v, a[1]["t"]) if isinstance(v, Loc) else v
        if isinstance(l, (PObj, Ptr)): l = ex.deref(l)
        x = as_arr(ex, l, t0)
        if isinstance(x, EMap): x.write(ew(o[0], EArr(x.n, x.f), v, ex)); return l
        ex.store_earr(l, ew(o[0], x, v, ex)); return l
    if o in ("<", "<=", ">", ">=", "==", "!="):
        x = as_arr(ex, ex.evl(a[0]), t0); y = as_arr(ex, ex.evl(a[1]), a[1]["t"])
        if isinstance(x, Loc): x = ex.load(x, t0)
        if isinstance(y, Loc): y = ex.load(y, a[1]["t"])
        if not isinstance(x, EArr) and not isinstance(y, EArr): return NotImplemented
        fx = x.f if isinstance(x, EArr) else (lambda i: toR(x)); fy = y.f if isinstance(y, EArr) else (lambda i: toR(y))
        return EArr(x.n if isinstance(x, EArr) else y.n, lambda i: ex.arith(o, fx(i), fy(i)))
    if o in ("+", "-", "*", "/"):
        x = as_arr(ex, ex.evl(a[0]), t0)
        if len(a) == 1: return EArr(x.n, lambda i: neg(x.f(i)))
        y = as_arr(ex, ex.evl(a[1]), a[1]["t"])
        if isinstance(x, Loc): x = ex.load(x, t0)
        if isinstance(y, Loc): y = ex.load(y, a[1]["t"])
        if o == "*" and isinstance(x, EArr) and isinstance(y, EArr) and "Matrix" in t0.split("<")[0]: return NotImplemented
        return ew(o, x, y, ex)
    return NotImplemented
