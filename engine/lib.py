"""Call resolution and models of the C++ standard library used by the extracted code."""
from .exec import *
from .exec import PScalar
from . import ctypes_ as ct

SCAL = ("R", "I", "B", "S")

def args_of(ex, nodes):
    return [(ex.evl(a), a["t"]) for a in nodes]

def scal(ex, a): return ex.load(a[0], a[1])

def elem_type(ex, p, t):
    k = ex.cls(t)
    if k[0] in ("iter", "ptr", "sptr"): return k[1]
    if k[0] in ("vec", "arr", "evec"): return k[1]
    return "double"

def vlen(ex, l, t):
    k = ex.cls(t)
    if k[0] == "arr": return I(k[2])
    return ex.rd(l.f("#len"), sort="I", t="unsigned long")

# ---------------------------------------------------------------- contracts & user functions
def find_override(ex, cname, n, seen=None):
    """final overrider of called method node n for dynamic class cname"""
    prog = ex.prog
    meth = n["n"]; pt = n.get("pt", []); cm = bool(n.get("cm"))
    def look(c):
        for f in prog.byq.get(c + "::" + meth, []):
            if f.get("pt") == pt and bool(f.get("cm")) == cm: return f
        r = prog.records.get(c)
        if r is None: return None
        # does c declare an override whose body is not loaded?
        for v in r.get("virtuals", []):
            if v["n"] == meth and v["sig"].endswith("(" + ",".join(pt) + ")" + (" const" if cm else "")):
                return "unloaded:" + c
        for b in r["bases"]:
            x = look(ct.strip(b))
            if x is not None: return x
        return None
    return look(cname)

def call_user(ex, n, this, args, virt):
    """user (repo) function/method call"""
    sig = n["sig"]; q = n["q"]
    c = ex.contracts.get(sig) or ex.contracts.get(q)
    fd = ex.prog.fns.get(sig)
    dyn = ex.dyn.get(this.path) if this is not None else None
    if virt and this is not None:
        if dyn is not None:
            f2 = find_override(ex, dyn, n)
            if isinstance(f2, dict):
                fd = f2; sig = fd["sig"]; c = ex.contracts.get(sig) or ex.contracts.get(fd["q"]) or None
            elif f2 is None: fd = None
            else:
                cq = f2.split(":", 1)[1] + "::" + n["n"]
                c = ex.contracts.get(cq) or c; fd = None
        else:
            c = ex.contracts.get("virtual " + q) or c
            fd = None
    if c is not None and not (ex.frames and c is getattr(ex, "self_contract", None) and False):
        ex.used_contracts.add(sig)
        r = c(ex, this, args, n)
        if r is not NotImplemented: return r
    if q in ex.opaque or sig in ex.opaque: fd = None
    if fd is not None and fd.get("body"):
        snap = (ex.st.clone(), len(ex.throws), len(ex.frames), [len(f.returns) for f in ex.frames], list(ex.loops), len(ex.loop_obls))
        try:
            return ex.call_fn(fd, this, args)
        except Unsupported as e:
            if ex.strict_inline: raise
            ex.notes.add("call treated as opaque: %s (%s)" % (q, e))
            ex.st = snap[0]; del ex.throws[snap[1]:]; del ex.frames[snap[2]:]
            for f, k in zip(ex.frames, snap[3]): del f.returns[k:]
            ex.loops = snap[4]; del ex.loop_obls[snap[5]:]
    return opaque_call(ex, n, this, args)

Exec.strict_inline = False

def opaque_call(ex, n, this, args):
    q = n["q"]; rt = n.get("rt", n.get("t", "void")); pt = n.get("pt") or [t for _, t in args]
    terms = []
    outs = []
    for i, (v, t) in enumerate(args):
        p = pt[i] if i < len(pt) else t
        k = ex.cls(p)
        ref = ct.is_ref(p); 
        isout = False
        if k[0] == "ptr":
            pointee = k[1]
            isout = not pointee.startswith("const ")
            vv = ex.load(v, t) if isinstance(v, Loc) else v
            if isout and isinstance(vv, (Ptr, PObj)): outs.append((i, vv, pointee, "ptr"))
            if isout and isinstance(vv, PIte): raise Unsupported("opaque call through conditional pointer")
            if isout and isinstance(vv, Ptr) and ex.is_scalar(pointee) and not q.endswith('_'): continue
            terms.append(ex.term_of(vv, t))
        else:
            if ref and not ct.is_const(p) and isinstance(v, Loc) and not p.endswith("&&"):
                outs.append((i, v, ct.strip(p), "ref"))
            try: terms.append(ex.term_of(v, t))
            except Unsupported: terms.append(strlit("?%d" % i))
    if this is not None and not n.get("static"):
        tok = [ex.token(this)]
    else: tok = []
    name = q
    ex.opaque_used.add(q)
    targs = tuple(tok) + tuple(terms)
    # result value
    rk = ex.cls(rt)[0]
    cm = n.get("cm")
    if rk in SCAL and not ct.is_ref(rt):
        res = mk("uf", (name,) + targs, ex.sortof(rt))
        if ct.is_unsigned(rt): NONNEG.add(name)
    elif rk == "void": res = None
    elif ct.is_ref(rt) and this is not None and not terms:
        res = this.f(n["n"] + "()")
        if ct.strip(rt) == ct.strip(n.get("cls", "")): res = this
    elif this is not None and not ct.is_ref(rt) and rk in ("ptr", "sptr") and all(x.sort == "I" for x in terms) and cm is not None:
        l = Loc(this.path + (n["n"] + "()",) + ("[]",) * len(terms), this.idx + tuple(terms))
        res = ex.defptr(l.f("*"), ex.cls(rt)[1], rk)
    elif this is not None and ct.is_ref(rt) and all(x.sort == "I" for x in terms):
        res = Loc(this.path + (n["n"] + "()",) + ("[]",) * len(terms), this.idx + tuple(terms))
    else:
        l = ex.tmp(name="opq")
        ex.st.mem[l.path + ("#st",)] = mk("uf", (name,) + targs, "O")
        # class-valued result: every leaf determined by the token
        ex.st.epoch = ex.st.epoch + ((l.path, ex.st.mem[l.path + ("#st",)]),)
        res = l if rk not in ("ptr", "sptr", "iter") else ex.defptr(l.f("*"), ex.cls(rt)[1], rk)
    # out parameters
    for i, v, t, kind in outs:
        nm = "%s#%d" % (name, i)
        if kind == "ptr" and isinstance(v, Ptr) and not isinstance(v, PScalar) and ex.is_scalar(t):
            so = ex.sortof(t)
            A = mk("uf", (nm,) + targs, asort(1, so))
            ext = ex.extents.get(q) or ex.extents.get(n["n"])
            nn = ext(ex, this, args) if ext else None
            if nn is None:
                ex.notes.add("opaque %s: extent of output array %d unknown, all elements assumed overwritten" % (q, i))
                p = v.loc.path + ("[]",)
                old = ex.rdarr(p, so)
                m = len(v.loc.idx); bi = tuple(freshbv() for _ in range(m)); b0 = freshbv()
                ex.st.mem[p] = lam(bi + (b0,), ite(and_(le(v.off, b0), *[eq(x, y) for x, y in zip(bi, v.loc.idx)]), sel(A, (sub(b0, v.off),)), sel(old, bi + (b0,))))
            else:
                ex.map_range(v, nn, t, lambda suf, so, rel, bs, tt: sel(A, (rel,)))
        elif kind == "ptr":
            l = v.loc if isinstance(v, (PObj, PScalar)) else v.loc.el(v.off)
            if isinstance(v, PScalar): ex.wr(l, mk("uf", (nm,) + targs, ex.sortof(t)), t=t)
            else: ex.bump(l, nm, targs)
        else:
            k = ex.cls(t)[0]
            if k in SCAL: ex.wr(v, mk("uf", (nm,) + targs, k), t=t)
            elif k == "vec" and ex.is_scalar(ex.cls(t)[1]) :
                so = ex.sortof(ex.cls(t)[1])
                if v.idx: raise Unsupported("opaque output vector in container")
                ex.st.mem[v.path + ("[]",)] = mk("uf", (nm,) + targs, asort(1, so))
                ln = mk("uf", (nm + "len",) + targs, "I"); NONNEG.add(nm + "len")
                ex.st.mem[v.path + ("#len",)] = ln
            elif k in ("ptr", "sptr", "fn"): raise Unsupported("opaque output pointer")
            else: ex.bump(v, nm, targs)
    if this is not None and not n.get("static") and cm is not True and n.get("method"):
        ex.bump(this, name, tuple(terms))
        ex.havoc_calls.add(q)
    return res

def call_by_sig(ex, q, sig, this, args, n):
    nn = dict(n); nn["q"] = q; nn["sig"] = sig
    if q.startswith("std::") or "::" not in q: 
        r = std_free(ex, nn, args)
        if r is not NotImplemented: return r
    return call_user(ex, nn, this, args, False)

def free_call(ex, n):
    q = n.get("q")
    if q is None:
        f = ex.ev(n["fn"])
        return ex.apply(f, args_of(ex, n["a"]))
    if q in NOOPS or q.startswith("fmt::") or (q.split("::")[-1] in ("warn_user", "warn_deprecated", "writelog")):
        if ex.cls(n["rt"])[0] == "S": return uf("fmt", [I(n["l"])], "S")
        return None
    if q == "std::move" or q == "std::forward" or q == "std::as_const" or q == "std::ref" or q == "std::cref": return ex.evl(n["a"][0])
    args = args_of(ex, n["a"])
    if n.get("cls") and n.get("static") and "numeric_limits" not in q:
        return call_user(ex, n, None, args, False)
    r = std_free(ex, n, args)
    if r is not NotImplemented: return r
    return call_user(ex, n, None, args, False)

def std_free(ex, n, args):
    q = n["q"]; nm = q.split("::")[-1]
    if nm in ("__builtin_nanf", "__builtin_nan", "nan", "nanf"): return sym("#NaN", "R")
    isstd = q.startswith("std::") or "::" not in q or q.startswith("__gnu") or q.startswith("boost::")
    if not isstd: return NotImplemented
    def S(i): return scal(ex, args[i])
    def Rr(i):
        v = S(i)
        return v if v.sort == "R" else toR(v)
    if nm in STDMATH1 and len(args) == 1:
        x = Rr(0)
        if nm == "sqrt": return sqrt(x)
        if nm == "exp2": return powt(R(2), x)
        if nm == "cbrt": return pw(x, Fr(1, 3))
        if nm == "log10": return div(log(x), log(R(10)))
        if nm == "log2": return div(log(x), log(R(2)))
        if nm == "log1p": return log(add(ONE, x))
        if nm == "expm1": return sub(exp(x), ONE)
        return uf(nm, [x], "R")
    if nm in ("abs", "fabs", "labs") and len(args) == 1 and not (ex.cls(args[0][1])[0] == "pair"):
        return rabs(S(0) if nm != "fabs" else Rr(0))
    if nm == "pow": 
        e = S(1)
        return powt(Rr(0), e)
    if nm in ("max", "fmax") and len(args) == 2: return rmax(S(0), S(1))
    if nm in ("min", "fmin") and len(args) == 2: return rmin(S(0), S(1))
    if nm in ("max", "min") and len(args) == 1:
        l, t = args[0]; k = vlen(ex, l, t)
        if isnum(k):
            vs = [ex.rd(l.el(I(i)), ex.cls(t)[1]) for i in range(int(val(k)))]
            r = vs[0]
            for v in vs[1:]: r = rmax(r, v) if nm == "max" else rmin(r, v)
            return r
    if nm == "clamp": return rmin(rmax(S(0), S(1)), S(2))
    if nm == "isnan": return eq(Rr(0), sym("NaN", "R"))
    if nm == "isfinite": return ne(Rr(0), sym("NaN", "R"))
    if nm == "isinf": return FALSE
    if nm == "hypot": return sqrt(add(mul(Rr(0), Rr(0)), mul(Rr(1), Rr(1))))
    if nm == "fmod":
        x, y = Rr(0), Rr(1)
        if x.op == "num" and y.op == "num" and y.args[0] != 0:
            a, b = Fr(x.args[0]), Fr(y.args[0]); q = abs(a) // abs(b)
            return num(a - (q if (a < 0) == (b < 0) else -q) * b)
        return uf("fmod", [x, y], "R")
    if nm == "copysign": return uf("copysign", [Rr(0), Rr(1)], "R")
    if nm == "atan2": return uf("atan2", [Rr(0), Rr(1)], "R")
    if nm in ("signbit",): return lt(Rr(0), ZERO)
    if nm == "swap" and len(args) == 2:
        (a, t), (b, _) = args
        tmp = ex.tmp(); ex.store_any(tmp, a, t); ex.store_any(a, b, t); ex.store_any(b, tmp, t); return None
    if nm in ("begin", "cbegin") and len(args) == 1: return Ptr(args[0][0], IZERO)
    if nm in ("end", "cend") and len(args) == 1: return Ptr(args[0][0], vlen(ex, *args[0]))
    if nm == "size" and len(args) == 1: return vlen(ex, *args[0])
    if nm == "get" and len(args) == 1:
        t = n["sig"]
        return args[0][0].f("first" if "get<0" in t else "second")
    if nm == "make_pair":
        l = ex.tmp(); k = ex.cls(n["rt"])
        ex.store_any(l.f("first"), ex.load(*args[0]) if ex.is_scalar(k[1]) else args[0][0], k[1])
        ex.store_any(l.f("second"), ex.load(*args[1]) if ex.is_scalar(k[2]) else args[1][0], k[2]); return l
    if nm in ("make_shared", "make_unique"):
        l = ex.tmp(name="new"); cn = ex.cls(n["rt"])[1]
        cands = [f for f in ex.prog.byq.get(cn + "::" + cn.split("::")[-1], []) if len(f["params"]) == len(args)]
        ex.dyn[l.path] = cn
        ck = ex.contracts.get("make " + cn)
        if ck is not None: ck(ex, l, args, n); return PObj(l)
        if len(cands) > 1: cands = [f for f in cands if all(ex.cls(p["t"])[0] == ex.cls(at_)[0] or ex.is_scalar(p["t"]) and ex.is_scalar(at_) for p, (_, at_) in zip(f["params"], args))]
        if len(cands) == 1: ex.call_fn(cands[0], l, args, ctor=True)
        elif not args: ex.default_rec(l, cn)
        else:
            ex.st.mem[l.path + ("#st",)] = mk("uf", ("ctor:" + cn,) + tuple(ex.term_of(v, t) for v, t in args), "O")
        return PObj(l)
    if nm in ("dynamic_pointer_cast", "static_pointer_cast"):
        v = ex.load(*args[0])
        tgt = ex.cls(n["rt"])[1]
        if nm.startswith("static"): return v
        l = ex.deref(v); d = ex.dyn.get(l.path)
        c = boolc(ex.derives(d, tgt)) if d else uf("dyncast:" + tgt, [ex.rd(l.f("#class"), sort="O")], "B")
        return v if c is TRUE else NULL if c is FALSE else PIte(c, v, NULL)
    if nm == "to_string": return uf("to_string", [ex.term_of(*args[0])], "S")
    if nm == "distance": return ex.arith("-", S(1), S(0))
    if nm in ("next", "prev"):
        k = S(1) if len(args) > 1 else IONE
        return ex.padd(S(0), k if nm == "next" else neg(k))
    if nm == "advance":
        ex.store_any(args[0][0], ex.padd(S(0), S(1)), args[0][1]); return None
    # ---- algorithms over ranges
    if nm in ("copy", "move") and len(args) == 3:
        f, e, d = S(0), S(1), S(2)
        ex.copy_range(f, ex.arith("-", e, f), d, elem_type(ex, d, args[2][1])); return ex.padd(d, ex.arith("-", e, f))
    if nm == "copy_n":
        f, k, d = S(0), S(1), S(2)
        ex.copy_range(f, k, d, elem_type(ex, d, args[2][1])); return ex.padd(d, k)
    if nm == "memcpy" :
        return NotImplemented
    if nm in ("fill", "fill_n"):
        f = S(0)
        cnt = ex.arith("-", S(1), f) if nm == "fill" else S(1)
        et = elem_type(ex, f, args[0][1])
        if ex.is_scalar(et):
            v = ex.conv(S(2), ex.sortof(et))
            ex.map_range(f, cnt, et, lambda suf, so, rel, bs, tt: v)
        else:
            src = args[2][0]
            ex.map_range(f, cnt, et, lambda suf, so, rel, bs, tt: sel(ex.rdarr(src.path + suf, so, tt), src.idx + bs) if (src.idx + bs) else ex.rdarr(src.path + suf, so, tt))
        return None
    if nm == "transform":
        f, e, g = S(0), S(1), S(2)
        cnt = ex.arith("-", e, f)
        if len(args) == 4:
            fn = S(3)
            ft = elem_type(ex, f, args[0][1]); gt = elem_type(ex, g, args[2][1])
            def body(i):
                v = ex.apply(fn, [(ex.index(f, args[0][1], i), ft)])
                ex.store_any(ex.index(g, args[2][1], i), v, gt)
        else:
            h = S(3); fn = S(4)
            ft = elem_type(ex, f, args[0][1]); gt = elem_type(ex, g, args[2][1]); ht = elem_type(ex, h, args[3][1])
            def body(i):
                v = ex.apply(fn, [(ex.index(f, args[0][1], i), ft), (ex.index(g, args[2][1], i), gt)])
                ex.store_any(ex.index(h, args[3][1], i), v, ht)
        ex.count_loop(cnt, body, n["l"]); return None
    if nm == "for_each":
        f, e, fn = S(0), S(1), S(2); ft = elem_type(ex, f, args[0][1])
        ex.count_loop(ex.arith("-", e, f), lambda i: ex.apply(fn, [(ex.index(f, args[0][1], i), ft)]), n["l"]); return None
    if nm in ("accumulate", "reduce"):
        f, e, ini = S(0), S(1), S(2)
        rt = n["rt"]; ft = elem_type(ex, f, args[0][1])
        acc = ex.tmp(name="acc"); ex.store_any(acc, ex.conv(ini, ex.sortof(rt)), rt)
        fn = S(3) if len(args) > 3 else Functor("std::plus")
        ex.count_loop(ex.arith("-", e, f), lambda i: ex.store_any(acc, ex.conv(ex.apply(fn, [(ex.rd(acc, rt), rt), (ex.index(f, args[0][1], i), ft)]), ex.sortof(rt)), rt), n["l"])
        return ex.rd(acc, rt)
    if nm == "inner_product":
        f, e, g, ini = S(0), S(1), S(2), S(3)
        rt = n["rt"]; ft = elem_type(ex, f, args[0][1]); gt = elem_type(ex, g, args[2][1])
        acc = ex.tmp(name="acc"); ex.store_any(acc, ex.conv(ini, ex.sortof(rt)), rt)
        def body(i):
            x = ex.load(ex.index(f, args[0][1], i), ft); y = ex.load(ex.index(g, args[2][1], i), gt)
            ex.store_any(acc, ex.conv(add(ex.rd(acc, rt), mul(x, y)), ex.sortof(rt)), rt)
        ex.count_loop(ex.arith("-", e, f), body, n["l"])
        return ex.rd(acc, rt)
    if nm in ("max_element", "min_element"):
        f, e = S(0), S(1); cnt = ex.arith("-", e, f); et = elem_type(ex, f, args[0][1])
        v = freshbv(); w = freshbv()
        a = ex.load(ex.index(f, args[0][1], v), et); b = ex.load(ex.index(f, args[0][1], w), et)
        c = Forall(w, IZERO, cnt, le(b, a) if nm == "max_element" else le(a, b))
        return ex.padd(f, First(v, IZERO, cnt, c))
    if nm in ("find", "find_if", "upper_bound", "lower_bound", "any_of", "all_of", "none_of", "count", "count_if"):
        f, e = S(0), S(1); cnt = ex.arith("-", e, f); et = elem_type(ex, f, args[0][1]); v = freshbv()
        el = ex.index(f, args[0][1], v)
        if nm in ("find", "count"): c = ex.arith("==", ex.load(el, et), S(2))
        elif nm in ("upper_bound", "lower_bound"):
            if len(args) > 3: return NotImplemented
            x = S(2); y = ex.load(el, et)
            c = ex.arith("<", x, y) if nm == "upper_bound" else not_(ex.arith("<", y, x))
            ex.notes.add("%s: range assumed sorted" % nm)
        else: c = ex.truth(ex.apply(S(2), [(el, et)]))
        if nm in ("find", "find_if", "upper_bound", "lower_bound"): return ex.padd(f, First(v, IZERO, cnt, c))
        if nm == "any_of": return Exists(v, IZERO, cnt, c)
        if nm == "none_of": return not_(Exists(v, IZERO, cnt, c))
        if nm == "all_of": return Forall(v, IZERO, cnt, c)
        return Sum(v, IZERO, cnt, b2n(c, "I"))
    if nm == "iota":
        f, e, x = S(0), S(1), S(2); et = elem_type(ex, f, args[0][1])
        ex.map_range(f, ex.arith("-", e, f), et, lambda suf, so, rel, bs, tt: add(x, rel if so == "I" else toR(rel))); return None
    if nm == "reverse":
        f, e = S(0), S(1); cnt = ex.arith("-", e, f); et = elem_type(ex, f, args[0][1])
        mem0 = dict(ex.st.mem)
        ex.map_range(f, cnt, et, lambda suf, so, rel, bs, tt: sel(ex.rdarr(f.loc.path + ("[]",) + suf, so, tt), f.loc.idx + (add(f.off, sub(sub(cnt, IONE), rel)),) + bs))
        return None
    if nm in ("sort", "stable_sort"):
        raise Unsupported("std::sort")
    if nm in ("operator==", "operator!=") : return NotImplemented
    if nm in ("max", "epsilon", "infinity", "quiet_NaN", "min", "lowest") and "numeric_limits" in q:
        rt = n["rt"]
        if ex.cls(rt)[0] == "R":
            PHYS["dbl_" + nm] = {"max": 1.7976931348623157e308, "epsilon": 2.220446049250313e-16, "infinity": float("inf"), "quiet_NaN": float("nan"), "min": 2.2250738585072014e-308, "lowest": -1.7976931348623157e308}[nm]
            if nm == "quiet_NaN": return sym("#NaN", "R")
            return sym("#dbl_" + nm, "R")
        return I({"max": 2**63 - 1 if "unsigned" not in rt else 2**64 - 1, "min": 0}.get(nm, 0))
    if "numeric_limits" in q: return NotImplemented
    if nm == "max" or nm == "min":
        return NotImplemented
    if nm in ("isspace", "isalpha", "isdigit", "tolower", "toupper", "atoi", "atof", "strtod", "stod", "stoi"):
        return mk("uf", (q,) + tuple(ex.term_of(v, t) for v, t in args), ex.sortof(n["rt"]))
    if nm in ("time", "clock", "getenv"): return ex.fresh_o(nm) if ex.sortof(n["rt"]) == "O" else fresh("havoc_" + nm, ex.sortof(n["rt"]))
    return NotImplemented

# ---------------------------------------------------------------- methods
def method_call(ex, n):
    obj = ex.evl(n["obj"]); ot = n["ot"]; nm = n["n"]
    k = ex.cls(n["obj"]["t"] if not n.get("arrow") else ot)
    q = n["q"]
    if k[0] == "S":
        s = ex.load(obj, ot)
        return string_method(ex, n, s, obj)
    if k[0] in ("sptr",) :
        p = ex.load(obj, n["obj"]["t"]) if isinstance(obj, Loc) else obj
        if nm in ("get", "lock", "operator->"): return p
        if nm == "operator bool": return ex.truth(p)
        if nm == "operator*": return ex.deref(p)
        if nm == "reset":
            v = ex.ev(n["a"][0]) if n["a"] else NULL
            if not obj.idx: ex.st.mem[obj.path] = v
            elif not n["a"]: ex.wr(obj.f("#nn"), FALSE, sort="B")
            else: ex.notes.add("smart pointer element reset not tracked")
            return None
        if nm == "swap": raise Unsupported("sptr swap")
        if nm in ("use_count", "unique"): return fresh("havoc_uc", ex.sortof(n["rt"]))
    if k[0] in ("vec", "evec", "arr", "map"):
        if isinstance(obj, (Ptr, PObj, PIte)): obj = ex.deref(obj)
        if isinstance(obj, EArr) or k[0] in ("evec",):
            from . import eigen
            r = eigen.method(ex, n, obj, k)
            if r is not NotImplemented: return r
        r = container_method(ex, n, obj, n["obj"]["t"] if not n.get("arrow") else ot, k)
        if r is not NotImplemented: return r
        raise Unsupported("container method %s on %s" % (nm, ot))
    if q.startswith("Eigen::"):
        from . import eigen
        r = eigen.method(ex, n, obj, k)
        if r is not NotImplemented: return r
        raise Unsupported("Eigen method " + q)
    if k[0] == "fn":
        f = ex.load(obj, n["obj"]["t"]) if isinstance(obj, Loc) else obj
        if nm == "operator bool": return ex.truth(f)
    if k[0] == "pair" and "complex" in n["obj"]["t"]:
        l = obj
        if nm == "real": return ex.rd(l.f("first"), sort="R")
        if nm == "imag": return ex.rd(l.f("second"), sort="R")
    if k[0] == "B" or q.startswith("std::_Bit_reference"):
        if nm == "operator bool": return ex.load(obj, "bool")
    # user class
    if isinstance(obj, (Ptr, PObj, PIte, Null)) or (isinstance(obj, Loc) and ex.cls(n["obj"]["t"])[0] in ("ptr", "sptr")):
        obj = ex.deref(ex.load(obj, n["obj"]["t"]) if isinstance(obj, Loc) else obj)
    if not isinstance(obj, Loc):
        l = ex.tmp(); 
        if isinstance(obj, T):
            ex.st.mem[l.path + ("#st",)] = obj
        else: ex.st.mem[l.path] = obj
        obj = l
    if q.startswith("std::"):
        args = []
        for a in n["a"]:
            args.append((ex.evl(a), a["t"]))
        if "ostream" in q or "stringstream" in q:
            return obj if ct.is_ref(n["rt"]) else (uf("sstr", [ex.token(obj)], "S") if ex.cls(n["rt"])[0] == "S" else None)
        return opaque_call(ex, n, obj, args)
    args = args_of(ex, n["a"])
    virt = n.get("virt") and not n.get("qual")
    if virt and isinstance(obj, Loc) and obj.path not in ex.dyn:
        t = exact_class(ex, n["obj"])
        if t: ex.dyn[obj.path] = t
    return call_user(ex, n, obj, args, virt)

def exact_class(ex, o):
    """class of an object expression whose dynamic type is its declared type (by-value member, local or temporary)"""
    while o.get("k") in ("cast", "paren", "tmp") and isinstance(o.get("a"), dict): o = o["a"]
    t = None
    if o.get("k") == "mem":
        for f in (ex.prog.records.get(o.get("rec")) or {}).get("fields", []):
            if f["name"] == o["f"]: t = f["t"]
    elif o.get("k") == "ref" and o.get("kind") == "local": t = o.get("t")
    if not t or ct.is_ref(t) or ex.cls(t)[0] in ("ptr", "sptr"): return None
    t = ct.strip(t)
    return t if t in ex.prog.records else None

def string_method(ex, n, s, obj):
    nm = n["n"]
    if nm in ("size", "length"):
        NONNEG.add("strlen")
        if s.op == "strlit": return I(len(s.args[0]))
        return uf("strlen", [s], "I")
    if nm == "empty": return eq(s, strlit(""))
    if nm in ("c_str", "data"): return s
    if nm == "operator basic_string_view" or nm.startswith("operator"): return s
    args = [ex.term_of(ex.evl(a), a["t"]) for a in n["a"]]
    if nm in ("append", "push_back", "clear", "assign", "erase", "insert"):
        v = strlit("") if nm == "clear" else uf("str." + nm, [s] + args, "S")
        ex.wr(obj, v, sort="S"); return obj
    if nm == "compare": return ite(eq(s, args[0]), IZERO, uf("strcmp", [s] + args, "I")) if len(args) == 1 else uf("strcmp", [s] + args, "I")
    return mk("uf", ("str." + nm, s) + tuple(args), ex.sortof(n["rt"]))

def container_method(ex, n, l, t, k):
    nm = n["n"]; a = n["a"]
    h = ex.contracts.get("std %s.%s" % (".".join(l.path), nm))
    if h: return h(ex, l, a, n)
    L = l.f("#len")
    et = k[1]
    ln = (lambda: I(k[2])) if k[0] == "arr" else (lambda: ex.rd(L, sort="I", t="unsigned long"))
    if nm in ("size", "length"): return ln()
    if nm == "empty": return eq(ln(), IZERO)
    if nm in ("begin", "cbegin", "data"): return Ptr(l, IZERO)
    if nm in ("end", "cend"): return Ptr(l, ln())
    if nm in ("rbegin", "rend", "crbegin", "crend"): raise Unsupported("reverse iterator")
    if nm in ("reserve", "shrink_to_fit"): 
        for x in a: ex.ev(x)
        return None
    if nm in ("operator[]", "at") and k[0] != "map":
        i = ex.ev(a[0])
        if nm == "at": ex.throw_if(not_(and_(le(IZERO, i), lt(i, ln()))), "std::out_of_range")
        return l.el(i)
    if nm == "front": return l.el(IZERO)
    if nm == "back": return l.el(sub(ln(), IONE))
    if nm == "pop_back": ex.wr(L, sub(ln(), IONE), sort="I"); return None
    if k[0] == "map": return map_method(ex, n, l, t, k)
    if nm in ("push_back", "emplace_back"):
        i = ln()
        if nm == "emplace_back" and not (len(a) == 1 and ex.cls(a[0]["t"])[0] == ex.cls(et)[0]):
            kk = ex.cls(et)
            if kk[0] == "pair" and len(a) == 2:
                ex.store_any(l.el(i).f("first"), ex.load(ex.evl(a[0]), a[0]["t"]), kk[1])
                ex.store_any(l.el(i).f("second"), ex.load(ex.evl(a[1]), a[1]["t"]), kk[2])
            elif kk[0] == "rec":
                cands = [f for f in ex.prog.byq.get(kk[1] + "::" + kk[1].split("::")[-1], []) if len(f["params"]) == len(a)]
                args = args_of(ex, a)
                tmp = ex.tmp()
                if len(cands) == 1: ex.call_fn(cands[0], tmp, args, ctor=True)
                else: ex.st.mem[tmp.path + ("#st",)] = mk("uf", ("ctor:" + kk[1],) + tuple(ex.term_of(v, t) for v, t in args), "O")
                ex.store_any(l.el(i), tmp, et)
            elif kk[0] == "vec":
                x = [ex.evl(z) for z in a]
                if l.idx or len(a) > 2 or (a and ex.cls(a[0]["t"])[0] != "I"): raise Unsupported("emplace_back vector")
                e = l.el(i)
                cnt = ex.load(x[0], a[0]["t"]) if a else IZERO
                ex.wr(e.f("#len"), cnt, sort="I")
                ex.fill_all(e, kk[1], x[1] if len(a) > 1 else None, a[1]["t"] if len(a) > 1 else None)
            else: raise Unsupported("emplace_back")
        else:
            v = ex.evl(a[0])
            ex.store_any(l.el(i), ex.load(v, a[0]["t"]) if ex.is_scalar(et) else v, et)
        ex.wr(L, add(i, IONE), sort="I"); return None
    if nm == "clear": ex.wr(L, IZERO, sort="I"); return None
    if nm == "resize":
        nn = ex.ev(a[0]); old = ln()
        has = len(a) > 1
        if l.idx or k[0] == "evec":
            if k[0] == "evec": ex.wr(L, nn, sort="I"); return None
        v = ex.evl(a[1]) if has else None
        for suf, so, tt in ex.leaves(et):
            if so == "P": continue
            kx = suf.count("[]"); p = l.path + ("[]",) + suf
            if v is None or not isinstance(v, Loc):
                if kx and (suf[-1] != "#len" or kx > 1): continue
                if kx: continue
                x = ex.conv(v if not isinstance(v, Loc) else ex.load(v, a[1]["t"]), so) if v is not None else (FALSE if so == "B" else strlit("") if so == "S" else sym("O0", "O") if so == "O" else num(0, so))
                f = lambda bs: x
            else:
                A = ex.rdarr(v.path + suf, so, tt)
                f = lambda bs, A=A: sel(A, v.idx + bs) if (v.idx + bs) else A
            bi = tuple(freshbv() for _ in l.idx); b0 = freshbv(); bs = tuple(freshbv() for _ in range(kx))
            oldA = ex.rdarr(p, so, tt)
            c = and_(le(old, b0), *[eq(x_, y_) for x_, y_ in zip(bi, l.idx)])
            ex.st.mem[p] = lam(bi + (b0,) + bs, ite(c, f(bs), sel(oldA, bi + (b0,) + bs)))
        ex.wr(L, nn, sort="I"); return None
    if nm == "assign":
        if len(a) == 2:
            k0 = ex.cls(a[0]["t"])[0]
            if k0 in ("iter", "ptr"):
                f = ex.ev(a[0]); e = ex.ev(a[1]); cnt = ex.arith("-", e, f)
                ex.copy_range(f, cnt, Ptr(l, IZERO), et); ex.wr(L, cnt, sort="I"); return None
            cnt = ex.ev(a[0]); v = ex.evl(a[1])
            ex.fill_all(l, et, v, a[1]["t"]); ex.wr(L, cnt, sort="I"); return None
    if nm == "swap":
        o = ex.evl(a[0]); tmp = ex.tmp(); ex.copy_agg(tmp, l, t); ex.copy_agg(l, o, t); ex.copy_agg(o, tmp, t); return None
    if nm == "insert" and len(a) == 3 and ex.cls(a[1]["t"])[0] in ("iter", "ptr"):
        p = ex.ev(a[0]); f = ex.ev(a[1]); e = ex.ev(a[2]); cnt = ex.arith("-", e, f)
        if isinstance(p, Ptr) and p.off is ln():
            old = ln(); ex.copy_range(f, cnt, Ptr(l, old), et); ex.wr(L, add(old, cnt), sort="I"); return Ptr(l, old)
        raise Unsupported("vector insert")
    if nm == "insert" and len(a) == 2:
        p = ex.ev(a[0]); v = ex.evl(a[1])
        if isinstance(p, Ptr) and not l.idx:
            old = ln()
            def src(suf, so, tt, bs):
                if isinstance(v, Loc):
                    A = ex.rdarr(v.path + suf, so, tt); return sel(A, v.idx + bs) if (v.idx + bs) else A
                return ex.conv(v, so)
            for suf, so, tt in ex.leaves(et):
                if so == "P": continue
                pth = l.path + ("[]",) + suf; A = ex.rdarr(pth, so, tt)
                b0 = freshbv(); bs = tuple(freshbv() for _ in range(suf.count("[]")))
                ex.st.mem[pth] = lam((b0,) + bs, ite(lt(b0, p.off), sel(A, (b0,) + bs), ite(eq(b0, p.off), src(suf, so, tt, bs), sel(A, (sub(b0, IONE),) + bs))))
            ex.wr(L, add(old, IONE), sort="I"); return p
    if nm == "erase" and len(a) == 1 and k[0] == "vec" and ex.cls(a[0]["t"])[0] == "iter":
        p = ex.ev(a[0])
        if isinstance(p, Ptr) and not l.idx:
            old = ln()
            for suf, so, tt in ex.leaves(et):
                if so == "P": continue
                pth = l.path + ("[]",) + suf; A = ex.rdarr(pth, so, tt)
                b0 = freshbv(); bs = tuple(freshbv() for _ in range(suf.count("[]")))
                ex.st.mem[pth] = lam((b0,) + bs, ite(lt(b0, p.off), sel(A, (b0,) + bs), sel(A, (add(b0, IONE),) + bs)))
            ex.wr(L, sub(old, IONE), sort="I"); return p
    if nm in ("find", "count") and k[0] == "vec":
        x = ex.ev(a[0]); v = freshbv(); e = ex.load(l.el(v), et)
        if not isinstance(e, T): raise Unsupported("set find")
        f = First(v, IZERO, ln(), eq(e, x))
        return Ptr(l, f) if nm == "find" else b2n(Exists(v, IZERO, ln(), eq(e, x)), "I")
    if nm == "insert" and "set" in (k[2] if len(k) > 2 else ""):
        x = ex.ev(a[0]); v = freshbv(); e = ex.load(l.el(v), et); old = ln()
        present = Exists(v, IZERO, old, eq(e, x))
        def add_():
            ex.store_any(l.el(old), x, et); ex.wr(L, add(old, IONE), sort="I"); return None
        ex.fork(present, lambda: None, add_); return None
    if nm == "operator=":
        ex.store_any(l, ex.evl(a[0]), t); return l
    return NotImplemented

def map_find(ex, l, k, key):
    v = freshbv(); kt = k[2]
    e = ex.load(l.el(v).f("first"), kt)
    if not isinstance(e, T) or not isinstance(key, T): raise Unsupported("map key")
    ln = ex.rd(l.f("#len"), sort="I", t="unsigned long")
    c = eq(e, key)
    return First(v, IZERO, ln, c), Exists(v, IZERO, ln, c), ln

def map_index(ex, l, k, key):
    """operator[]: insert default when absent"""
    f, ex_, ln = map_find(ex, l, k, key)
    def ins():
        el = l.el(ln)
        ex.store_any(el.f("first"), key, k[2])
        if ex.is_scalar(k[3]): ex.store_any(el.f("second"), ex.e_zero({"t": k[3]}), k[3])
        elif ex.cls(k[3])[0] in ("vec", "map"): ex.wr(el.f("second").f("#len"), IZERO, sort="I")
        ex.wr(l.f("#len"), add(ln, IONE), sort="I"); return None
    ex.fork(ex_, lambda: None, ins)
    ex.notes.add("maps modelled as insertion-ordered sequences")
    return l.el(f).f("second")

def map_method(ex, n, l, t, k):
    nm = n["n"]; a = n["a"]
    if nm == "find":
        f, e, ln = map_find(ex, l, k, ex.ev(a[0])); return Ptr(l, f)
    if nm in ("upper_bound", "lower_bound"):
        # ordered map (keys assumed sorted by the class invariant in the contract): first key beyond the argument
        x = ex.ev(a[0]); v = freshbv(); ky = ex.load(l.el(v).f("first"), k[2]); ln = ex.rd(l.f("#len"), sort="I", t="unsigned long")
        return Ptr(l, First(v, IZERO, ln, lt(x, ky) if nm == "upper_bound" else le(x, ky)))
    if nm == "count":
        f, e, ln = map_find(ex, l, k, ex.ev(a[0])); return b2n(e, "I")
    if nm == "at":
        f, e, ln = map_find(ex, l, k, ex.ev(a[0]))
        ex.throw_if(not_(e), "std::out_of_range")
        return l.el(f).f("second")
    if nm == "operator[]": return map_index(ex, l, k, ex.ev(a[0]))
    if nm == "clear": ex.wr(l.f("#len"), IZERO, sort="I"); return None
    if nm in ("emplace", "insert"):
        if len(a) == 2: key = ex.ev(a[0]); v = ex.evl(a[1]); vt = a[1]["t"]
        else:
            p = ex.evl(a[0]); key = ex.load(p.f("first"), k[2]); v = p.f("second"); vt = k[3]
        f, e, ln = map_find(ex, l, k, key)
        def ins():
            el = l.el(ln); ex.store_any(el.f("first"), key, k[2])
            ex.store_any(el.f("second"), ex.load(v, vt) if ex.is_scalar(k[3]) else v, k[3])
            ex.wr(l.f("#len"), add(ln, IONE), sort="I"); return None
        ex.fork(e, lambda: None, ins)
        ret = ex.tmp(); ex.st.mem[ret.path + ("first",)] = Ptr(l, f); ex.wr(ret.f("second"), not_(e), sort="B")
        return ret
    if nm == "erase" and len(a) == 1 and not l.idx:
        if ex.cls(a[0]["t"])[0] == "iter":
            p = ex.ev(a[0]); f = p.off; ln = ex.rd(l.f("#len"), sort="I"); e = TRUE
        else: f, e, ln = map_find(ex, l, k, ex.ev(a[0]))
        for suf, so, tt in ex.leaves(k[1]):
            if so == "P": continue
            pth = l.path + ("[]",) + suf; A = ex.rdarr(pth, so, tt)
            b0 = freshbv(); bs = tuple(freshbv() for _ in range(suf.count("[]")))
            ex.st.mem[pth] = lam((b0,) + bs, ite(lt(b0, f), sel(A, (b0,) + bs), sel(A, (add(b0, IONE),) + bs)))
        ex.wr(l.f("#len"), sub(ln, b2n(e, "I")), sort="I")
        return b2n(e, "I") if ex.cls(n["rt"])[0] == "I" else Ptr(l, f)
    return NotImplemented

# ---------------------------------------------------------------- operators
def op_call(ex, n):
    op = n["op"]; a = n["a"]; q = n.get("q", "")
    t0 = a[0]["t"]; k0 = ex.cls(t0)
    if q.startswith("Eigen::") or "Eigen::" in ct.strip(t0)[:12]:
        from . import eigen
        h = ex.contracts.get(q)
        r = h(ex, a, n) if h else eigen.op(ex, n)
        if r is not NotImplemented: return r
        raise Unsupported("Eigen operator %s" % q)
    if op == "()":
        f = ex.evl(a[0])
        args = args_of(ex, a[1:])
        fv = ex.load(f, t0) if k0[0] in ("fn", "functor") and isinstance(f, Loc) else f
        if isinstance(f, Loc):
            m = ex.st.mem.get(f.path)
            if isinstance(m, (Clo, Functor, FnRef, PyFn)): fv = m
        if isinstance(fv, (Clo, Functor, FnRef, PyFn)): return ex.apply(fv, args)
        if k0[0] == "fn" and isinstance(fv, Loc):
            return opaque_call(ex, {"q": "fn:" + ".".join(fv.path), "rt": n.get("rt", n["t"]), "pt": n.get("pt"), "n": "()", "cm": True, "method": True}, fv, args)
        if isinstance(f, (PObj, Ptr)): f = ex.deref(f)
        return call_user(ex, n, f, args, n.get("virt"))
    if op == "[]":
        l = ex.evl(a[0])
        if isinstance(l, (PObj,)) and k0[0] in ("vec", "arr", "map"): l = ex.deref(l)
        h = ex.contracts.get("std %s.[]" % ".".join(l.path)) if isinstance(l, Loc) else None
        if h: return h(ex, l, a[1:], n)
        if k0[0] == "map": return map_index(ex, l, k0, ex.ev(a[1]))
        i = ex.ev(a[1])
        if k0[0] in ("vec", "arr", "evec", "iter", "ptr", "S"): return ex.index(l, t0, i)
        if k0[0] == "sptr": return ex.index(ex.load(l, t0), t0, i)
        args = [(i, a[1]["t"])]
        return call_user(ex, n, l, args, n.get("virt"))
    if op in ("->",):
        v = ex.evl(a[0])
        v = ex.load(v, t0) if isinstance(v, Loc) and k0[0] in ("sptr", "iter", "ptr") else v
        if isinstance(v, Ptr): return PObj(v.loc.el(v.off)) if not isinstance(v, PScalar) else v
        if isinstance(v, Loc): return call_user(ex, n, v, [], False)
        return v
    if op == "*" and len(a) == 1:
        v = ex.evl(a[0]); v = ex.load(v, t0) if isinstance(v, Loc) else v
        return ex.deref(v)
    if op in ("++", "--") and k0[0] == "iter":
        l = ex.evl(a[0]); p = ex.load(l, t0)
        np_ = ex.padd(p, IONE if op == "++" else I(-1))
        ex.store_any(l, np_, t0)
        return p if len(a) == 2 else l
    if op == "=":
        l = ex.evl(a[0])
        if isinstance(l, PObj): l = l.loc
        h = ex.contracts.get("std %s.=" % ".".join(l.path)) if isinstance(l, Loc) else None
        if h: return h(ex, l, a[1:], n)
        cn = n.get("cls", "")
        fd = ex.prog.fns.get(n["sig"])
        if fd is not None and fd.get("body") and k0[0] == "rec":
            return call_user(ex, n, l, args_of(ex, a[1:]), n.get("virt"))
        v = ex.evl(a[1])
        if k0[0] == "S":
            x = ex.load(v, a[1]["t"]); ex.wr(l, x if isinstance(x, T) and x.sort == "S" else uf("str", [ex.term_of(x, a[1]["t"])], "S"), sort="S"); return l
        if k0[0] in ("ptr", "sptr", "iter", "fn", "functor"):
            ex.store_any(l, ex.load(v, a[1]["t"]) if isinstance(v, Loc) else v, t0); return l
        if k0[0] == "B":
            ex.wr(l, ex.conv(ex.load(v, a[1]["t"]), "B"), sort="B"); return l
        if isinstance(v, T) and k0[0] in ("opaque", "rec"):
            ex.wr(l.f("#st"), v if v.sort == "O" else mk("uf", ("box", v), "O"), sort="O"); return l
        if k0[0] in ("opaque",) and isinstance(v, Loc) or (k0[0] == "rec" and ex.cls(a[1]["t"]) != k0):
            # converting assignment of an opaque class (AnyValue)
            ex.st.mem[l.path + ("#st",)] = mk("uf", ("box", ex.term_of(v, a[1]["t"])), "O") if not l.idx else None
            if l.idx: raise Unsupported("opaque element assignment")
            return l
        ex.store_any(l, v, t0); return l
    if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+", "+=", "-=") and (k0[0] in ("iter", "sptr", "ptr") or (len(a) > 1 and ex.cls(a[1]["t"])[0] in ("iter", "sptr"))):
        x = ex.ev(a[0]); y = ex.ev(a[1])
        if op in ("+=", "-="):
            l = ex.evl(a[0]); ex.store_any(l, ex.padd(x, y if op == "+=" else neg(y)), t0); return l
        return ex.arith(op, x, y)
    if k0[0] == "S" or (len(a) > 1 and ex.cls(a[1]["t"])[0] == "S"):
        if op == "<<": return ex.evl(a[0])
        x = ex.term_of(ex.evl(a[0]), t0); y = ex.term_of(ex.evl(a[1]), a[1]["t"]) if len(a) > 1 else None
        if op == "+": return uf("strcat", [x, y], "S")
        if op == "+=":
            l = ex.evl(a[0]); ex.wr(l, uf("strcat", [x, y], "S"), sort="S"); return l
        return ex.cmpop(op, x, y)
    if k0[0] == "vec" and op in ("==", "!="):
        x = ex.agg_term(ex.evl(a[0]), t0); y = ex.agg_term(ex.evl(a[1]), a[1]["t"])
        e = eq(x, y); return e if op == "==" else not_(e)
    if op in ("<<", ">>") and (k0[0] == "opaque" or "stream" in t0):
        l = ex.evl(a[0])
        try: ex.evl(a[1])
        except Unsupported: pass
        return l
    if k0[0] in ("B", "R", "I") and len(a) == 2 and ex.cls(a[1]["t"])[0] in ("B", "R", "I"):
        return ex.arith(op, ex.ev(a[0]), ex.ev(a[1]))
    # user-defined operator
    args = args_of(ex, a)
    if n.get("method"):
        o = args[0][0]
        if isinstance(o, (PObj, Ptr)): o = ex.deref(o)
        return call_user(ex, n, o, args[1:], n.get("virt"))
    if q.startswith("std::"):
        if k0[0] == "pair" and op in ("==", "!=", "<"):
            x = ex.agg_term(args[0][0], t0); y = ex.agg_term(args[1][0], a[1]["t"])
            if op == "==": return eq(x, y)
            if op == "!=": return ne(x, y)
        raise Unsupported("std operator %s on %s" % (op, t0))
    return call_user(ex, n, None, args, False)
