"""Symbolic differentiation of terms (rules of calculus, used by contracts that state a result is a derivative).

D(t, x)        derivative with respect to the scalar symbol x
D(t, (A, k))   derivative with respect to element k of the array symbol A
Piecewise terms are differentiated branch by branch (the derivative exists off the switching points)."""
from .terms import *
from fractions import Fraction as Fr

def _const(t, x):
    if isinstance(x, tuple): return not occurs(t, x[0])
    return not occurs(t, x)

def D(t, x, rules=None):
    memo = {}
    def d(t):
        if t in memo: return memo[t]
        r = d0(t); memo[t] = r
        return r
    def d0(t):
        if _const(t, x): return ZERO
        if t is x: return ONE
        o = t.op
        if o == "add": return add(*[d(a) for a in t.args]) if not isinstance(t.args[0], tuple) else add(*[mul(num(c), d(a)) for c, a in t.args])
        if o == "mul":
            ks = list(kids(t)); out = []
            for i, a in enumerate(ks):
                da = d(a)
                if da is ZERO: continue
                out.append(mul(da, *(ks[:i] + ks[i + 1:])))
            return add(*out) if out else ZERO
        if o == "pw":
            b, e = t.args[0], t.args[1]
            e = e if isinstance(e, Fr) else (val(e) if isinstance(e, T) else Fr(e))
            return mul(num(e), pw(b, e - 1), d(b))
        if o == "toR":
            return ZERO
        if o == "ite": return ite(t.args[0], d(t.args[1]), d(t.args[2]))
        if o == "sel":
            A, idx = t.args[0], t.args[1:]
            if isinstance(x, tuple) and A is x[0]:
                ks = x[1] if isinstance(x[1], tuple) else (x[1],)
                return ite(and_(*[eq(a, b) for a, b in zip(idx, ks)]), ONE, ZERO)
            raise ValueError("derivative of %s" % show(t))
        if o == "sum":
            fr, (lo, hi, body) = open_binder(t)[0], open_binder(t)[1]
            return Sum(fr[0], lo, hi, d(body))
        if o == "prod":
            fr, (lo, hi, body) = open_binder(t)[0], open_binder(t)[1]
            v = fr[0]; u = freshbv()
            return Sum(v, lo, hi, mul(d(body), Prod(u, lo, hi, ite(eq(u, v), ONE, subst(body, {v: u})))))
        if o == "uf":
            n, xs = t.args[0], t.args[1:]
            if rules and n in rules:
                ds = rules[n](*xs)
                return add(*[mul(a, d(b)) for a, b in zip(ds, xs) if a is not None])
            if n == "exp": return mul(t, d(xs[0]))
            if n == "log": return div(d(xs[0]), xs[0])
            if n == "pow":
                a, b = xs; r = ZERO
                if not _const(a, x): r = add(r, mul(b, powt(a, sub(b, ONE)), d(a)))
                if not _const(b, x): r = add(r, mul(t, log(a), d(b)))
                return r
            if n == "sin": return mul(uf("cos", [xs[0]], "R"), d(xs[0]))
            if n == "cos": return mul(num(-1), uf("sin", [xs[0]], "R"), d(xs[0]))
            if n == "tanh": return mul(sub(ONE, pw(t, 2)), d(xs[0]))
            if n == "sinh": return mul(uf("cosh", [xs[0]], "R"), d(xs[0]))
            if n == "cosh": return mul(uf("sinh", [xs[0]], "R"), d(xs[0]))
            if n == "atan": return div(d(xs[0]), add(ONE, pw(xs[0], 2)))
        raise ValueError("derivative of %s" % show(t)[:200])
    return d(t)
