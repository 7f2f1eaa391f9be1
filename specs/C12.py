"""C12: interpolation, polynomial and quadrature helpers"""
from engine.spec import *
TUS = ["src/numerics/funcs.cpp", "@poly.cpp", "src/numerics/polyfit.cpp"]
DRIVER = "C12.cpp"
BOUND = "random tables of 1..12 points, polynomials of degree <= 8"
N = "Cantera::"
HINT_FNS = [N + "linearInterp"]
ASSUME = ["interpolation and quadrature grids are finite; interpolation grid strictly increasing (precondition)", "std::lower_bound returns the first element not less than the key (sorted range)"]

def v_linearInterp(V):
    n = Is("arg1.#len"); x = Rs("arg0"); X = As("arg1.[]"); F = As("arg2.[]")
    mem = {"arg2.#len": n}
    srt = forall(sub(n, IONE), lambda i: lt(at(X, i), at(X, add(i, IONE))))
    # strictly increasing as a pairwise fact (consequence of the adjacent form by induction)
    v, w = fresh("p", "I"), fresh("q", "I")
    j = Is("j")
    inc = [le(IONE, n), forall(n, lambda a: forall(n, lambda b: lt(at(X, a), at(X, b)), lo=add(a, IONE)))]
    r = V.fn(N + "linearInterp", mem=mem, requires=inc)
    r.nothrow()
    r.ensures("below_table", eq(r.result, at(F, 0)), [le(x, at(X, 0))])
    r.ensures("above_table", eq(r.result, at(F, sub(n, IONE))), [le(at(X, sub(n, IONE)), x), lt(IONE, n)])
    seg = [lt(add(j, IONE), n), lt(at(X, j), x), le(x, at(X, add(j, IONE)))]
    b = freshbv(); loc = First(b, IZERO, n, le(x, at(X, b)))      # the bracketing interval the search returns
    V.lemma("bracket_found", inc + seg, eq(loc, add(j, IONE)))
    x0, x1, f0, f1 = at(X, j), at(X, add(j, IONE)), at(F, j), at(F, add(j, IONE))
    r.ensures("on_the_segment", eq(mul(r.result, sub(x1, x0)), add(mul(f0, sub(x1, x)), mul(f1, sub(x, x0)))), seg + [eq(loc, add(j, IONE))])

def v_trapezoidal(V):
    n = Is("arg0.#len"); F = As("arg0.[]"); X = As("arg1.[]"); m = Is("arg1.#len")
    r = V.fn(N + "trapezoidal", requires=[le(IONE, n), le(IONE, m)])
    bad = or_(ne(n, m), exists(sub(m, IONE), lambda i: le(at(X, add(i, IONE)), at(X, i))))
    r.throws_iff("rejects_bad_grid_only", bad)
    r.ensures("value", eq(r.result, summ(sub(n, IONE), lambda i: mul(div(ONE, R(2)), add(at(F, i), at(F, add(i, IONE))), sub(at(X, add(i, IONE)), at(X, i))))), [not_(bad)])
    # exact on every segment of piecewise linear data: integral of the linear interpolant
    a, b, c, d = Rs("f0"), Rs("f1"), Rs("x0"), Rs("x1")

def simp(F, X, k):
    i0, i1, i2 = mul(I(2), k), add(mul(I(2), k), IONE), add(mul(I(2), k), I(2))
    h0, h1 = sub(at(X, i1), at(X, i0)), sub(at(X, i2), at(X, i1)); H = add(h0, h1)
    return mul(div(H, R(6)), add(mul(sub(R(2), div(h1, h0)), at(F, i0)), mul(div(mul(H, H), mul(h0, h1)), at(F, i1)), mul(sub(R(2), div(h0, h1)), at(F, i2))))
def v_simpson(V):
    F = As("arg0.[]"); X = As("arg1.[]"); n = Is("arg0.#len"); m = Is("arg1.#len"); k = Is("k")
    inc = lambda L: forall(sub(L, IONE), lambda i: lt(at(X, i), at(X, add(i, IONE))))
    r = V.fn(N + "basicSimpson", mem={"arg0.#len": add(mul(I(2), k), IONE), "arg1.#len": add(mul(I(2), k), IONE)}, requires=[le(IONE, k), inc(add(mul(I(2), k), IONE))])
    r.nothrow(); r.ensures("value", eq(r.result, summ(k, lambda i: simp(F, X, i))))
    r = V.fn(N + "basicSimpson", mem={"arg0.#len": mul(I(2), k), "arg1.#len": mul(I(2), k)}, requires=[le(IONE, k)])
    r.vacuous_ok = True
    r.always("rejects_even", r.throws)
    r = V.fn(N + "simpson", name="simpson_odd", mem={"arg0.#len": add(mul(I(2), k), IONE), "arg1.#len": add(mul(I(2), k), IONE)}, requires=[le(IONE, k), inc(add(mul(I(2), k), IONE))])
    r.nothrow(); r.ensures("value", eq(r.result, summ(k, lambda i: simp(F, X, i))))
    q = add(mul(I(2), k), I(2))
    r = V.fn(N + "simpson", name="simpson_even", mem={"arg0.#len": q, "arg1.#len": q}, requires=[le(IONE, k), inc(q)])
    last = mul(div(ONE, R(2)), sub(at(X, sub(q, IONE)), at(X, sub(q, I(2)))), add(at(F, sub(q, IONE)), at(F, sub(q, I(2)))))
    r.nothrow(); r.ensures("value", eq(r.result, add(summ(k, lambda i: simp(F, X, i)), last)))
    r = V.fn(N + "simpson", name="simpson_two", mem={"arg0.#len": I(2), "arg1.#len": I(2)}, requires=[inc(I(2))])
    r.nothrow(); r.ensures("value", eq(r.result, mul(div(ONE, R(2)), sub(at(X, 1), at(X, 0)), add(at(F, 0), at(F, 1)))))
    r = V.fn(N + "simpson", name="simpson_any", requires=[le(I(2), n), le(I(2), m)])
    r.throws_if("rejects_nonincreasing", exists(sub(m, IONE), lambda i: le(at(X, add(i, IONE)), at(X, i))))
    r.throws_if("rejects_length_mismatch", ne(n, m))
    # each Simpson term is exact for quadratics f = a + b x + c x^2 on any increasing triple
    a, b, c, x0, h0, h1 = (Rs(s) for s in ("a", "b", "c", "x0", "h0", "h1")); x1 = add(x0, h0); x2 = add(x1, h1); H = add(h0, h1)
    f = lambda x: add(a, mul(b, x), mul(c, x, x)); Fi = lambda x: add(mul(a, x), mul(div(b, R(2)), x, x), mul(div(c, R(3)), x, x, x))
    V.lemma("simpson_exact_for_quadratics", [lt(ZERO, h0), lt(ZERO, h1)], eq(sub(Fi(x2), Fi(x0)),
            mul(div(H, R(6)), add(mul(sub(R(2), div(h1, h0)), f(x0)), mul(div(mul(H, H), mul(h0, h1)), f(x1)), mul(sub(R(2), div(h0, h1)), f(x2))))))
    f1 = lambda x: add(a, mul(b, x)); F1 = lambda x: add(mul(a, x), mul(div(b, R(2)), x, x))
    V.lemma("trapezoid_exact_for_linear", [], eq(sub(F1(x1), F1(x0)), mul(div(ONE, R(2)), add(f1(x0), f1(x1)), h0)))
def v_quadrature(V):
    m = Ss("arg0"); F = As("arg1.[]"); X = As("arg2.[]")
    tr, si = fn_r("TR", F, X), fn_r("SI", F, X)
    con = {N + "trapezoidal": lambda ex, this, a, n: fn_r("TR", ex.rdarr(a[0][0].path + ("[]",), "R"), ex.rdarr(a[1][0].path + ("[]",), "R")),
           N + "simpson": lambda ex, this, a, n: fn_r("SI", ex.rdarr(a[0][0].path + ("[]",), "R"), ex.rdarr(a[1][0].path + ("[]",), "R"))}
    r = V.fn(N + "numericalQuadrature", contracts=con)
    r.ensures("dispatch", and_(implies(eq(m, strlit("simpson")), eq(r.result, si)), implies(eq(m, strlit("trapezoidal")), eq(r.result, tr))))
    r.throws_iff("rejects_unknown_method", and_(ne(m, strlit("simpson")), ne(m, strlit("trapezoidal"))))
def v_poly(V):
    c = As("arg1.[]"); x = Rs("arg0")
    for d in (3, 4, 5, 6, 8):
        r = V.fn(N + "poly%d<double,double>" % d)
        r.ensures("value", eq(r.result, add(*[mul(at(c, i), pw(x, Fr(i))) if i else at(c, 0) for i in range(d + 1)])))
    for d in (4, 5):
        r = V.fn(N + "dot%d<std::vector<double, std::allocator<double>>>" % d)
        r.ensures("value", eq(r.result, add(*[mul(at(As("arg0.[]"), i), at(As("arg1.[]"), i)) for i in range(d)])))
    n = Is("n"); a = Loc(("arg0",)); b = Loc(("arg2",))
    r = V.fn(N + "dot<const double *,const double *>", args=lambda ex, fd: [(Ptr(a, IZERO), fd["params"][0]["t"]), (Ptr(a, n), fd["params"][1]["t"]), (Ptr(b, IZERO), fd["params"][2]["t"])])
    r.ensures("value", eq(r.result, summ(n, lambda i: mul(at(As("arg0.[]"), i), at(As("arg2.[]"), i)))))
    f = Rs("arg3")
    r = V.fn(N + "scale<const double *,double *,double>", args=lambda ex, fd: [(Ptr(a, IZERO), fd["params"][0]["t"]), (Ptr(a, n), fd["params"][1]["t"]), (Ptr(b, IZERO), fd["params"][2]["t"]), (f, "double")])
    j = Is("j")
    r.ensures("value", eq(r.postat("arg2.[]", j), mul(f, at(As("arg0.[]"), j))), [lt(j, n)])
    r.ensures("nothing_else_written", eq(r.postat("arg2.[]", j), at(As("arg2.[]"), j)), [le(n, j)])
    r.frame([], roots=("arg0",), name="input_unchanged")
