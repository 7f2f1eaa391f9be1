"""C17: damping factors, bounds and the weighted norm of the 1-D Newton solver"""
from engine.spec import *
TUS = ["src/oneD/MultiNewton.cpp"]
DRIVER = "C17.cpp"
BOUND = "random domains, tolerances, bounds, solutions inside or on the bounds and steps of any size; full dampStep/solve runs on nonlinear test domains"
Q = "Cantera::"
AN = Q + "(anonymous namespace)::"
N_ = Q + "MultiNewton"
x, s = As("arg0.[]"), As("arg1.[]")
def dom(p="arg2"): return Is(p + ".m_nv"), Is(p + ".m_points"), As(p + ".m_max.[]"), As(p + ".m_min.[]")
nv, np, hi, lo = dom()
def ok(m, j, fb):
    X = at(x, add(mul(j, nv), m)); S = at(s, add(mul(j, nv), m))
    return and_(implies(lt(at(hi, m), add(X, S)), le(fb, div(sub(at(hi, m), X), S))), implies(lt(add(X, S), at(lo, m)), le(fb, div(sub(at(lo, m), X), S))))
inb = forall(nv, lambda m: forall(np, lambda j: and_(le(at(lo, m), at(x, add(mul(j, nv), m))), le(at(x, add(mul(j, nv), m)), at(hi, m)))))
rng = lambda fb: and_(le(ZERO, fb), le(fb, ONE))

def v_bound_step(V):
    pre = [inb, le(Is("arg3", False), IZERO)]
    r = V.fn(AN + "bound_step", requires=pre, invariants={
        ("bound_step", 0): lambda S: and_(le(IZERO, S("m")), rng(S("fbound")), forall(S("m"), lambda m: forall(np, lambda j: ok(m, j, S("fbound"))))),
        ("bound_step", 1): lambda S: and_(le(IZERO, S("m")), rng(S("fbound")), forall(S("m"), lambda m: forall(np, lambda j: ok(m, j, S("fbound")))), forall(S("j"), lambda j: ok(S("m"), j, S("fbound"))))})
    r.ensures("damping_factor_between_zero_and_one", rng(r.result))
    r.ensures("within_the_bound_of_every_component_and_point", forall(nv, lambda m: forall(np, lambda j: ok(m, j, r.result))))
    r.frame([], ("arg0", "arg1", "arg2"))
    X, S, H, L_, f, al = Rs("X"), Rs("S"), Rs("H"), Rs("L"), Rs("f"), Rs("al")
    hy = [le(L_, X), le(X, H), le(ZERO, f), le(f, ONE), implies(lt(H, add(X, S)), le(f, div(sub(H, X), S))), implies(lt(add(X, S), L_), le(f, div(sub(L_, X), S))), le(ZERO, al), le(al, f)]
    # the damped step with any factor up to the returned one stays within the bounds
    up = [lt(H, add(X, S)), lt(ZERO, S)]; dn = [lt(add(X, S), L_), lt(S, ZERO)]
    V.lemma("violating_upwards_means_positive_step", hy + [lt(H, add(X, S))], lt(ZERO, S))
    V.lemma("violating_downwards_means_negative_step", hy + [lt(add(X, S), L_)], lt(S, ZERO))
    y = add(X, mul(al, S))
    V.lemma("damped_step_below_upper_bound.limited", hy + up, le(y, H))
    V.lemma("damped_step_below_upper_bound.unlimited", hy + [le(add(X, S), H)], le(y, H))
    V.lemma("damped_step_above_lower_bound.limited", hy + dn, le(L_, y))
    V.lemma("damped_step_above_lower_bound.unlimited", hy + [le(L_, add(X, S))], le(L_, y))

st = lambda i: ite(eq(at(As("arg2.m_dom.[].*.m_nv", "I"), i), IZERO), IZERO, at(As("arg2.m_dom.[].*.m_iloc", "I"), i))
def bs(d0, d1, i): return uf("bound_step", [d0, d1, i], "R")
def c_bs(ex, th, a, n):
    return bs(a[0][0].off, a[1][0].off, a[2][0].idx[-1])
LOC = {"virtual Cantera::Domain1D::loc": lambda ex, th, a, n: ex.rd(th.f("m_iloc"), sort="I")}
def v_boundStep(V):
    nd = Is("arg2.m_dom.#len")
    B = lambda i: bs(st(i), st(i), i)
    pre = [forall(nd, lambda i: rng(B(i)))]
    r = V.fn(N_ + "::boundStep", this=N_, requires=pre, contracts={AN + "bound_step": c_bs, **LOC}, invariants={("boundStep", 0): lambda S: and_(rng(S("fbound")), forall(S("i"), lambda i: le(S("fbound"), B(i))))})
    r.ensures("between_zero_and_one", rng(r.result))
    r.ensures("at_most_the_factor_of_every_domain", forall(nd, lambda i: le(r.result, B(i))))
    r.frame([], ("this", "arg0", "arg1", "arg2"))

def v_norm(V):
    rt, at_ = [lambda n, w=w: ite(eq(Rs("arg2.m_rdt"), ZERO), at(As("arg2.m_%s_ss.[]" % w), n), at(As("arg2.m_%s_ts.[]" % w), n)) for w in ("rtol", "atol")]
    ewt = lambda n: add(div(mul(rt(n), summ(np, lambda j: fabs(at(x, add(mul(nv, j), n))))), toR(np)), at_(n))
    r = V.fn(AN + "norm_square", requires=[pos(np)])
    r.ensures("error_weighted_sum_of_squares", eq(r.result, summ(nv, lambda n: summ(np, lambda j: pw(div(at(s, add(mul(nv, j), n)), ewt(n)), 2)))), [forall(nv, lambda n: ne(ewt(n), ZERO))])
    r.frame([], ("arg0", "arg1", "arg2"))
    nd = Is("arg2.m_dom.#len")
    ns = lambda i: uf("norm_square", [st(i), st(i), i], "R")
    ct = {AN + "norm_square": lambda ex, th, a, n: uf("norm_square", [a[0][0].off, a[1][0].off, a[2][0].idx[-1]], "R")}
    r = V.fn(N_ + "::norm2", this=N_, contracts={**ct, **LOC})
    r.ensures("root_mean_square_over_all_domains", eq(r.result, sqrt_(div(summ(nd, ns), toR(Is("arg2.m_size"))))), [pos(Is("arg2.m_size"))])
    r.frame([], ("this", "arg0", "arg1", "arg2"))
def fabs(t): return ite(lt(t, ZERO), neg(t), t)
def sqrt_(t): return pw(t, Fr(1, 2))

def parr(ex, a): return ex.load(*a).loc.path + ("[]",)
def c_norm(ex, th, a, nn): return uf("norm2", [ex.rdarr(parr(ex, a[0]), "R"), ex.rdarr(parr(ex, a[1]), "R")], "R")
def nstep(X): return mk("uf", ("newton_step", X), asort(1, "R"))
def c_step(ex, th, a, nn): ex.st.mem[parr(ex, a[1])] = nstep(ex.rdarr(parr(ex, a[0]), "R"))
def v_dampStep(V):
    n = Is("this.m_n"); fb = Rs("fb"); M = Is("this.m_maxDampIter"); dmp = Rs("this.m_dampFactor")
    ct = {N_ + "::norm2": c_norm, N_ + "::step": c_step, N_ + "::boundStep": lambda ex, th, a, nn: fb, Q + "OneDim::ssnorm": lambda ex, th, a, nn: Rs("ss")}
    pre = [rng(fb), le(ONE, dmp)]
    r = V.fn(N_ + "::dampStep", this=N_, sub="OneDim &,int,bool", contracts=ct, requires=pre)
    A = lambda t: mul(fb, prodd(t, lambda i: pw(dmp, -1)))
    y0 = As("arg2.[]")
    X1 = lambda t: array(lambda j: ite(and_(le(IZERO, j), lt(j, n)), add(at(x, j), mul(A(t), at(s, j))), at(y0, j)))
    s1 = lambda t: uf("norm2", [X1(t), nstep(X1(t))], "R"); s0 = uf("norm2", [x, s], "R")
    acc = lambda t: or_(lt(s1(t), ONE), lt(s1(t), s0))
    v = bv(); K = First(v, IZERO, M, acc(v)); found = exists(M, acc)
    tiny = lt(fb, num(Fr("1e-10")))
    r.ensures("status", eq(r.result, ite(tiny, I(-3), ite(found, ite(lt(ONE, s1(K)), IZERO, IONE), I(-2)))), [pos(M)])
    last = ite(found, K, sub(M, IONE)); j = Is("j")
    r.ensures("new_solution_is_a_damped_newton_step", eq(at(r.post("arg2.[]"), j), ite(tiny, at(y0, j), add(at(x, j), mul(A(last), at(s, j))))), [pos(M), lt(j, n)])
    V.lemma("damping_factor_positive", pre + [lt(ZERO, fb), le(IZERO, Is("t"))], lt(ZERO, A(Is("t"))))
    V.lemma("damping_factor_at_most_bound_factor", pre + [lt(ZERO, fb)], le(A(IZERO), fb))
    V.lemma("damping_factor_next", pre + [le(IZERO, Is("t"))], eq(A(add(Is("t"), IONE)), div(A(Is("t")), dmp)))
    V.lemma("damping_factor_decreases", [le(ONE, dmp), lt(ZERO, Rs("al"))], le(div(Rs("al"), dmp), Rs("al")))
    r.frame(["arg2.[]", "arg3.[]", "arg4"], ("this", "arg0", "arg1", "arg2", "arg3", "arg4"))
