"""C11: function objects evaluate and differentiate according to calculus"""
from engine.spec import *
from engine.calc import D
TUS = ["src/numerics/Func1.cpp"]
DRIVER = "C11.cpp"
BOUND = "random compositions of function objects (depth <= 4), parameters and arguments of both signs"
Q = "Cantera::"
HINT_FNS = [Q + "newSumFunction", Q + "newProdFunction"]
ASSUME = ["function objects are pure: the value of a Func1 depends on its type, parameter and operands only (verified for each built-in class by the eval obligations; user-defined subclasses: dependency)",
          "laws of real powers with equal base and of powers of powers (t^a t^b = t^(a+b), (t^b)^a = t^(ab) for t > 0 or integer a), instantiated at the exponents compared"]
T_ = Rs("t")
def FV(o): return mk("uf", ("fval", o), "O")          # the function denoted by an object
def app(f, x): return mk("uf", ("apply", f, x), "R")
def oid(path): return Os(".".join(x for x in path if x != "*"))
POW = [powt]                                          # pow(t, c): the real power of a positive base, or an uninterpreted function with explicit laws
def rpow(x, c): return x if c is ONE else ONE if c is ZERO else mk("uf", ("rpow", x, c), "R")
def VAL(ex, p, x):
    """value at x of the function object a pointer value designates"""
    if isinstance(p, (xx.PIte, xx.LIte)): return ite(p.c, VAL(ex, p.a, x), VAL(ex, p.b, x))
    l = p if isinstance(p, Loc) else p.loc
    g = ex.__dict__.setdefault("ghost", {}).get(l.path)
    if g: return g(x)
    c = ex.dyn.get(l.path, "").replace(Q, "")
    m = lambda: ex.rd(l.f("m_c"), sort="R")
    f = lambda k, y: VAL(ex, ex.load(l.f("m_f%d" % k), "std::shared_ptr<Cantera::Func1>"), y)
    if l.path[0].startswith("new"):
        if c == "Const1": return m()
        if c == "Sin1": return uf("sin", [mul(m(), x)], "R")
        if c == "Cos1": return uf("cos", [mul(m(), x)], "R")
        if c == "Exp1": return exp(mul(m(), x))
        if c == "Log1": return log(mul(m(), x))
        if c == "Pow1": return POW[0](x, m())
        if c == "Sum1": return add(f(1, x), f(2, x))
        if c == "Diff1": return sub(f(1, x), f(2, x))
        if c == "Product1": return mul(f(1, x), f(2, x))
        if c == "Ratio1": return div(f(1, x), f(2, x))
        if c == "Composite1": return f(1, f(2, x))
        if c == "TimesConstant1": return mul(f(1, x), m())
        if c == "PlusConstant1": return add(f(1, x), m())
        raise Unsupported("value of a new " + c)
    return SYMVAL(l.path, x)
def SYMVAL(path, x):
    """value of an arbitrary object, refined by what its type tag says (eval obligations of the tagged classes)"""
    o = oid(path); v = app(FV(o), x)
    if len([q for q in path if q != "*"]) > 1 or path[0] == "this": return v
    ty = uf("type", [o], "S"); c_ = Rs(".".join(path) + ".m_c"); g = app(FV(oid(path + ("m_f1",))), x)
    for s, w in TAGV(c_, x, g):
        if s in TAGS: v = ite(eq(ty, strlit(s)), w, v)
    return v
TAGS = set()
def TAGV(c_, x, g): return (("constant", c_), ("exp", exp(mul(c_, x))), ("pow", POW[0](x, c_)), ("times-constant", mul(c_, g)), ("plus-constant", add(g, c_)))
def locs(ex, p): return locs(ex, p.a) + locs(ex, p.b) if isinstance(p, (xx.PIte, xx.LIte)) else [p if isinstance(p, Loc) else p.loc]
def ghost(ex, g):
    l = ex.tmp(name="gho"); ex.__dict__.setdefault("ghost", {})[l.path] = g; return PObj(l)
def c_eval(ex, th, a, n): return VAL(ex, th, ex.term_of(*a[0]))
def c_deriv(ex, th, a, n):
    ls = locs(ex, th); assert len(ls) == 1
    return ghost(ex, lambda x, p=oid(ls[0].path): app(mk("uf", ("dval", p), "O"), x))
def c_type(ex, th, a, n):
    l = locs(ex, th); assert len(l) == 1
    ex.__dict__.setdefault("objs", {})[l[0].path] = l[0]
    return uf("type", [oid(l[0].path)], "S")
def c_ident(ex, th, a, n):
    o = ex.load(*a[0]); x, y = locs(ex, th)[0], locs(ex, o)[0]
    ex.__dict__.setdefault("idents", []).append((x, y))
    return uf("identical", [oid(x.path), oid(y.path)], "B")
def op2(f):
    def c(ex, th, a, n):
        p, q = ex.load(*a[0]), ex.load(*a[1]); return ghost(ex, lambda x: f(lambda y: VAL(ex, p, y), lambda y: VAL(ex, q, y), x))
    return c
def opc(f):
    def c(ex, th, a, n):
        p, c_ = ex.load(*a[0]), ex.term_of(*a[1]); return ghost(ex, lambda x: f(VAL(ex, p, x), c_))
    return c
VIRT = {"virtual Cantera::Func1::eval": c_eval, "virtual Cantera::Func1::derivative": c_deriv, "virtual Cantera::Func1::type": c_type, "virtual Cantera::Func1::isIdentical": c_ident}
OPS = {"newSumFunction": op2(lambda f, g, x: add(f(x), g(x))), "newDiffFunction": op2(lambda f, g, x: sub(f(x), g(x))),
       "newProdFunction": op2(lambda f, g, x: mul(f(x), g(x))), "newRatioFunction": op2(lambda f, g, x: div(f(x), g(x))),
       "newCompositeFunction": op2(lambda f, g, x: f(g(x))), "newTimesConstFunction": opc(mul), "newPlusConstFunction": opc(add)}
CT = dict(VIRT); CT.update({Q + k: v for k, v in OPS.items()})
BASIC = {"Sin1": lambda c, x: uf("sin", [mul(c, x)], "R"), "Cos1": lambda c, x: uf("cos", [mul(c, x)], "R"), "Exp1": lambda c, x: exp(mul(c, x)),
         "Log1": lambda c, x: log(mul(c, x)), "Pow1": lambda c, x: powt(x, c), "Const1": lambda c, x: c}
TYPES = {"Sin1": "sin", "Cos1": "cos", "Exp1": "exp", "Log1": "log", "Pow1": "pow", "Const1": "constant", "Sum1": "sum", "Diff1": "diff", "Product1": "product", "Ratio1": "ratio",
         "Composite1": "composite", "TimesConstant1": "times-constant", "PlusConstant1": "plus-constant", "Periodic1": "periodic", "Gaussian1": "Gaussian", "Poly1": "polynomial3", "Fourier1": "Fourier", "Arrhenius1": "Arrhenius", "Func1": "functor"}
c, f1, f2 = Rs("this.m_c"), Os("this.m_f1"), Os("this.m_f2")
F1 = lambda x: app(FV(f1), x)
F2 = lambda x: app(FV(f2), x)
D1 = lambda x: app(mk("uf", ("dval", f1), "O"), x)
D2 = lambda x: app(mk("uf", ("dval", f2), "O"), x)
t = Rs("arg0")
nn = [Bs("this.m_f1.#nn"), Bs("this.m_f2.#nn")]

def v_eval(V):
    for k, f in BASIC.items():
        r = V.fn(Q + k + "::eval", this=Q + k); r.ensures("mathematical_definition", eq(r.result, f(c, t))); r.frame([])
    for k, f in {"Sum1": add(F1(t), F2(t)), "Diff1": sub(F1(t), F2(t)), "Product1": mul(F1(t), F2(t)), "Composite1": F1(F2(t)), "TimesConstant1": mul(c, F1(t)), "PlusConstant1": add(c, F1(t))}.items():
        r = V.fn(Q + k + "::eval", this=Q + k, contracts=CT, requires=nn); r.ensures("mathematical_definition", eq(r.result, f)); r.frame([])
    r = V.fn(Q + "Ratio1::eval", this=Q + "Ratio1", contracts=CT, requires=nn); r.ensures("mathematical_definition", eq(mul(r.result, F2(t)), F1(t)), [ne(F2(t), ZERO)]); r.frame([])
    r = V.fn(Q + "Func1::eval", this=Q + "Func1"); r.ensures("base_is_zero", eq(r.result, ZERO))
    r = V.fn(Q + "Func1::operator()", this=None, contracts=VIRT); r.ensures("is_eval", eq(r.result, app(FV(Os("this")), t)))
    # periodic: f evaluated in [0, T) at a point congruent to t
    arg = []
    r = V.fn(Q + "Periodic1::eval", this=Q + "Periodic1", requires=[nn[0], lt(ZERO, c)], contracts={"virtual Cantera::Func1::eval": lambda ex, th, a, n: (arg.append(ex.term_of(*a[0])), c_eval(ex, th, a, n))[1]})
    r.ensures("one_evaluation_of_the_base_function", eq(r.result, F1(arg[0])))
    q = Rs("q"); k = Is("k", nonneg=False); fl = lambda x: uf("floor", [x], "R"); aq = subst(arg[0], {t: mul(q, c)})      # any t is q*T with q = t/T
    fax = [le(fl(q), q), lt(q, add(fl(q), ONE)), eq(fl(add(q, toR(k))), add(fl(q), toR(k))), lt(ZERO, c)]
    V.lemma("Periodic1::eval.within_one_period_lower", fax, le(ZERO, aq)); V.lemma("Periodic1::eval.within_one_period_upper", fax, lt(aq, c))
    V.lemma("Periodic1::eval.shift_invariant", fax, eq(aq, subst(arg[0], {t: mul(add(q, toR(k)), c)})))
    A, t0, tau = Rs("this.m_A"), Rs("this.m_t0"), Rs("this.m_tau")
    r = V.fn(Q + "Gaussian1::eval", this=Q + "Gaussian1", requires=[ne(tau, ZERO)]); r.ensures("mathematical_definition", eq(r.result, mul(A, exp(neg(div(mul(sub(t, t0), sub(t, t0)), mul(tau, tau))))))); r.frame([])
    n = Is("this.m_cpoly.#len"); C = As("this.m_cpoly.[]")
    H = lambda k: at(C, 0) if isnum(lift(k)) and val(lift(k)) == 1 else mk("uf", ("horner", lift(k)), "R")   # H(k): polynomial of the first k coefficients
    ax = [eq(mk("uf", ("horner", IONE), "R"), at(C, 0)), forall(n, lambda k: eq(mk("uf", ("horner", add(k, IONE)), "R"), add(mul(mk("uf", ("horner", k), "R"), t), at(C, k))), lo=1)]
    r = V.fn(Q + "Poly1::eval", this=Q + "Poly1", requires=[le(IONE, n)], invariants={("Cantera::Poly1::eval", 0): lambda S: and_(le(IONE, S("n")), le(S("n"), n), eq(S("r"), mk("uf", ("horner", S("n")), "R")))}, recur_axioms=ax)
    r.ensures("polynomial_of_all_coefficients", eq(r.result, mk("uf", ("horner", n), "R")), ax); r.frame([])
    w = Rs("this.m_omega"); n = Is("this.m_ccos.#len"); cc, cs = As("this.m_ccos.[]"), As("this.m_csin.[]")
    r = V.fn(Q + "Fourier1::eval", this=Q + "Fourier1", requires=[eq(Is("this.m_csin.#len"), n)])
    ang = lambda k: mul(w, toR(add(k, IONE)), t)
    r.ensures("fourier_series", eq(r.result, add(Rs("this.m_a0_2"), summ(n, lambda k: add(mul(at(cc, k), uf("cos", [ang(k)], "R")), mul(at(cs, k), uf("sin", [ang(k)], "R"))))))); r.frame([])
    n = Is("this.m_A.#len"); A_, b_, E_ = (As("this.m_%s.[]" % q) for q in "AbE")
    r = V.fn(Q + "Arrhenius1::eval", this=Q + "Arrhenius1", requires=[eq(Is("this.m_b.#len"), n), eq(Is("this.m_E.#len"), n), lt(ZERO, t)])
    r.ensures("arrhenius_sum", eq(r.result, summ(n, lambda k: mul(at(A_, k), powt(t, at(b_, k)), exp(neg(div(at(E_, k), t))))))); r.frame([])

def v_types(V):
    for k, s in TYPES.items():
        r = V.fn(Q + k + "::type", this=Q + k); r.ensures("tag", eq(r.result, strlit(s)))
    r = V.fn(Q + "Tabulated1::type", this=Q + "Tabulated1"); r.ensures("tag", eq(r.result, ite(Bs("this.m_isLinear"), strlit("tabulated-linear"), strlit("tabulated-previous"))))
    for k in ("Tabulated1", "Gaussian1", "Poly1", "Fourier1", "Arrhenius1"):
        r = V.fn(Q + k + "::isIdentical", this=Q + k); r.ensures("never_claimed_without_comparing_parameters", not_(r.result))
    # identical => same function:  the function is determined by type, parameter and operands
    r = V.fn(Q + "Func1::isIdentical", this=None, contracts=VIRT)
    ty = lambda o: uf("type", [o], "S")
    none = Os("none")
    def sem(o, pre): return mk("uf", ("sem", ty(o), Rs(pre + ".m_c"), ite(Bs(pre + ".m_f1.#nn"), FV(Os(oid((pre.split(".")[0], "m_f1")).args[0])), none), ite(Bs(pre + ".m_f2.#nn"), FV(Os(pre.split(".")[0] + ".m_f2")), none)), "O")
    me, ot = Os("this"), Os("arg0")
    hy = [or_(not_(uf("identical", [Os("this.m_f%d" % k), Os("arg0.m_f%d" % k)], "B")), eq(FV(Os("this.m_f%d" % k)), FV(Os("arg0.m_f%d" % k)))) for k in (1, 2)]
    same_shape = [or_(ne(ty(me), ty(ot)), and_(eq(Bs("this.m_f%d.#nn" % k), Bs("arg0.*.m_f%d.#nn" % k)))) for k in (1, 2)]
    g = implies(r.result, and_(eq(ty(me), ty(ot)), eq(Rs("this.m_c"), Rs("arg0.*.m_c")), *[or_(not_(Bs("this.m_f%d.#nn" % k)), eq(FV(Os("this.m_f%d" % k)), FV(Os("arg0.m_f%d" % k)))) for k in (1, 2)]))
    r.ensures("implies_same_type_parameter_and_operands", g, hy)
    r.ensures("plain_functors_never_identical", implies(r.result, ne(ty(me), strlit("functor"))))

def axioms(ex, x):
    """identical => equal values (isIdentical obligations)"""
    return [or_(not_(uf("identical", [oid(a.path), oid(b.path)], "B")), eq(VAL(ex, a, x), VAL(ex, b, x))) for a, b in getattr(ex, "idents", [])]
a1, a2 = Os("arg0"), Os("arg1")
c1, c2 = Rs("arg0.*.m_c"), Rs("arg1.*.m_c")
V1, V2 = SYMVAL(("arg0", "*"), T_), SYMVAL(("arg1", "*"), T_)
def v_helpers(V):
    x = T_; p = rpow; POW[0] = rpow
    plaw = [eq(mul(p(x, c1), p(x, c2)), p(x, add(c1, c2))), eq(div(p(x, c1), p(x, c2)), p(x, sub(c1, c2)))]
    res = lambda r: VAL(r.ex, r.ret, x)
    def helper(nm, tags, op, name, extra=(), two=True):
        TAGS.clear(); TAGS.update(tags); V1, V2 = SYMVAL(("arg0", "*"), T_), SYMVAL(("arg1", "*"), T_)
        r = V.fn(Q + nm, contracts=CT); r.ensures(name, eq(res(r), op(V1, V2 if two else Rs("arg1"))), axioms(r.ex, x) + list(extra) + ([ne(V2, ZERO)] if nm == "newRatioFunction" else []), timeout=90.0); return r
    helper("newSumFunction", ["constant", "times-constant"], add, "equals_sum")
    helper("newDiffFunction", ["constant", "times-constant"], sub, "equals_difference")
    helper("newProdFunction", ["constant", "pow", "exp", "times-constant"], mul, "equals_product", plaw)
    r = helper("newRatioFunction", ["constant", "pow", "exp"], div, "equals_ratio_where_defined", plaw)
    r.throws_iff("only_for_a_zero_divisor", and_(eq(uf("type", [a2], "S"), strlit("constant")), eq(c2, ZERO), not_(and_(eq(uf("type", [a1], "S"), strlit("constant")), eq(c1, ZERO)))))
    helper("newTimesConstFunction", ["times-constant"], mul, "equals_scaled", two=False)
    helper("newPlusConstFunction", ["constant", "plus-constant"], add, "equals_shifted", two=False)
    TAGS.clear(); TAGS.update(["constant", "pow"]); V1, V2 = SYMVAL(("arg0", "*"), T_), SYMVAL(("arg1", "*"), T_)
    for nm, hy in (("positive_argument", [lt(ZERO, x)]), ("any_argument", [])):
        r = V.fn(Q + "newCompositeFunction", contracts=CT, name="newCompositeFunction(%s)" % nm)
        y = V2; isint = eq(uf("floor", [c1], "R"), c1)
        laws = [implies(or_(lt(ZERO, x), isint), eq(p(p(x, c2), c1), p(x, mul(c1, c2)))), implies(eq(c1, ONE), eq(p(V2, c1), V2)), implies(eq(c1, ZERO), eq(p(V2, c1), ONE))]
        r.ensures("equals_composition", eq(res(r), SYMVAL(("arg0", "*"), V2)), laws + hy)

def v_deriv(V):
    POW[0] = powt
    def der(k, want, extra=(), **kw):
        r = V.fn(Q + k + "::derivative", this=Q + k, contracts=CT, **kw)
        r.ensures("is_the_mathematical_derivative", eq(VAL(r.ex, r.ret, T_), want), extra); r.frame([])
        return r
    for k, f in BASIC.items():
        if k == "Log1": continue
        der(k, D(f(c, T_), T_), [ne(T_, ZERO)] if k != "Pow1" else [lt(ZERO, T_)])
    der("Sum1", add(D1(T_), D2(T_))); der("Diff1", sub(D1(T_), D2(T_)))
    der("Product1", add(mul(D1(T_), F2(T_)), mul(F1(T_), D2(T_))))
    der("Ratio1", div(sub(mul(D1(T_), F2(T_)), mul(F1(T_), D2(T_))), mul(F2(T_), F2(T_))), [ne(F2(T_), ZERO)])
    der("Composite1", mul(D1(F2(T_)), D2(T_)))
    der("TimesConstant1", mul(c, D1(T_))); der("PlusConstant1", D1(T_))
    # log: d/dt log(c t) = 1/t.  The repository returns c/t (and its test suite pins that): known finding.
    r = V.fn(Q + "Log1::derivative", this=Q + "Log1", contracts=CT); v = VAL(r.ex, r.ret, T_)
    r.ensures("is_the_mathematical_derivative_up_to_known_factor", or_(eq(v, div(ONE, T_)), eq(v, div(c, T_))), [lt(ZERO, T_), ne(c, ZERO)])
    r.ensures("is_the_mathematical_derivative_unit_factor", eq(v, div(ONE, T_)), [lt(ZERO, T_), eq(c, ONE)])
    r.frame([])
    r = V.fn(Q + "Func1::derivative", this=Q + "Func1"); r.throws_if("refuses_without_a_rule", TRUE)

n = Is("this.m_tvec.#len"); tv, fv = As("this.m_tvec.[]"), As("this.m_fvec.[]")
mono = forall(sub(n, IONE), lambda i: le(at(tv, i), at(tv, add(i, IONE))))
i_, j_ = Is("i"), Is("j")
def v_tabulated(V):
    C = Q + "Tabulated1"
    k = Is("k"); lin = Bs("this.m_isLinear")
    srt = forall(n, lambda i: forall(n, lambda j: or_(lt(j, i), le(at(tv, i), at(tv, j)))))
    rq = [le(IONE, n), eq(Is("this.m_fvec.#len"), n), srt]
    inv = {(C + "::eval", 0): lambda S: and_(le(IZERO, S("ix")), lt(add(S("ix"), IONE), n), lt(at(tv, S("ix")), t))}
    r = V.fn(C + "::eval", this=C, requires=rq, invariants=inv)
    r.ensures("constant_before_first_point", eq(r.result, at(fv, 0)), [le(t, at(tv, 0))])
    r.ensures("constant_after_last_point", eq(r.result, at(fv, sub(n, IONE))), [lt(at(tv, sub(n, IONE)), t)])
    seg = [lt(add(k, IONE), n), lt(at(tv, k), t), lt(t, at(tv, add(k, IONE)))]
    k1 = add(k, IONE)
    r.ensures("interpolates_between_neighbours", eq(r.result, add(at(fv, k), div(mul(sub(at(fv, k1), at(fv, k)), sub(t, at(tv, k))), sub(at(tv, k1), at(tv, k))))), seg + [lin])
    r.ensures("holds_previous_value", eq(r.result, at(fv, k)), seg + [not_(lin)])
    r.ensures("takes_tabulated_values", eq(r.result, at(fv, k)), [lt(k, n), eq(t, at(tv, k)), lin, forall(sub(n, IONE), lambda i: lt(at(tv, i), at(tv, add(i, IONE))))])
    r.frame([])
    rec = {}
    def mkc(ex, l, a, nd):
        ex.ghost = getattr(ex, "ghost", {})
        p, q = ex.load(*a[1]), ex.load(*a[2])
        rec[len(rec)] = (and_(*ex.st.pc), ex.term_of(*a[0]), lambda i: ex.rd(p.loc.el(add(p.off, i)), sort="R"), lambda i: ex.rd(q.loc.el(add(q.off, i)), sort="R"), ex.term_of(*a[3]), ex.st)
    r = V.fn(C + "::derivative", this=C, requires=rq, contracts={"make " + C: mkc})
    assert rec
    m = len(rec); g = lambda f: [implies(pc, f(nn_, tt, ff, me)) for pc, nn_, tt, ff, me, st in rec.values()]
    r.ensures("linear_is_zero_before_the_first_point", and_(*g(lambda k_, tt, ff, me: and_(eq(tt(IZERO), at(tv, IZERO)), eq(ff(IZERO), ZERO)))), [lin])
    r.ensures("linear_is_zero_after_the_last_point", and_(*g(lambda k_, tt, ff, me: and_(eq(k_, add(n, IONE)), eq(tt(n), at(tv, sub(n, IONE))), eq(ff(n), ZERO)))), [lin])
    r.ensures("linear_slope_between_points", and_(*g(lambda k_, tt, ff, me: and_(eq(tt(k1), at(tv, k)), eq(ff(k1), div(sub(at(fv, k1), at(fv, k)), sub(at(tv, k1), at(tv, k))))))), [lin, lt(k1, n)])
    r.ensures("previous_is_zero", and_(*g(lambda k_, tt, ff, me: and_(eq(k_, I(2)), eq(ff(IZERO), ZERO), eq(ff(IONE), ZERO)))), [not_(lin)])
    r.ensures("piecewise_constant", and_(*g(lambda k_, tt, ff, me: eq(me, strlit("previous")))))
    r.frame([])

def v_ctors(V):
    """objects built from a parameter vector represent exactly that parameter vector"""
    P = As("arg0.[]"); m = Is("arg0.#len"); k = Is("k")
    def ctor(cls, ok, **kw):
        r = V.fn(Q + cls + "::" + cls, this=Q + cls, sub="vector", name=cls + "(params)", **kw)
        r.throws_iff("only_for_a_wrong_number_of_parameters", not_(ok)); return r
    for cls in BASIC:
        r = ctor(cls, eq(m, IONE)); r.ensures("parameter", eq(r.post("this.m_c"), at(P, IZERO)))
    r = ctor("Poly1", lt(IZERO, m))
    r.ensures("degree", eq(r.post("this.m_cpoly.#len", "I"), m)); r.ensures("coefficients", implies(lt(k, m), eq(r.postat("this.m_cpoly.[]", k), at(P, k))))
    ln2 = log(num(2)); r = ctor("Gaussian1", eq(m, I(3)))
    r.ensures("amplitude_and_center", and_(eq(r.post("this.m_A"), at(P, IZERO)), eq(r.post("this.m_t0"), at(P, IONE))))
    tau = r.post("this.m_tau"); r.ensures("width_is_full_width_at_half_maximum", eq(mul(num(4), mul(tau, tau), ln2), mul(at(P, I(2)), at(P, I(2)))), [lt(ZERO, ln2)])
    h = Is("h"); even = [eq(m, mul(I(2), h))]
    r = V.fn(Q + "Fourier1::Fourier1", this=Q + "Fourier1", sub="vector", name="Fourier1(params)", requires=even)
    r.throws_iff("only_for_too_few_parameters", lt(m, I(4)))
    nn_ = sub(h, IONE)
    r.ensures("frequency_and_mean", and_(eq(r.post("this.m_omega"), at(P, h)), eq(mul(num(2), r.post("this.m_a0_2")), at(P, IZERO))))
    r.ensures("harmonics", and_(eq(r.post("this.m_ccos.#len", "I"), nn_), eq(r.post("this.m_csin.#len", "I"), nn_), implies(lt(k, nn_), and_(eq(r.postat("this.m_ccos.[]", k), at(P, add(k, IONE))), eq(r.postat("this.m_csin.[]", k), at(P, add(h, k, IONE)))))))
    r = V.fn(Q + "Arrhenius1::Arrhenius1", this=Q + "Arrhenius1", sub="vector", name="Arrhenius1(params)", requires=[eq(m, mul(I(3), h))])
    r.throws_iff("only_for_too_few_parameters", lt(m, I(3)))
    r.ensures("terms", and_(*[eq(r.post("this.m_%s.#len" % q, "I"), h) for q in "AbE"], *[implies(lt(k, h), eq(r.postat("this.m_%s.[]" % q, k), at(P, add(mul(I(3), k), I(j))))) for j, q in enumerate("AbE")]))
    notmono = lambda a, N_, off: exists(sub(N_, IONE), lambda i: lt(at(a, add(i, IONE, off)), at(a, add(i, off))))
    r = V.fn(Q + "Tabulated1::Tabulated1", this=Q + "Tabulated1", sub="vector", name="Tabulated1(params)", requires=even)
    r.throws_iff("only_for_too_few_points_or_decreasing_times", or_(lt(m, I(4)), notmono(P, h, IZERO)))
    r.ensures("points", and_(eq(r.post("this.m_tvec.#len", "I"), h), eq(r.post("this.m_fvec.#len", "I"), h), implies(lt(k, h), and_(eq(r.postat("this.m_tvec.[]", k), at(P, k)), eq(r.postat("this.m_fvec.[]", k), at(P, add(h, k)))))))
    r.ensures("linear", r.post("this.m_isLinear", "B"))
    N_ = Is("arg0"); tt, ff, me = As("arg1.[]"), As("arg2.[]"), Ss("arg3")
    r = V.fn(Q + "Tabulated1::Tabulated1", this=Q + "Tabulated1", sub="long", name="Tabulated1(n, t, f, method)", requires=[le(IONE, N_)])
    known = or_(eq(me, strlit("linear")), eq(me, strlit("previous")))
    r.throws_iff("only_for_decreasing_times_or_an_unknown_method", or_(not_(known), notmono(tt, N_, IZERO)))
    r.ensures("points", and_(eq(r.post("this.m_tvec.#len", "I"), N_), eq(r.post("this.m_fvec.#len", "I"), N_), implies(lt(k, N_), and_(eq(r.postat("this.m_tvec.[]", k), at(tt, k)), eq(r.postat("this.m_fvec.[]", k), at(ff, k))))))
    r.ensures("method", eq(r.post("this.m_isLinear", "B"), eq(me, strlit("linear"))))
