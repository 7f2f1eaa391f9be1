"""C04: species heat capacity, enthalpy and entropy parameterizations are consistent"""
from engine.spec import *
from engine.calc import D
TUS = ["src/thermo/NasaPoly2.cpp", "src/thermo/Nasa9Poly1.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "src/thermo/ConstCpPoly.cpp", "src/thermo/SpeciesThermoInterpType.cpp", "src/thermo/SpeciesThermoFactory.cpp"]
DRIVER = "C04.cpp"
BOUND = "random coefficients, ranges and temperatures (range ends included), random species sets and heat-of-formation change histories"
Q = "Cantera::"
HINT_FNS = [Q + "NasaPoly1::updateProperties", Q + "NasaPoly2::updateProperties", Q + "Nasa9PolyMultiTempRegion::updateProperties", Q + "ConstCpPoly::updateProperties"]
ASSUME = ["SpeciesThermoFactory (construction from input files) covered by the bounded driver only", "MultiSpeciesThermo (dispatch of a species index to its parameterization) covered by the bounded driver only"]
Rg = Rs("#GasConstant"); K298 = R("298.15")
def coeffs(o): return As(("this.%s.m_coeff.[]" % o) if o else "this.m_coeff.[]")
def nasa7(c, T):
    a = [at(c, i) for i in range(7)]
    cp = add(*[mul(a[k], pw(T, k)) for k in range(5)])
    h = add(*[div(mul(a[k], pw(T, k)), R(k + 1)) for k in range(5)], div(a[5], T))
    s = add(mul(a[0], log(T)), *[div(mul(a[k], pw(T, k)), R(k)) for k in range(1, 5)], a[6])
    return cp, h, s
def nasa9(c, T):
    a = [at(c, i) for i in range(9)]
    cp = add(*[mul(a[k], pw(T, k - 2)) for k in range(7)])
    h = add(mul(R(-1), a[0], pw(T, -2)), mul(a[1], div(log(T), T)), *[div(mul(a[k], pw(T, k - 2)), R(k - 1)) for k in range(2, 7)], div(a[7], T))
    s = add(mul(R("-0.5"), a[0], pw(T, -2)), mul(R(-1), div(a[1], T)), mul(a[2], log(T)), *[div(mul(a[k], pw(T, k - 2)), R(k - 2)) for k in range(3, 7)], a[8])
    return cp, h, s
def shomate(c, T):
    t = div(T, R(1000)); A, B, C, D_, E, F, G = [at(c, i) for i in range(7)]      # coefficients stored divided by R
    cp = add(A, mul(B, t), mul(C, pw(t, 2)), mul(D_, pw(t, 3)), mul(E, pw(t, -2)))
    h = div(add(mul(A, t), mul(R("0.5"), B, pw(t, 2)), div(mul(C, pw(t, 3)), R(3)), div(mul(D_, pw(t, 4)), R(4)), mul(R(-1), div(E, t)), F), t)
    s = add(mul(A, log(t)), mul(B, t), div(mul(C, pw(t, 2)), R(2)), div(mul(D_, pw(t, 3)), R(3)), mul(R("-0.5"), E, pw(t, -2)), G)
    return cp, h, s
def poly7(T): return [T, pw(T, 2), pw(T, 3), pw(T, 4), div(ONE, T), log(T)]
def poly9(T): return [T, pw(T, 2), pw(T, 3), pw(T, 4), div(ONE, T), pw(T, -2), log(T)]
def polyS(T): t = div(T, R(1000)); return [t, pw(t, 2), pw(t, 3), pw(t, -2), log(t), div(ONE, t)]
def polyC(T): return [T]
def lit(vals):
    def f(i):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1): r = ite(eq(i, I(k)), vals[k], r)
        return r
    return array(f)
MODELS = [("NasaPoly1", nasa7, poly7, ("",)), ("NasaPoly2", nasa7, poly7, ("mnp_low", "mnp_high")), ("Nasa9Poly1", nasa9, poly9, ("",)), ("ShomatePoly", shomate, polyS, ("",)), ("ShomatePoly2", shomate, polyS, ("msp_low", "msp_high"))]

def out3(r, k0): return [r.postat("arg%d.[]" % (k0 + q), IZERO) for q in range(3)]
def consistent(r, T, cp, h, s, extra=[]):
    """enthalpy and entropy are integrals of the heat capacity: d(T h/RT)/dT = cp/R, d(s/R)/dT = cp/(R T)"""
    r.ensures("enthalpy_integrates_cp", eq(D(mul(T, h), T), cp), extra)
    r.ensures("entropy_integrates_cp_over_T", eq(mul(T, D(s, T)), cp), extra)

def v_models(V):
    T = Rs("arg0"); pt = [lt(ZERO, T)]; Ts = Rs("T")
    for cls, f, poly, parts in MODELS:
        c = Q + cls
        mid = Rs("this.m_midT")
        if cls != "Nasa9Poly1" or True:
            r = V.fn(c + "::updateTemperaturePoly", this=c, requires=pt)
            for i, w in enumerate(poly(T)): r.ensures("term_%d" % i, eq(r.postat("arg1.[]", I(i)), w))
            r.frame(["arg1.[]"])
        for q, part in enumerate(parts):
            rng = [] if len(parts) == 1 else [le(T, mid) if q == 0 else lt(mid, T)]
            r = V.fn(c + "::updatePropertiesTemp", this=c, requires=pt + rng, name="%s::updatePropertiesTemp(%s)" % (cls, part))
            o = out3(r, 1); w = f(coeffs(part), T)
            for nm, x, y in zip(("cp", "h", "s"), o, w): r.ensures("documented_" + nm, eq(x, y))
            consistent(r, T, *o, extra=[])
            r.frame(["arg1.[]", "arg2.[]", "arg3.[]"])
            rng = [] if len(parts) == 1 else [le(Ts, mid) if q == 0 else lt(mid, Ts)]
            r = V.fn(c + "::updateProperties", this=c, requires=[lt(ZERO, Ts)] + rng, mem={"arg0.[]": lit(poly(Ts))}, name="%s::updateProperties(%s)" % (cls, part))
            o2 = out3(r, 1); w = f(coeffs(part), Ts)
            for nm, x, y in zip(("cp", "h", "s"), o2, w): r.ensures("same_as_direct_" + nm, eq(x, y))
            consistent(r, Ts, *o2)
            r.frame(["arg1.[]", "arg2.[]", "arg3.[]"])
    # continuity of range selection: the boundary belongs to the low range (tested above by T <= Tmid)
    c = Q + "ConstCpPoly"; t0, cp0, h0, s0 = (Rs("this." + q) for q in ("m_t0", "m_cp0_R", "m_h0_R", "m_s0_R"))
    st = {"this.m_logt0": log(t0)}
    for nm, TT, m in (("updatePropertiesTemp", T, {}), ("updateProperties", Ts, {"arg0.[]": lit(polyC(Ts))})):
        r = V.fn(c + "::" + nm, this=c, requires=[lt(ZERO, TT), lt(ZERO, t0)], mem=dict(st, **m))
        o = out3(r, 1)
        for n2, x, y in zip(("cp", "h", "s"), o, (cp0, div(add(h0, mul(cp0, sub(TT, t0))), TT), add(s0, mul(cp0, sub(log(TT), log(t0)))))): r.ensures("documented_" + n2, eq(x, y))
        consistent(r, TT, *o); r.frame(["arg1.[]", "arg2.[]", "arg3.[]"])
    for fn, a in (("SpeciesThermoInterpType::updateTemperaturePoly", T),):
        r = V.fn(Q + fn, this=c, name="ConstCpPoly::updateTemperaturePoly"); r.ensures("term_0", eq(r.postat("arg1.[]", IZERO), T)); r.frame(["arg1.[]"])

def v_regions(V):
    c = Q + "Nasa9PolyMultiTempRegion"; n = Is("this.m_regionPts.#len"); lo = As("this.m_lowerTempBounds.[]"); j = Is("j")
    srt = forall(n, lambda q: and_(implies(le(q, j), le(at(lo, q), at(lo, j))), implies(le(j, q), le(at(lo, j), at(lo, q)))))      # sorted bounds, relative to the region j in question
    base = [le(IONE, n), eq(Is("this.m_lowerTempBounds.#len"), n), srt, lt(j, n)]
    C = As("this.m_regionPts.[].*.m_coeff.[]", dim=2)
    cj = array(lambda i: at(C, j, i))
    for nm, T, m in (("updatePropertiesTemp", Rs("arg0"), {}), ("updateProperties", Rs("T"), {"arg0.[]": lit(poly9(Rs("T")))})):
        for case, cond in (("below first bound", [lt(T, at(lo, 0)), eq(j, IZERO)]), ("interior", [le(at(lo, j), T), lt(add(j, IONE), n), lt(T, at(lo, add(j, IONE)))]), ("last", [eq(j, sub(n, IONE)), le(at(lo, j), T)])):
            cc = [le(IONE, j)] if case == "x" else []
            def reg(ex, th, a, nn):
                # contract of the single-range model (verified above): value determined by region coefficients and T
                for q in range(3):
                    p = ex.load(*a[q + 1]); ex.wr(p.loc.el(add(p.off, IZERO)), fn_r("region_%d" % q, th.idx[0]), sort="R")
            r = V.fn(c + "::" + nm, this=c, requires=[lt(ZERO, T)] + base + cond + cc, mem=m, contracts={Q + "Nasa9Poly1::" + nm: reg, "virtual " + Q + "Nasa9Poly1::" + nm: reg, "virtual " + Q + "SpeciesThermoInterpType::" + nm: reg}, name="Nasa9PolyMultiTempRegion::%s(%s)" % (nm, case))
            r.ensures("uses_region_containing_T", and_(*[eq(x, fn_r("region_%d" % q, j)) for q, x in enumerate(out3(r, 1))]))
    r = V.fn(c + "::updateTemperaturePoly", this=c, requires=[lt(ZERO, Rs("arg0"))])
    for i, w in enumerate(poly9(Rs("arg0"))): r.ensures("term_%d" % i, eq(r.postat("arg1.[]", I(i)), w))

def v_setup(V):
    n = Is("arg0.#len"); C = As("arg0.[]"); i = Is("i")
    for cls, N, conv in (("NasaPoly1", 7, ONE), ("Nasa9Poly1", 9, ONE), ("ShomatePoly", 7, div(R(1000), Rg))):
        c = Q + cls
        r = V.fn(c + "::setParameters", this=c, mem={"this.m_coeff.#len": I(N)}); r.throws_iff("exact_length", ne(n, I(N)))
        r.ensures("stored", eq(r.postat("this.m_coeff.[]", i), mul(conv, at(C, i))), [lt(i, I(N))])
        if N == 7: r.ensures("original_kept", eq(r.post("this.m_coeff5_orig"), mul(conv, at(C, 5))))
        r = V.fn(c + "::" + cls, sub="(double,double,double,const double *)", this=c)
        P = As("arg3.[]")
        r.ensures("constructed", and_(eq(r.post("this.m_lowT"), Rs("arg0")), eq(r.post("this.m_highT"), Rs("arg1")), eq(r.post("this.m_Pref"), Rs("arg2")), eq(r.postat("this.m_coeff.[]", i), mul(conv, at(P, i)))), [lt(i, I(N))])
        if N == 7: r.ensures("original_kept", eq(r.post("this.m_coeff5_orig"), mul(conv, at(P, 5))))
        r = V.fn(c + "::reportParameters", this=c); k0 = 3 if N == 9 else 0
        r.ensures("round_trip", and_(eq(r.post("arg2"), Rs("this.m_lowT")), eq(r.post("arg3"), Rs("this.m_highT")), eq(r.post("arg4"), Rs("this.m_Pref")), eq(r.postat("arg5.[]", add(i, I(k0))), div(at(As("this.m_coeff.[]"), i), conv))), [lt(i, I(N)), eq(Is("this.m_coeff.#len"), I(N))])
    for cls, lo_, hi_, o1, o2 in (("NasaPoly2", "mnp_low", "mnp_high", 8, 1), ("ShomatePoly2", "msp_low", "msp_high", 1, 8)):
        c = Q + cls; conv = ONE if cls == "NasaPoly2" else div(R(1000), Rg); P = As("arg3.[]")
        r = V.fn(c + "::" + cls, sub="(double,double,double,const double *)", this=c)
        r.ensures("ranges", and_(eq(r.post("this.m_midT"), at(P, 0)), eq(r.post("this.m_lowT"), Rs("arg0")), eq(r.post("this.m_highT"), Rs("arg1")), *[and_(eq(r.post("this.%s.m_lowT" % p), l), eq(r.post("this.%s.m_highT" % p), h)) for p, l, h in ((lo_, Rs("arg0"), at(P, 0)), (hi_, at(P, 0), Rs("arg1")))]))
        for p, off in ((lo_, o1), (hi_, o2)): r.ensures("coefficients_" + p, and_(eq(r.postat("this.%s.m_coeff.[]" % p, i), mul(conv, at(P, add(i, I(off))))), eq(r.post("this.%s.m_coeff5_orig" % p), mul(conv, at(P, off + 5)))), [lt(i, I(7))])
        r = V.fn(c + "::setParameters", this=c, mem={"this.%s.m_coeff.#len" % lo_: I(7), "this.%s.m_coeff.#len" % hi_: I(7)}, requires=[eq(Is("arg1.#len"), I(7)), eq(Is("arg2.#len"), I(7))])
        r.ensures("ranges", and_(eq(r.post("this.m_midT"), Rs("arg0")), eq(r.post("this.%s.m_highT" % lo_), Rs("arg0")), eq(r.post("this.%s.m_lowT" % hi_), Rs("arg0"))))
        for p, A in ((lo_, "arg1"), (hi_, "arg2")): r.ensures("coefficients_" + p, and_(eq(r.postat("this.%s.m_coeff.[]" % p, i), mul(conv, at(As(A + ".[]"), i))), eq(r.post("this.%s.m_coeff5_orig" % p), mul(conv, at(As(A + ".[]"), 5)))), [lt(i, I(7))])
        r.nothrow()
        for f, fld, sub_ in (("setMinTemp", "m_lowT", lo_), ("setMaxTemp", "m_highT", hi_)):
            r = V.fn(c + "::" + f, this=c); r.ensures("propagated", and_(eq(r.post("this." + fld), Rs("arg0")), eq(r.post("this.%s.%s" % (sub_, fld)), Rs("arg0"))))
        r = V.fn(c + "::setRefPressure", this=c); r.ensures("propagated", and_(*[eq(r.post("this." + x), Rs("arg0")) for x in ("m_Pref", lo_ + ".m_Pref", hi_ + ".m_Pref")]))
        r = V.fn(c + "::reportParameters", this=c, requires=[eq(Is("this.%s.m_coeff.#len" % p), I(7)) for p in (lo_, hi_)] + [eq(Rs("this.%s.m_highT" % lo_), Rs("this.m_midT")), eq(Rs("this.%s.m_lowT" % hi_), Rs("this.m_midT")), eq(Rs("this.%s.m_lowT" % lo_), Rs("this.m_lowT")), eq(Rs("this.%s.m_highT" % hi_), Rs("this.m_highT"))])
        r.ensures("round_trip_ranges", and_(eq(r.post("arg2"), Rs("this.m_lowT")), eq(r.post("arg3"), Rs("this.m_highT")), eq(r.postat("arg5.[]", IZERO), Rs("this.m_midT"))))
        for p, off in ((lo_, o1), (hi_, o2)): r.ensures("round_trip_" + p, eq(r.postat("arg5.[]", add(i, I(off))), div(at(As("this.%s.m_coeff.[]" % p), i), conv)), [lt(i, I(7))])
    c = Q + "ConstCpPoly"
    r = V.fn(c + "::setParameters", this=c, requires=[lt(ZERO, Rs("arg0"))])
    r.ensures("stored", and_(eq(r.post("this.m_t0"), Rs("arg0")), eq(r.post("this.m_logt0"), log(Rs("arg0"))), *[eq(r.post("this." + f), div(Rs(a), Rg)) for f, a in (("m_h0_R", "arg1"), ("m_s0_R", "arg2"), ("m_cp0_R", "arg3"))]))
    r.ensures("original_kept", eq(r.post("this.m_h0_R_orig"), div(Rs("arg1"), Rg)))
    r = V.fn(c + "::reportParameters", this=c)
    r.ensures("round_trip", and_(*[eq(r.postat("arg5.[]", I(k)), w) for k, w in enumerate((Rs("this.m_t0"), mul(Rs("this.m_h0_R"), Rg), mul(Rs("this.m_s0_R"), Rg), mul(Rs("this.m_cp0_R"), Rg)))]))

def v_hf298(V):
    """heat of formation: reported value is the model enthalpy at 298.15 K; changing it shifts the enthalpy of every range by the same amount"""
    T = Rs("T"); NEW = Rs("arg1")
    for cls, f, poly, parts in MODELS:
        if cls == "Nasa9Poly1": continue
        c = Q + cls; mid = Rs("this.m_midT")
        H = lambda p, cf=None: mul(Rg, K298, f(cf or coeffs(p), K298)[1])
        def hf(cfs=None):
            cfs = cfs or [coeffs(p) for p in parts]
            hs = [mul(Rg, K298, f(cf, K298)[1]) for cf in cfs]
            return hs[0] if len(hs) == 1 else ite(le(K298, mid), hs[0], hs[1])
        r = V.fn(c + "::reportHf298", this=c, requires=[not_(Bs("arg0.#nn"))] if 0 else []); r.ensures("enthalpy_at_298", eq(r.result, hf())); r.frame([])
        r = V.fn(c + "::modifyOneHf298", this=c)
        post = [r.post(("this.%s.m_coeff.[]" % p) if p else "this.m_coeff.[]", asort(1, "R")) for p in parts]
        r.ensures("new_value_reported", eq(hf(post), NEW))
        for p, cf in zip(parts, post):
            d = sub(NEW, hf())
            r.ensures("enthalpy_shift_" + p, eq(mul(Rg, T, f(cf, T)[1]), add(mul(Rg, T, f(coeffs(p), T)[1]), d)), [lt(ZERO, T)])
            r.ensures("cp_and_entropy_unchanged_" + p, and_(eq(f(cf, T)[0], f(coeffs(p), T)[0]), eq(f(cf, T)[2], f(coeffs(p), T)[2])), [lt(ZERO, T)])
        r = V.fn(c + "::resetHf298", this=c); i = Is("i")
        for p in parts:
            pre = "this." + (p + "." if p else "")
            r.ensures("original_restored_" + p, eq(r.postat(pre + "m_coeff.[]", I(5)), Rs(pre + "m_coeff5_orig")))
            r.ensures("others_kept_" + p, eq(r.postat(pre + "m_coeff.[]", i), at(As(pre + "m_coeff.[]"), i)), [ne(i, I(5))])
    c = Q + "ConstCpPoly"; t0, cp0, h0, s0 = (Rs("this." + q) for q in ("m_t0", "m_cp0_R", "m_h0_R", "m_s0_R"))
    hf = lambda h: mul(Rg, add(h, mul(cp0, sub(K298, t0))))
    r = V.fn(c + "::reportHf298", this=c); r.ensures("enthalpy_at_298", eq(r.result, hf(h0)))
    r = V.fn(c + "::modifyOneHf298", this=c); r.ensures("new_value_reported", eq(hf(r.post("this.m_h0_R")), NEW)); r.frame(["this.m_h0_R"])
    r = V.fn(c + "::resetHf298", this=c); r.ensures("original_restored", eq(r.post("this.m_h0_R"), Rs("this.m_h0_R_orig"))); r.frame(["this.m_h0_R"])
