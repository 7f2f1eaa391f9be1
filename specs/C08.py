"""C08: falloff and chemically-activated rates follow the documented blending"""
from engine.spec import *
TUS = ["src/kinetics/Falloff.cpp", "src/kinetics/Arrhenius.cpp"]
DRIVER = "C08.cpp"
BOUND = "random parameters, temperatures, third-body concentrations and set / query histories"
Q = "Cantera::"
HINT_FNS = [Q + "TroeRate::updateTemp", Q + "TroeRate::F", Q + "SriRate::F", Q + "SriRate::updateTemp", Q + "TsangRate::updateTemp"]
ASSUME = ["parsing of parameters from AnyMap is not under contract (AnyMap accessors are opaque)", "an infinite reciprocal temperature (Troe T3 or T1 = 0) is a symbolic constant in the contracts; its limit behaviour is exercised by the bounded driver"]
T = Rs("T"); pt = [lt(ZERO, T)]
SMALL = Rs("#SmallNumber")
def l10(x): return div(log(x), log(R(10)))
def shared(p="arg0"): return {p + ".temperature": T, p + ".logT": log(T), p + ".recipT": div(ONE, T)}
def arrh(o):
    return mul(Rs("this.%s.m_A" % o), powt(T, Rs("this.%s.m_b" % o)), exp(div(mul(R(-1), Rs("this.%s.m_Ea_R" % o)), T)))
k0, kinf = arrh("m_lowRate"), arrh("m_highRate")

def v_data(V):
    a, M = Rs("arg0"), Rs("arg1"); d = Q + "FalloffData"
    n = Is("this.conc_3b.#len"); c3 = As("this.conc_3b.[]"); buf = As("this.m_conc_3b_buf.[]"); nb = Is("this.m_conc_3b_buf.#len")
    r = V.fn(d + "::update", sub="(double)", this=d, name="FalloffData::update(T)"); r.throws_if("needs_third_body", TRUE)
    r = V.fn(d + "::update", sub="(double,double)", this=d, requires=[lt(ZERO, a), le(IONE, n)], name="FalloffData::update(T,M)")
    r.ensures("state", and_(eq(r.post("this.temperature"), a), eq(r.post("this.logT"), log(a)), eq(r.post("this.recipT"), div(ONE, a)), eq(r.postat("this.conc_3b.[]", IZERO), M)))
    r.frame(["this.temperature", "this.logT", "this.recipT", "this.conc_3b.[]"])
    r = V.fn(d + "::perturbThirdBodies", this=d); i = Is("i"); inr = [lt(i, n)]
    r.throws_iff("only_when_perturbed", Bs("this.m_perturbed"))
    r.ensures("scaled", and_(eq(r.postat("this.conc_3b.[]", i), mul(at(c3, i), add(ONE, a))), eq(r.postat("this.m_conc_3b_buf.[]", i), at(c3, i)), r.post("this.m_perturbed", "B"), eq(r.post("this.m_conc_3b_buf.#len", "I"), n)), inr)
    r = V.fn(d + "::restore", this=d); pe = Bs("this.m_perturbed")
    r.ensures("restored", implies(pe, and_(eq(r.postat("this.conc_3b.[]", i), at(buf, i)), eq(r.post("this.conc_3b.#len", "I"), nb), not_(r.post("this.m_perturbed", "B")))), [lt(i, nb)])
    r.ensures("untouched_if_not_perturbed", implies(not_(pe), eq(r.postat("this.conc_3b.[]", i), at(c3, i))), inr)
    ct_ = {Q + "Phase::molarDensity": lambda ex, th, a_, nn: Rs("rho_m"), Q + "Phase::stateMFNumber": lambda ex, th, a_, nn: Is("mf", False), Q + "Phase::temperature": lambda ex, th, a_, nn: T}
    def kin3b(ex, th, a_, nn): return ex.vecval(array(lambda i: at(As("current3b"), i)), Is("nr"))
    from engine import lib
    ct_[Q + "Kinetics::thirdBodyConcentrations"] = lambda ex, th, a_, nn: ("ref3b",)
    mem = {"this.temperature": Rs("T0"), "this.logT": log(Rs("T0")), "this.recipT": div(ONE, Rs("T0"))}
    rho0, mf0 = Rs("this.molar_density"), Is("this.m_state_mf_number", False)
    del ct_[Q + "Kinetics::thirdBodyConcentrations"]
    r = V.fn(d + "::update", sub="const Cantera::ThermoPhase &", this=d, mem=mem, contracts=ct_, requires=pt + [lt(ZERO, Rs("T0"))], dyn={"arg1": Q + "BulkKinetics"}, name="FalloffData::update(phase)")
    ch = or_(ne(Rs("rho_m"), rho0), ne(Is("mf", False), mf0))
    cur = As("arg1.thirdBodyConcentrations().[]")
    r.ensures("follows_temperature", and_(eq(r.post("this.temperature"), T), eq(r.post("this.logT"), log(T)), eq(r.post("this.recipT"), div(ONE, T))))
    r.ensures("refreshes_third_bodies_on_any_change", implies(ch, and_(eq(r.postat("this.conc_3b.[]", i), at(cur, i)), eq(r.post("this.conc_3b.#len", "I"), Is("arg1.thirdBodyConcentrations().#len")), eq(r.post("this.molar_density"), Rs("rho_m")), eq(r.post("this.m_state_mf_number", "I"), Is("mf", False)))), [lt(i, Is("arg1.thirdBodyConcentrations().#len"))])
    r.ensures("unchanged_otherwise", implies(not_(ch), eq(r.postat("this.conc_3b.[]", i), at(c3, i))), inr)
    r.ensures("reports_change", eq_b(r.result, or_(ch, ne(T, Rs("T0")))))
    r = V.fn(d + "::invalidateCache", this=d); r.ensures("forces_refresh", and_(eq(r.post("this.molar_density"), Rs("#NaN")), eq(r.post("this.temperature"), Rs("#NaN"))))
    r = V.fn(d + "::resize", this=d); r.ensures("sized", and_(eq(r.post("this.conc_3b.#len", "I"), Is("arg1")), eq(r.post("this.m_conc_3b_buf.#len", "I"), Is("arg1")), r.post("this.ready", "B")))

def eq_b(a, b): return and_(implies(a, b), implies(b, a))

# documented broadening factors
def lgcent(F): return l10(rmax(F, SMALL))
def troe_F(lF, pr):
    lpr = l10(rmax(pr, SMALL)); c = sub(R("-0.4"), mul(R("0.67"), lF)); n = sub(R("0.75"), mul(R("1.27"), lF))
    f1 = div(add(lpr, c), sub(n, mul(R("0.14"), add(lpr, c))))
    return div(lF, add(ONE, mul(f1, f1)))         # log10 F
a_, rt3, rt1, t2 = (Rs("this." + q) for q in ("m_a", "m_rt3", "m_rt1", "m_t2"))
def fcent_troe(T): return add(mul(sub(ONE, a_), exp(mul(R(-1), T, rt3))), mul(a_, exp(mul(R(-1), T, rt1))), ite(eq(t2, ZERO), ZERO, exp(div(mul(R(-1), t2), T))))

def v_factors(V):
    T = Rs("arg0"); pt = [lt(ZERO, T)]
    for cls, fc, np_ in (("TroeRate", fcent_troe(T), 1), ("TsangRate", add(a_, mul(Rs("this.m_b"), T)), 1)):
        c = Q + cls
        r = V.fn(c + "::updateTemp", this=c, requires=pt)
        r.ensures("log10_of_documented_centre", eq(r.postat("arg1.[]", IZERO), lgcent(fc))); r.frame(["arg1.[]"])
        pr = Rs("arg0"); lF = at(As("arg1.[]"), 0)
        r = V.fn(c + "::F", this=c); r.ensures("documented_broadening", eq(log(r.result), mul(log(R(10)), troe_F(lF, pr)))); r.ensures("positive", lt(ZERO, r.result)); r.frame([])
    # documented limits of the Troe form
    lF, x = Rs("lF"), Rs("x")
    V.lemma("no_broadening_when_centre_is_one", [], eq(troe_F(ZERO, Rs("pr")), ZERO))
    # |log10 F| <= |log10 Fcent| : the factor lies between Fcent and one
    f1 = Rs("f1"); V.lemma("factor_between_centre_and_one", [le(lF, ZERO)], and_(le(lF, div(lF, add(ONE, mul(f1, f1)))), le(div(lF, add(ONE, mul(f1, f1))), ZERO)))
    c = Q + "SriRate"; b_, cc, d_, e_ = (Rs("this." + q) for q in ("m_b", "m_c", "m_d", "m_e"))
    r = V.fn(c + "::updateTemp", this=c, requires=pt)
    r.ensures("base", eq(r.postat("arg1.[]", IZERO), add(mul(a_, exp(div(mul(R(-1), b_), T))), ite(eq(cc, ZERO), ZERO, exp(div(mul(R(-1), T), cc))))))
    r.ensures("prefactor", eq(r.postat("arg1.[]", IONE), mul(d_, powt(T, e_)))); r.frame(["arg1.[]"])
    w0, w1 = at(As("arg1.[]"), 0), at(As("arg1.[]"), 1); pr = Rs("arg0"); lpr = l10(rmax(pr, SMALL))
    r = V.fn(c + "::F", this=c, requires=[lt(ZERO, w0)])
    r.ensures("documented_broadening", eq(r.result, mul(w1, exp(div(log(w0), add(ONE, mul(lpr, lpr))))))); r.frame([])
    for cls in ("LindemannRate", "FalloffRate"):
        r = V.fn(Q + "FalloffRate::F", this=Q + cls, name=cls + "::F"); r.ensures("no_broadening", eq(r.result, ONE)); r.frame([])
    for cls, np_ in (("TroeRate", 4), ("SriRate", 5), ("TsangRate", 2)):
        r = V.fn(Q + cls + "::nParameters", this=Q + cls); r.ensures("count", eq(r.result, I(np_)))

FN = lambda *a: fn_r("F", *a)
def v_blend(V):
    c = Q + "FalloffRate::"; n = Is("arg0.conc_3b.#len"); ri = Is("this.m_rate_index"); C = As("arg0.conc_3b.[]"); rd = Bs("arg0.ready")
    M = ite(rd, at(C, ri), at(C, 0)); chem = Bs("this.m_chemicallyActivated")
    pr = div(mul(M, k0), add(kinf, SMALL))
    for cls in ("LindemannRate", "TroeRate", "SriRate", "TsangRate"):
        # the broadening factor of the class is used through its contract
        ct_ = {}; nw = Is("this.m_work.#len"); W = {"TroeRate": 1, "TsangRate": 1, "SriRate": 2}.get(cls, 0)
        def upd(ex, th, a, nn, cls=cls):
            ptr = a[1][0]
            for q in range(2): ex.wr(ptr.loc.el(add(ptr.off, I(q))), fn_r("work%d" % q, ex.load(*a[0])), sort="R")
        def Fc(ex, th, a, nn):
            ptr = a[1][0]; return FN(ex.load(*a[0]), ex.rd(ptr.loc.el(add(ptr.off, IZERO)), "R"), ex.rd(ptr.loc.el(add(ptr.off, IONE)), "R"))
        if W: ct_ = {Q + cls + "::updateTemp": upd, Q + cls + "::F": Fc}
        Fv = lambda p: FN(p, fn_r("work0", T), fn_r("work1", T)) if W else ONE
        rq = pt + [or_(not_(rd), lt(ri, n)), le(IONE, n), eq(nw, I(W))]
        m = shared()
        want = ite(chem, mul(k0, div(Fv(pr), add(ONE, pr))), mul(kinf, div(mul(pr, Fv(pr)), add(ONE, pr))))
        r = V.fn(c + "evalFromStruct", this=Q + cls, mem=m, requires=rq, contracts=ct_, name=cls + "::evalFromStruct")
        r.ensures("documented_blending", eq(r.result, want)); r.nothrow()
        r.ensures("limits_recorded", and_(eq(r.post("this.m_rc_low"), k0), eq(r.post("this.m_rc_high"), kinf)))
        r = V.fn(c + "evalF", this=Q + cls, requires=[lt(ZERO, Rs("arg0")), eq(nw, I(W))], contracts=ct_, name=cls + "::evalF")
        t_ = {T: Rs("arg0")}; p2 = div(mul(Rs("arg1"), k0), add(kinf, SMALL))
        r.ensures("factor_at_state", eq(r.result, subst(Fv(p2), t_)))
    # documented limits: low and high pressure (no broadening), written with exact Pr = k0 M / kinf
    a, b, m = Rs("k0"), Rs("kinf"), Rs("M"); x = div(mul(a, m), b)
    V.lemma("lindemann_equals_documented", [lt(ZERO, a), lt(ZERO, b), le(ZERO, m)], eq(mul(b, div(x, add(ONE, x))), div(mul(a, b, m), add(b, mul(a, m)))))
    V.lemma("below_high_pressure_limit", [lt(ZERO, a), lt(ZERO, b), le(ZERO, m)], le(mul(b, div(x, add(ONE, x))), b))
    V.lemma("below_low_pressure_limit", [lt(ZERO, a), lt(ZERO, b), le(ZERO, m)], le(mul(b, div(x, add(ONE, x))), mul(a, m)))

def v_params(V):
    n = Is("arg0.#len"); C = As("arg0.[]"); th = None
    small = SMALL
    r = V.fn(Q + "FalloffRate::setFalloffCoeffs", this=Q + "LindemannRate"); r.throws_iff("rejects_parameters", ne(n, IZERO))
    r.ensures("valid", r.post("this.m_valid", "B"))
    c = Q + "TroeRate"
    r = V.fn(c + "::setFalloffCoeffs", this=c); r.throws_iff("three_or_four", and_(ne(n, I(3)), ne(n, I(4))))
    def big(x): return le(small, rabs(x))
    for nn in (3, 4):
        r = V.fn(c + "::setFalloffCoeffs", this=c, requires=[eq(n, I(nn))], name="TroeRate::setFalloffCoeffs(%d)" % nn)
        r.ensures("stored", and_(eq(r.post("this.m_a"), at(C, 0)), implies(big(at(C, 1)), eq(r.post("this.m_rt3"), div(ONE, at(C, 1)))), implies(big(at(C, 2)), eq(r.post("this.m_rt1"), div(ONE, at(C, 2)))), eq(r.post("this.m_t2"), at(C, 3) if nn == 4 else ZERO), r.post("this.m_valid", "B"))); r.nothrow()
        r.ensures("vanishing_T3", implies(eq(at(C, 1), ZERO), eq(r.post("this.m_rt3"), mk("uf", ("std::numeric_limits<double>::infinity",), "R"))))
        r.ensures("vanishing_T1", implies(eq(at(C, 2), ZERO), eq(r.post("this.m_rt1"), mk("uf", ("std::numeric_limits<double>::infinity",), "R"))))
    def reads(cls, r, n0, vals):
        r.ensures("read_back_size", eq(r.post("arg0.#len", "I"), n0))
        for i, (v, cond) in enumerate(vals): r.ensures("read_back_%d" % i, implies(cond, eq(r.postat("arg0.[]", I(i)), v)))
    hasT2 = big(t2); r = V.fn(c + "::getFalloffCoeffs", this=c); reads(c, r, ite(hasT2, I(4), I(3)), [(a_, TRUE), (div(ONE, rt3), TRUE), (div(ONE, rt1), TRUE), (t2, hasT2)])
    c = Q + "TsangRate"
    r = V.fn(c + "::setFalloffCoeffs", this=c); r.throws_iff("one_or_two", and_(ne(n, I(1)), ne(n, I(2))))
    r.ensures("stored", and_(eq(r.post("this.m_a"), at(C, 0)), eq(r.post("this.m_b"), ite(eq(n, I(2)), at(C, 1), ZERO)), r.post("this.m_valid", "B")))
    hasb = big(Rs("this.m_b")); r = V.fn(c + "::getFalloffCoeffs", this=c); reads(c, r, ite(hasb, I(2), I(1)), [(a_, TRUE), (Rs("this.m_b"), hasb)])
    c = Q + "SriRate"
    r = V.fn(c + "::setFalloffCoeffs", this=c); r.throws_iff("three_or_five_nonnegative", or_(and_(ne(n, I(3)), ne(n, I(5))), lt(at(C, 2), ZERO), and_(eq(n, I(5)), lt(at(C, 3), ZERO))))
    for nn in (3, 5):
        r = V.fn(c + "::setFalloffCoeffs", this=c, requires=[eq(n, I(nn)), le(ZERO, at(C, 2)), le(ZERO, at(C, 3))], name="SriRate::setFalloffCoeffs(%d)" % nn)
        r.ensures("stored", and_(*[eq(r.post("this.m_" + q), at(C, i) if nn == 5 or i < 3 else (ONE if i == 3 else ZERO)) for i, q in enumerate("abcde")])); r.nothrow()
    r = V.fn(c + "::getFalloffCoeffs", this=c, requires=[lt(SMALL, R("0.1"))]); d_, e_ = Rs("this.m_d"), Rs("this.m_e")
    full = or_(ne(d_, ONE), ne(e_, ZERO))
    L = r.post("arg0.#len", "I")
    r.ensures("read_back_size", or_(eq(L, I(5)), and_(eq(L, I(3)), not_(full))))
    r.ensures("read_back", and_( *[eq(r.postat("arg0.[]", I(i)), Rs("this.m_" + q)) for i, q in enumerate("abc")]))
    r.ensures("read_back_full", implies(full, and_(eq(r.postat("arg0.[]", I(3)), d_), eq(r.postat("arg0.[]", I(4)), e_))))
    for cls in ("LindemannRate", "TroeRate", "SriRate", "TsangRate"):
        pass

def v_limits_rates(V):
    c = Q + "FalloffRate"; ok = Bs("this.m_negativeA_ok")
    lo, hi = Rs("this.m_lowRate.m_A"), Rs("this.m_highRate.m_A"); new = Rs("arg0.m_A")
    for nm, tgt, other in (("setLowRate", "m_lowRate", hi), ("setHighRate", "m_highRate", lo)):
        r = V.fn(c + "::" + nm, this=Q + "LindemannRate")
        r.throws_iff("rejects_negative_or_inconsistent_signs", or_(and_(lt(new, ZERO), not_(ok)), lt(mul(new, other), ZERO)))
        r.ensures("stored", and_(*[eq(r.post("this.%s.%s" % (tgt, q)), Rs("arg0." + q)) for q in ("m_A", "m_b", "m_Ea_R")]))
        r.frame(["this.%s" % tgt])
    r = V.fn(c + "::check", this=Q + "LindemannRate"); l_ok, h_ok = Bs("this.m_lowRate.m_negativeA_ok"), Bs("this.m_highRate.m_negativeA_ok"); lv, hv = Bs("this.m_lowRate.m_valid"), Bs("this.m_highRate.m_valid")
    r.throws_iff("rejects", or_(and_(lt(lo, ZERO), not_(l_ok)), and_(lt(hi, ZERO), not_(h_ok)), and_(lv, hv, lt(mul(lo, hi), ZERO))))
    for nm, f in (("chemicallyActivated", "m_chemicallyActivated"), ("allowNegativePreExponentialFactor", "m_negativeA_ok")):
        r = V.fn(c + "::" + nm, this=Q + "LindemannRate"); r.ensures("value", eq_b(r.result, Bs("this." + f))); r.frame([])
    r = V.fn(c + "::setChemicallyActivated", this=Q + "LindemannRate"); r.ensures("value", eq_b(r.post("this.m_chemicallyActivated", "B"), Bs("arg0"))); r.frame(["this.m_chemicallyActivated"])
    r = V.fn(c + "::setAllowNegativePreExponentialFactor", this=Q + "LindemannRate"); r.ensures("value", eq_b(r.post("this.m_negativeA_ok", "B"), Bs("arg0"))); r.frame(["this.m_negativeA_ok"])
    r = V.fn(c + "::validate", this=Q + "LindemannRate"); r.throws_iff("rejects_unset_limits", or_(not_(lv), not_(hv)))
