"""C07: rate-constant laws evaluate to their documented formula; reported log-derivatives are the derivatives"""
from engine.spec import *
from engine.calc import D
TUS = ["src/kinetics/Arrhenius.cpp", "src/kinetics/BlowersMaselRate.cpp", "src/kinetics/TwoTempPlasmaRate.cpp", "src/kinetics/PlogRate.cpp", "src/kinetics/ChebyshevRate.cpp"]
DRIVER = "C07.cpp"
BOUND = "random parameters, temperatures, pressures and histories of set / query; P-log tables up to 5 pressures, Chebyshev up to 6x6"
Q = "Cantera::"
HINT_FNS = [Q + "ArrheniusRate::evalFromStruct", Q + "BlowersMaselRate::effectiveActivationEnergy_R", Q + "TwoTempPlasmaRate::evalFromStruct", Q + "PlogRate::evalFromStruct", Q + "ChebyshevRate::evalFromStruct"]
ASSUME = ["PlogRate::setRates / getRates (ordered map construction) covered by the bounded driver only", "std::map modelled as a sequence sorted by key", "parsing of parameters from AnyMap not under contract"]
T = Rs("T"); Rg = Rs("#GasConstant")
pt = [lt(ZERO, T)]
def shared(p="arg0"): return {p + ".temperature": T, p + ".logT": log(T), p + ".recipT": div(ONE, T)}
A, b, Ea, E4, logA = Rs("this.m_A"), Rs("this.m_b"), Rs("this.m_Ea_R"), Rs("this.m_E4_R"), Rs("this.m_logA")
def arr(E): return mul(A, powt(T, b), exp(div(mul(R(-1), E), T)))
def dlog(k, x): return div(D(k, x), k)

def v_reaction_data(V):
    a = Rs("arg0")
    r = V.fn(Q + "ReactionData::update", sub="(double)", this=Q + "ArrheniusData", requires=[lt(ZERO, a)])
    r.ensures("temperature_terms", and_(eq(r.post("this.temperature"), a), eq(r.post("this.logT"), log(a)), eq(r.post("this.recipT"), div(ONE, a))))
    r.frame(["this.temperature", "this.logT", "this.recipT"])
    for c in ("PlogData", "ChebyshevData"):
        P = Rs("arg1"); lp = "logP" if c == "PlogData" else "log10P"
        r = V.fn(Q + c + "::update", sub="(double,double)", this=Q + c, requires=[lt(ZERO, a), lt(ZERO, P)])
        want = log(P) if c == "PlogData" else div(log(P), log(R(10)))
        r.ensures("state_terms", and_(eq(r.post("this.temperature"), a), eq(r.post("this.logT"), log(a)), eq(r.post("this.recipT"), div(ONE, a)), eq(r.post("this.pressure"), P), eq(r.post("this." + lp), want)))
        r = V.fn(Q + c + "::perturbPressure", this=Q + c, requires=[lt(ZERO, Rs("this.temperature")), lt(ZERO, Rs("this.pressure"))])
        buf = Rs("this.m_pressure_buf")
        r.throws_iff("only_when_perturbed", lt(ZERO, buf))
        np = mul(Rs("this.pressure"), add(ONE, a))
        r.ensures("perturbed", and_(eq(r.post("this.pressure"), np), eq(r.post("this.m_pressure_buf"), Rs("this.pressure")), eq(r.post("this.temperature"), Rs("this.temperature")), eq(r.post("this." + lp), log(np) if c == "PlogData" else div(log(np), log(R(10))))))
        r = V.fn(Q + c + "::restore", this=Q + c)
        tb = Rs("this.m_temperature_buf"); hasP = le(ZERO, buf)
        t1 = ite(lt(tb, ZERO), Rs("this.temperature"), tb)
        r.ensures("pressure_restored", implies(hasP, and_(eq(r.post("this.pressure"), buf), eq(r.post("this.m_pressure_buf"), R(-1)), eq(r.post("this.temperature"), t1), eq(r.post("this." + lp), log(buf) if c == "PlogData" else div(log(buf), log(R(10)))))))
        r.ensures("untouched_if_not_perturbed", implies(and_(not_(hasP), lt(tb, ZERO)), and_(eq(r.post("this.pressure"), Rs("this.pressure")), eq(r.post("this.temperature"), Rs("this.temperature")), eq(r.post("this." + lp), Rs("this." + lp)))))
        # following the phase: after update() the cached terms belong to the phase's T and P
        ct_ = {Q + "ThermoPhase::pressure": lambda ex, th, a_, n: Rs("P_phase"), Q + "Phase::pressure": lambda ex, th, a_, n: Rs("P_phase"), Q + "Phase::temperature": lambda ex, th, a_, n: T}
        st = {"this.temperature": Rs("T0"), "this.pressure": Rs("P0"), "this.logT": log(Rs("T0")), "this.recipT": div(ONE, Rs("T0")), "this." + lp: log(Rs("P0")) if c == "PlogData" else div(log(Rs("P0")), log(R(10)))}
        r = V.fn(Q + c + "::update", sub="const Cantera::ThermoPhase &", this=Q + c, mem=st, contracts=ct_, requires=pt + [lt(ZERO, Rs("P_phase")), lt(ZERO, Rs("T0")), lt(ZERO, Rs("P0"))], name=c + "::update(phase)")
        Pp = Rs("P_phase")
        r.ensures("follows_phase", and_(eq(r.post("this.temperature"), T), eq(r.post("this.pressure"), Pp), eq(r.post("this.logT"), log(T)), eq(r.post("this.recipT"), div(ONE, T)), eq(r.post("this." + lp), log(Pp) if c == "PlogData" else div(log(Pp), log(R(10))))))
        r.ensures("reports_change", implies(or_(ne(T, Rs("T0")), ne(Pp, Rs("P0"))), r.result))
        r = V.fn(Q + c + "::update", sub="(double)", this=Q + c, name=c + "::update(T)"); r.throws_if("needs_pressure", TRUE)
    r = V.fn(Q + "ArrheniusData::update", sub="const Cantera::ThermoPhase &", this=Q + "ArrheniusData", mem={"this.temperature": Rs("T0"), "this.logT": log(Rs("T0")), "this.recipT": div(ONE, Rs("T0"))}, contracts={Q + "Phase::temperature": lambda ex, th, a_, n: T}, requires=pt + [lt(ZERO, Rs("T0"))], name="ArrheniusData::update(phase)")
    r.ensures("follows_phase", and_(eq(r.post("this.temperature"), T), eq(r.post("this.logT"), log(T)), eq(r.post("this.recipT"), div(ONE, T))))
    r.ensures("reports_change", implies(ne(T, Rs("T0")), r.result))
    # perturbTemperature / restore round trip
    r = V.fn(Q + "ReactionData::perturbTemperature", this=Q + "ArrheniusData", requires=[lt(ZERO, Rs("this.temperature")), lt(ZERO, add(ONE, a))])
    r.throws_iff("only_when_perturbed", lt(ZERO, Rs("this.m_temperature_buf")))
    tn = mul(Rs("this.temperature"), add(ONE, a))
    r.ensures("perturbed", and_(eq(r.post("this.temperature"), tn), eq(r.post("this.logT"), log(tn)), eq(r.post("this.recipT"), div(ONE, tn)), eq(r.post("this.m_temperature_buf"), Rs("this.temperature"))))
    r = V.fn(Q + "ReactionData::restore", this=Q + "ArrheniusData"); tb = Rs("this.m_temperature_buf")
    r.ensures("restored", implies(lt(ZERO, tb), and_(eq(r.post("this.temperature"), tb), eq(r.post("this.logT"), log(tb)), eq(r.post("this.recipT"), div(ONE, tb)), lt(r.post("this.m_temperature_buf"), ZERO))))
    r.ensures("no_effect_if_not_perturbed", implies(lt(tb, ZERO), and_(eq(r.post("this.temperature"), Rs("this.temperature")), eq(r.post("this.logT"), Rs("this.logT")), eq(r.post("this.recipT"), Rs("this.recipT")))))

def v_arrhenius(V):
    c = Q + "ArrheniusRate::"
    a0, a1, a2 = Rs("arg0"), Rs("arg1"), Rs("arg2")
    r = V.fn(Q + "ArrheniusBase::ArrheniusBase", sub="(double,double,double)", this=Q + "ArrheniusRate")
    r.ensures("parameters_stored", and_(eq(r.post("this.m_A"), a0), eq(r.post("this.m_b"), a1), eq(r.post("this.m_Ea_R"), div(a2, Rg)), r.post("this.m_valid", "B"), implies(lt(ZERO, a0), eq(r.post("this.m_logA"), log(a0)))))
    for nm, want in (("preExponentialFactor", A), ("temperatureExponent", b), ("activationEnergy", mul(Ea, Rg))):
        r = V.fn(Q + "ArrheniusBase::" + nm, this=Q + "ArrheniusRate"); r.ensures("value", eq(r.result, want)); r.frame([])
    lt_, rt_ = Rs("arg0"), Rs("arg1")
    r = V.fn(c + "evalRate", this=Q + "ArrheniusRate"); r.ensures("value", eq(r.result, mul(A, exp(sub(mul(b, lt_), mul(Ea, rt_)))))); r.frame([])
    r = V.fn(c + "evalLog", this=Q + "ArrheniusRate", mem={"this.m_logA": log(A)}, requires=[lt(ZERO, A)]); r.ensures("is_log_of_rate", eq(r.result, log(mul(A, exp(sub(mul(b, lt_), mul(Ea, rt_))))))); r.frame([])
    r = V.fn(c + "evalFromStruct", this=Q + "ArrheniusRate", mem=shared(), requires=pt); r.ensures("arrhenius_law", eq(r.result, arr(Ea))); r.frame([])
    r = V.fn(c + "ddTScaledFromStruct", this=Q + "ArrheniusRate", mem=shared(), requires=pt + [ne(A, ZERO)]); r.ensures("is_dlogk_dT", eq(r.result, dlog(arr(Ea), T))); r.frame([])
    r = V.fn(Q + "ArrheniusBase::check", this=Q + "ArrheniusRate"); r.throws_iff("rejects_undeclared_negative_A", and_(not_(Bs("this.m_negativeA_ok")), lt(A, ZERO)))
    r = V.fn(Q + "ArrheniusBase::validate", this=Q + "ArrheniusRate", contracts={}); r.throws_iff("rejects_unconfigured", not_(Bs("this.m_valid")))

def bm(dH):
    vp = div(mul(R(2), E4, add(E4, Ea)), sub(E4, Ea))
    num_ = mul(add(E4, div(dH, R(2))), pw(add(vp, mul(R(-2), E4), dH), 2))
    return ite(lt(dH, mul(R(-4), Ea)), ZERO, ite(lt(mul(R(4), Ea), dH), dH, div(num_, add(pw(vp, 2), mul(R(-4), pw(E4, 2)), pw(dH, 2)))))
def v_blowers_masel(V):
    c = Q + "BlowersMaselRate::"; dH = Rs("this.m_deltaH_R"); th = Q + "BlowersMaselRate"
    a0, a1, a2, a3 = (Rs("arg%d" % i) for i in range(4))
    r = V.fn(c + "BlowersMaselRate", sub="(double,double,double,double)", this=th)
    r.ensures("parameters_stored", and_(eq(r.post("this.m_A"), a0), eq(r.post("this.m_b"), a1), eq(r.post("this.m_Ea_R"), div(a2, Rg)), eq(r.post("this.m_E4_R"), div(a3, Rg)), r.post("this.m_valid", "B")))
    ok = [ne(E4, Ea)]
    r = V.fn(c + "effectiveActivationEnergy_R", this=th); r.ensures("documented_expression", eq(r.result, bm(Rs("arg0"))), ok); r.frame([])
    r = V.fn(c + "activationEnergy", this=th); r.ensures("value", eq(r.result, mul(Rg, bm(dH))), ok)
    r = V.fn(c + "evalRate", this=th); r.ensures("value", eq(r.result, mul(A, exp(sub(mul(b, Rs("arg0")), mul(bm(dH), Rs("arg1")))))), ok); r.frame([])
    r = V.fn(c + "evalFromStruct", this=th, mem=shared(), requires=pt + ok); r.ensures("law", eq(r.result, arr(bm(dH)))); r.frame([])
    r = V.fn(c + "ddTScaledFromStruct", this=th, mem=shared(), requires=pt + ok + [ne(A, ZERO)]); e_ = Rs("Ebm")
    # derivative at constant reaction enthalpy (the documented restriction)
    r.ensures("is_dlogk_dT_at_fixed_enthalpy", eq(r.result, subst(dlog(arr(e_), T), {e_: bm(dH)})))
    for nm, want in (("bondEnergy", mul(E4, Rg)), ("deltaH", mul(dH, Rg))):
        r = V.fn(c + nm, this=th); r.ensures("value", eq(r.result, want)); r.frame([])
    r = V.fn(c + "setDeltaH", this=th); r.ensures("value", eq(r.post("this.m_deltaH_R"), div(a0, Rg))); r.frame(["this.m_deltaH_R"])
    n = Is("this.m_stoich_coeffs.#len"); K = As("this.m_stoich_coeffs.[].first", "I"); W = As("this.m_stoich_coeffs.[].second"); H = As("arg0.partialMolarEnthalpies.[]"); nk = Is("nk")
    r = V.fn(c + "updateFromStruct", this=th, mem={"arg0.partialMolarEnthalpies.#len": nk}, requires=[forall(n, lambda i: and_(le(IZERO, at(K, i)), lt(at(K, i), nk)))])
    rd = Bs("arg0.ready")
    r.ensures("reaction_enthalpy_is_weighted_sum", implies(rd, eq(mul(r.post("this.m_deltaH_R"), Rg), summ(n, lambda i: mul(at(W, i), at(H, at(K, i)))))))
    r.ensures("kept_until_ready", implies(not_(rd), eq(r.post("this.m_deltaH_R"), dH))); r.frame(["this.m_deltaH_R"])
    # shared data follows T, density and composition changes of the phase
    ct_ = {Q + "Phase::density": lambda ex, th_, a_, n_: Rs("rho"), Q + "Phase::stateMFNumber": lambda ex, th_, a_, n_: Is("mf", False), Q + "Phase::temperature": lambda ex, th_, a_, n_: T,
           Q + "ThermoPhase::getPartialMolarEnthalpies": lambda ex, th_, a_, n_: ex.wr(a_[0][0].loc.el(add(a_[0][0].off, IZERO)), Rs("hbar0"), sort="R")}
    rho0, mf0 = Rs("this.density"), Is("this.m_state_mf_number", False)
    r = V.fn(Q + "BlowersMaselData::update", sub="const Cantera::ThermoPhase &", this=Q + "BlowersMaselData", mem={"this.temperature": Rs("T0"), "this.logT": log(Rs("T0")), "this.recipT": div(ONE, Rs("T0"))}, contracts=ct_, requires=pt + [lt(ZERO, Rs("T0"))])
    ch = or_(ne(T, Rs("T0")), ne(Rs("rho"), rho0), ne(Is("mf", False), mf0))
    r.ensures("follows_temperature", and_(eq(r.post("this.temperature"), T), eq(r.post("this.logT"), log(T)), eq(r.post("this.recipT"), div(ONE, T))))
    r.ensures("refreshes_enthalpies_on_any_change", implies(ch, and_(r.result, eq(r.postat("this.partialMolarEnthalpies.[]", IZERO), Rs("hbar0")), eq(r.post("this.density"), Rs("rho")), eq(r.post("this.m_state_mf_number", "I"), Is("mf", False)))))

def v_plasma(V):
    c = Q + "TwoTempPlasmaRate::"; th = Q + "TwoTempPlasmaRate"; Te = Rs("Te")
    m = dict(shared()); m.update({"arg0.electronTemp": Te, "arg0.logTe": log(Te), "arg0.recipTe": div(ONE, Te)})
    rq = pt + [lt(ZERO, Te)]
    k = mul(A, powt(Te, b), exp(div(mul(R(-1), Ea), T)), exp(div(mul(E4, sub(Te, T)), mul(T, Te))))
    r = V.fn(c + "evalFromStruct", this=th, mem=m, requires=rq); r.ensures("documented_expression", eq(r.result, k)); r.frame([])
    r = V.fn(c + "ddTScaledFromStruct", this=th, mem=m, requires=rq + [ne(A, ZERO)]); r.ensures("is_dlogk_dT_at_fixed_Te", eq(r.result, dlog(k, T)))
    a0, a1, a2, a3 = (Rs("arg%d" % i) for i in range(4))
    r = V.fn(c + "TwoTempPlasmaRate", sub="(double,double,double,double)", this=th)
    r.ensures("parameters_stored", and_(eq(r.post("this.m_A"), a0), eq(r.post("this.m_b"), a1), eq(r.post("this.m_Ea_R"), div(a2, Rg)), eq(r.post("this.m_E4_R"), div(a3, Rg)), r.post("this.m_valid", "B")))
    r = V.fn(c + "activationElectronEnergy", this=th); r.ensures("value", eq(r.result, mul(E4, Rg)))
    d = Q + "TwoTempPlasmaData::"
    r = V.fn(d + "update", sub="(double,double)", this=Q + "TwoTempPlasmaData", requires=[lt(ZERO, a0), lt(ZERO, a1)])
    r.ensures("terms", and_(eq(r.post("this.temperature"), a0), eq(r.post("this.logT"), log(a0)), eq(r.post("this.recipT"), div(ONE, a0)), eq(r.post("this.electronTemp"), a1), eq(r.post("this.logTe"), log(a1)), eq(r.post("this.recipTe"), div(ONE, a1))))
    st = {"this.temperature": Rs("T0"), "this.logT": log(Rs("T0")), "this.recipT": div(ONE, Rs("T0")), "this.electronTemp": Rs("Te0"), "this.logTe": log(Rs("Te0")), "this.recipTe": div(ONE, Rs("Te0"))}
    r = V.fn(d + "update", sub="const Cantera::ThermoPhase &", this=Q + "TwoTempPlasmaData", mem=st, requires=rq + [lt(ZERO, Rs("T0")), lt(ZERO, Rs("Te0"))], contracts={Q + "Phase::temperature": lambda ex, th_, a_, n_: T, Q + "Phase::electronTemperature": lambda ex, th_, a_, n_: Te}, name="TwoTempPlasmaData::update(phase)")
    r.ensures("follows_phase", and_(eq(r.post("this.temperature"), T), eq(r.post("this.logT"), log(T)), eq(r.post("this.recipT"), div(ONE, T)), eq(r.post("this.electronTemp"), Te), eq(r.post("this.logTe"), log(Te)), eq(r.post("this.recipTe"), div(ONE, Te))))
    r.ensures("reports_change", implies(or_(ne(T, Rs("T0")), ne(Te, Rs("Te0"))), r.result))

def v_plog(V):
    c = Q + "PlogRate::"; th = Q + "PlogRate"
    n = Is("this.pressures_.#len"); key = As("this.pressures_.[].first"); i1 = As("this.pressures_.[].second.first", "I"); i2 = As("this.pressures_.[].second.second", "I")
    x = Rs("arg0.logP"); lp, l1, l2, rd = (Rs("this." + q) for q in ("logP_", "logP1_", "logP2_", "rDeltaP_"))
    lo1, lo2, hi1, hi2 = (Is("this." + q) for q in ("ilow1_", "ilow2_", "ihigh1_", "ihigh2_"))
    u = Is("u"); j = Is("j")
    # class invariant: sorted keys; end keys bracket every pressure
    srt = forall(sub(n, IONE), lambda i: lt(at(key, i), at(key, add(i, IONE))))
    base = [le(I(2), n), srt, lt(at(key, 0), x), lt(x, at(key, sub(n, IONE)))]
    def bracket(L1, L2, a1, a2, b1, b2, rD, y):
        """exists an interval u: the cached values are those of the interval containing y"""
        def at_u(v): return and_(le(IZERO, v), lt(v, sub(n, IONE)), eq(L1, at(key, v)), eq(L2, at(key, add(v, IONE))), eq(a1, at(i1, v)), eq(a2, at(i2, v)), eq(b1, at(i1, add(v, IONE))), eq(b2, at(i2, add(v, IONE))), eq(rD, div(ONE, sub(at(key, add(v, IONE)), at(key, v)))), le(at(key, v), y), le(y, at(key, add(v, IONE))))
        return at_u
    inv = bracket(l1, l2, lo1, lo2, hi1, hi2, rd, lp)(u)           # valid cache for interval u
    empty = and_(eq(lp, R(-1000)), eq(l1, R(1000)), eq(l2, R(-1000)))   # nothing cached
    def post(r, v): return bracket(*[r.post("this." + q, s) for q, s in (("logP1_", "R"), ("logP2_", "R"), ("ilow1_", "I"), ("ilow2_", "I"), ("ihigh1_", "I"), ("ihigh2_", "I"), ("rDeltaP_", "R"))], x)(v)
    for nm, pre in (("cached", inv), ("fresh", and_(empty, ne(x, R(-1000))))):
        r = V.fn(c + "updateFromStruct", this=th, requires=base + [pre], name="PlogRate::updateFromStruct(%s)" % nm)
        v = freshbv(); jj = First(v, IZERO, n, lt(x, at(key, v)))      # first key above the pressure
        keep = eq(r.post("this.logP1_"), l1)
        if nm == "cached": r.ensures("brackets_pressure", or_(post(r, u), post(r, sub(jj, IONE))))
        else: r.ensures("brackets_pressure", post(r, sub(jj, IONE)))
        r.ensures("pressure_recorded", eq(r.post("this.logP_"), x)); r.nothrow()
        r.frame(["this.logP_", "this.logP1_", "this.logP2_", "this.ilow1_", "this.ilow2_", "this.ihigh1_", "this.ihigh2_", "this.rDeltaP_"])
    rA, rb, rE = As("this.rates_.[].m_A"), As("this.rates_.[].m_b"), As("this.rates_.[].m_Ea_R"); rl = As("this.rates_.[].m_logA")
    nr = Is("this.rates_.#len")
    def kk(a, bb): return add(num(Fr("1e-300")), summ(bb, lambda i: mul(at(rA, i), powt(T, at(rb, i)), exp(div(mul(R(-1), at(rE, i)), T))), lo=a))
    m = shared()
    r = V.fn(c + "evalFromStruct", this=th, mem=m, requires=pt + [lt(lo1, lo2), le(lo2, nr), lt(hi1, hi2), le(hi2, nr), lt(ZERO, kk(lo1, lo2)), lt(ZERO, kk(hi1, hi2)), eq(rd, div(ONE, sub(l2, l1))), lt(l1, l2)])
    K1, K2 = log(kk(lo1, lo2)), log(kk(hi1, hi2))
    r.ensures("log_log_interpolation", eq(r.result, exp(add(K1, div(mul(sub(K2, K1), sub(lp, l1)), sub(l2, l1)))))); r.frame([])
    # consequences: end points of an interval give the rate at that pressure, equal ends are constant
    a_, b_, s_ = Rs("lnk1"), Rs("lnk2"), Rs("s")
    V.lemma("plog_endpoints", [lt(l1, l2)], and_(eq(add(a_, div(mul(sub(b_, a_), sub(l1, l1)), sub(l2, l1))), a_), eq(add(a_, div(mul(sub(b_, a_), sub(l2, l1)), sub(l2, l1))), b_)))
    V.lemma("plog_outside_constant", [lt(l1, l2), eq(a_, b_)], eq(add(a_, div(mul(sub(b_, a_), sub(s_, l1)), sub(l2, l1))), a_))
    r = V.fn(c + "setRates", this=th, opaque=("*",), name="PlogRate::setRates") if 0 else None

def chebT(x):
    """Chebyshev polynomials as a sequence: T_0 = 1, T_(+-1) = x, T_(k+1) = 2 x T_k - T_(k-1)"""
    def f(k):
        k = lift(k)
        if isnum(k): 
            kv = abs(int(val(k)))
            if kv == 0: return ONE
            if kv == 1: return x
        return mk("uf", ("chebyshev", x, k), "R")
    return f
def chebax(x):
    f = chebT(x); raw = lambda k: mk("uf", ("chebyshev", x, I(k)), "R"); n_ = Is("this.m_coeffs.m_nrows"); q = Is("this.m_coeffs.m_ncols")
    return [forall(add(n_, q, I(2)), lambda k: eq(f(add(k, IONE)), sub(mul(R(2), x, f(k)), f(sub(k, IONE))))), eq(raw(0), ONE), eq(raw(1), x), eq(raw(-1), x)]
def v_chebyshev(V):
    c = Q + "ChebyshevRate::"; th = Q + "ChebyshevRate"
    nT, nP = Is("this.m_coeffs.m_nrows"), Is("this.m_coeffs.m_ncols"); C = As("this.m_coeffs.m_data.[]"); tn, td, pn, pd = (Rs("this." + q) for q in ("TrNum_", "TrDen_", "PrNum_", "PrDen_"))
    L = Rs("arg0.log10P"); Pr = mul(add(mul(R(2), L), pn), pd)
    f = chebT(Pr); ax = chebax(Pr)
    m = {"this.m_coeffs.m_data.#len": mul(nT, nP), "this.dotProd_.#len": nT}
    rq = [le(IONE, nT), le(IONE, nP)]
    dot = lambda i: summ(nP, lambda j: mul(at(C, add(mul(nT, j), i)), f(j)))
    same = eq(L, Rs("this.m_log10P")); valid = forall(nT, lambda i: eq(at(As("this.dotProd_.[]"), i), dot(i)))   # cache invariant
    recur = [lambda t: f(t), lambda t: f(sub(t, IONE)), lambda t: f(add(t, IONE))]
    for nm, pre in (("new pressure", [not_(same)]), ("cached", [same, valid])):
        r = V.fn(c + "updateFromStruct", this=th, mem=m, requires=rq + pre, recur=recur, recur_axioms=ax, name="ChebyshevRate::updateFromStruct(%s)" % nm)
        r.ensures("pressure_polynomials_contracted", forall(nT, lambda i: eq(r.postat("this.dotProd_.[]", i), dot(i))), ax)
        r.ensures("pressure_recorded", eq(r.post("this.m_log10P"), L)); r.frame(["this.m_log10P", "this.dotProd_.[]"])
    rT = Rs("arg0.recipT"); Tr = mul(add(mul(R(2), rT), tn), td); g = chebT(Tr); ax2 = chebax(Tr)
    r = V.fn(c + "evalFromStruct", this=th, mem=m, requires=rq, recur=[lambda t: g(t), lambda t: g(sub(t, IONE)), lambda t: g(add(t, IONE))], recur_axioms=ax2)
    r.ensures("ten_to_double_chebyshev_series", eq(log(r.result), mul(log(R(10)), summ(nT, lambda i: mul(at(As("this.dotProd_.[]"), i), g(i))))), ax2); r.ensures("positive", lt(ZERO, r.result)); r.frame([])
    a = [Rs("arg%d" % i) for i in range(4)]; l10 = lambda z: div(log(z), log(R(10)))
    r = V.fn(c + "setLimits", this=th, requires=[lt(ZERO, a[0]), lt(a[0], a[1]), lt(ZERO, a[2]), lt(a[2], a[3])])
    it, lgp = Rs("invT"), Rs("logp")
    tr = mul(add(mul(R(2), it), r.post("this.TrNum_")), r.post("this.TrDen_")); prr = mul(add(mul(R(2), lgp), r.post("this.PrNum_")), r.post("this.PrDen_"))
    I0, I1 = div(ONE, a[0]), div(ONE, a[1])
    r.ensures("reduced_temperature", eq(tr, div(sub(mul(R(2), it), add(I0, I1)), sub(I1, I0))))
    r.ensures("reduced_pressure", eq(prr, div(sub(mul(R(2), lgp), add(l10(a[2]), l10(a[3]))), sub(l10(a[3]), l10(a[2])))))
    r.ensures("limits_stored", and_(*[eq(r.post("this." + q), z) for q, z in zip(("Tmin_", "Tmax_", "Pmin_", "Pmax_"), a)]))
    nan = r.post("this.m_log10P")
    V.assume("NAN: a distinguished value that differs from every pressure logarithm")
    r.ensures("cache_invalidated", eq(nan, Rs("#NaN")))
    cn, cm = Is("arg0.m_nrows"), Is("arg0.m_ncols")
    r = V.fn(c + "setData", this=th, mem={"arg0.m_data.#len": mul(cn, cm)}, requires=[le(IONE, cn), le(IONE, cm)])
    k = Is("k")
    r.ensures("coefficients_stored", and_(eq(r.post("this.m_coeffs.m_nrows", "I"), cn), eq(r.post("this.m_coeffs.m_ncols", "I"), cm), eq(r.postat("this.m_coeffs.m_data.[]", k), at(As("arg0.m_data.[]"), k)), eq(r.post("this.dotProd_.#len", "I"), cn), r.post("this.m_valid", "B")), [lt(k, mul(cn, cm)), ne(sym("addr:arg0()", "O"), sym("addr:this.m_coeffs()", "O"))])
    r.ensures("cache_invalidated", eq(r.post("this.m_log10P"), Rs("#NaN")))
    for nm in ("Tmin", "Tmax", "Pmin", "Pmax"):
        r = V.fn(c + nm, this=th); r.ensures("value", eq(r.result, Rs("this." + nm + "_")))
