"""C03: ideal-gas mixture properties satisfy the ideal-gas identities"""
from engine.spec import *
from .phase_env import Env
TUS = ["src/thermo/IdealGasPhase.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp", "src/thermo/MultiSpeciesThermo.cpp"]
DRIVER = "C03.cpp"
BOUND = "random states and compositions of shipped ideal-gas mechanisms, interleaved state changes and queries"
C = "Cantera::IdealGasPhase::"; TP = "Cantera::ThermoPhase::"
HINT_FNS = [C + "setToEquilState", C + "updateThermo"]
ASSUME = ["MultiSpeciesThermo::update returns the species' reference-state functions of temperature (C04)",
          "a value cache entry is private to the function that asked for its id and starts out (and after invalidateCache) with a key equal to no state",
          "mole fractions above SmallNumber for logarithmic terms (the code clips below it)"]
e = Env(); K, X, rho, w, T, W = e.K, e.X, e.rho, e.mmw, e.T, e.W
Rg, SN = Rs("#GasConstant"), Rs("#SmallNumber")
RT = mul(Rg, T); P0 = Rs("this.m_p0"); P = div(mul(rho, RT), w)
ref = lambda nm, k: mk("uf", ("species_" + nm, T, lift(k)), "R")
h = lambda k: ref("h_RT", k); s = lambda k: ref("s_R", k); cp = lambda k: ref("cp_R", k); g = lambda k: sub(h(k), s(k))
ARR = {"m_h0_RT": h, "m_s0_R": s, "m_cp0_R": cp, "m_g0_RT": g}
def c_updateThermo(ex, th, a, n):
    for nm, f in ARR.items(): ex.st.mem[th.path + (nm, "[]")] = array(f)
def c_species_update(ex, th, a, n):
    t = ex.term_of(*a[0])
    for j, nm in ((1, "cp_R"), (2, "h_RT"), (3, "s_R")):
        p = ex.load(*a[j]); assert p.off is IZERO
        ex.st.mem[p.loc.path + ("[]",)] = array(lambda k: mk("uf", ("species_" + nm, t, lift(k)), "R"))
CT = {C + "updateThermo": c_updateThermo, "virtual " + C + "updateThermo": c_updateThermo, "Cantera::MultiSpeciesThermo::refPressure": lambda ex, th, a, n: P0,
      "Cantera::ThermoPhase::refPressure": lambda ex, th, a, n: P0}
mem = dict(e.mem); mem.update({"this.%s.#len" % v: K for v in ("m_h0_RT", "m_s0_R", "m_cp0_R", "m_g0_RT", "m_pp", "m_workS")})
pos = [lt(ZERO, w), lt(ZERO, rho), lt(ZERO, T), lt(ZERO, Rg), lt(ZERO, P0), lt(ZERO, SN)]
norm = [eq(w, div(ONE, summ(K, lambda i: at(e.Ym, i)))), lt(ZERO, summ(K, lambda i: at(e.Ym, i))), eq(mul(w, summ(K, lambda i: mul(at(e.Ym, i), at(W, i)))), w)]
big = [forall(K, lambda i: lt(SN, X(i))), forall(K, lambda i: lt(SN, at(e.Ym, i)))]
env = dict(this="Cantera::IdealGasPhase", mem=mem, contracts=CT, requires=e.base + pos)
out = lambda r, k: r.postat("arg0.[]", k)
k = Is("k"); kk = [lt(k, K)]
lnP = log(div(P, P0))
frame = ["this." + v for v in list(ARR) + ["m_workS"]]

def v_cache(V):
    """reference-state arrays always belong to the current temperature"""
    Tc = Rs("cached.state1"); inv = lambda t, A: forall(K, lambda i: and_(*[eq(at(A[nm], i), subst(f(i), {T: t})) for nm, f in ARR.items()]))
    cache = {"Cantera::ValueCache::getScalar": lambda ex, th, a, n: Loc(("cached",), []), "Cantera::ValueCache::getId": lambda ex, th, a, n: Is("id"), "Cantera::MultiSpeciesThermo::update": c_species_update, "virtual Cantera::MultiSpeciesThermo::update": c_species_update}
    fresh_ = Bs("cache_key_set")
    r = V.fn(C + "updateThermo", this="Cantera::IdealGasPhase", mem=mem, contracts=cache, requires=e.base + [inv(Tc, {nm: As("this.%s.[]" % nm) for nm in ARR})])
    post = {nm: r.post("this.%s.[]" % nm) for nm in ARR}
    r.ensures("arrays_belong_to_current_temperature", inv(T, post)); r.ensures("cache_key_matches_arrays", eq(r.post("cached.state1"), T))
    r.frame(frame)
    # the cache entry set for another temperature or not at all: recomputed
    r = V.fn(C + "updateThermo", this="Cantera::IdealGasPhase", mem=mem, contracts=cache, requires=e.base + [ne(Tc, T)], name=C[9:] + "updateThermo(stale)")
    r.ensures("recomputed_when_the_key_differs", inv(T, {nm: r.post("this.%s.[]" % nm) for nm in ARR}))
    for nm, f in (("enthalpy_RT_ref", h), ("entropy_R_ref", s), ("cp_R_ref", cp), ("gibbs_RT_ref", g)):
        r = V.fn(C + nm, **env); r.ensures("current_reference_values", eq(r.retleaf("[]")if False else at(r.post(".".join(r.ret.path) + ".[]"), k), f(k)), kk); r.frame(frame)

def v_mixture(V):
    R = lambda nm, **kw: V.fn((C if not kw.pop("base", None) else TP) + nm, **dict(env, **kw))
    mean = lambda f: summ(K, lambda i: mul(X(i), f(i)))
    r = R("pressure"); r.ensures("ideal_gas_law", eq(r.result, P)); r.frame([])
    r = R("enthalpy_mole"); r.ensures("sum_of_species", eq(r.result, mul(RT, mean(h)))); r.frame(frame)
    r = R("cp_mole"); r.ensures("sum_of_species", eq(r.result, mul(Rg, mean(cp)))); r.frame(frame)
    r = R("cv_mole"); r.ensures("cp_minus_R", eq(r.result, sub(mul(Rg, mean(cp)), Rg)))
    ent = mul(Rg, sub(mean(lambda i: sub(s(i), log(X(i)))), lnP))
    r = R("entropy_mole", requires=env["requires"] + norm + big); r.ensures("includes_mixing_and_pressure_terms", eq(r.result, ent)); r.frame(frame)
    r = R("intEnergy_mole", base=1, contracts=dict(CT)); r.ensures("h_minus_pv", eq(r.result, sub(mul(RT, mean(h)), RT)))
    r = R("gibbs_mole", base=1, requires=env["requires"] + norm + big); r.ensures("h_minus_Ts", eq(r.result, sub(mul(RT, mean(h)), mul(T, ent)))); r.frame(frame)
    r = R("isothermalCompressibility"); r.ensures("one_over_P", eq(mul(r.result, P), ONE))
    r = R("thermalExpansionCoeff"); r.ensures("one_over_T", eq(mul(r.result, T), ONE))
    r = R("soundSpeed", requires=env["requires"] + [lt(Rg, mul(Rg, mean(cp)))]); cpm = mul(Rg, mean(cp))
    r.ensures("isentropic", eq(mul(r.result, r.result), div(mul(cpm, RT), mul(sub(cpm, Rg), w))))
    r = R("standardConcentration"); r.ensures("P_over_RT", eq(mul(r.result, RT), P))
    r = R("RT", base=1); r.ensures("value", eq(r.result, RT))
    for nm, f in (("enthalpy", mul(RT, mean(h))), ("intEnergy", sub(mul(RT, mean(h)), RT)), ("cp", cpm), ("cv", sub(cpm, Rg))):
        r = R(nm + "_mass", base=1); r.ensures("per_mass", eq(mul(r.result, w), f))
    r = R("entropy_mass", base=1, requires=env["requires"] + norm + big); r.ensures("per_mass", eq(mul(r.result, w), ent))
    # state setters of the ideal gas
    p = Rs("arg0"); pa = Rs("arg1"); q = dict(env, contracts={})
    r = V.fn(C + "setPressure", **dict(q, requires=q["requires"] + [lt(ZERO, p)])); r.ensures("pressure_set", eq(div(mul(r.post("this.m_dens"), RT), w), p)); r.frame(["this.m_dens"])
    r = V.fn(C + "setState_DP", **q); r.throws_iff("only_for_nonpositive_values", or_(le(pa, ZERO), le(Rs("arg0"), ZERO)))
    r.ensures("density_and_pressure_set", and_(eq(r.post("this.m_dens"), Rs("arg0")), eq(div(mul(Rs("arg0"), Rg, r.post("this.m_temp")), w), pa))); r.frame(["this.m_dens", "this.m_temp"])

def v_species(V):
    nT = lambda i: mul(RT, add(g(i), lnP))
    tab = {
        "getChemPotentials": lambda i: mul(RT, add(g(i), lnP, log(X(i)))),
        "getPartialMolarEnthalpies": lambda i: mul(RT, h(i)),
        "getPartialMolarEntropies": lambda i: mul(Rg, sub(s(i), add(lnP, log(X(i))))),
        "getPartialMolarIntEnergies": lambda i: mul(RT, sub(h(i), ONE)),
        "getPartialMolarCp": lambda i: mul(Rg, cp(i)),
        "getPartialMolarVolumes": lambda i: div(w, rho),
        "getStandardChemPotentials": nT, "getPureGibbs": nT,
        "getEnthalpy_RT": h, "getEntropy_R": lambda i: sub(s(i), lnP), "getGibbs_RT": lambda i: add(g(i), lnP),
        "getIntEnergy_RT": lambda i: sub(h(i), ONE), "getCp_R": cp, "getStandardVolumes": lambda i: div(RT, P),
        "getEnthalpy_RT_ref": h, "getGibbs_RT_ref": g, "getGibbs_ref": lambda i: mul(RT, g(i)), "getEntropy_R_ref": s, "getIntEnergy_RT_ref": lambda i: sub(h(i), ONE),
        "getCp_R_ref": cp, "getStandardVolumes_ref": lambda i: div(RT, P0),
        "getActivityCoefficients": lambda i: ONE, "getActivityConcentrations": lambda i: mul(rho, at(e.Ym, i)),
    }
    for nm, f in tab.items():
        r = V.fn(C + nm, **dict(env, requires=env["requires"] + big))
        r.ensures("value", eq(out(r, k), f(k)), kk); r.frame(frame); r.nothrow()
    for nm, f in (("getActivities", X), ("getLnActivityCoefficients", lambda i: ZERO)):
        r = V.fn(TP + nm, **dict(env, requires=env["requires"] + big)); r.ensures("value", eq(out(r, k), f(k)), kk); r.frame(frame)
    # identities between the reported quantities
    ax = norm + pos
    mean = lambda f: summ(K, lambda i: mul(X(i), f(i)))
    ent = mul(Rg, sub(mean(lambda i: sub(s(i), log(X(i)))), lnP)); H = mul(RT, mean(h))
    x1 = []
    V.lemma("enthalpy_is_the_sum_of_partial_molar_enthalpies", ax + x1, eq(mean(tab["getPartialMolarEnthalpies"]), H))
    V.lemma("entropy_is_the_sum_of_partial_molar_entropies", ax + x1, eq(mean(tab["getPartialMolarEntropies"]), ent))
    V.lemma("gibbs_is_the_sum_of_chemical_potentials", ax + x1, eq(mean(tab["getChemPotentials"]), sub(H, mul(T, ent))))
    V.lemma("internal_energy_is_the_sum_of_partial_molar_ones", ax + x1, eq(mean(tab["getPartialMolarIntEnergies"]), sub(H, mul(P, div(w, rho)))))
    V.lemma("volume_is_the_sum_of_partial_molar_volumes", ax + x1, eq(mean(tab["getPartialMolarVolumes"]), div(w, rho)))
    V.lemma("mu_is_h_minus_Ts", ax, eq(tab["getChemPotentials"](k), sub(tab["getPartialMolarEnthalpies"](k), mul(T, tab["getPartialMolarEntropies"](k)))))

def v_equilState(V):
    """composition and pressure belonging to given chemical potentials"""
    got = {}
    mu = As("arg0.[]"); d = lambda i: sub(at(mu, i), g(i))
    pp = lambda i: ite(lt(d(i), num(-600)), ZERO, ite(lt(num(300), d(i)), mul(P0, exp(num(300)), div(mul(d(i), d(i)), num(90000))), mul(P0, exp(d(i)))))
    def smf(ex, th, a, n): p = ex.load(*a[0]); got["X"] = lambda i, A=ex.rdarr(p.loc.path + ("[]",), "R"), o=p.off: at(A, add(o, i))
    def sp(ex, th, a, n): got["P"] = ex.term_of(*a[0])
    ct = dict(CT); ct.update({"Cantera::Phase::setMoleFractions": smf, "virtual Cantera::Phase::setMoleFractions": smf, C + "setPressure": sp, "virtual " + C + "setPressure": sp})
    r = V.fn(C + "setToEquilState", **dict(env, contracts=ct))
    r.ensures("partial_pressures_from_chemical_potentials", eq(got["X"](k), mul(P0, exp(d(k)))), kk + [le(num(-600), d(k)), le(d(k), num(300))])
    r.ensures("mole_fractions_from_partial_pressures", eq(got["X"](k), pp(k)), kk)
    r.ensures("pressure_is_the_sum_of_partial_pressures", eq(got["P"], summ(K, lambda i: got["X"](i))))
