"""C25: condensed ideal phases: standard states and mixing rules are consistent"""
from engine.spec import *
from .phase_env import Env
TUS = ["src/thermo/IdealSolidSolnPhase.cpp", "src/thermo/LatticePhase.cpp", "src/thermo/StoichSubstance.cpp", "src/thermo/SingleSpeciesTP.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp"]
DRIVER = "C25.cpp"
BOUND = "stoichiometric, lattice and ideal-solid-solution phases of the shipped files with random temperatures, pressures, compositions (zero mole fractions included) and site densities; interleaved setters and queries"
IS = "Cantera::IdealSolidSolnPhase"; LA = "Cantera::LatticePhase"; SS = "Cantera::StoichSubstance"; S1 = "Cantera::SingleSpeciesTP"; TP = "Cantera::ThermoPhase"; P = "Cantera::Phase::"
HINT_FNS = [IS + "::setToEquilState", IS + "::_updateThermo"]
ASSUME = ["MultiSpeciesThermo::update returns the species' reference-state functions of temperature (C04)",
          "the cached temperature m_tlast belongs to the stored reference arrays (invariant, established by _updateThermo; ThermoPhase::invalidateCache makes it equal to no temperature)",
          "mole fractions above SmallNumber for logarithmic terms (the code clips below it)",
          "lattice phases: mixture totals are proved for species volumes equal to the inverse site density (known finding lattice_explicit_volumes for volumes given in the input)"]
e = Env(); K, X, rho, w, T, W = e.K, e.X, e.rho, e.mmw, e.T, e.W
Rg, SN = Rs("#GasConstant"), Rs("#SmallNumber"); RT = mul(Rg, T); Pc, P0 = Rs("this.m_Pcurrent"), Rs("this.m_Pref")
V_ = As("this.m_speciesMolarVolume.[]"); v = lambda i: at(V_, i); n0 = Rs("this.m_site_density")
ref = lambda nm, k: mk("uf", ("species_" + nm, T, lift(k)), "R")
h = lambda k: ref("h_RT", k); s = lambda k: ref("s_R", k); cp = lambda k: ref("cp_R", k); g = lambda k: sub(h(k), s(k))
ARR = {"m_h0_RT": h, "m_s0_R": s, "m_cp0_R": cp, "m_g0_RT": g}
def c_upd(ex, th, a, n):
    for nm, f in ARR.items(): ex.st.mem[th.path + (nm, "[]")] = array(f)
def c_species_update(ex, th, a, n):
    t = ex.term_of(*a[0])
    for j, nm in ((1, "cp_R"), (2, "h_RT"), (3, "s_R")):
        p = ex.load(*a[j]); assert p.off is IZERO
        ex.st.mem[p.loc.path + ("[]",)] = array(lambda k, nm=nm: mk("uf", ("species_" + nm, t, lift(k)), "R"))
mem = dict(e.mem); mem.update({"this.%s.#len" % q: K for q in list(ARR) + ["m_pp", "m_workS", "m_speciesMolarVolume", "m_expg0_RT"]})
pos = [lt(ZERO, w), lt(ZERO, rho), lt(ZERO, T), lt(ZERO, Rg), lt(ZERO, SN), forall(K, lambda i: lt(ZERO, v(i)))]
norm = [eq(w, div(ONE, summ(K, lambda i: at(e.Ym, i)))), lt(ZERO, summ(K, lambda i: at(e.Ym, i)))]
big = [forall(K, lambda i: lt(SN, X(i))), forall(K, lambda i: lt(SN, at(e.Ym, i)))]
mean = lambda f: summ(K, lambda i: mul(X(i), f(i)))
k = Is("k"); kk = [lt(k, K)]; dp = sub(Pc, P0); PV = div(mul(dp), RT)
out = lambda r: r.postat("arg0.[]", k)
lx = lambda i: log(X(i)); clip = lambda i: log(rmax(SN, X(i)))
frame = ["this." + q for q in list(ARR) + ["m_workS", "m_tlast"]]

def common(V, cls):
    C = cls + "::"; short = cls[9:] + "::"
    CT = {q + C + "_updateThermo": c_upd for q in ("", "virtual ")}
    env = dict(this=cls, mem=mem, contracts=CT, requires=e.base + pos)
    F = lambda q, nm=None, extra=[], **kw: V.fn(q, **dict(env, requires=env["requires"] + extra, **({"name": nm} if nm else {}), **kw))
    # reference-state arrays always belong to the current temperature
    tl = Rs("this.m_tlast"); inv = lambda t, A: forall(K, lambda i: and_(*[eq(at(A[nm], i), subst(f(i), {T: t})) for nm, f in ARR.items()]))
    up = {"Cantera::MultiSpeciesThermo::update": c_species_update}
    for tag, rq in (("", [inv(tl, {nm: As("this.%s.[]" % nm) for nm in ARR})]), ("(stale)", [ne(tl, T)])):
        r = V.fn(C + "_updateThermo", this=cls, mem=mem, contracts=up, requires=e.base + rq, name=short + "_updateThermo" + tag)
        r.ensures("arrays_belong_to_current_temperature", inv(T, {nm: r.post("this.%s.[]" % nm) for nm in ARR})); r.ensures("cache_key", eq(r.post("this.m_tlast"), T)); r.frame(frame)
    for nm, f in (("enthalpy_RT_ref", h), ("entropy_R_ref", s), ("cp_R_ref", cp), ("gibbs_RT_ref", g)):
        r = F(C + nm); r.ensures("current_reference_values", eq(at(r.post(".".join(r.ret.path) + ".[]"), k), f(k)), kk); r.frame(frame)
    pv = lambda i: div(mul(dp, v(i)), RT)
    tab = {"getChemPotentials": (lambda i: add(mul(RT, add(g(i), clip(i))), mul(dp, v(i)))),
           "getPartialMolarEnthalpies": lambda i: add(mul(RT, h(i)), mul(dp, v(i))),
           "getPartialMolarEntropies": lambda i: mul(Rg, sub(s(i), clip(i))),
           "getPartialMolarCp": lambda i: mul(Rg, cp(i)), "getPartialMolarVolumes": v, "getStandardVolumes": v,
           "getStandardChemPotentials": lambda i: add(mul(RT, g(i)), mul(dp, v(i))), "getPureGibbs": lambda i: add(mul(RT, g(i)), mul(dp, v(i))),
           "getGibbs_RT": lambda i: add(g(i), pv(i)), "getEnthalpy_RT": lambda i: add(h(i), pv(i)), "getEntropy_R": s, "getCp_R": cp, "getActivityCoefficients": lambda i: ONE,
           "getGibbs_ref": lambda i: mul(RT, g(i)), "getGibbs_RT_ref": g}
    if cls == IS: tab.update({"getIntEnergy_RT": lambda i: sub(h(i), div(mul(P0, v(i)), RT)), "getIntEnergy_RT_ref": lambda i: sub(h(i), div(mul(P0, v(i)), RT)), "getEnthalpy_RT_ref": h, "getEntropy_R_ref": s, "getCp_R_ref": cp})
    posts = {}
    for nm, f in tab.items():
        r = F(C + nm); posts[nm] = r.post("arg0.[]")
        r.ensures("documented_relation", eq(out(r), f(k)), kk); r.frame(frame)
    # relations between them, over the contracts
    U = "getIntEnergy_RT"
    V.lemma(short + "gibbs_is_enthalpy_minus_T_entropy", e.base + pos + kk, and_(eq(at(posts["getChemPotentials"], k), sub(at(posts["getPartialMolarEnthalpies"], k), mul(T, at(posts["getPartialMolarEntropies"], k)))),
            eq(at(posts["getGibbs_RT"], k), sub(at(posts["getEnthalpy_RT"], k), at(posts["getEntropy_R"], k)))))
    V.lemma(short + "standard_potential_is_that_of_the_pure_species", e.base + pos + kk, and_(eq(at(posts["getStandardChemPotentials"], k), at(posts["getPureGibbs"], k)), eq(mul(RT, at(posts["getGibbs_RT"], k)), at(posts["getPureGibbs"], k))))
    if cls == IS: V.lemma(short + "internal_energy_is_enthalpy_minus_PV", e.base + pos + kk, eq(mul(RT, at(posts[U], k)), sub(mul(RT, at(posts["getEnthalpy_RT"], k)), mul(Pc, at(posts["getStandardVolumes"], k)))))
    # mixture properties
    yv = summ(K, lambda i: mul(at(e.Ym, i), v(i))); vol = [eq(rho, div(ONE, yv)), lt(ZERO, yv)] if cls == IS else [eq(rho, mul(w, n0)), lt(ZERO, n0), forall(K, lambda i: eq(v(i), div(ONE, n0))), eq(mean(lambda i: ONE), ONE), eq(mean(v), div(ONE, n0))]
    mh = add(mul(RT, mean(h)), mul(dp, mean(v))); ms = mul(Rg, sub(mean(s), mean(lx))); mc = mul(Rg, mean(cp))
    hq = (TP + "::" if cls == IS else C) + "enthalpy_mole"
    r = F(hq, short + "enthalpy_mole", vol + norm); r.ensures("mean_of_partial_molar", eq(r.result, mh)); r.frame(frame)
    r = F(C + "entropy_mole", None, norm + big); r.ensures("mean_of_partial_molar", eq(r.result, ms)); r.frame(frame)
    r = F(C + "gibbs_mole", None, vol + norm + big); r.ensures("mean_of_partial_molar", eq(r.result, add(mul(RT, sub(mean(g), ZERO)), mul(RT, mean(lx)), mul(dp, mean(v))))); r.frame(frame)
    r = F(C + "cp_mole", None, norm); r.ensures("mean_of_partial_molar", eq(r.result, mc)); r.frame(frame)
    r = F(C + "cv_mole", None, norm); r.ensures("equal_to_cp", eq(r.result, mc)); r.frame(frame)
    r = F(TP + "::intEnergy_mole", short + "intEnergy_mole", vol + norm); r.ensures("enthalpy_minus_PV", eq(r.result, sub(mh, mul(Pc, mean(v))))); r.frame(frame)
    # state
    r = F(C + "pressure"); r.ensures("stored", eq(r.result, Pc)); r.frame([])
    dens = (lambda d: eq(mul(d, mean(v)), w)) if cls == IS else (lambda d: eq(d, rmax(mul(w, n0), SN)))
    ex = [lt(ZERO, mean(v)), lt(ZERO, summ(K, lambda i: mul(at(e.Ym, i), v(i))))] if cls == IS else []
    for nm, fr in (("calcDensity", ["this.m_dens"]), ("setPressure", ["this.m_dens", "this.m_Pcurrent"]), ("compositionChanged", ["this.m_dens", "this.m_stateNum"])):
        r = F(C + nm, None, norm + ex, contracts={}); r.ensures("density_belongs_to_the_composition", dens(r.post("this.m_dens")), [] if cls == IS else [lt(ZERO, n0)]); r.frame(fr)
        if nm == "setPressure": r.ensures("stored", eq(r.post("this.m_Pcurrent"), Rs("arg0")))
    # activity concentrations are the standard concentration times the mole fraction
    if cls == IS:
        for f, c in ((0, lambda i: ONE), (1, lambda i: div(ONE, v(i))), (2, lambda i: div(ONE, v(sub(K, IONE))))):
            rq = [eq(Is("this.m_formGC"), I(f))]
            r = F(C + "standardConcentration", short + "standardConcentration(%d)" % f, rq); r.ensures("documented", eq(r.result, c(Is("arg0")))); r.frame([])
            r = F(C + "getActivityConcentrations", short + "getActivityConcentrations(%d)" % f, rq); r.ensures("activity_times_standard_concentration", eq(out(r), mul(X(k), c(k))), kk); r.frame([])
    else:
        r = F(C + "standardConcentration"); r.ensures("unity", eq(r.result, ONE)); r = F(C + "logStandardConc"); r.ensures("zero", eq(r.result, ZERO))
        r = F(C + "getActivityConcentrations"); r.ensures("activity_times_standard_concentration", eq(out(r), X(k)), kk); r.frame([])
def v_solid_solution(V): common(V, IS)
def v_lattice(V): common(V, LA)

def v_stoich(V):
    """one species: the standard state is the phase"""
    C = SS + "::"; B = S1 + "::"; h0, s0, c0 = Rs("this.m_h0_RT"), Rs("this.m_s0_R"), Rs("this.m_cp0_R"); Pr, p0 = Rs("this.m_press"), Rs("this.m_p0")
    tH, tS, tC = (mk("uf", ("species_" + q, T, I(0)), "R") for q in ("h_RT", "s_R", "cp_R"))
    def upd(ex, th, a, n):
        for nm, q in (("m_h0_RT", tH), ("m_s0_R", tS), ("m_cp0_R", tC)): ex.wr(th.f(nm), q, sort="R")
    CT = {q + B + "_updateThermo": upd for q in ("", "virtual ")}; m1 = dict(e.mem); m1["this.m_kk"] = IONE; m1.update({k_: (IONE if x_ is K else x_) for k_, x_ in e.mem.items()})
    one = [lt(ZERO, w), lt(ZERO, rho), lt(ZERO, T), lt(ZERO, Rg), eq(at(W, IZERO), w)]
    F = lambda q, nm=None, extra=[], ct=CT: V.fn(q, this=SS, mem=m1, contracts=ct, requires=one + extra, **({"name": nm} if nm else {}))
    vm = div(w, rho); fr = ["this.m_h0_RT", "this.m_s0_R", "this.m_cp0_R", "this.m_tlast"]; o = lambda r: r.postat("arg0.[]", IZERO)
    def c_sp(ex, th, a, n):
        t = ex.term_of(*a[0])
        for j, nm in ((1, "cp_R"), (2, "h_RT"), (3, "s_R")):
            p = ex.load(*a[j]); ex.wr(p.loc, mk("uf", ("species_" + nm, t, I(0)), "R"), sort="R")
    tl = Rs("this.m_tlast"); tt = lambda q: subst(q, {T: tl})
    for tag, rq in (("", [eq(h0, tt(tH)), eq(s0, tt(tS)), eq(c0, tt(tC))]), ("(stale)", [ne(tl, T)])):
        r = F(B + "_updateThermo", "StoichSubstance::_updateThermo" + tag, rq, {"Cantera::MultiSpeciesThermo::update": c_sp})
        r.ensures("belongs_to_current_temperature", and_(eq(r.post("this.m_h0_RT"), tH), eq(r.post("this.m_s0_R"), tS), eq(r.post("this.m_cp0_R"), tC), eq(r.post("this.m_tlast"), T))); r.frame(fr)
    hh = add(tH, div(mul(sub(Pr, p0), vm), RT)); uu = sub(tH, div(mul(p0, vm), RT)); gg = sub(hh, tS)
    tab = {C + "getEnthalpy_RT": hh, C + "getEntropy_R": tS, C + "getGibbs_RT": gg, C + "getCp_R": tC, C + "getIntEnergy_RT": uu, C + "getIntEnergy_RT_ref": uu, C + "getStandardChemPotentials": mul(RT, gg),
           B + "getChemPotentials": mul(RT, gg), B + "getPartialMolarEnthalpies": mul(RT, hh), B + "getPartialMolarIntEnergies": mul(RT, uu), B + "getPartialMolarEntropies": mul(Rg, tS), B + "getPartialMolarCp": mul(Rg, tC),
           B + "getPartialMolarVolumes": vm, B + "getStandardVolumes": vm, B + "getPureGibbs": mul(RT, gg), B + "getEnthalpy_RT_ref": tH, B + "getGibbs_RT_ref": sub(tH, tS), B + "getGibbs_ref": mul(RT, sub(tH, tS)),
           B + "getEntropy_R_ref": tS, B + "getCp_R_ref": tC, C + "getActivityConcentrations": ONE, B + "getActivities": ONE, B + "getActivityCoefficients": ONE}
    for q, val_ in tab.items():
        r = F(q, "StoichSubstance::" + q.split("::")[-1]); r.ensures("documented_relation", eq(o(r), val_)); r.frame(fr)
    for q, val_ in {B + "enthalpy_mole": mul(RT, hh), B + "intEnergy_mole": mul(RT, uu), B + "entropy_mole": mul(Rg, tS), B + "gibbs_mole": mul(RT, gg), B + "cp_mole": mul(Rg, tC), B + "cv_mole": mul(Rg, tC), C + "pressure": Pr,
                    C + "isothermalCompressibility": ZERO, C + "thermalExpansionCoeff": ZERO, C + "standardConcentration": ONE, C + "logStandardConc": ZERO}.items():
        r = F(q, "StoichSubstance::" + q.split("::")[-1]); r.ensures("documented_relation", eq(r.result, val_)); r.frame(fr)
    V.lemma("stoich.internal_energy_is_enthalpy_minus_PV", one, eq(mul(RT, uu), sub(mul(RT, hh), mul(Pr, vm))))
    r = F(C + "setPressure"); r.ensures("stored", eq(r.post("this.m_press"), Rs("arg0"))); r.frame(["this.m_press"])
