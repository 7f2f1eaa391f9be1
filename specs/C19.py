"""C19: surface coverages, concentrations and site density are consistent"""
from engine.spec import *
from .phase_env import Env, pos_part
TUS = ["src/thermo/SurfPhase.cpp", "src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp"]
DRIVER = "C19.cpp"
BOUND = "surface and edge phases of the shipped files, and the same species with random site occupancies; random coverages, site densities, temperatures; interleaved setters, saves, rejected updates and queries"
C = "Cantera::SurfPhase::"; P = "Cantera::Phase::"
HINT_FNS = [C + "setCoverages", C + "_updateThermo"]
ASSUME = ["MultiSpeciesThermo::update returns the species' reference-state functions of temperature (C04)",
          "site occupancies are positive; the stored logarithms belong to the stored sizes and site density (invariant established by addSpecies and setSiteDensity)",
          "the concentrations follow the documented theta n0/s only where the mean number of sites per species is one: known finding multi_site_concentrations_not_scaled; proved here is C = X n0, which coincides with it when every species occupies one site"]
e = Env(); K, X, rho, w, T, W = e.K, e.X, e.rho, e.mmw, e.T, e.W
Rg, SN = Rs("#GasConstant"), Rs("#SmallNumber"); RT = mul(Rg, T); n0 = Rs("this.m_n0"); S = As("this.m_speciesSize.[]"); s = lambda i: at(S, i)
ref = lambda nm, k: mk("uf", ("species_" + nm, T, lift(k)), "R")
H = lambda k: mul(RT, ref("h_RT", k)); EN = lambda k: mul(Rg, ref("s_R", k)); CP = lambda k: mul(Rg, ref("cp_R", k)); MU = lambda k: sub(H(k), mul(T, EN(k)))
ARR = {"m_h0": H, "m_s0": EN, "m_cp0": CP, "m_mu0": MU}
def c_update(ex, th, a, n):
    for nm, f in ARR.items(): ex.st.mem[th.path + (nm, "[]")] = array(f)
def c_species_update(ex, th, a, n):
    t = ex.term_of(*a[0])
    for j, nm in ((1, "cp_R"), (2, "h_RT"), (3, "s_R")):
        p = ex.load(*a[j]); assert p.off is IZERO
        ex.st.mem[p.loc.path + ("[]",)] = array(lambda k, nm=nm: mk("uf", ("species_" + nm, t, lift(k)), "R"))
UPD = {v + C + "_updateThermo": c_update for v in ("", "virtual ")}
mem = dict(e.mem); mem.update({"this.%s.#len" % v: K for v in list(ARR) + ["m_work", "m_speciesSize", "m_logsize"]})
spos = forall(K, lambda i: lt(ZERO, s(i))); logs = [forall(K, lambda i: eq(at(As("this.m_logsize.[]"), i), log(s(i)))), eq(Rs("this.m_logn0"), log(n0))]
pos = [lt(ZERO, w), lt(ZERO, T), lt(ZERO, Rg), lt(ZERO, SN), lt(ZERO, n0), spos]
dens = [eq(rho, mul(n0, w))]  # invariant: compositionChanged / setSiteDensity
norm = [eq(w, div(ONE, summ(K, lambda i: at(e.Ym, i)))), lt(ZERO, summ(K, lambda i: at(e.Ym, i)))]
env = dict(this="Cantera::SurfPhase", mem=mem, contracts=UPD, requires=e.base + pos + dens + logs + e.comp[:1])
k = Is("k"); kk = [lt(k, K)]; th = lambda i: at(As("arg0.[]"), i)
out = lambda r: r.postat("arg0.[]", k)
Q = summ(K, lambda i: div(th(i), s(i))); TOT = summ(K, th)
tpos = forall(K, lambda i: le(ZERO, th(i)))

def v_coverages(V):
    WQ = summ(K, lambda i: div(mul(at(W, i), th(i)), s(i)))
    for nm in ("setCoverages", "setCoveragesNoNorm"):
        r = V.fn(C + nm, name="SurfPhase::%s(no coverage)" % nm, this="Cantera::SurfPhase", mem=mem, requires=e.base + pos + [tpos, le(Q, ZERO)])
        r.throws_iff("rejected", le(Q, ZERO)); r.throw_frame(["this.m_work"])
        # positive weights and sizes: with a positive coverage the weight sum is positive too
        r = V.fn(C + nm, this="Cantera::SurfPhase", mem=mem, requires=e.base + pos + [tpos, lt(ZERO, Q), lt(ZERO, WQ), lt(ZERO, TOT)])
        r.nothrow("accepts_positive_coverages")
        ym, y, mw, d = r.post("this.m_ym.[]"), r.post("this.m_y.[]"), r.post("this.m_mmw"), r.post("this.m_dens")
        if nm == "setCoverages": r.ensures("mole_fraction_is_coverage_over_sites_normalised", eq(mul(at(ym, k), mw, s(k), Q), th(k)), kk)
        else: r.ensures("mole_fraction_not_normalised", eq(mul(at(ym, k), mw, s(k), Q), mul(th(k), TOT)), kk)
        r.ensures("mass_fractions_agree", eq(mul(at(ym, k), at(W, k)), at(y, k)), kk)
        r.ensures("total_concentration_is_the_site_density", eq(d, mul(n0, mw)))
        r.ensures("cached_results_out_of_date", ne(r.post("this.m_stateNum", "I"), Is("this.m_stateNum", False)))
        r.frame(["this." + v for v in ("m_y", "m_ym", "m_mmw", "m_dens", "m_stateNum", "m_work")])
    # reading back
    xs = summ(K, lambda i: mul(X(i), s(i))); x1 = summ(K, X)
    r = V.fn(C + "getCoverages", this="Cantera::SurfPhase", mem=mem, requires=e.base + pos + [lt(ZERO, xs), lt(ZERO, x1)])
    r.ensures("share_of_the_sites", eq(mul(out(r), xs), mul(X(k), s(k), x1)), kk)
    r.ensures("sum_is_the_sum_of_mole_fractions", eq(summ(K, lambda i: at(r.post("arg0.[]"), i)), x1)); r.frame([])
    # round trip, as a lemma over the two contracts: theta -> X = theta/(s Q) -> X s SumX / Sum(X s)
    t = lambda i: at(As("theta"), i); q = summ(K, lambda i: div(t(i), s(i))); tt = summ(K, t); g = lambda f: lambda i: f(div(t(i), mul(s(i), q)), i)
    hy = [spos, lt(ZERO, q), lt(ZERO, tt)]
    V.lemma("read_back_is_the_normalised_coverage", hy + kk, eq(mul(div(t(k), mul(s(k), q)), s(k), summ(K, g(lambda x, i: x)), tt), mul(t(k), summ(K, g(lambda x, i: mul(x, s(i)))))))
    r = V.fn(C + "setSiteDensity", this="Cantera::SurfPhase", mem=mem, requires=e.base + pos, contracts=UPD)
    a = Rs("arg0"); r.throws_iff("nonpositive_only", le(a, ZERO)); r.ensures("stored", eq(r.post("this.m_n0"), a)); r.ensures("logarithm_stored", eq(r.post("this.m_logn0"), log(a)))
    r.ensures("density_follows", eq(r.post("this.m_dens"), mul(a, w))); r.frame(["this.m_n0", "this.m_logn0", "this.m_dens"]); r.throw_frame([])
    r = V.fn(C + "siteDensity", **env); r.ensures("value", eq(r.result, n0)); r.frame([])
    r = V.fn(C + "size", **env); r.ensures("value", eq(r.result, s(Is("arg0")))); r.frame([])
    r = V.fn(C + "compositionChanged", this="Cantera::SurfPhase", mem=mem, requires=e.base + pos)
    r.ensures("total_concentration_is_the_site_density", eq(r.post("this.m_dens"), mul(n0, w))); r.ensures("cached_results_out_of_date", ne(r.post("this.m_stateNum", "I"), Is("this.m_stateNum", False))); r.frame(["this.m_dens", "this.m_stateNum"])

conc = lambda i: mul(X(i), n0)
def v_concentrations(V):
    for nm in ("getActivityConcentrations",):
        r = V.fn(C + nm, **env); r.ensures("mole_fraction_times_site_density", eq(out(r), conc(k)), kk); r.frame([])
    r = V.fn(P + "getConcentrations", **env); r.ensures("mole_fraction_times_site_density", eq(out(r), conc(k)), kk); r.frame([])
    r = V.fn(P + "concentration", **env); r.ensures("mole_fraction_times_site_density", eq(r.result, conc(Is("arg0")))); r.frame([])
    r = V.fn(C + "standardConcentration", **env); r.ensures("site_density_over_sites", eq(mul(r.result, s(Is("arg0"))), n0), [lt(Is("arg0"), K)]); r.frame([])
    r = V.fn(C + "logStandardConc", **env); r.ensures("logarithm_of_it", eq(r.result, sub(log(n0), log(s(Is("arg0"))))), [lt(Is("arg0"), K)]); r.frame([])
    # every species on one site: coverages are mole fractions and the concentrations are theta n0 / s
    one = forall(K, lambda i: eq(s(i), ONE))
    r = V.fn(C + "getCoverages", this="Cantera::SurfPhase", mem=mem, requires=e.base + pos + [one] + norm, name="SurfPhase::getCoverages(one site each)")
    r.ensures("documented_concentration", eq(div(mul(out(r), n0), s(k)), conc(k)), kk)

FR = ["this." + v for v in list(ARR) + ["m_tlast"]]
def v_thermo(V):
    q = dict(this="Cantera::SurfPhase", mem=mem, contracts={v + "Cantera::MultiSpeciesThermo::update": c_species_update for v in ("", "virtual ")})
    inv = lambda t, A: forall(K, lambda i: and_(*[eq(at(A[nm], i), subst(f(i), {T: t})) for nm, f in ARR.items()])); tl = Rs("this.m_tlast")
    now = lambda r: {nm: r.post("this.%s.[]" % nm) for nm in ARR}; force = Bs("arg0")
    for nm, rq in (("same temperature", [eq(tl, T), inv(tl, {a: As("this.%s.[]" % a) for a in ARR})]), ("changed temperature", [ne(tl, T)]), ("forced", [force])):
        r = V.fn(C + "_updateThermo", name="SurfPhase::_updateThermo(%s)" % nm, requires=e.base + pos + rq, **q)
        r.ensures("arrays_belong_to_the_current_temperature", inv(T, now(r))); r.ensures("key_matches_arrays", eq(r.post("this.m_tlast"), T)); r.frame(FR)
    mean = lambda f: summ(K, lambda i: mul(X(i), f(i))); R = lambda nm, **kw: V.fn(C + nm, **dict(env, **kw))
    for nm in ("enthalpy_mole", "intEnergy_mole"): r = R(nm); r.ensures("mean_of_species", eq(r.result, mean(H))); r.frame(FR)
    for nm in ("cp_mole", "cv_mole"): r = R(nm); r.ensures("mean_of_species", eq(r.result, mean(CP))); r.frame(FR)
    act = lambda i: div(mul(conc(i), s(i)), n0); lact = lambda i: log(mul(X(i), s(i)))
    big = [forall(K, lambda i: lt(SN, mul(X(i), s(i)))), forall(K, lambda i: lt(SN, mul(X(i), n0)))]
    bigs = dict(requires=env["requires"] + big)
    r = R("entropy_mole", **bigs); r.ensures("ideal_mixing_on_the_sites", eq(r.result, mean(lambda i: sub(EN(i), mul(Rg, lact(i)))))); r.frame(FR)
    lg = lambda i: sub(log(conc(i)), sub(log(n0), log(s(i))))
    tab = {"getPartialMolarEnthalpies": H, "getPartialMolarCp": CP, "getStandardChemPotentials": MU, "getPureGibbs": MU, "getPartialMolarVolumes": lambda i: ZERO, "getStandardVolumes": lambda i: ZERO,
           "getGibbs_RT": lambda i: div(MU(i), RT), "getEnthalpy_RT": lambda i: div(H(i), RT), "getEntropy_R": lambda i: div(EN(i), Rg), "getCp_R": lambda i: div(CP(i), Rg),
           "getGibbs_RT_ref": lambda i: div(MU(i), RT), "getEnthalpy_RT_ref": lambda i: div(H(i), RT), "getEntropy_R_ref": lambda i: div(EN(i), Rg), "getCp_R_ref": lambda i: div(CP(i), Rg)}
    for nm, f in tab.items(): r = R(nm); r.ensures("value", eq(out(r), f(k)), kk); r.frame(FR)
    r = R("getPartialMolarEntropies", **bigs); r.ensures("standard_minus_R_log_activity", eq(out(r), sub(EN(k), mul(Rg, lg(k)))), kk); r.frame(FR + ["this.m_work"])
    r = R("getChemPotentials", **bigs); r.ensures("standard_plus_RT_log_activity", eq(out(r), add(MU(k), mul(RT, lg(k)))), kk); r.frame(FR + ["this.m_work"])
    p = Rs("arg0"); r = R("setPressure"); r.ensures("stored", eq(r.post("this.m_press"), p)); r.frame(["this.m_press"]); r = R("pressure"); r.ensures("stored", eq(r.result, Rs("this.m_press"))); r = R("molarVolume"); r.ensures("zero", eq(r.result, ZERO))
