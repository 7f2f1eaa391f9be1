"""C06: rates of progress, equilibrium constants, microscopic reversibility"""
from engine.spec import *
TUS = ["src/kinetics/BulkKinetics.cpp", "src/kinetics/Kinetics.cpp"]
DRIVER = "C06.cpp"
BOUND = "random ideal-gas mechanisms (2-8 species, 1-12 reactions of all kinds), changing only one part of the state at a time, queries in random order"
BK = "Cantera::BulkKinetics::"; KN = "Cantera::Kinetics::"; SM = "Cantera::StoichManagerN::"; TB = "Cantera::ThirdBodyCalc::"; TP = "Cantera::ThermoPhase::"; PH = "Cantera::Phase::"
HINT_FNS = [BK + "updateROP"]
ASSUME = ["rate evaluators: update reports a change whenever the rate constants of its reactions differ from the last ones handed out (parametrisations: C07, C08)",
          "the standard chemical potentials, activity concentrations and standard concentration are functions of temperature, density and composition (C03 for ideal gases)"]
nR = Is("this.m_reactions.#len"); K = Is("this.m_kk"); nE = Is("this.m_bulk_rates.#len"); r_ = Is("r"); rr = [le(IZERO, r_), lt(r_, nR)]; k_ = Is("k"); kk = [le(IZERO, k_), lt(k_, K)]
T, rho, sn = Rs("T"), Rs("rho"), Is("stateNum"); c1, c2, c3 = Rs("cached.state1"), Rs("cached.state2"), Is("cached.stateNum")
key, old = (T, rho, sn), (c1, c2, c3)
f = lambda nm, s, *i: mk("uf", (nm,) + tuple(s) + tuple(lift(x) for x in i), "R")
RT = mul(Rs("#GasConstant"), T)
mu0 = lambda s, k: f("standard_potential", s, k); act = lambda s, k: f("activity_concentration", s, k); con = lambda s, k: f("concentration", s, k); c0 = lambda s: f("standard_concentration", s); ctot = lambda s: f("molar_density", s)
Nu = lambda m, k, r: mk("uf", ("N_" + m, lift(k), lift(r)), "R"); Ord = lambda m, k, r: mk("uf", ("order_" + m, lift(k), lift(r)), "R")
mass = lambda m, C, r: prodd(K, lambda k: mk("uf", ("cpow", C(k), Ord(m, k, r)), "R"))
eff = lambda j, k: mk("uf", ("efficiency", lift(j), lift(k)), "R"); dflt = lambda j: mk("uf", ("default", lift(j)), "R")
conM = lambda s, j: f("third_body", s, j)
hasT = lambda r: mk("uf", ("has_third_body", lift(r)), "B")
dG = lambda s, r: sub(summ(K, lambda k: mul(Nu("m_revProductStoich", k, r), mu0(s, k))), summ(K, lambda k: mul(Nu("m_reactantStoich", k, r), mu0(s, k))))
def ptr(ex, a): p = ex.load(*a); assert p.off is IZERO; return p.loc.path + ("[]",)
def out_(g, n): 
    def h(ex, th, a, nd):
        p = ptr(ex, a[0]); o = ex.rdarr(p, "R"); ex.st.mem[p] = array(lambda k: ite(and_(le(IZERO, k), lt(k, n)), g(k), at(o, k)))
    return h
owner = lambda r: mk("uf", ("owner", lift(r)), "I"); kcur = lambda s, r: f("rate_constant", s, r); chg = As("changed", "B")
def c_getk(ex, th, a, n):
    p = ptr(ex, a[0]); o = ex.rdarr(p, "R"); i = th.idx[-1]
    ex.st.mem[p] = array(lambda r: ite(eq(owner(r), i), kcur(key, r), at(o, r)))
def c_mult(ex, th, a, n):
    m = th.path[-1]; C = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R")
    ex.st.mem[p] = array(lambda r: ite(and_(le(IZERO, r), lt(r, nR)), mul(at(o, r), mass(m, lambda k: at(C, k), r)), at(o, r)))
def c_tbmult(ex, th, a, n):
    p, c = ptr(ex, a[0]), ptr(ex, a[1]); o, M = ex.rdarr(p, "R"), ex.rdarr(c, "R")
    ex.st.mem[p] = array(lambda r: ite(hasT(r), mul(at(o, r), at(M, r)), at(o, r)))
def c_tbupd(ex, th, a, n):
    C = ex.rdarr((a[0][0] if isinstance(a[0][0], Loc) else ex.load(*a[0])).path + ("[]",), "R"); ct = ex.term_of(*a[1]); p = ptr(ex, a[2]); o = ex.rdarr(p, "R")
    ex.st.mem[p] = array(lambda r: ite(hasT(r), add(mul(dflt(r), ct), summ(K, lambda k: mul(eff(r, k), at(C, k)))), at(o, r)))
def c_delta(m):
    def h(ex, th, a, n):
        P = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R")
        ex.st.mem[p] = array(lambda r: ite(and_(le(IZERO, r), lt(r, nR)), sub(summ(K, lambda k: mul(Nu(m, k, r), at(P, k))), summ(K, lambda k: mul(Nu("m_reactantStoich", k, r), at(P, k)))), at(o, r)))
    return h
CT = {"Cantera::ValueCache::getScalar": lambda ex, th, a, n: Loc(("cached",), []), "Cantera::ValueCache::getId": lambda ex, th, a, n: Is("id"),
      SM + "multiply": c_mult, TB + "multiply": c_tbmult, TB + "update": c_tbupd,
      KN + "getRevReactionDelta": c_delta("m_revProductStoich"), KN + "getReactionDelta": c_delta("m_productStoich"),
      "Cantera::MultiRateBase::update": lambda ex, th, a, n: at(chg, th.idx[-1]), "Cantera::MultiRateBase::getRateConstants": c_getk,
      TP + "getStandardChemPotentials": out_(lambda k: mu0(key, k), K), TP + "getActivityConcentrations": out_(lambda k: act(key, k), K), PH + "getConcentrations": out_(lambda k: con(key, k), K),
      TP + "standardConcentration": lambda ex, th, a, n: c0(key), TP + "RT": lambda ex, th, a, n: RT, PH + "molarDensity": lambda ex, th, a, n: ctot(key),
      PH + "temperature": lambda ex, th, a, n: T, PH + "density": lambda ex, th, a, n: rho, PH + "stateMFNumber": lambda ex, th, a, n: sn}
for q in list(CT):
    CT["virtual " + q] = CT[q]
    if q.startswith(PH): CT["virtual " + TP + q[len(PH):]] = CT[TP + q[len(PH):]] = CT[q]
    if q.startswith(KN): CT["virtual " + BK + q[len(KN):]] = CT[BK + q[len(KN):]] = CT[q]
nrv, nir = Is("this.m_revindex.#len"), Is("this.m_irrev.#len"); rv, ir = (lambda i, A=As("this.%s.[]" % v, "I"): at(A, i) for v in ("m_revindex", "m_irrev"))
irr = lambda r: exists(nir, lambda i: eq(ir(i), r)); isrev = lambda r: exists(nrv, lambda i: eq(rv(i), r))
Big = Rs("#BigNumber"); dn = lambda r: at(As("this.m_dn.[]"), r)
def KC(s, r):
    """reciprocal concentration equilibrium constant of reaction r, zero for irreversible reactions"""
    x = exp(sub(div(dG(s, r), mul(Rs("#GasConstant"), s[0])), mul(dn(r), log(c0(s)))))
    return ite(irr(r), ZERO, ite(lt(Big, x), Big, x))
CM = lambda s, r: add(mul(dflt(r), ctot(s)), summ(K, lambda k: mul(eff(r, k), con(s, k))))
def FAC(s, kf, r): x = mul(kf, at(As("this.m_perturb.[]"), r)); return ite(hasT(r), mul(x, CM(s, r)), x)
FWD = lambda s, kf, r: mul(FAC(s, kf, r), mass("m_reactantStoich", lambda k: act(s, k), r))
REV = lambda s, kf, r: mul(FAC(s, kf, r), KC(s, r), mass("m_revProductStoich", lambda k: act(s, k), r))
ok0 = Bs("this.m_ROP_ok"); junk = lambda nm: (lambda i, A=As("junk." + nm): at(A, i))
kold = lambda r: ite(at(chg, owner(r)), junk("kf")(r), kcur(key, r))
inK = lambda k: and_(le(IZERO, k), lt(k, K)); inR = lambda r: and_(le(IZERO, r), lt(r, nR))
inv = {  # every cached quantity belongs to the state of the cache entry; the rates of progress too unless flagged as outdated
    "this.m_grt.[]": array(lambda k: mu0(old, k)), "this.m_delta_gibbs0.[]": array(lambda r: dG(old, r)), "this.m_rkcn.[]": array(lambda r: KC(old, r)),
    "this.m_act_conc.[]": array(lambda k: act(old, k)), "this.m_phys_conc.[]": array(lambda k: con(old, k)), "this.m_concm.[]": array(lambda r: ite(hasT(r), CM(old, r), junk("concm")(r))),
    "this.m_kf0.[]": array(kold),
    "this.m_rfn.[]": array(lambda r: ite(ok0, mul(kold(r), at(As("this.m_perturb.[]"), r)), junk("rfn")(r))), "this.m_ropf.[]": array(lambda r: ite(ok0, FWD(old, kold(r), r), junk("ropf")(r))),
    "this.m_ropr.[]": array(lambda r: ite(ok0, REV(old, kold(r), r), junk("ropr")(r))), "this.m_ropnet.[]": array(lambda r: ite(ok0, sub(FWD(old, kold(r), r), REV(old, kold(r), r)), junk("ropnet")(r)))}
size = {"this.%s.#len" % v: nR for v in ("m_rkcn", "m_kf0", "m_rfn", "m_ropf", "m_ropr", "m_ropnet", "m_concm", "m_delta_gibbs0", "m_dn", "m_perturb", "m_rbuf0", "m_rbuf1", "m_rbuf2")}; size.update({"this.%s.#len" % v: K for v in ("m_grt", "m_act_conc", "m_phys_conc", "m_sbuf0")})
part = [forall(nR, lambda r: or_(irr(r), isrev(r))), forall(nrv, lambda i: inR(rv(i))), forall(nir, lambda i: inR(ir(i))), forall(nR, lambda r: and_(le(IZERO, owner(r)), lt(owner(r), nE)))]
CUR = {"m_rkcn": lambda r: KC(key, r), "m_kf0": lambda r: kcur(key, r), "m_rfn": lambda r: mul(kcur(key, r), at(As("this.m_perturb.[]"), r)), "m_ropf": lambda r: FWD(key, kcur(key, r), r), "m_ropr": lambda r: REV(key, kcur(key, r), r), "m_ropnet": lambda r: sub(FWD(key, kcur(key, r), r), REV(key, kcur(key, r), r))}
names = {"m_rkcn": "equilibrium_constants", "m_kf0": "rate_constants", "m_rfn": "scaled_rate_constants", "m_ropf": "forward_mass_action", "m_ropr": "reverse_mass_action_or_zero", "m_ropnet": "net_is_forward_minus_reverse"}
def rop(V, nm, mem, req):
    r = V.fn(BK + "updateROP", this="Cantera::BulkKinetics", contracts=CT, mem=dict(size, **mem), requires=part + req, name="BulkKinetics::updateROP(%s)" % nm)
    for v, g in CUR.items(): r.ensures(names[v] + "_of_the_current_state", eq(r.postat("this.%s.[]" % v, r_), g(r_)), rr)
    for v, g in (("m_grt", mu0), ("m_act_conc", act), ("m_phys_conc", con)): r.ensures(v + "_of_the_current_state", eq(r.postat("this.%s.[]" % v, k_), g(key, k_)), kk)
    r.ensures("delta_gibbs0_of_the_current_state", eq(r.postat("this.m_delta_gibbs0.[]", r_), dG(key, r_)), rr)
    r.ensures("third_body_concentrations_of_the_current_state", eq(r.postat("this.m_concm.[]", r_), CM(key, r_)), rr + [hasT(r_)])
    r.ensures("cache_key_is_the_current_state", and_(eq(r.post("cached.state1"), T), eq(r.post("cached.state2"), rho), eq(r.post("cached.stateNum", "I"), sn)))
    r.ensures("marked_up_to_date", r.post("this.m_ROP_ok", "B"))
    r.frame(["this." + v for v in ("m_rkcn", "m_kf0", "m_rfn", "m_ropf", "m_ropr", "m_ropnet", "m_concm", "m_delta_gibbs0", "m_grt", "m_act_conc", "m_phys_conc", "m_ROP_ok")])
same = {"cached.state1": T, "cached.state2": rho, "cached.stateNum": sn}
inv_ = lambda ok, vs=None: {p: subst(v, {c1: T, c2: rho, c3: sn, ok0: ok}) for p, v in inv.items() if vs is None or p in vs}
UPTO = ["this.%s.[]" % v for v in ("m_grt", "m_delta_gibbs0", "m_rkcn", "m_act_conc", "m_phys_conc", "m_concm", "m_kf0")]
# temperature, density or composition differ from the cached state, whatever is stored
def v_T(V): rop(V, "temperature changed", {"this.m_kf0.[]": array(kold)}, [ne(c1, T)])
def v_rho(V): rop(V, "density changed", {"this.m_kf0.[]": array(kold)}, [ne(c2, rho)])
def v_X(V): rop(V, "composition changed", {"this.m_kf0.[]": array(kold)}, [ne(c3, sn)])
# same state: what is stored stays valid, multipliers and rate parameters may have changed
def v_mult(V): rop(V, "multiplier changed", dict(same, **{"this.m_ROP_ok": FALSE}, **inv_(FALSE, UPTO)), [])
def v_rate(V): rop(V, "rate changed", dict(same, **{"this.m_ROP_ok": TRUE}, **inv_(FALSE, UPTO)), [exists(nE, lambda i: at(chg, i))])
def v_none(V): rop(V, "nothing changed", dict(same, **{"this.m_ROP_ok": TRUE}, **inv_(TRUE)), [not_(exists(nE, lambda i: at(chg, i)))])

def c_rop(ex, th, a, n):
    """contract of updateROP: everything belongs to the current state"""
    for v, g in CUR.items(): ex.st.mem[th.path + (v, "[]")] = array(lambda r, g=g: g(r))
    ex.st.mem[th.path + ("m_grt", "[]")] = array(lambda k: mu0(key, k)); ex.st.mem[th.path + ("m_concm", "[]")] = array(lambda r: ite(hasT(r), CM(key, r), junk("concm")(r)))
    ex.st.mem[th.path + ("m_delta_gibbs0", "[]")] = array(lambda r: dG(key, r))
CQ = dict(CT); CQ[BK + "updateROP"] = CQ["virtual " + BK + "updateROP"] = CQ[KN + "updateROP"] = CQ["virtual " + KN + "updateROP"] = c_rop
legacy = Bs("legacy_rate_constants"); CQ["Cantera::legacy_rate_constants_used"] = lambda ex, th, a, n: legacy
dGf = lambda s, r: sub(summ(K, lambda k: mul(Nu("m_productStoich", k, r), mu0(s, k))), summ(K, lambda k: mul(Nu("m_reactantStoich", k, r), mu0(s, k))))
Kc = lambda s, r: exp(add(neg(div(dGf(s, r), mul(Rs("#GasConstant"), s[0]))), mul(dn(r), log(c0(s)))))
kf = lambda r: mul(kcur(key, r), at(As("this.m_perturb.[]"), r))
kfl = lambda r: ite(and_(legacy, hasT(r)), mul(kf(r), CM(key, r)), kf(r))
UP = ["this." + v for v in list(CUR) + ["m_grt", "m_concm", "m_delta_gibbs0"]]
def v_query(V):
    q = dict(this="Cantera::BulkKinetics", contracts=CQ, mem=dict(size)); o = lambda r: r.postat("arg0.[]", r_); pos_ = [lt(ZERO, T)]
    r = V.fn(BK + "getFwdRateConstants", requires=[lt(IZERO, nR)], **q); r.ensures("current_rate_constant_times_multiplier", eq(o(r), kfl(r_)), rr); r.frame(UP)
    r = V.fn(BK + "getEquilibriumConstants", **q); r.ensures("equilibrium_constant_of_the_current_state", eq(o(r), Kc(key, r_)), rr); r.ensures("only_reactions", eq(o(r), at(As("arg0.[]"), r_)), [le(nR, r_)]); r.frame(UP + ["this.m_rbuf0"])
    KEQ = lambda ex, th, a, n: ex.st.mem.__setitem__(ptr(ex, a[0]), array(lambda r: Kc(key, r)))
    def KF(ex, th, a, n): c_rop(ex, th, a, n); ex.st.mem[ptr(ex, a[0])] = array(kfl)
    qq = dict(q, contracts=dict(CQ, **{v + BK + f: g for v in ("", "virtual ") for f, g in (("getFwdRateConstants", KF), ("getEquilibriumConstants", KEQ))}))
    r = V.fn(BK + "getRevRateConstants", mem=dict(size), requires=[not_(Bs("arg1"))], **{k: v for k, v in qq.items() if k != "mem"})
    r.ensures("forward_over_equilibrium_constant_or_zero", eq(o(r), mul(kfl(r_), KC(key, r_))), rr)
    r = V.fn(BK + "getRevRateConstants", mem=dict(size), requires=[Bs("arg1")], name="BulkKinetics::getRevRateConstants(all)", **{k: v for k, v in qq.items() if k != "mem"})
    r.ensures("forward_over_equilibrium_constant", eq(o(r), div(kfl(r_), Kc(key, r_))), rr)
    r = V.fn(BK + "applyEquilibriumConstants", this="Cantera::BulkKinetics"); r.ensures("multiplies_each_reaction", eq(o(r), mul(at(As("arg0.[]"), r_), at(As("this.m_rkcn.[]"), r_))), rr); r.ensures("nothing_else", eq(o(r), at(As("arg0.[]"), r_)), [le(nR, r_)]); r.frame([]); r.nothrow()
    for g, v in (("getFwdRatesOfProgress", "m_ropf"), ("getRevRatesOfProgress", "m_ropr"), ("getNetRatesOfProgress", "m_ropnet")):
        r = V.fn(KN + g, **q); r.ensures("current_rates_of_progress", eq(o(r), CUR[v](r_)), rr); r.frame(UP)

def v_multiplier(V):
    i = Is("arg0"); clear = lambda ex, th, a, n: ex.wr(Loc(("ghost", "cleared"), []), TRUE, sort="B")
    r = V.fn(BK + "setMultiplier", this="Cantera::BulkKinetics"); r.ensures("rates_outdated", not_(r.post("this.m_ROP_ok", "B"))); r.ensures("stored", eq(r.postat("this.m_perturb.[]", r_), ite(eq(r_, i), Rs("arg1"), at(As("this.m_perturb.[]"), r_)))); r.frame(["this.m_perturb", "this.m_ROP_ok"])
    r = V.fn(BK + "invalidateCache", this="Cantera::BulkKinetics", contracts={"Cantera::ValueCache::clear": clear}); r.ensures("rates_outdated", not_(r.post("this.m_ROP_ok", "B"))); r.ensures("cache_cleared", r.post("ghost.cleared", "B")); r.frame(["this.m_ROP_ok"])
    r = V.fn(BK + "isReversible", this="Cantera::BulkKinetics"); r.ensures("listed_as_reversible", eq(r.result, isrev(i))); r.frame([])

def v_law(V):
    """forward and reverse rates balance where the affinity vanishes; rate constants are related by the equilibrium constant"""
    x, c, R_, T_ = Rs("dG0"), Rs("c0"), Rs("#GasConstant"), Rs("T"); pos = [lt(ZERO, c), lt(ZERO, R_), lt(ZERO, T_)]; d = Rs("dn")
    rk = exp(sub(div(x, mul(R_, T_)), mul(d, log(c)))); Kc_ = exp(add(neg(div(x, mul(R_, T_))), mul(d, log(c))))
    V.lemma("reciprocal_of_the_equilibrium_constant", pos, eq(mul(rk, Kc_), ONE))
    # activity products: sum nu_k mu_k = dG0 + RT sum nu_k ln(C_k / c0) = 0 implies equal rates
    K_ = Is("nSpecies"); C = As("C"); f_, p_ = As("nuR"), As("nuP"); kfw = Rs("kf")
    S = lambda w: summ(K_, lambda k: mul(at(w, k), log(at(C, k))))
    dnn = sub(summ(K_, lambda k: at(p_, k)), summ(K_, lambda k: at(f_, k)))
    x0 = neg(mul(R_, T_, sub(sub(S(p_), S(f_)), mul(dnn, log(c)))))     # the standard Gibbs energy for which the affinity vanishes
    V.lemma("net_rate_vanishes_with_the_affinity", pos, eq(mul(kfw, exp(S(f_))), mul(kfw, subst(rk, {x: x0, d: dnn}), exp(S(p_)))))
    V.lemma("mass_action_product", [forall(K_, lambda k: lt(ZERO, at(C, k)))], eq(prodd(K_, lambda k: powt(at(C, k), at(f_, k))), exp(S(f_))))

def v_mass_action(V):
    """StoichManagerN::multiply: product of the concentrations to the power of the reaction orders, zero for nonpositive concentrations of general orders"""
    r = V.fn(SM + "multiply", this="Cantera::StoichManagerN"); S, R = As("arg0.[]"), As("arg1.[]")
    A = lambda f, so="I": (lambda *i, B=As("this." + f, so, f.count("[]")): at(B, *i))
    n = {l: Is("this.m_c%s_list.#len" % l) for l in "123n"}; hit = lambda l, i: eq(A("m_c%s_list.[].m_rxn" % l)(i), r_); c = lambda l, w, i: at(S, A("m_c%s_list.[].%s" % (l, w))(i))
    nonneg = forall(Is("nSpecies"), lambda k: le(ZERO, at(S, k)))
    p1 = prodd(n["1"], lambda i: ite(hit("1", i), c("1", "m_ic0", i), ONE))
    neg2 = lambda l, a, b, i: and_(lt(c(l, a, i), ZERO), lt(c(l, b, i), ZERO))
    p2 = prodd(n["2"], lambda i: ite(hit("2", i), ite(neg2("2", "m_ic0", "m_ic1", i), ZERO, mul(c("2", "m_ic0", i), c("2", "m_ic1", i))), ONE))
    p3 = prodd(n["3"], lambda i: ite(hit("3", i), ite(or_(neg2("3", "m_ic0", "m_ic1", i), neg2("3", "m_ic0", "m_ic2", i), neg2("3", "m_ic1", "m_ic2", i)), ZERO, mul(c("3", "m_ic0", i), c("3", "m_ic1", i), c("3", "m_ic2", i))), ONE))
    M, ic, od = A("m_cn_list.[].m_n"), A("m_cn_list.[].m_ic.[]"), A("m_cn_list.[].m_order.[]", "R")
    pn = prodd(n["n"], lambda i: prodd(M(i), lambda m: ite(and_(hit("n", i), ne(od(i, m), ZERO)), ite(lt(ZERO, at(S, ic(i, m))), powt(at(S, ic(i, m)), od(i, m)), ZERO), ONE)))
    r.ensures("product_over_the_entries_of_the_reaction", eq(r.postat("arg1.[]", r_), mul(at(R, r_), p1, p2, p3, pn))); r.frame([]); r.frame([], roots=("arg0",), name="concentrations_unchanged"); r.nothrow()

def v_add(V):
    """a reaction is recorded as reversible or irreversible, with the change of the number of moles"""
    known = Bs("speciesKnown"); non = lambda ex, th, a, n: None
    def base(ex, th, a, n): l = th.f("m_reactions").f("#len"); ex.wr(l, add(ex.rd(l, sort="I"), ite(known, IONE, IZERO)), sort="I"); return known
    ct = {KN + "addReaction": base, BK + "addThirdBody": non, "Cantera::ReactionRate::setRateIndex": non, "Cantera::ReactionRate::setContext": non, "Cantera::MultiRateBase::resize": non, "Cantera::MultiRateBase::add": non, KN + "nPhases": lambda ex, th, a, n: IONE,
          "Cantera::ReactionRate::subType": lambda ex, th, a, n: Ss("subtype"), "Cantera::ReactionRate::type": lambda ex, th, a, n: Ss("type"), "Cantera::Reaction::rate": lambda ex, th, a, n: PObj(Loc(th.path + ("m_rate", "*"), th.idx))}
    for q in list(ct): ct["virtual " + q] = ct[q]
    r = V.fn(BK + "addReaction", this="Cantera::BulkKinetics", contracts=ct); x = "arg0.*."
    L = lambda w: Is(x + w + ".#len"); val = lambda w: As(x + w + ".[].second"); rev = Bs(x + "reversible"); nR0 = nR; i = Is("i")
    r.ensures("change_of_the_number_of_moles", eq(r.postat("this.m_dn.[]", Is("this.m_dn.#len")), sub(summ(L("products"), lambda i: at(val("products"), i)), summ(L("reactants"), lambda i: at(val("reactants"), i)))), [known])
    for v, n, c in (("m_revindex", nrv, rev), ("m_irrev", nir, not_(rev))):
        r.ensures(v + "_grows_exactly_for_its_kind", eq(r.post("this.%s.#len" % v, "I"), ite(and_(known, c), add(n, IONE), n)))
        r.ensures(v + "_lists_the_new_reaction", eq(at(r.post("this.%s.[]" % v, "I"), n), nR0), [known, c])
        r.ensures(v + "_earlier_entries_kept", eq(at(r.post("this.%s.[]" % v, "I"), i), at(As("this.%s.[]" % v, "I"), i)), [le(IZERO, i), lt(i, n)])
    r.ensures("returns_whether_added", eq(r.result, known))
