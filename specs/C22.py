"""C22: analytic derivatives of the rates of progress"""
from engine.spec import *
TUS = ["src/kinetics/BulkKinetics.cpp"]
DRIVER = "C22.cpp"
BOUND = "random ideal-gas mechanisms (2-9 species, 1-12 reactions of all kinds with multipliers, fractional orders, absent species and skip settings) against exact forward differentiation of the rate expressions, and four mechanism files against finite differences and stoichiometric sums"
BK = "Cantera::BulkKinetics::"; KN = "Cantera::Kinetics::"; SM = "Cantera::StoichManagerN::"; TB = "Cantera::ThirdBodyCalc::"; TP = "Cantera::ThermoPhase::"; PH = "Cantera::Phase::"; MR = "Cantera::MultiRateBase::"
HINT_FNS = [BK + "process_ddC", BK + "applyEquilibriumConstants_ddT", BK + "process_ddT"]
ASSUME = ["the derivative of a rate constant with respect to the third-body concentration is taken as zero where that concentration is zero (documented limitation of the numerical derivative)",
          "derivatives with respect to species whose order lies between zero and one are not defined where the species is absent",
          "rate constants' own temperature and pressure derivatives are numerical for most rate types (relative step); composition matrices are assembled by Eigen (bounded)"]
i_, r_, j_ = Is("i"), Is("r"), Is("j")
def v_terms(V):
    """each term adds the partial derivative of its product of concentrations"""
    S, R = As("arg0.[]"), As("arg1.[]"); J = As("arg2.[]"); rx = Is("this.m_rxn"); k = at(R, rx)
    for n in (1, 2, 3):
        q = "Cantera::C%d::" % n; ic = [Is("this.m_ic%d" % m) for m in range(n)]; jc = [Is("this.m_jc%d" % m) for m in range(n)]
        nn = [le(ZERO, at(S, x)) for x in ic]
        def others(m):
            p = k
            for l in range(n):
                if l != m: p = mul(p, at(S, ic[l]))
            return p
        r = V.fn(q + "derivatives", this=q[:-2], requires=nn)
        tot = lambda x: add(at(J, x), *[ite(eq(jc[m], x), others(m), ZERO) for m in range(n)])
        r.ensures("adds_the_partial_derivatives", eq(r.postat("arg2.[]", i_), tot(i_))); r.frame([]); r.frame([], roots=("arg0", "arg1"), name="inputs_unchanged"); r.nothrow()
        r = V.fn(q + "scale", this=q[:-2]); r.ensures("order_times_rate_times_factor", eq(r.postat("arg1.[]", rx), mul(num(n), at(As("arg0.[]"), rx), Rs("arg2")))); r.ensures("no_other_entry", eq(r.postat("arg1.[]", r_), at(As("arg1.[]"), r_)), [ne(r_, rx)]); r.nothrow(); r.frame([])
    # several species, any orders
    q = "Cantera::C_AnyN::"; n = Is("this.m_n"); ic, jc = As("this.m_ic.[]", "I"), As("this.m_jc.[]", "I"); o = As("this.m_order.[]"); c = lambda m: at(S, at(ic, m))
    inj = forall(n, lambda a: forall(n, lambda b: implies(eq(at(jc, a), at(jc, b)), eq(a, b))))
    base = [eq(Is("this.%s.#len" % v), n) for v in ("m_ic", "m_jc", "m_order")] + [forall(n, lambda a: and_(le(ZERO, c(a)), le(IZERO, at(jc, a)), lt(at(jc, a), Is("arg2.#len")))), inj]
    fac = lambda m, b: ite(or_(eq(m, b), eq(at(o, b), ZERO)), ONE, ite(lt(ZERO, c(b)), powt(c(b), at(o, b)), ZERO))
    part = lambda m: mul(k, at(o, m), powt(c(m), sub(at(o, m), ONE)), prodd(n, lambda b: fac(m, b)))
    r = V.fn(q + "derivatives", this=q[:-2], requires=base)
    mine = [le(IZERO, i_), lt(i_, n), ne(at(o, i_), ZERO)]; whole = lambda p: prodd(n, lambda b: ite(or_(eq(p, b), eq(at(o, b), ZERO)), ONE, powt(c(b), at(o, b))))
    r.ensures("partial_derivative_for_each_species", eq(r.postat("arg2.[]", at(jc, i_)), add(at(J, at(jc, i_)), mul(k, at(o, i_), powt(c(i_), sub(at(o, i_), ONE)), whole(i_)))), mine + [forall(n, lambda b: lt(ZERO, c(b)))])
    r.ensures("zero_when_another_species_is_absent", eq(r.postat("arg2.[]", at(jc, i_)), at(J, at(jc, i_))), mine + [le(IZERO, j_), lt(j_, n), ne(j_, i_), ne(at(o, j_), ZERO), eq(c(j_), ZERO)])
    r.ensures("nothing_for_order_zero", eq(r.postat("arg2.[]", at(jc, i_)), at(J, at(jc, i_))), [le(IZERO, i_), lt(i_, n), eq(at(o, i_), ZERO)])
    r.ensures("no_other_entry", eq(r.postat("arg2.[]", r_), at(J, r_)), [not_(exists(n, lambda a: eq(at(jc, a), r_)))])
    r.frame([]); r.frame([], roots=("arg0", "arg1"), name="inputs_unchanged"); r.nothrow()
    r = V.fn(q + "scale", this=q[:-2]); r.ensures("order_times_rate_times_factor", eq(r.postat("arg1.[]", rx), mul(Rs("this.m_sum_order"), at(As("arg0.[]"), rx), Rs("arg2")))); r.ensures("no_other_entry", eq(r.postat("arg1.[]", r_), at(As("arg1.[]"), r_)), [ne(r_, rx)]); r.nothrow(); r.frame([])
    r = V.fn(q + "resizeCoeffs", this=q[:-2], requires=base[:3], contracts={"std arg0.at": lambda ex, l, a, nd: Loc(("idx",), [])}); r.ensures("sum_of_orders", eq(r.post("this.m_sum_order"), summ(n, lambda m: at(o, m)))); r.frame(["this.m_jc", "this.m_sum_order"])
    # calculus: the entry is the derivative of the product of powers
nR = Is("this.m_reactions.#len"); K = Is("this.m_kk"); nE = Is("this.m_bulk_rates.#len"); rr = [le(IZERO, r_), lt(r_, nR)]
T, P = Rs("T"), Rs("P"); f = lambda nm, *i: mk("uf", (nm,) + tuple(lift(x) for x in i), "R")
owner = lambda r: mk("uf", ("owner", lift(r)), "I"); inR = lambda r: and_(le(IZERO, r), lt(r, nR)); rtol = Rs("this.m_jac_rtol_delta")
kf0 = lambda r: at(As("this.m_kf0.[]"), r); A = lambda v: (lambda r, X=As("this.%s.[]" % v): at(X, r)); mu0 = lambda t, k: f("standard_potential", t, k); Nu = lambda m, k, r: f("N_" + m, k, r)
cm = A("m_concm"); act = lambda k: at(As("this.m_act_conc.[]"), k); ctot = Rs("molar_density")
hasT = lambda r: mk("uf", ("third_body_in_law_of_mass_action", lift(r)), "B"); hasF = lambda r: mk("uf", ("third_body_in_rate", lift(r)), "B")
dG = lambda t, r: sub(summ(K, lambda k: mul(Nu("m_revProductStoich", k, r), mu0(t, k))), summ(K, lambda k: mul(Nu("m_reactantStoich", k, r), mu0(t, k))))
def ptr(ex, a):
    p = ex.load(*a) if not isinstance(a[0], Loc) else None
    if p is None: p = ex.load(*a)
    assert p.off is IZERO; return p.loc.path + ("[]",)
def vecp(ex, a): return (a[0] if isinstance(a[0], Loc) else ex.load(*a)).path + ("[]",)
def put(ex, p, g, o): ex.st.mem[p] = array(g)
def c_rate(nm, dflt=False):
    """rate evaluator i multiplies the entries of its own reactions by the relative derivative of the rate constant"""
    def h(ex, th, a, n):
        p = ptr(ex, a[0]); o = ex.rdarr(p, "R"); k = ex.rdarr(ptr(ex, a[1]), "R"); d = ex.term_of(*a[2]); i = th.idx[-1]
        if nm == "M":
            w = ex.term_of(*a[3]) if len(a) > 3 else TRUE
            new = lambda r: ite(hasF(r), mul(at(o, r), f("relative_dM", at(k, r), d, r)), ite(w, ZERO, at(o, r)))
        else: new = lambda r: mul(at(o, r), f("relative_d" + nm, at(k, r), d, r))
        ex.st.mem[p] = array(lambda r: ite(eq(owner(r), i), new(r), at(o, r)))
    return h
gT = ("ghost_T",); gS = ("ghost_saved",)
rdT = lambda ex: ex.rd(Loc(gT, []), sort="R")
def setT(ex, t): ex.wr(Loc(gT, []), t, sort="R")
def c_delta(m):
    def h(ex, th, a, n):
        G = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R")
        ex.st.mem[p] = array(lambda r: ite(inR(r), sub(summ(K, lambda k: mul(Nu(m, k, r), at(G, k))), summ(K, lambda k: mul(Nu("m_reactantStoich", k, r), at(G, k)))), at(o, r)))
    return h
def c_mu(ex, th, a, n):
    p = ptr(ex, a[0]); o = ex.rdarr(p, "R"); t = rdT(ex); ex.st.mem[p] = array(lambda k: ite(and_(le(IZERO, k), lt(k, K)), mu0(t, k), at(o, k)))
def order(th): return lambda r, m=th.path[-1]: f("order_" + m, r)
def c_scale(ex, th, a, n):
    I_ = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R"); x = ex.term_of(*a[2]); q = order(th)
    ex.st.mem[p] = array(lambda r: ite(inR(r), mul(q(r), at(I_, r), x), at(o, r)))
def c_tscale(ex, th, a, n):
    I_ = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R"); x = ex.term_of(*a[2])
    ex.st.mem[p] = array(lambda r: ite(hasT(r), mul(x, at(I_, r)), at(o, r)))
def c_tscaleM(ex, th, a, n):
    I_ = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R"); M = ex.rdarr(ptr(ex, a[2]), "R"); x = ex.term_of(*a[3])
    ex.st.mem[p] = array(lambda r: ite(hasF(r), mul(x, at(M, r), at(I_, r)), at(o, r)))
CT = {MR + "processRateConstants_ddT": c_rate("T"), MR + "processRateConstants_ddP": c_rate("P"), MR + "processRateConstants_ddM": c_rate("M"),
      KN + "getRevReactionDelta": c_delta("m_revProductStoich"), KN + "getReactionDelta": c_delta("m_productStoich"), TP + "getStandardChemPotentials": c_mu,
      SM + "scale": c_scale, TB + "scale": c_tscale, TB + "scaleM": c_tscaleM, TB + "empty": lambda ex, th, a, n: Bs("no_third_bodies"),
      PH + "temperature": lambda ex, th, a, n: rdT(ex), PH + "pressure": lambda ex, th, a, n: P, TP + "RT": lambda ex, th, a, n: mul(Rs("#GasConstant"), rdT(ex)), PH + "molarDensity": lambda ex, th, a, n: ctot,
      PH + "saveState": lambda ex, th, a, n: ex.wr(Loc(gS, []), rdT(ex), sort="R"), PH + "restoreState": lambda ex, th, a, n: setT(ex, ex.rd(Loc(gS, []), sort="R")),
      TP + "setState_TP": lambda ex, th, a, n: setT(ex, ex.term_of(*a[0])), BK + "assertDerivativesValid": lambda ex, th, a, n: None}
for q in list(CT):
    CT["virtual " + q] = CT[q]
    if q.startswith(PH): CT["virtual " + TP + q[len(PH):]] = CT[TP + q[len(PH):]] = CT[q]
    if q.startswith(KN): CT["virtual " + BK + q[len(KN):]] = CT[BK + q[len(KN):]] = CT[q]
size = {"this.%s.#len" % v: nR for v in ("m_rkcn", "m_kf0", "m_rfn", "m_ropf", "m_ropr", "m_ropnet", "m_concm", "m_delta_gibbs0", "m_dn", "m_perturb", "m_rbuf0", "m_rbuf1", "m_rbuf2")}; size.update({"this.%s.#len" % v: K for v in ("m_grt", "m_act_conc", "m_phys_conc", "m_sbuf0")})
nrv, nir = Is("this.m_revindex.#len"), Is("this.m_irrev.#len"); rv, ir = (lambda i, A=As("this.%s.[]" % v, "I"): at(A, i) for v in ("m_revindex", "m_irrev"))
irr = lambda r: exists(nir, lambda i: eq(ir(i), r)); isrev = lambda r: exists(nrv, lambda i: eq(rv(i), r))
part = [forall(nrv, lambda i: inR(rv(i))), forall(nir, lambda i: inR(ir(i))), forall(nrv, lambda i: forall(nrv, lambda h: implies(lt(i, h), lt(rv(i), rv(h))))), forall(nrv, lambda i: not_(irr(rv(i))))]
own = [forall(nR, lambda r: and_(le(IZERO, owner(r)), lt(owner(r), nE)))]
BASE = dict(this="Cantera::BulkKinetics", contracts=CT, mem={**size, "ghost_T": T}); pos_ = [lt(ZERO, T), lt(ZERO, rtol), lt(ZERO, ctot)]

def v_equilibrium(V):
    d0 = A("m_delta_gibbs0"); dn = A("m_dn"); RT = mul(Rs("#GasConstant"), T); D = As("arg0.[]")
    r = V.fn(BK + "applyEquilibriumConstants_ddT", requires=pos_ + part, **BASE)
    fac = lambda r: add(div(sub(dG(mul(T, add(ONE, rtol)), r), d0(r)), mul(RT, T, rtol)), sub(div(dn(r), T), div(d0(r), mul(RT, T))))
    x = rv(i_); inv = [le(IZERO, i_), lt(i_, nrv)]
    r.ensures("derivative_of_the_logarithm_of_the_equilibrium_constant", eq(r.postat("arg0.[]", x), mul(at(D, x), fac(x))), inv)
    r.ensures("irreversible_reactions_have_none", eq(r.postat("arg0.[]", r_), ZERO), [irr(r_)] + rr)
    r.ensures("state_restored", eq(r.post("ghost_T"), T)); r.nothrow(); r.frame(["this.m_sbuf0", "this.m_rbuf1", "this.m_state"])
def v_process(V):
    for w in "TP":
        r = V.fn(BK + "process_dd" + w, requires=own, contracts=CT, this=BASE["this"], mem={**BASE["mem"], "arg0.#len": nR}); inn = As("arg0.[]")
        r.ensures("rate_times_relative_derivative_of_its_rate_constant", eq(r.postat("arg1.[]", r_), mul(at(inn, r_), f("relative_d" + w, kf0(r_), rtol, r_))), rr)
        r.frame([]); r.frame([], roots=("arg0",), name="inputs_unchanged"); r.nothrow()
        # each query hands over its own rates
        src = {"getFwdRateConstants": "m_rfn", "getFwdRatesOfProgress": "m_ropf", "getRevRatesOfProgress": "m_ropr", "getNetRatesOfProgress": "m_ropnet"}
        upd = {v: As("current." + v) for v in ("m_rfn", "m_ropf", "m_ropr", "m_ropnet", "m_kf0")}
        def c_upd(ex, th, a, n):
            for v in upd: ex.st.mem[("this", v, "[]")] = upd[v]
        for g, v in src.items():
            if w == "T" and v in ("m_ropr", "m_ropnet"): continue
            r = V.fn(BK + g + "_dd" + w, requires=own + pos_, this=BASE["this"], mem=BASE["mem"], contracts={**CT, BK + "updateROP": c_upd, "virtual " + BK + "updateROP": c_upd})
            r.ensures("current_rate_times_relative_derivative", eq(r.postat("arg0.[]", r_), mul(at(upd[v], r_), f("relative_d" + w, at(upd["m_kf0"], r_), rtol, r_))), rr); r.nothrow()
def v_ddc(V):
    one = lambda r, c, x: ite(c, x, ZERO)
    def want(inn, m, r, ma, kf=None):
        law = add(div(mul(f("order_" + m, r), inn), ctot), ite(notb, one(r, hasT(r), div(inn, ctot)), ZERO)) if ma else ZERO
        k = kf if kf is not None else kf0(r)
        rate = one(r, hasF(r), mul(div(mul(at(As("this.m_concm.[]"), r), inn), ctot), f("relative_dM", k, rtol, r)))
        return add(law, ite(and_(notb, not_(Bs("this.m_jac_skip_falloff"))), rate, ZERO))
    notb = and_(not_(Bs("this.m_jac_skip_third_bodies")), not_(Bs("no_third_bodies")))
    excl = [not_(and_(hasT(r_), hasF(r_)))]; none = [implies(Bs("no_third_bodies"), and_(not_(hasT(r_)), not_(hasF(r_))))]
    for ma in (True, False):
        b = Bs("arg3") if ma else not_(Bs("arg3"))
        r = V.fn(BK + "process_ddC", name="process_ddC_%s" % ("law_of_mass_action" if ma else "rate_constant"), requires=own + pos_ + [b], this=BASE["this"], contracts={**CT, SM + "scale": lambda ex, th, a, n: c_scale(ex, Loc(("arg0",), []), a, n)}, mem={**BASE["mem"], "arg1.#len": nR})
        r.ensures("orders_and_third_body_concentration", eq(r.postat("arg2.[]", r_), want(at(As("arg1.[]"), r_), "arg0", r_, ma)), rr + excl + none)
        r.nothrow(); r.frame(["this.m_rbuf1"]); r.frame([], roots=("arg1",), name="inputs_unchanged")
    upd = {v: As("current." + v) for v in ("m_rfn", "m_ropf", "m_ropr", "m_ropnet", "m_kf0")}
    def c_upd(ex, th, a, n):
        for v in upd: ex.st.mem[("this", v, "[]")] = upd[v]
    def c_ddc(ex, th, a, n):
        # the verified contract of process_ddC
        m = (a[0][0] if isinstance(a[0][0], Loc) else ex.load(*a[0])).path[-1]; inn = ex.rdarr(vecp(ex, a[1]), "R"); p = ptr(ex, a[2]); o = ex.rdarr(p, "R"); w = ex.term_of(*a[3]) if len(a) > 3 else TRUE
        law = ite(w, IONE, IZERO)
        ex.st.mem[p] = array(lambda r: ite(inR(r), f("ddC_" + m, at(inn, r), law, r), at(o, r)))
        ex.st.mem[("this", "m_rbuf1", "[]")] = As("scratch.m_rbuf1")
    cts = {**CT, BK + "updateROP": c_upd, "virtual " + BK + "updateROP": c_upd, BK + "process_ddC": c_ddc}
    g = lambda m, v, law=IONE: f("ddC_" + m, at(upd[v], r_), law, r_)
    for q, w in (("getFwdRateConstants_ddC", g("m_reactantStoich", "m_rfn", IZERO)), ("getFwdRatesOfProgress_ddC", g("m_reactantStoich", "m_ropf")), ("getRevRatesOfProgress_ddC", g("m_revProductStoich", "m_ropr")),
                 ("getNetRatesOfProgress_ddC", sub(g("m_reactantStoich", "m_ropf"), g("m_revProductStoich", "m_ropr")))):
        r = V.fn(BK + q, requires=pos_, this=BASE["this"], mem=BASE["mem"], contracts=cts); r.ensures("derivative_of_the_current_rates", eq(r.postat("arg0.[]", r_), w), rr); r.nothrow()
    def c_proc(ex, th, a, n):
        i = ex.rdarr(vecp(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R"); ex.st.mem[p] = array(lambda r: ite(inR(r), f("process_ddT", at(i, r), r), at(o, r)))
    lnK = lambda r: f("d_ln_K_dT", r)
    def c_eq(ex, th, a, n):
        p = ptr(ex, a[0]); o = ex.rdarr(p, "R"); ex.st.mem[p] = array(lambda r: ite(inR(r), mul(at(o, r), lnK(r)), at(o, r))); ex.st.mem[("this", "m_rbuf1", "[]")] = As("scratch.m_rbuf1")
    cts = {**CT, BK + "updateROP": c_upd, "virtual " + BK + "updateROP": c_upd, BK + "process_ddT": c_proc, BK + "applyEquilibriumConstants_ddT": c_eq}
    h = lambda v: f("process_ddT", at(upd[v], r_), r_); rv_ = mul(at(upd["m_ropr"], r_), lnK(r_))
    for q, w in (("getRevRatesOfProgress_ddT", add(h("m_ropr"), rv_)), ("getNetRatesOfProgress_ddT", sub(h("m_ropnet"), rv_))):
        r = V.fn(BK + q, requires=pos_, this=BASE["this"], mem=BASE["mem"], contracts=cts); r.ensures("rate_constant_and_equilibrium_constant_parts", eq(r.postat("arg0.[]", r_), w), rr); r.nothrow()

def v_composition(V):
    """the two products handed to the matrix assembly: law of mass action, and third-body concentrations"""
    def c_der(gh):
        def h(ex, th, a, n):
            I_ = ex.rdarr(ptr(ex, a[-1]), "R"); ex.st.mem[("ghost_" + gh, "[]")] = I_
            if gh == "law": ex.st.mem[("ghost_conc", "[]")] = ex.rdarr(ptr(ex, a[0]), "R")
            t = ex.tmp()
            for v in ("law", "third"): ex.wr(t.f(v), IONE if v == gh else IZERO, sort="I")
            return t
        return h
    def c_op(plus):  # sums of the assembled matrices
        def h(ex, a, n):
            l, x = ex.evl(a[0]), ex.evl(a[1])
            for v in ("law", "third"):
                t = ex.rd(x.f(v), sort="I"); g = Loc(("ghost_" + v + "_parts",), []); ex.wr(g, add(ex.rd(g, sort="I"), t) if plus else t, sort="I")
            return l
        return h
    SMX = ("Eigen::SparseMatrix<double, 0, int>::", "Eigen::SparseMatrixBase<Eigen::SparseMatrix<double, 0, int>>::", "Eigen::SparseMatrixBase<Eigen::SparseMatrix<double, 0>>::")
    mass = lambda m, C, r: prodd(K, lambda k: mk("uf", ("cpow", at(C, k), f("order_" + m, k, r)), "R"))
    def c_mult(ex, th, a, n):
        C = ex.rdarr(ptr(ex, a[0]), "R"); p = ptr(ex, a[1]); o = ex.rdarr(p, "R"); ex.st.mem[p] = array(lambda r: ite(inR(r), mul(at(o, r), mass("stoich", C, r)), at(o, r)))
    def c_tb(ex, th, a, n):
        p, c = ptr(ex, a[0]), ptr(ex, a[1]); o, M = ex.rdarr(p, "R"), ex.rdarr(c, "R"); ex.st.mem[p] = array(lambda r: ite(hasT(r), mul(at(o, r), at(M, r)), at(o, r)))
    cts = {**CT, SM + "derivatives": c_der("law"), TB + "derivatives": c_der("third"), SM + "multiply": c_mult, TB + "multiply": c_tb, **{p + "operator=": c_op(False) for p in SMX}, **{p + "operator+=": c_op(True) for p in SMX}}
    for ddX in (True, False):
        r = V.fn(BK + "calculateCompositionDerivatives", name="calculateCompositionDerivatives_%s" % ("mole_fractions" if ddX else "concentrations"), requires=own + pos_ + [Bs("arg2") if ddX else not_(Bs("arg2")), forall(nR, lambda r: not_(and_(hasT(r), hasF(r)))), implies(Bs("no_third_bodies"), forall(nR, lambda r: not_(hasT(r))))], contracts=cts, this=BASE["this"], mem={**BASE["mem"], "arg1.#len": nR})
        x = at(As("arg1.[]"), r_); sc = mul(x, ctot) if ddX else x; cmr = at(As("this.m_concm.[]"), r_)
        r.ensures("law_of_mass_action_part", eq(r.postat("ghost_law.[]", r_), ite(hasT(r_), mul(sc, cmr), sc)), rr)
        r.ensures("third_bodies_unless_skipped", eq(r.post("ghost_third_parts", "I"), ite(or_(Bs("this.m_jac_skip_third_bodies"), Bs("no_third_bodies")), IZERO, IONE))); r.ensures("law_of_mass_action_once", eq(r.post("ghost_law_parts", "I"), IONE))
        rop = mul(sc, mass("stoich", As("this.m_act_conc.[]"), r_))
        r.ensures("third_body_part", eq(r.postat("ghost_third.[]", r_), ite(hasF(r_), ite(Bs("this.m_jac_skip_falloff"), ZERO, mul(rop, f("relative_dM", kf0(r_), rtol, r_))), rop)), rr + [not_(Bs("this.m_jac_skip_third_bodies")), not_(Bs("no_third_bodies"))])
        r.nothrow(); r.frame(["this.m_rbuf1", "this.m_rbuf2"])
