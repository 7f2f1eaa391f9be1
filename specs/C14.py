"""C14: gas transport: mixing rules, diffusion fluxes, and results that belong to the current state"""
from engine.spec import *
from engine.exec import Loc
from .phase_env import Env
TUS = ["src/transport/GasTransport.cpp", "src/transport/MixTransport.cpp", "src/transport/MultiTransport.cpp", "src/transport/TransportFactory.cpp", "src/thermo/Phase.cpp"]
DRIVER = "C14.cpp"
BOUND = "gases of 1-9 species drawn from the shipped mechanisms with the mixture-averaged, unity-Lewis-number and multicomponent models (both fitting modes): interleaved state changes, added species, changed polynomials and queries; random gradient fields, 1-3 dimensions, strides larger than the species count"
G = "Cantera::GasTransport"; MX = "Cantera::MixTransport"; UL = "Cantera::UnityLewisTransport"; MU = "Cantera::MultiTransport"; P = "Cantera::Phase::"
HINT_FNS = [G + "::update_T", MX + "::update_T", MX + "::update_C"]
ASSUME = ["element (i,j) of a matrix object is identified by the pair (i,j) (unique flat index: C13)", "DenseMatrix product and solve per LAPACK/BLAS", "pressure, density and cp of the gas are those of C02/C03",
          "fits of collision integrals to polynomials: an input here (their coefficients are arbitrary in the proofs)",
          "exact arithmetic: species viscosities, conductivities, binary coefficients are nonzero; sums of X/D over other species are positive when there is more than one species",
          "multicomponent L-matrix entries are covered by the bounded driver (history independence) and by the cache contracts only"]
e = Env("this.m_thermo.*"); K = Is("this.m_nsp"); TT = e.T; T = Rs("this.m_temp"); X = e.X; W = e.W; Pn = Rs("P_now"); Tiny = Rs("#Tiny")
mw = As("this.m_mw.[]"); x_ = As("this.m_molefracs.[]"); x = lambda i: at(x_, i); m = lambda i: at(mw, i)
def A2(ex, t, a, n): return Loc(t.path + ("el", "[]", "[]"), tuple(t.idx) + (ex.term_of(*a[0]), ex.term_of(*a[1])))
mat = lambda nm: (lambda i, j: at(As("this.%s.el.[].[]" % nm, dim=2), i, j))
AC = {"Cantera::Array2D::operator()": A2}; nop = lambda ex, th, a, n: None
Cp = {"virtual " + P + "pressure": lambda ex, th, a, n: Pn, "virtual Cantera::ThermoPhase::pressure": lambda ex, th, a, n: Pn}
tv = As("this.m_polytempvec.[]"); lg, s_, q_ = Rs("this.m_logt"), Rs("this.m_sqrt_t"), Rs("this.m_t14")
FL = {nm: Bs("this." + nm) for nm in ("m_visc_ok", "m_spvisc_ok", "m_viscwt_ok", "m_bindiff_ok", "m_spcond_ok", "m_condmix_ok")}
CK = eq(Is("this.m_mode"), I(10)); mode = {"": [not_(CK)], "(CK)": [CK]}
k, j, i_ = Is("k"), Is("j"), Is("i"); kk = [lt(k, K)]; jj = [lt(j, K)]; one = [le(IONE, K)]
off = lambda r, *nms: and_(*[not_(r.post("this." + nm, "B")) for nm in nms])
def poly(c, n): return addm([mul(at(tv, a), c(a)) for a in range(n)])
def addm(l):
    z = l[0]
    for y in l[1:]: z = add(z, y)
    return z
def both(q, f): return {q: f, "virtual " + q: f}
def setflag(nms): 
    def f(ex, th, a, n):
        for nm in nms: ex.wr(th.f(nm), FALSE, sort="B")
    return f
vis, sqv, cond = (As("this.%s.[]" % q) for q in ("m_visc", "m_sqvisc", "m_cond")); mem0 = dict(e.mem); mem0.update({"this.%s.#len" % q: K for q in ("m_visc", "m_sqvisc", "m_cond", "m_molefracs", "m_spwork", "m_mw")}); mem0["this.m_polytempvec.#len"] = I(5)
mu = lambda i: mk("uf", ("mu_species", T, lift(i)), "R"); la = lambda i: mk("uf", ("lambda_species", T, lift(i)), "R"); D = lambda i, j_: mk("uf", ("binary_D", T, lift(i), lift(j_)), "R"); phi = lambda i, j_: mk("uf", ("wilke_phi", T, lift(i), lift(j_)), "R")

def v_temperature(V):
    """update_T and update_C: after them nothing marked valid belongs to another temperature, composition or species set"""
    same = [eq(e.K, K)]; keys = [lt(ZERO, TT), lt(Rs("#Undef"), ZERO)]
    def init(ex, th, a, n): ex.wr(th.f("m_nsp"), e.K, sort="I")
    CI = {q + c + "::init": init for q in ("", "virtual ") for c in (G, MX, MU)}
    F = lambda q, cls, nm, rq, ct: V.fn(q, this=cls, mem=mem0, requires=rq + keys, contracts=dict(CI, **ct), name=nm)
    gfl = ("m_visc_ok", "m_spvisc_ok", "m_viscwt_ok", "m_bindiff_ok")
    r = F(G + "::update_T", G, "GasTransport::update_T(same)", same + [eq(TT, T)], {}); r.frame([], name="nothing_recomputed_at_the_same_state")
    for tag, rq in (("(temperature)", same + [ne(TT, T)]), ("(species added)", [ne(e.K, K)])):
        r = F(G + "::update_T", G, "GasTransport::update_T" + tag, rq, {})
        r.ensures("cache_key", and_(eq(r.post("this.m_temp"), TT), eq(r.post("this.m_nsp", "I"), e.K)))
        r.ensures("nothing_kept_from_other_states", off(r, *gfl))
        pv = r.post("this.m_polytempvec.[]"); r.ensures("powers_of_log_T", and_(*[eq(at(pv, a), powi(log(TT), a)) for a in range(5)]))
        r.ensures("temperature_terms", and_(eq(r.post("this.m_logt"), log(TT)), eq(r.post("this.m_sqrt_t"), pw(TT, Fr(1, 2))), eq(mul(r.post("this.m_t14"), r.post("this.m_t14")), pw(TT, Fr(1, 2))), eq(r.post("this.m_kbt"), mul(Rs("#Boltzmann"), TT))))
        r.frame(["this." + q for q in gfl + ("m_temp", "m_nsp", "m_polytempvec", "m_logt", "m_sqrt_t", "m_t14", "m_kbt")])
    def c_gt(ex, th, a, n):
        ex.wr(th.f("m_temp"), TT, sort="R"); ex.wr(th.f("m_nsp"), e.K, sort="I")
        for q in gfl: ex.wr(th.f(q), FALSE, sort="B")
    for cls, extra in ((MX, ("m_spcond_ok", "m_condmix_ok")), (MU, ("m_lmatrix_soln_ok", "m_l0000_ok"))):
        sh = cls[9:]
        r = F(cls + "::update_T", cls, sh + "::update_T(same)", same + [eq(TT, T)], {G + "::update_T": c_gt}); r.frame([], name="nothing_recomputed_at_the_same_state")
        for tag, rq in (("(temperature)", same + [ne(TT, T)]), ("(species added)", [ne(e.K, K)])):
            r = F(cls + "::update_T", cls, sh + "::update_T" + tag, rq, {G + "::update_T": c_gt}); r.ensures("cache_key", eq(r.post("this.m_temp"), TT)); r.ensures("nothing_kept_from_other_states", off(r, *(gfl + extra)))
            if cls == MU: r.ensures("thermal_properties_not_kept", eq(r.post("this.m_thermal_tlast"), Rs("#Undef")))
    r = V.fn(MX + "::update_C", this=MX, mem=mem0, requires=same); r.ensures("current_mole_fractions", eq(at(r.post("this.m_molefracs.[]"), k), rmax(Tiny, X(k))), kk); r.ensures("nothing_kept_from_other_compositions", off(r, "m_visc_ok", "m_condmix_ok")); r.frame(["this.m_visc_ok", "this.m_condmix_ok", "this.m_molefracs"])
    xl = As("this.m_molefracs_last.[]"); m1 = dict(mem0); m1["this.m_molefracs_last.#len"] = K
    for tag, rq in (("(same)", [forall(K, lambda i: eq(at(xl, i), rmax(Tiny, X(i))))]), ("(changed)", [exists(K, lambda i: ne(at(xl, i), rmax(Tiny, X(i))))])):
        r = V.fn(MU + "::update_C", this=MU, mem=m1, requires=same + rq, name="MultiTransport::update_C" + tag); r.ensures("current_mole_fractions", eq(at(r.post("this.m_molefracs.[]"), k), rmax(Tiny, X(k))), kk)
        if tag == "(changed)": r.ensures("nothing_kept_from_other_compositions", off(r, "m_l0000_ok", "m_lmatrix_soln_ok"))
        r.frame(["this.m_molefracs"] + (["this.m_l0000_ok", "this.m_lmatrix_soln_ok"] if tag == "(changed)" else []))
    r = V.fn(G + "::invalidateCache", this=G); r.ensures("nothing_kept", and_(off(r, *gfl), eq(r.post("this.m_temp"), Rs("#Undef")))); r.frame(["this." + q for q in gfl + ("m_temp",)])
    inv = {"virtual " + G + "::invalidateCache": lambda ex, th, a, n: (ex.wr(th.f("m_temp"), Rs("#Undef"), sort="R"), [ex.wr(th.f(q), FALSE, sort="B") for q in gfl])[0], "Cantera::Transport::checkSpeciesIndex": nop}
    for nm, ar in (("setViscosityPolynomial", "m_visccoeffs"), ("setConductivityPolynomial", "m_condcoeffs")):
        for tag, rq in mode.items():
            r = V.fn(G + "::" + nm, this=G, contracts=inv, requires=rq, name="GasTransport::" + nm + tag); r.ensures("cached_results_dropped", and_(off(r, *gfl), eq(r.post("this.m_temp"), Rs("#Undef"))))
            A = r.post("this.%s.[].[]" % ar); a = Is("a"); r.ensures("stored", eq(at(A, Is("arg0"), a), at(As("arg1.[]"), a)), [lt(a, I(4 if tag else 5))]); r.frame(["this." + q for q in gfl + ("m_temp", ar)])
def powi(t, n):
    z = ONE
    for _ in range(n): z = mul(z, t)
    return z

def v_species(V):
    """properties of the pure species, pairs, and the Wilke factors"""
    up = {q + G + "::update_T": nop for q in ("", "virtual ")}
    for tag, rq in mode.items():
        n = 4 if tag else 5; vc = As("this.m_visccoeffs.[].[]", dim=2); cc = As("this.m_condcoeffs.[].[]", dim=2); dc = As("this.m_diffcoeffs.[].[]", dim=2)
        F = lambda q, cls=G, ct={}, extra=[], nm=None: V.fn(q, this=cls, mem=mem0, contracts=dict(AC, **up, **ct), requires=one + rq + extra, name=(nm or q[9:]) + tag)
        r = F(G + "::updateSpeciesViscosities"); pv = poly(lambda a: at(vc, k, a), n); v = r.post("this.m_visc.[]"); q = r.post("this.m_sqvisc.[]")
        r.ensures("polynomial_fit", eq(at(v, k), exp(pv) if tag else mul(mul(q_, q_), mul(pv, pv))), kk); r.ensures("marked_valid", r.post("this.m_spvisc_ok", "B"))
        r.ensures("square_root_belongs_to_it", eq(at(q, k), pw(exp(pv), Fr(1, 2)) if tag else mul(q_, pv)), kk)
        r.frame(["this.m_visc", "this.m_sqvisc", "this.m_spvisc_ok"])
        r = F(MX + "::updateCond_T", MX); pc = poly(lambda a: at(cc, k, a), n); r.ensures("polynomial_fit", eq(at(r.post("this.m_cond.[]"), k), exp(pc) if tag else mul(s_, pc)), kk)
        r.ensures("flags", and_(r.post("this.m_spcond_ok", "B"), off(r, "m_condmix_ok"))); r.frame(["this.m_cond", "this.m_spcond_ok", "this.m_condmix_ok"])
        r = F(G + "::updateDiff_T"); B_ = r.post("this.m_bdiff.el.[].[]"); r.ensures("symmetric", eq(at(B_, j, k), at(B_, k, j)), kk + jj); r.ensures("marked_valid", r.post("this.m_bindiff_ok", "B"))
        idx = add(sub(k, j), summ(j, lambda a: sub(K, a))); pd = poly(lambda a: at(dc, idx, a), n)
        r.ensures("polynomial_fit_of_the_pair", eq(at(B_, j, k), exp(pd) if tag else mul(T, s_, pd)), kk + [le(j, k), le(IZERO, j)])
        r.frame(["this.m_bdiff", "this.m_bindiff_ok"])
    # Wilke factors, from the weight ratios stored at construction
    def init_post(i, j_): return and_()
    wr, w1 = mat("m_wratjk"), mat("m_wratkj1"); sq = lambda t: pw(t, Fr(1, 2))
    tri = [forall(K, lambda b: forall(b, lambda a: eq(wr(b, a), sq(sq(div(m(a), m(b))))))), forall(K, lambda a: eq(wr(a, a), ONE)), forall(K, lambda a: eq(w1(a, a), sq(num(Fr(2))))), forall(K, lambda b: forall(b, lambda a: eq(w1(a, b), sq(add(ONE, div(m(b), m(a)))))))]
    posm = [forall(K, lambda a: lt(ZERO, m(a)))]
    pos = [forall(K, lambda a: lt(ZERO, at(sqv, a))), forall(K, lambda a: eq(at(vis, a), mul(at(sqv, a), at(sqv, a))))]
    up2 = dict(AC, **up); up2.update(both(G + "::updateSpeciesViscosities", nop))
    r = V.fn(G + "::updateViscosity_T", this=G, mem=mem0, contracts=up2, requires=one + posm + pos + tri)
    ph = r.post("this.m_phi.el.[].[]"); eta = lambda a: at(sqv, a)
    def wilke(a, b): f = add(ONE, mul(div(eta(a), eta(b)), sq(sq(div(m(b), m(a)))))); return div(mul(f, f), mul(sq(num(Fr(8))), sq(add(ONE, div(m(a), m(b))))))
    r.ensures("wilke_factor_lower", eq(at(ph, k, j), wilke(k, j)), kk + [lt(j, k), le(IZERO, j)])
    r.ensures("wilke_factor_diagonal", eq(at(ph, k, k), ONE), kk)
    r.ensures("wilke_factor_upper_from_lower", eq(at(ph, j, k), mul(at(ph, k, j), div(mul(eta(j), eta(j), m(k)), mul(eta(k), eta(k), m(j))))), kk + [lt(j, k), le(IZERO, j)])
    r.ensures("marked_valid", r.post("this.m_viscwt_ok", "B")); r.frame(["this.m_phi", "this.m_viscwt_ok"])
    for nm, f in (("set", None),):
        r = V.fn(G + "::updateViscosity_T", this=G, mem=mem0, contracts=dict(up2, **both(G + "::updateSpeciesViscosities", lambda ex, th, a, n: ex.wr(th.f("m_spvisc_ok"), TRUE, sort="B"))), requires=one, name="GasTransport::updateViscosity_T(flags)")
        r.ensures("uses_current_species_viscosities", r.post("this.m_spvisc_ok", "B"))
    # weight ratios stored at (re)initialisation
    th = {q + G + "::" + f: nop for q in ("", "virtual ") for f in ("setupCollisionParameters", "setupCollisionIntegral")}; th["Cantera::DenseMatrix::resize"] = nop; th["virtual Cantera::DenseMatrix::resize"] = nop; th["virtual Cantera::Array2D::resize"] = nop
    r = V.fn(G + "::init", this=G, contracts=dict(AC, **th))
    wrp = r.post("this.m_wratjk.el.[].[]"); w1p = r.post("this.m_wratkj1.el.[].[]"); M0 = As("arg0.m_molwts.[]"); a, b = Is("a"), Is("b"); hy = [lt(IZERO, Is("arg0.m_kk")), le(IZERO, a), lt(a, b), lt(b, Is("arg0.m_kk"))]
    r.ensures("species_count_and_weights", eq(r.post("this.m_nsp", "I"), Is("arg0.m_kk"))); r.ensures("molecular_weights", eq(at(r.post("this.m_mw.[]"), a), at(M0, a)), hy)
    r.ensures("weight_ratio_upper", eq(at(wrp, a, b), sq(div(at(M0, a), at(M0, b)))), hy); r.ensures("weight_ratio_lower", eq(at(wrp, b, a), sq(sq(div(at(M0, a), at(M0, b))))), hy)
    r.ensures("weight_sum_ratio", eq(at(w1p, a, b), sq(add(ONE, div(at(M0, b), at(M0, a))))), hy)

def v_mixture(V):
    """mixture properties as functions of the species values, at the current state"""
    xc = lambda i: at(As("x_clipped.[]"), i)   # what update_C stores: max(Tiny, X_k), proved there
    up = {}
    def uT(ex, th, a, n): ex.wr(th.f("m_temp"), TT, sort="R"); [ex.wr(th.f(q), FALSE, sort="B") for q in ("m_visc_ok", "m_spvisc_ok", "m_viscwt_ok", "m_bindiff_ok", "m_spcond_ok", "m_condmix_ok")]; ex.wr(Loc(("ghost_t", "f"), []), TRUE, sort="B")
    def uC(ex, th, a, n): ex.wr(th.f("m_visc_ok"), FALSE, sort="B"); ex.wr(th.f("m_condmix_ok"), FALSE, sort="B"); ex.st.mem[("this", "m_molefracs", "[]")] = lam((Is("q"),), xc(Is("q"))); ex.wr(Loc(("ghost_c", "f"), []), TRUE, sort="B")
    for c in (G, MX): up.update(both(c + "::update_T", uT)); up.update(both(c + "::update_C", uC))

    q, q2 = Is("q"), Is("q2")
    def ghost2(nm, f): return lambda ex: ex.st.mem.__setitem__(("this", nm, "el", "[]", "[]"), lam((q, q2), f(q, q2)))
    def uV(ex, th, a, n): ghost2("m_phi", phi)(ex); ex.st.mem[("this", "m_visc", "[]")] = lam((q,), mu(q)); ex.wr(th.f("m_viscwt_ok"), TRUE, sort="B"); ex.wr(th.f("m_spvisc_ok"), TRUE, sort="B")
    def uS(ex, th, a, n): ex.st.mem[("this", "m_visc", "[]")] = lam((q,), mu(q)); ex.wr(th.f("m_spvisc_ok"), TRUE, sort="B")
    def uD(ex, th, a, n): ghost2("m_bdiff", D)(ex); ex.wr(th.f("m_bindiff_ok"), TRUE, sort="B")
    def uL(ex, th, a, n): ex.st.mem[("this", "m_cond", "[]")] = lam((q,), la(q)); ex.wr(th.f("m_spcond_ok"), TRUE, sort="B"); ex.wr(th.f("m_condmix_ok"), FALSE, sort="B")
    def mult(ex, th, a, n):
        A = a[0][0] if isinstance(a[0][0], Loc) else ex.load(*a[0]); m_ = ex.rdarr(A.path + ("el", "[]", "[]"), "R"); b = ex.load(*a[1]); bb = ex.rdarr(b.loc.path + ("[]",), "R")
        ex.map_range(ex.load(*a[2]), K, "double", lambda suf, so, rel, bs, tt: summ(K, lambda z: mul(sel(m_, (rel, z)), sel(bb, (z,)))))
    for c in (G, MX): up.update(both(c + "::updateViscosity_T", uV)); up.update(both(c + "::updateSpeciesViscosities", uS)); up.update(both(c + "::updateDiff_T", uD)); up.update(both(c + "::updateCond_T", uL))
    up["Cantera::multiply"] = mult; up.update(both(P + "density", lambda ex, th, a, n: e.rho)); up.update(both(P + "molarDensity", lambda ex, th, a, n: div(e.rho, e.mmw))); up.update(AC); up.update(Cp)
    T_ = [forall(K, lambda i: lt(ZERO, xc(i))), eq(e.K, K)] + e.base + e.comp + e.ynn + [lt(ZERO, Tiny), lt(ZERO, TT), lt(ZERO, Pn), forall(K, lambda i: lt(ZERO, mu(i))), forall(K, lambda i: lt(ZERO, la(i)))]
    cur = lambda r: r.ensures("state_checked_on_entry", and_(eq(r.post("this.m_temp"), TT), r.post("ghost_t.f", "B"), r.post("ghost_c.f", "B")))
    F = lambda f, cls=MX, rq=[], nm=None, **kw: V.fn(f, this=cls, mem=mem0, contracts=up, requires=T_ + one + rq, name=nm or f[9:], **kw)
    r = F(G + "::viscosity"); cur(r); r.ensures("wilke_mixing_rule", eq(r.result, summ(K, lambda i: div(mul(xc(i), mu(i)), summ(K, lambda z: mul(phi(i, z), xc(z)))))))
    r.frame(["this.m_viscmix", "this.m_spwork", "this.m_molefracs", "this.m_visc", "this.m_phi", "this.m_temp", "this.m_cond", "this.m_lambda", "this.m_bdiff", "ghost_t", "ghost_c"] + ["this." + z for z in FL])
    r = F(MX + "::thermalConductivity"); cur(r); r.ensures("mixing_rule", eq(r.result, mul(num(Fr(1, 2)), add(summ(K, lambda i: mul(xc(i), la(i))), div(ONE, summ(K, lambda i: div(xc(i), la(i))))))))
    r.ensures("stored_and_marked", and_(eq(r.post("this.m_lambda"), r.result), r.post("this.m_condmix_ok", "B")))
    r = F(G + "::getSpeciesViscosities"); r.ensures("species_values_at_current_temperature", eq(at(r.post("arg0.[]"), k), mu(k)), kk); r.ensures("state_checked_on_entry", r.post("ghost_t.f", "B"))
    ld = Is("arg0"); ix, jx = Is("ix"), Is("jx")
    r = F(G + "::getBinaryDiffCoeffs", rq=[lt(ld, K)], nm="getBinaryDiffCoeffs(small)"); r.throws_iff("rejected_iff_leading_dimension_too_small", lt(ld, K))
    oth = lambda kx, f: sub(summ(K, f), f(kx))
    d = lambda r: at(r.post("arg0.[]"), k); many = [lt(IONE, K), ne(K, IONE)]; Spos = lambda f: [forall(K, lambda a: lt(ZERO, oth(a, f(a))))]
    Xd = lambda a: (lambda z: div(xc(z), D(z, a))); Dpos = [forall(K, lambda a: forall(K, lambda b: lt(ZERO, D(a, b)))), forall(K, lambda a: forall(K, lambda b: eq(D(a, b), D(b, a))))]
    for nm, val in (("getMixDiffCoeffs", lambda k: div(sub(e.mmw, mul(xc(k), m(k))), mul(Pn, e.mmw, oth(k, Xd(k))))), ("getMixDiffCoeffsMole", lambda k: div(sub(ONE, xc(k)), mul(Pn, oth(k, Xd(k))))),
                    ("getMixDiffCoeffsMass", lambda k: div(ONE, add(mul(Pn, oth(k, lambda z: div(xc(z), D(k, z)))), mul(Pn, div(xc(k), sub(e.mmw, mul(m(k), xc(k)))), oth(k, lambda z: div(mul(xc(z), m(z)), D(k, z)))))))):
        r = F(G + "::" + nm, rq=many + Dpos + (Spos(Xd) if nm[-4:] != "Mass" else []), nm=nm, invariants={(nm, 0): lambda S, val=val: forall(S("k"), lambda a: eq(at(S("arg0.[]"), a), val(a)))} if nm[-4:] != "Mass" else {}); cur(r); r.ensures("mixture_rule", eq(d(r), val(k)), kk + [le(IZERO, k)])
        r.frame(["arg0", "this.m_molefracs", "this.m_temp", "this.m_bdiff", "this.m_visc", "this.m_phi", "this.m_cond", "ghost_t", "ghost_c"] + ["this." + z for z in FL])
        r = F(G + "::" + nm, rq=[eq(K, IONE)], nm=nm + "(one species)"); r.ensures("self_diffusion", eq(at(r.post("arg0.[]"), IZERO), div(D(IZERO, IZERO), Pn)))
    # fluxes and mobilities from the coefficients
    dm = As("D_mix_now"); ndim, ldx, gX, ldf = Is("arg0"), Is("arg2"), As("arg3.[]"), Is("arg4")
    def gm(ex, th, a, n): ex.map_range(ex.load(*a[0]), K, "double", lambda suf, so, rel, bs, tt: at(dm, rel)); ex.wr(th.f("m_temp"), TT, sort="R")
    up3 = dict(up); [up3.update(both(c + "::getMixDiffCoeffs", gm)) for c in (G, MX, UL)]
    r = V.fn(MX + "::getMobilities", this=MX, mem=mem0, contracts=up3, requires=T_ + one); r.ensures("einstein_relation", eq(at(r.post("arg0.[]"), k), mul(div(Rs("#ElectronCharge"), mul(Rs("#Boltzmann"), TT)), at(dm, k))), kk)
    r = V.fn(MX + "::getThermalDiffCoeffs", this=MX, mem=mem0, contracts=up3, requires=T_ + one); r.ensures("none", eq(at(r.post("arg0.[]"), k), ZERO), kk)
    rhon = div(e.rho, e.mmw); raw = lambda n_, k_: mul(num(-1), rhon, at(e.W, k_), at(dm, k_), at(gX, add(mul(n_, ldx), k_)))
    want = lambda n_, k_: sub(raw(n_, k_), mul(at(e.Y, k_), summ(K, lambda z: raw(n_, z))))
    n_ = Is("n")
    default = V.default_args
    for cls in (MX, UL):
        r = V.fn(MX + "::getSpeciesFluxes", this=cls, mem=mem0, contracts=up3, args=lambda ex, fd: [(I(1), fd['params'][0]['t'])] + default(ex, fd)[1:], requires=T_ + one, name=cls[9:] + "::getSpeciesFluxes(1-D)")
        r.ensures("corrected_flux", eq(at(r.post("arg5.[]"), k), want(IZERO, k)), kk)
    V.lemma("corrected_fluxes_sum_to_zero_for_normalised_Y", [], eq(summ(K, lambda z: want(n_, z)), mul(summ(K, lambda z: raw(n_, z)), sub(ONE, summ(K, lambda z: at(e.Y, z))))))
    cp_, dens = Rs("cp_now"), e.rho
    up4 = dict(up3); up4.update(both("Cantera::ThermoPhase::cp_mass", lambda ex, th, a, n: cp_)); [up4.update(both(c + "::thermalConductivity", lambda ex, th, a, n: Rs("lambda_now"))) for c in (MX, UL)]
    for f in ("getMixDiffCoeffs", "getMixDiffCoeffsMass"):
        c4 = {z: y for z, y in up4.items() if not z.endswith("::getMixDiffCoeffs")}
        r = V.fn(UL + "::" + f, this=UL, mem=mem0, contracts=c4, requires=T_ + one + [lt(ZERO, cp_)]); r.ensures("thermal_diffusivity_for_every_species", eq(at(r.post("arg0.[]"), k), div(Rs("lambda_now"), mul(e.rho, cp_))), kk)
    r = V.fn(UL + "::getMixDiffCoeffsMole", this=UL, mem=mem0); r.throws_iff("not_provided", TRUE)

def v_multi(V):
    """multicomponent transport: what is recomputed when, and how results are formed from the solution"""
    rhoY = e.rho; st = lambda nm: (lambda ex, th, a, n: ex.wr(Loc(("ghost_" + nm, "f"), []), TRUE, sort="B"))
    a_, b_ = As("this.m_a.[]"), As("this.m_b.[]"); mm = dict(mem0); mm.update({"this.m_a.#len": mul(num(3), K) if False else add(K, K, K), "this.m_b.#len": add(K, K, K), "this.m_molefracs_last.#len": K, "this.m_cinternal.#len": K, "this.m_rotrelax.#len": K, "this.m_zrot.#len": K, "this.m_eps.#len": K, "this.m_sqrt_eps_k.#len": K, "this.m_frot_298.#len": K})
    base = [eq(e.K, K), lt(ZERO, TT)] + one
    xm = lambda i: at(As("x_clipped.[]"), i)
    def uC(ex, th, a, n): ex.st.mem[("this", "m_molefracs", "[]")] = lam((Is("q"),), xm(Is("q"))); st("c")(ex, th, a, n)
    ct = dict(AC); ct.update(both(MU + "::updateThermal_T", st("t"))); ct.update(both(MU + "::update_C", uC)); ct.update(both(MU + "::hasInternalModes", lambda ex, th, a, n: lt(Rs("#Min_C_Internal"), at(As("this.m_cinternal.[]"), ex.term_of(*a[0])))))
    for z in ("0000", "0010", "0001", "1000", "1010", "1001", "0100", "0110", "0101"): ct.update(both(MU + "::eval_L" + z, st("L" + z)))
    ct.update(both("Cantera::DenseMatrix::resize", nop))
    def solve(ex, th, a, n): ex.map_range(ex.load(*a[1]), add(K, K, K), "double", lambda suf, so, rel, bs, tt: at(As("L_solution"), rel)); ex.wr(Loc(("ghost_solve", "f"), []), TRUE, sort="B")
    ct["Cantera::solve"] = solve
    F = lambda f, rq=[], nm=None, c=None, **kw: V.fn(MU + "::" + f, this=MU, mem=mm, contracts=c or ct, requires=base + rq, name="MultiTransport::" + (nm or f), **kw)
    ok = Bs("this.m_lmatrix_soln_ok")
    r = F("solveLMatrixEquation", [ok], "solveLMatrixEquation(valid)"); r.ensures("state_checked_first", and_(r.post("ghost_t.f", "B"), r.post("ghost_c.f", "B"))); r.frame(["this.m_molefracs", "ghost_t", "ghost_c"], name="nothing_recomputed")
    r = F("solveLMatrixEquation", [not_(ok)]); B_ = r.post("this.m_b.[]"); ci = at(As("this.m_cinternal.[]"), k)
    r.ensures("all_blocks_evaluated", and_(*[r.post("ghost_%s.f" % z, "B") for z in ("t", "c", "solve", "L0000", "L0010", "L0001", "L1000", "L1010", "L1001", "L0100", "L0110", "L0101")]))
    r.ensures("right_hand_side", and_(eq(at(B_, k), ZERO), eq(at(B_, add(k, K)), xm(k)), eq(at(B_, add(k, K, K)), ite(lt(Rs("#Min_C_Internal"), ci), xm(k), ZERO))), kk + [le(IZERO, k)])
    r.ensures("solution_stored", eq(at(r.post("this.m_a.[]"), k), at(As("L_solution"), k)), [lt(k, add(K, K, K)), le(IZERO, k)]); r.ensures("composition_of_the_solution_remembered", eq(at(r.post("this.m_molefracs_last.[]"), k), xm(k)), kk + [le(IZERO, k)])
    r.ensures("flags", and_(r.post("this.m_lmatrix_soln_ok", "B"), not_(r.post("this.m_l0000_ok", "B"))))
    c2 = dict(ct); c2.update(both(MU + "::solveLMatrixEquation", st("s")))
    r = F("thermalConductivity", c=c2); r.ensures("sum_over_energy_blocks", eq(r.result, mul(num(-4), summ(add(K, K), lambda z: mul(at(b_, add(z, K)), at(a_, add(z, K))))))); r.ensures("system_solved_for_current_state", r.post("ghost_s.f", "B"))
    r = F("getThermalDiffCoeffs", c=c2); r.ensures("from_the_solution", eq(at(r.post("arg0.[]"), k), div(mul(num(Fr(8, 5)), m(k), x(k), at(a_, k)), Rs("#GasConstant"))), kk + [le(IZERO, k)]); r.ensures("system_solved_for_current_state", r.post("ghost_s.f", "B"))
    r = F("invalidateCache", c=dict(ct, **both(G + "::invalidateCache", st("g")))); r.ensures("nothing_kept", and_(eq(r.post("this.m_thermal_tlast"), Rs("#Undef")), off(r, "m_l0000_ok", "m_lmatrix_soln_ok"), r.post("ghost_g.f", "B")))
    # temperature-dependent properties
    def uSV(ex, th, a, n): ex.st.mem[("this", "m_visc", "[]")] = lam((Is("q"),), mu(Is("q")))
    def uDf(ex, th, a, n): ex.st.mem[("this", "m_bdiff", "el", "[]", "[]")] = lam((Is("q"), Is("q2")), D(Is("q"), Is("q2")))
    c3 = dict(ct); c3.update(both(MU + "::update_T", lambda ex, th, a, n: ex.wr(th.f("m_temp"), TT, sort="R"))); c3.update(both(G + "::updateSpeciesViscosities", uSV)); c3.update(both(G + "::updateDiff_T", uDf)); del c3[MU + "::updateThermal_T"], c3["virtual " + MU + "::updateThermal_T"]
    c3.update({q_ + "Cantera::ThermoPhase::getCp_R_ref": (lambda ex, th, a, n: ex.map_range(ex.load(*a[0]), K, "double", lambda suf, so, rel, bs, tt: at(As("cp_R_now"), rel))) for q_ in ("", "virtual ")})
    tl = Rs("this.m_thermal_tlast")
    r = F("updateThermal_T", [eq(tl, TT)], "updateThermal_T(same)", c=c3); r.frame(["this.m_temp"], name="nothing_recomputed_at_the_same_temperature")
    for tag, rq in mode.items():
        r = F("updateThermal_T", [ne(tl, TT)] + rq, "updateThermal_T" + tag, c=c3)
        r.ensures("cache_key", eq(r.post("this.m_thermal_tlast"), TT)); r.ensures("internal_heat_capacity", eq(at(r.post("this.m_cinternal.[]"), k), sub(at(As("cp_R_now"), k), num(Fr(5, 2)))), kk + [le(IZERO, k)])
        for z in ("astar", "bstar", "cstar"):
            A = r.post("this.m_%s.el.[].[]" % z); r.ensures(z + "_symmetric", eq(at(A, j, k), at(A, k, j)), kk + jj + [le(IZERO, k), le(IZERO, j)])
        A = r.post("this.m_astar.el.[].[]"); BL = r.post("this.m_bdiff_L.el.[].[]")
        r.ensures("self_diffusion_in_the_L_matrix_copy", eq(at(BL, k, k), div(mul(num(Fr(6, 5)), Rs("#GasConstant"), TT, mu(k), at(A, k, k)), m(k))), kk + [le(IZERO, k)])
        r.ensures("binary_values_elsewhere", eq(at(BL, j, k), D(j, k)), kk + jj + [le(IZERO, k), le(IZERO, j), ne(j, k)])
        r.ensures("binary_coefficients_left_as_they_are", eq(at(r.post("this.m_bdiff.el.[].[]"), j, k), D(j, k)), kk + jj + [le(IZERO, k), le(IZERO, j)])
