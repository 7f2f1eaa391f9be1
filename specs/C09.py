"""C09: third-body concentrations are the efficiency-weighted sums"""
from engine.spec import *
TUS = ["src/kinetics/BulkKinetics.cpp", "src/kinetics/Reaction.cpp"]
DRIVER = "C09.cpp"
BOUND = "random mechanisms (2-9 species, 1-14 reactions, third bodies with any default and listed efficiencies in and out of the law of mass action), interleaved state changes"
TB = "Cantera::ThirdBodyCalc::"; BK = "Cantera::BulkKinetics::"
HINT_FNS = [TB + "update"]
ASSUME = ["addThirdBody with more than one listed efficiency is covered by the bounded driver only", "Eigen sparse matrix of the same coefficients (resizeCoeffs, derivatives): see C22"]
nT, nM, nN = (Is("this.%s.#len" % v) for v in ("m_reaction_index", "m_mass_action_index", "m_no_mass_action_index"))
ix, ma, na = (lambda i, A=As("this.%s.[]" % v, "I"): at(A, i) for v in ("m_reaction_index", "m_mass_action_index", "m_no_mass_action_index"))
D0 = As("this.m_default.[]"); nj = As("this.m_species.[].#len", "I"); SPc = As("this.m_species.[].[]", "I", 2); EF = As("this.m_eff.[].[]", "R", 2)
sp = lambda i, j: at(SPc, i, j); ef = lambda i, j: at(EF, i, j)
i_, r_, k_ = Is("i"), Is("r"), Is("k"); inT = [le(IZERO, i_), lt(i_, nT)]
incr = forall(nT, lambda i: forall(nT, lambda h: implies(lt(i, h), lt(ix(i), ix(h)))))
mval = lambda c, ct, i: add(mul(at(D0, i), ct), summ(at(nj, i), lambda j: mul(ef(i, j), at(c, sp(i, j)))))

def v_calc(V):
    q = dict(this="Cantera::ThirdBodyCalc"); c, ct = As("arg0.[]"), Rs("arg1")
    r = V.fn(TB + "update", requires=[incr], **q)
    r.ensures("default_times_total_plus_listed", eq(r.postat("arg2.[]", ix(i_)), mval(c, ct, i_)), inT)
    r.ensures("only_third_body_reactions", eq(r.postat("arg2.[]", r_), at(As("arg2.[]"), r_)), [not_(exists(nT, lambda i: eq(ix(i), r_)))])
    r.frame([]); r.frame([], roots=("arg0",), name="concentrations_unchanged"); r.nothrow()
    def hits(n, sel_): return lambda x: exists(n, lambda i: eq(ix(sel_(i)), x))
    ordered = lambda n, f: forall(n, lambda i: forall(n, lambda h: implies(lt(i, h), lt(ix(f(i)), ix(f(h))))))
    r = V.fn(TB + "multiply", requires=[ordered(nM, ma)], **q); o, cm = As("arg0.[]"), As("arg1.[]"); inM = [le(IZERO, i_), lt(i_, nM)]; a = ix(ma(i_))
    r.ensures("multiplies_each_mass_action_reaction_once", eq(r.postat("arg0.[]", a), mul(at(o, a), at(cm, a))), inM)
    r.ensures("no_other_reaction", eq(r.postat("arg0.[]", r_), at(o, r_)), [not_(hits(nM, ma)(r_))]); r.frame([]); r.frame([], roots=("arg1",), name="concentrations_unchanged"); r.nothrow()
    inp = As("arg0.[]"); out = As("arg1.[]")
    for nm, n, f, w in (("scale", nM, ma, lambda x: mul(Rs("arg2"), at(inp, x))), ("scaleM", nN, na, lambda x: mul(Rs("arg3"), at(As("arg2.[]"), x), at(inp, x)))):
        r = V.fn(TB + nm, requires=[ordered(n, f)], **q); x = ix(f(i_))
        r.ensures("scales_the_entries_of_its_reactions", eq(r.postat("arg1.[]", x), w(x)), [le(IZERO, i_), lt(i_, n)])
        r.ensures("no_other_entry", eq(r.postat("arg1.[]", r_), at(out, r_)), [not_(hits(n, f)(r_))]); r.frame([]); r.frame([], roots=("arg0", "arg2"), name="inputs_unchanged"); r.nothrow()
    r = V.fn(TB + "empty", **q); r.ensures("no_third_body_reactions", eq(r.result, eq(nT, IZERO)))

def v_sum(V):
    """the stored differences give the efficiency-weighted sum over all species"""
    K, m = Is("nSpecies"), Is("nListed"); e, s, c, D = As("efficiency"), As("species", "I"), As("conc"), Rs("default"); j_ = Is("j")
    ok = [forall(m, lambda j: and_(le(IZERO, at(s, j)), lt(at(s, j), K)))]; inc = forall(m, lambda i: forall(m, lambda h: implies(lt(i, h), lt(at(s, i), at(s, h)))))
    eff = lambda k: add(D, summ(m, lambda j: mul(sub(at(e, j), D), ite(eq(at(s, j), k), ONE, ZERO))))
    V.lemma("sum_over_all_species", ok, eq(add(mul(D, summ(K, lambda k: at(c, k))), summ(m, lambda j: mul(sub(at(e, j), D), at(c, at(s, j))))), summ(K, lambda k: mul(eff(k), at(c, k)))))
    V.lemma("listed_species_have_their_efficiency", ok + [inc, le(IZERO, j_), lt(j_, m)], eq(eff(at(s, j_)), at(e, j_)))
    V.lemma("other_species_have_the_default", [not_(exists(m, lambda j: eq(at(s, j), k_)))], eq(eff(k_), D))

def v_install(V):
    n = Is("arg1.#len"); key, val_ = As("arg1.[].first", "I"), As("arg1.[].second"); j = Is("j"); inj = [le(IZERO, j), lt(j, n)]
    base = [eq(Is("this.%s.#len" % v), nT) for v in ("m_default", "m_species", "m_eff")]
    r = V.fn(TB + "install", this="Cantera::ThirdBodyCalc", requires=base)
    p = lambda path, *ix_, so="R": at(r.post(path, so), *ix_)
    r.ensures("reaction_recorded", and_(eq(r.post("this.m_reaction_index.#len", "I"), add(nT, IONE)), eq(p("this.m_reaction_index.[]", nT, so="I"), Is("arg0"))))
    r.ensures("default_recorded", eq(p("this.m_default.[]", nT), Rs("arg2")))
    r.ensures("listed_species_recorded", eq(p("this.m_species.[].[]", nT, j, so="I"), at(key, j)), inj); r.ensures("listed_count", eq(p("this.m_species.[].#len", nT, so="I"), n))
    r.ensures("difference_to_default_recorded", eq(p("this.m_eff.[].[]", nT, j), sub(at(val_, j), Rs("arg2"))), inj)
    r.ensures("mass_action_membership", ite(Bs("arg3"), and_(eq(r.post("this.m_mass_action_index.#len", "I"), add(nM, IONE)), eq(p("this.m_mass_action_index.[]", nM, so="I"), nT), eq(r.post("this.m_no_mass_action_index.#len", "I"), nN)),
              and_(eq(r.post("this.m_no_mass_action_index.#len", "I"), add(nN, IONE)), eq(p("this.m_no_mass_action_index.[]", nN, so="I"), nT), eq(r.post("this.m_mass_action_index.#len", "I"), nM))))
    h = Is("h"); inh = [le(IZERO, h), lt(h, nT)]
    r.ensures("earlier_reactions_unchanged", and_(eq(p("this.m_reaction_index.[]", h, so="I"), ix(h)), eq(p("this.m_default.[]", h), at(D0, h)), eq(p("this.m_species.[].#len", h, so="I"), at(nj, h)), eq(p("this.m_species.[].[]", h, j, so="I"), sp(h, j)), eq(p("this.m_eff.[].[]", h, j), ef(h, j))), inh)
    r.ensures("triplets_of_the_derivative_matrix", eq(r.post("this.m_efficiencyList.#len", "I"), add(Is("this.m_efficiencyList.#len"), n)))

def v_bulk(V):
    r = V.fn("Cantera::ThirdBody::efficiency", this="Cantera::ThirdBody")
    ne = Is("this.efficiencies.#len"); nm = As("this.efficiencies.[].first", "S"); ev = As("this.efficiencies.[].second"); j = Is("j"); a0 = Ss("arg0"); listed = exists(ne, lambda i: eq(at(nm, i), a0))
    r.ensures("default_for_species_not_listed", eq(r.result, Rs("this.default_efficiency")), [not_(listed)])
    r = V.fn("Cantera::ThirdBody::efficiency", this="Cantera::ThirdBody", name="ThirdBody::efficiency(listed)", requires=[le(IZERO, j), lt(j, ne), eq(at(nm, j), a0), forall(ne, lambda i: implies(eq(at(nm, i), a0), eq(i, j)))])
    r.ensures("listed_value", eq(r.result, at(ev, j)))
    upd = lambda ex, th, a, n: ex.st.mem.__setitem__(th.path + ("m_concm", "[]"), As("current_concm"))
    r = V.fn(BK + "getThirdBodyConcentrations", this="Cantera::BulkKinetics", contracts={BK + "updateROP": upd, "virtual " + BK + "updateROP": upd}); L = Is("this.m_concm.#len")
    r.ensures("current_values", eq(r.postat("arg0.[]", r_), at(As("current_concm"), r_)), [le(IZERO, r_), lt(r_, L)]); r.ensures("nothing_else", eq(r.postat("arg0.[]", r_), at(As("arg0.[]"), r_)), [le(L, r_)])
    mult = lambda ex, th, a, n: ex.st.mem.__setitem__(("ghost_mult",), TRUE)
    def c_mult(ex, th, a, n):
        p, c = ex.load(*a[0]), ex.load(*a[1]); o, cm = ex.rdarr(p.loc.path + ("[]",), "R"), ex.rdarr(c.loc.path + ("[]",), "R"); h = As("takes_part", "B")
        ex.st.mem[p.loc.path + ("[]",)] = array(lambda k: ite(at(h, k), mul(at(o, k), at(cm, k)), at(o, k)))
    r = V.fn(BK + "processThirdBodies", this="Cantera::BulkKinetics", contracts={TB + "multiply": c_mult}, requires=[lt(IZERO, L)])
    r.ensures("multiplies_by_current_concentrations", eq(r.postat("arg0.[]", r_), ite(at(As("takes_part", "B"), r_), mul(at(As("arg0.[]"), r_), at(As("this.m_concm.[]"), r_)), at(As("arg0.[]"), r_)))); r.frame([])
    def c_inst(ex, th, a, n):
        for i, (nm, so) in enumerate((("rxn", "I"), (None, None), ("default", "R"), ("mass_action", "B"))):
            if nm: ex.wr(Loc(("ghost", nm), []), ex.term_of(*a[i]), sort=so)
        l = ex.load(*a[1]) if not isinstance(a[1][0], Loc) else a[1][0]
        ex.wr(Loc(("ghost", "#len"), []), ex.rd(Loc(l.path + ("#len",), []), "I"), sort="I"); ex.st.mem[("ghost", "first")] = ex.rdarr(l.path + ("[]", "first"), "I"); ex.st.mem[("ghost", "second")] = ex.rdarr(l.path + ("[]", "second"), "R")
    idx = lambda nm: mk("uf", ("speciesIndex", nm), "I")
    for m in (0, 1):
        r = V.fn(BK + "addThirdBody", this="Cantera::BulkKinetics", contracts={TB + "install": c_inst, "Cantera::Kinetics::kineticsSpeciesIndex": lambda ex, th, a, n: idx(ex.term_of(*a[0]))}, mem={"arg0.*.m_third_body.*.efficiencies.#len": I(m)}, name="BulkKinetics::addThirdBody(%d listed)" % m)
        t = "arg0.*.m_third_body.*."
        r.ensures("this_reaction", eq(r.post("ghost.rxn", "I"), sub(Is("this.m_reactions.#len"), IONE))); r.ensures("default_and_mass_action_flag", and_(eq(r.post("ghost.default"), Rs(t + "default_efficiency")), eq(r.post("ghost.mass_action", "B"), Bs(t + "mass_action"))), [not_(r.throws)])
        if m:
            k0 = idx(at(As(t + "efficiencies.[].first", "S"), 0)); unk = eq(k0, I(2**64 - 1)); ok = [not_(unk)]
            r.throws_iff("undeclared_species_reported", and_(unk, not_(Bs("this.m_skipUndeclaredThirdBodies"))))
            r.ensures("species_and_efficiency", and_(eq(r.post("ghost.#len", "I"), IONE), eq(at(r.post("ghost.first", "I"), 0), k0), eq(at(r.post("ghost.second"), 0), at(As(t + "efficiencies.[].second"), 0))), ok)
            r.ensures("undeclared_species_skipped", eq(r.post("ghost.#len", "I"), IZERO), [unk, Bs("this.m_skipUndeclaredThirdBodies")])
        else: r.ensures("no_listed_species", eq(r.post("ghost.#len", "I"), IZERO)); r.nothrow()
