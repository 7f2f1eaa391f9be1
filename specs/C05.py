"""C05: species production rates equal stoichiometry times rates of progress"""
from engine.spec import *
TUS = ["src/kinetics/Kinetics.cpp", "src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp"]
DRIVER = "C05.cpp"
BOUND = "random mechanisms (1-6 species a side, integer and fractional coefficients, repeated species, arbitrary orders, reversible or not) and shipped gas, surface and multi-phase mechanisms"
SM = "Cantera::StoichManagerN::"; KN = "Cantera::Kinetics::"; BK = "Cantera::BulkKinetics::"; IK = "Cantera::InterfaceKinetics::"
HINT_FNS = [SM + "add", KN + "getCreationRates"]
ASSUME = ["Eigen's sparse matrix of the same triplets (reported coefficients) is covered by the bounded driver only",
          "addReaction with two or more explicit reaction orders is covered by the bounded driver only; a reaction whose species lists do not fit one of the enumerated shapes of StoichManagerN::add (1-3 species, whole coefficients up to a total of 4; a fractional coefficient; more than 3 species) likewise",
          "updateROP leaves the stoichiometry managers and the number of species unchanged (frame, proved in C06)"]
ind = lambda a, b: ite(eq(a, b), ONE, ZERO)
j = Is("j"); S0, R0 = As("arg1.[]"), As("arg0.[]")
n1, n2, n3, nn = (Is("this.m_c%s_list.#len" % x) for x in ("1", "2", "3", "n"))
def F(l, f, st=None):
    nm = "this.m_c%s_list.[].%s" % (l, f); A = (st(nm, "I") if st else As(nm, "I")); return lambda i: at(A, i)
def C_(l, f, el="R", st=None):
    nm = "this.m_cn_list.[].%s.[]" % f; A = (st(nm, el) if st else As(nm, el, 2)); return lambda i, n: at(A, i, n)
def entries(contr, st=None):
    """sum over all entries of all lists of contr(reaction of the entry, [(species, coefficient)...] or a species sum)"""
    L = lambda x: (st("this.m_c%s_list.#len" % x, "I") if st else Is("this.m_c%s_list.#len" % x))
    t = []
    for l, ics in (("1", ["m_ic0"]), ("2", ["m_ic0", "m_ic1"]), ("3", ["m_ic0", "m_ic1", "m_ic2"])):
        t.append(summ(L(l), lambda i: contr(F(l, "m_rxn", st)(i), lambda f: addl([f(F(l, c, st)(i), ONE) for c in ics]))))
    M = (st("this.m_cn_list.[].m_n", "I") if st else As("this.m_cn_list.[].m_n", "I"))
    t.append(summ(L("n"), lambda i: contr(F("n", "m_rxn", st)(i), lambda f: summ(at(M, i), lambda n: f(C_("n", "m_ic", "I", st)(i, n), C_("n", "m_stoich", "R", st)(i, n))))))
    return addl(t)
def addl(l):
    a = l[0]
    for x in l[1:]: a = add(a, x)
    return a
def N(k, r, st=None):
    """the stoichiometric matrix this manager represents"""
    return entries(lambda rxn, over: mul(ind(rxn, r), over(lambda s, nu: mul(nu, ind(s, k)))), st)
def each(l): return [(l, x) for x in {"1": ["m_ic0"], "2": ["m_ic0", "m_ic1"], "3": ["m_ic0", "m_ic1", "m_ic2"]}[l]]

def v_manager(V):
    q = dict(this="Cantera::StoichManagerN")
    spec = entries(lambda rxn, over: mul(at(R0, rxn), over(lambda s, nu: mul(nu, ind(s, j)))))
    for nm, sg in (("incrementSpecies", 1), ("decrementSpecies", -1)):
        r = V.fn(SM + nm, **q); r.ensures("adds_the_coefficient_times_rate_of_every_entry", eq(r.postat("arg1.[]", j), add(at(S0, j), mul(num(sg), spec)))); r.frame([]); r.frame([], roots=("arg0",), name="rates_unchanged"); r.nothrow()
    rspec = entries(lambda rxn, over: mul(ind(rxn, j), over(lambda s, nu: mul(nu, at(R0, s)))))
    for nm, sg in (("incrementReactions", 1), ("decrementReactions", -1)):
        r = V.fn(SM + nm, **q); r.ensures("adds_the_coefficient_weighted_property", eq(r.postat("arg1.[]", j), add(at(S0, j), mul(num(sg), rspec)))); r.frame([]); r.frame([], roots=("arg0",), name="properties_unchanged"); r.nothrow()
    # the entry sums are the matrix products N R and N^T S
    nR, nK = Is("nReactions"), Is("nSpecies")
    for l in ("1", "2", "3"):
        L = Is("this.m_c%s_list.#len" % l); rx = F(l, "m_rxn"); cs = [F(l, c) for _, c in each(l)]
        hy = [forall(L, lambda i: and_(le(IZERO, rx(i)), lt(rx(i), nR)))] + [forall(L, lambda i: and_(le(IZERO, c(i)), lt(c(i), nK))) for c in cs]
        V.lemma("matrix_product_NR.c%s" % l, hy, eq(summ(L, lambda i: mul(at(R0, rx(i)), addl([ind(c(i), j) for c in cs]))), summ(nR, lambda r: mul(at(R0, r), summ(L, lambda i: mul(ind(rx(i), r), addl([ind(c(i), j) for c in cs])))))))
        V.lemma("matrix_product_NtS.c%s" % l, hy, eq(summ(L, lambda i: mul(ind(rx(i), j), addl([at(R0, c(i)) for c in cs]))), summ(nK, lambda k: mul(at(R0, k), summ(L, lambda i: mul(ind(rx(i), j), addl([ind(c(i), k) for c in cs])))))))
    rx = F("n", "m_rxn"); M = As("this.m_cn_list.[].m_n", "I"); ic = C_("n", "m_ic", "I"); nu = C_("n", "m_stoich")
    hy = [forall(nn, lambda i: and_(le(IZERO, rx(i)), lt(rx(i), nR))), forall(nn, lambda i: forall(at(M, i), lambda n: and_(le(IZERO, ic(i, n)), lt(ic(i, n), nK))))]
    con = lambda i, k: summ(at(M, i), lambda n: mul(nu(i, n), ind(ic(i, n), k)))
    V.lemma("matrix_product_NR.cn", hy, eq(summ(nn, lambda i: mul(at(R0, rx(i)), con(i, j))), summ(nR, lambda r: mul(at(R0, r), summ(nn, lambda i: mul(ind(rx(i), r), con(i, j)))))))
    V.lemma("matrix_product_NtS.cn", hy, eq(summ(nn, lambda i: mul(ind(rx(i), j), summ(at(M, i), lambda n: mul(nu(i, n), at(R0, ic(i, n)))))), summ(nK, lambda k: mul(at(R0, k), summ(nn, lambda i: mul(ind(rx(i), j), con(i, k)))))))

def v_add(V):
    """adding a reaction adds exactly its column to the represented matrix"""
    r_, k_ = Is("r"), Is("k"); ks = As("arg1.[]", "I"); od = As("arg2.[]"); st = As("arg3.[]")
    q = dict(this="Cantera::StoichManagerN", sub="vector<double, std::allocator<double>> &,const std::vector<double")
    def ck(r, m):
        post = lambda path, so: r.post(path, so)
        col = mul(ind(r_, Is("arg0")), summ(m, lambda n: mul(r_stoich(n), ind(at(ks, n), k_))))
        r.ensures("adds_its_column_only", eq(N(k_, r_, post), add(N(k_, r_), col)))
        r.frame(["this.m_c%s_list" % x for x in "123n"] + ["this.m_ready", "this.m_coeffList"]); r.nothrow()
    # whole coefficients equal to the orders: unit entries with repeated species
    import itertools
    for m in (1, 2, 3):
        for nu in itertools.product((0, 1, 2, 3), repeat=m):
            if sum(nu) > 4 or sum(nu) == 0: continue
            r_stoich = lambda n: lift_(nu, n)
            v = lambda n: lift_(nu, n)
            r = V.fn(SM + "add", name="StoichManagerN::add%s" % (nu,), mem={"arg1.#len": I(m), "arg2.#len": I(m), "arg3.#len": I(m), "arg2.[]": array(v), "arg3.[]": array(v)}, **q)
            ck(r, I(m))
    # fractional coefficients or orders differing from them: one general entry
    m = Is("arg1.#len"); r_stoich = lambda n: at(st, n)
    for nm, cond in (("more_than_three_species", lt(I(3), m)),):
        r = V.fn(SM + "add", name="StoichManagerN::add(%s)" % nm, mem={"arg2.#len": m, "arg3.#len": m}, requires=[cond], **q); ck(r, m)
    # one to three species with a fractional coefficient or an order that differs from it
    for m in (1, 2, 3):
        for p in range(m):
            od_ = lambda n: ite(eq(n, I(p)), Rs("order"), num(1)); sto_ = lambda n: ite(eq(n, I(p)), num(Fr(5, 2)), num(1))
            r_stoich = sto_
            r = V.fn(SM + "add", name="StoichManagerN::add(fractional %d of %d)" % (p, m), mem={"arg1.#len": I(m), "arg2.#len": I(m), "arg3.#len": I(m), "arg2.[]": array(od_), "arg3.[]": array(sto_)}, **q); ck(r, I(m))
def lift_(nu, n):
    e = num(nu[-1])
    for i in range(len(nu) - 2, -1, -1): e = ite(eq(n, I(i)), num(nu[i]), e)
    return e

# ---- the reaction network built on the managers
K = Is("this.m_kk"); nR = Is("this.m_reactions.#len"); k = Is("k"); kk = [lt(k, K)]; r_ = Is("r"); rr = [lt(r_, nR)]
MAN = ("m_reactantStoich", "m_productStoich", "m_revProductStoich")
Nu = lambda m, k, r: mk("uf", ("N_" + m, lift(k), lift(r)), "R")
ROP = {v: As("rop.%s" % v) for v in ("m_ropf", "m_ropr", "m_ropnet")}
def c_update(ex, th, a, n):
    for v in ROP: ex.st.mem[th.path + (v, "[]")] = ROP[v]
def man(sg, species):
    def f(ex, th, a, n):
        m = th.path[-1]; p, o = ex.load(*a[0]), ex.load(*a[1]); assert o.off is IZERO
        P = ex.rdarr(p.loc.path + ("[]",), "R"); O = ex.rdarr(o.loc.path + ("[]",), "R"); off = p.off
        if species: g = lambda k: ite(and_(le(IZERO, k), lt(k, K)), add(at(O, k), mul(num(sg), summ(nR, lambda r: mul(Nu(m, k, r), at(P, add(off, r)))))), at(O, k))
        else: g = lambda r: ite(and_(le(IZERO, r), lt(r, nR)), add(at(O, r), mul(num(sg), summ(K, lambda k: mul(Nu(m, k, r), at(P, add(off, k)))))), at(O, r))
        ex.st.mem[o.loc.path + ("[]",)] = array(g)
    return f
CT = {SM + "incrementSpecies": man(1, True), SM + "decrementSpecies": man(-1, True), SM + "incrementReactions": man(1, False), SM + "decrementReactions": man(-1, False)}
for v in ("", "virtual "):
    for c in (KN, BK, IK): CT[v + c + "updateROP"] = c_update
NR = lambda m, k, v: summ(nR, lambda r: mul(Nu(m, k, r), at(ROP[v], r)))
net = lambda k, r: sub(Nu("m_productStoich", k, r), Nu("m_reactantStoich", k, r))
def v_rates(V):
    q = dict(this="Cantera::BulkKinetics", contracts=CT, mem={"this.%s.#len" % v: nR for v in ROP})
    o = lambda r: r.postat("arg0.[]", k)
    ex_ = {"getCreationRates": add(NR("m_productStoich", k, "m_ropf"), NR("m_reactantStoich", k, "m_ropr")), "getDestructionRates": add(NR("m_revProductStoich", k, "m_ropr"), NR("m_reactantStoich", k, "m_ropf")),
           "getNetProductionRates": sub(NR("m_productStoich", k, "m_ropnet"), NR("m_reactantStoich", k, "m_ropnet"))}
    for nm, w in ex_.items():
        r = V.fn(KN + nm, **q); r.ensures("stoichiometry_times_rates_of_progress", eq(o(r), w), kk)
        r.ensures("writes_only_species_entries", eq(r.postat("arg0.[]", j), at(As("arg0.[]"), j)), [le(K, j)]); r.frame(["this." + v for v in ROP]); r.nothrow()
    for nm, v in (("getFwdRatesOfProgress", "m_ropf"), ("getRevRatesOfProgress", "m_ropr"), ("getNetRatesOfProgress", "m_ropnet")):
        r = V.fn(KN + nm, **q); r.ensures("current_rates", eq(r.postat("arg0.[]", r_), at(ROP[v], r_)), rr); r.ensures("writes_only_reaction_entries", eq(r.postat("arg0.[]", j), at(As("arg0.[]"), j)), [le(nR, j)]); r.frame(["this." + v for v in ROP])
    # net = creation - destruction, for reversible (product coefficients in the reverse direction) and irreversible reactions (no reverse rate)
    f, x, a = ROP["m_ropf"], ROP["m_ropr"], As("atoms"); rev = As("reversible", "B")
    def net_(m, v): return summ(nR, lambda r: mul(Nu(m, k, r), v(r)))
    bb = lambda r: ite(at(rev, r), at(x, r), ZERO); Nrev = lambda r: ite(at(rev, r), Nu("m_productStoich", k, r), ZERO); tt = lambda r: sub(at(f, r), bb(r))
    cre = add(net_("m_productStoich", lambda r: at(f, r)), net_("m_reactantStoich", bb)); des = add(summ(nR, lambda r: mul(Nrev(r), bb(r))), net_("m_reactantStoich", lambda r: at(f, r)))
    V.lemma("net_is_creation_minus_destruction", [], eq(sub(net_("m_productStoich", tt), net_("m_reactantStoich", tt)), sub(cre, des)))
    # elements and charge balanced by each reaction are conserved
    t = ROP["m_ropnet"]; B = As("balance")
    V.lemma("production_of_an_element_is_the_sum_of_reaction_imbalances", [], eq(summ(K, lambda k: mul(at(a, k), sub(NR("m_productStoich", k, "m_ropnet"), NR("m_reactantStoich", k, "m_ropnet")))),
            summ(nR, lambda r: mul(at(t, r), summ(K, lambda k: mul(at(a, k), net(k, r)))))))
    V.lemma("balanced_quantities_are_conserved", [forall(nR, lambda r: eq(at(B, r), ZERO))], eq(summ(nR, lambda r: mul(at(t, r), at(B, r))), ZERO))
def v_deltas(V):
    prop = As("arg0.[]"); P = lambda m, r, f: summ(K, lambda k: mul(Nu(m, k, r), f(k)))
    for nm, m in (("getReactionDelta", "m_productStoich"), ("getRevReactionDelta", "m_revProductStoich")):
        r = V.fn(KN + nm, this="Cantera::BulkKinetics", contracts=CT)
        r.ensures("products_minus_reactants", eq(r.postat("arg1.[]", r_), sub(P(m, r_, lambda k: at(prop, k)), P("m_reactantStoich", r_, lambda k: at(prop, k)))), rr)
        r.ensures("writes_only_reaction_entries", eq(r.postat("arg1.[]", j), at(As("arg1.[]"), j)), [le(nR, j)]); r.frame([]); r.nothrow()
    RT, Rg = Rs("RT"), Rs("#GasConstant")
    tab = {"getDeltaGibbs": ("getChemPotentials", ONE), "getDeltaEnthalpy": ("getPartialMolarEnthalpies", ONE), "getDeltaEntropy": ("getPartialMolarEntropies", ONE),
           "getDeltaSSGibbs": ("getStandardChemPotentials", ONE), "getDeltaSSEnthalpy": ("getEnthalpy_RT", RT), "getDeltaSSEntropy": ("getEntropy_R", Rg)}
    for nm, (g, sc) in tab.items():
        val_ = As("property." + g); ct = dict(CT)
        def get(ex, th, a, n): p = ex.load(*a[0]); assert p.off is IZERO; ex.st.mem[p.loc.path + ("[]",)] = val_
        for v in ("", "virtual "):
            ct[v + "Cantera::ThermoPhase::" + g] = get; ct[v + "Cantera::ThermoPhase::RT"] = lambda ex, th, a, n: RT
        r = V.fn(BK + nm, this="Cantera::BulkKinetics", contracts=ct, mem={"this.m_sbuf0.#len": K})
        r.ensures("products_minus_reactants_of_the_property", eq(r.postat("arg0.[]", r_), mul(sc, sub(P("m_productStoich", r_, lambda k: at(val_, k)), P("m_reactantStoich", r_, lambda k: at(val_, k))))), rr)
        r.frame(["this.m_sbuf0"])

def v_addreaction(V):
    """the three managers receive the species and coefficients of the reaction under its index"""
    def c_add(ex, th, a, n):
        m = "ghost_" + th.path[-1]; ex.wr(Loc((m, "rxn"), []), ex.term_of(*a[0]), sort="I"); ex.wr(Loc((m, "called"), []), TRUE, sort="B")
        for i, nm in ((1, "k"), (2, "order"), (3, "stoich")):
            l = ex.load(*a[i]) if not isinstance(a[i][0], Loc) else a[i][0]
            ex.st.mem[(m, nm, "[]")] = ex.rdarr(l.path + ("[]",), "I" if i == 1 else "R"); ex.wr(Loc((m, nm, "#len"), []), ex.rd(Loc(l.path + ("#len",), []), "I"), sort="I")
    idx = lambda nm: mk("uf", ("speciesIndex", nm), "I"); non = lambda ex, th, a, n: None
    ct = {SM + "add": c_add, KN + "kineticsSpeciesIndex": lambda ex, th, a, n: idx(ex.term_of(*a[0])), "Cantera::Reaction::checkSpecies": lambda ex, th, a, n: Bs("speciesKnown"), "Cantera::Reaction::check": non, "Cantera::Reaction::validate": non}
    for v in (KN, BK):
        for f in ("resizeReactions", "resizeSpecies", "init"): ct[v + f] = non
    for q in list(ct): ct["virtual " + q] = ct[q]
    x = "arg0.*."; known = Bs("speciesKnown"); n = Is("n")
    L = lambda w: Is(x + w + ".#len"); nm = lambda w: As(x + w + ".[].first", "S"); val = lambda w: As(x + w + ".[].second"); O0 = at(val("orders"), 0); k0 = idx(at(nm("orders"), 0))
    isr = exists(L("reactants"), lambda i: eq(idx(at(nm("reactants"), i)), k0))
    for no in (0, 1):
        r = V.fn(KN + "addReaction", this="Cantera::BulkKinetics", contracts=ct, mem={x + "orders.#len": I(no), "ghost_m_revProductStoich.called": FALSE}, requires=[ne(Rs(x + "rate_units.m_factor"), ZERO)], name="Kinetics::addReaction(%d explicit orders)" % no)
        nR0 = Is("this.m_reactions.#len"); ng = lambda c, h=known: implies(h, c)
        r.ensures("returns_whether_species_are_known", eq(r.result, known))
        for m, w in (("m_reactantStoich", "reactants"), ("m_productStoich", "products"), ("m_revProductStoich", "products")):
            g = "ghost_" + m; h = [known] + ([Bs(x + "reversible")] if m == "m_revProductStoich" else []); inr = h + [le(IZERO, n), lt(n, L(w))]
            r.ensures(m + ".index", eq(r.post(g + ".rxn", "I"), nR0), h)
            r.ensures(m + ".species", eq(r.postat(g + ".k.[]", n, sort="I") if False else at(r.post(g + ".k.[]", "I"), n), idx(at(nm(w), n))), inr)
            r.ensures(m + ".coefficients", eq(r.postat(g + ".stoich.[]", n), at(val(w), n)), inr)
            ln = L(w)
            if no == 0 or w == "products":
                r.ensures(m + ".orders", eq(r.postat(g + ".order.[]", n), at(val(w), n)), inr)
            else:
                hit = and_(isr, eq(n, First_(L(w), lambda i: eq(idx(at(nm(w), i)), k0))))
                r.ensures(m + ".orders", eq(r.postat(g + ".order.[]", n), ite(hit, O0, at(val(w), n))), inr)
                ln = ite(isr, L(w), add(L(w), IONE)); e = h + [not_(isr)]
                r.ensures(m + ".extra_species", eq(at(r.post(g + ".k.[]", "I"), L(w)), k0), e); r.ensures(m + ".extra_coefficient_zero", eq(r.postat(g + ".stoich.[]", L(w)), ZERO), e); r.ensures(m + ".extra_order", eq(r.postat(g + ".order.[]", L(w)), O0), e)
            r.ensures(m + ".length", and_(eq(r.post(g + ".k.#len", "I"), ln), eq(r.post(g + ".stoich.#len", "I"), ln), eq(r.post(g + ".order.#len", "I"), ln)), h)
        r.ensures("reverse_products_exactly_for_reversible_reactions", eq(r.post("ghost_m_revProductStoich.called", "B"), and_(known, Bs(x + "reversible"))))
        r.ensures("one_more_reaction", eq(r.post("this.m_reactions.#len", "I"), ite(known, add(nR0, IONE), nR0)))
def First_(n, f):
    v = freshbv(); return First(v, IZERO, n, f(v))
