"""C21: multiphase mixtures account for every mole, element and charge"""
from engine.spec import *
TUS = ["src/equil/MultiPhase.cpp"]
DRIVER = "C21.cpp"
BOUND = "random mixtures of one to five shipped phases (gas, condensed, ionic, ideal and non-ideal), random sequences of setters and queries"
C = "Cantera::MultiPhase::"; P = "Cantera::Phase::"; TP = "Cantera::ThermoPhase::"
HINT_FNS = [C + "setMoles", C + "updatePhases"]
ASSUME = ["the phases' own functions (C01, C03, C19, C24, C25): setState_TPX sets temperature, pressure and the normalised composition, getMoleFractions returns it, molar properties belong to that state",
          "init() has been run where the code does not call it itself; the contents written segment by segment (setMoles, updatePhases, uploadMoleFractionsFromPhases) are proved for one, two and three phases of any size, and exercised by the driver for up to five"]
NP = Is("this.m_phase.#len"); NS = Is("this.m_nsp"); NE = Is("this.m_nel"); MOL = As("this.m_moles.[]"); XX = As("this.m_moleFractions.[]"); ST = As("this.m_spstart.[]", "I"); OW = As("this.m_spphase.[]", "I")
from engine import exec as _ex
_ex.NONNEG.add("nsp")
ns = lambda p: mk("uf", ("nsp", lift(p)), "I")
atoms = lambda m, k: at(As("this.m_atoms.m_data.[]"), add(mul(k, NE), m))
T, Pr = Rs("this.m_temp"), Rs("this.m_press"); F = Rs("#Faraday")
idx = lambda th: th.idx[-1]
# the state of every phase is recorded: molar properties belong to it
def c_mole(nm): return lambda ex, th, a, n: mk("uf", (nm, idx(th), ex.rd(Loc(("ghost_T", "[]"), [idx(th)]), sort="R"), ex.rd(Loc(("ghost_P", "[]"), [idx(th)]), sort="R")), "R")
CT = {P + "nSpecies": lambda ex, th, a, n: ns(idx(th)), P + "charge": lambda ex, th, a, n: mk("uf", ("z", idx(th), ex.term_of(*a[0])), "R")}
MOLE = ("gibbs_mole", "enthalpy_mole", "intEnergy_mole", "entropy_mole", "cp_mole")
for v in ("", "virtual "):
    for nm in MOLE: CT[v + TP + nm] = c_mole(nm)
    CT[v + P + "molarDensity"] = c_mole("molarDensity")
def c_updatePhases(ex, th, a, n):
    ex.st.mem[("ghost_T", "[]")] = array(lambda p, t=ex.rd(th.f("m_temp"), sort="R"): t); ex.st.mem[("ghost_P", "[]")] = array(lambda p, t=ex.rd(th.f("m_press"), sort="R"): t)
    ex.wr(Loc(("ghost_fresh",), []), IONE, sort="I")
UP = {C + "updatePhases": c_updatePhases}
mem = {"this.m_moles.#len": NP, "this.m_spstart.#len": NP, "this.m_temp_OK.#len": NP, "this.m_moleFractions.#len": NS, "this.m_spphase.#len": NS, "this.m_snames.#len": NS, "this.m_elemAbundances.#len": NE, "this.m_enames.#len": NE,
       "this.m_atoms.m_nrows": NE, "this.m_atoms.m_ncols": NS, "this.m_atoms.m_data.#len": mul(NE, NS)}
E = dict(this="Cantera::MultiPhase", mem=mem, contracts={**CT, **UP})
start = lambda p: summ(p, ns)
k, m, p, e = Is("k"), Is("arg0"), Is("arg0"), Is("e")
def inside(q, i): return [le(start(q), i), lt(i, add(start(q), ns(q)))]

def v_sums(V):
    r = V.fn(C + "elementMoles", **E); x = lambda i: at(XX, i); s = lambda q: at(ST, q)
    r.ensures("atoms_times_mole_fraction_times_phase_moles", eq(r.result, summ(NP, lambda q: mul(at(MOL, q), summ(ns(q), lambda j: mul(atoms(m, add(s(q), j)), x(add(s(q), j))))))))
    r.frame([])
    pc = lambda q: mul(F, at(MOL, q), summ(ns(q), lambda j: mul(mk("uf", ("z", lift(q), lift(j)), "R"), x(add(s(q), j)))))
    r = V.fn(C + "phaseCharge", **E); r.ensures("faraday_times_charge_times_moles", eq(r.result, pc(p))); r.frame([])
    r = V.fn(C + "charge", **E); r.ensures("sum_of_the_phases", eq(r.result, summ(NP, pc))); r.frame([])
    r = V.fn(C + "calcElemAbundances", **E); a = r.post("this.m_elemAbundances.[]")
    ab = lambda q: summ(NP, lambda i: summ(ns(i), lambda j: mul(atoms(q, add(start(i), j)), x(add(start(i), j)), at(MOL, i))))
    r.ensures("every_species_of_every_phase_counted_once", eq(at(a, k), ab(k)), [lt(k, NE)]); r.frame(["this.m_elemAbundances"])
    r = V.fn(C + "getElemAbundances", **E)
    r.ensures("element_totals", eq(r.postat("arg0.[]", k), ab(k)), [lt(k, NE)]); r.frame(["this.m_elemAbundances"])
    # the two ways of counting elements agree when the species of each phase are stored consecutively (init)
    V.lemma("element_amounts_agree", [forall(NP, lambda q: eq(at(ST, q), start(q)))], eq(summ(NP, lambda q: mul(at(MOL, q), summ(ns(q), lambda j: mul(atoms(m, add(s(q), j)), x(add(s(q), j)))))), ab(m)))

def v_extensive(V):
    for fn, nm in (("gibbs", "gibbs_mole"), ("enthalpy", "enthalpy_mole"), ("IntEnergy", "intEnergy_mole"), ("entropy", "entropy_mole"), ("cp", "cp_mole")):
        r = V.fn(C + fn, **E, requires=[forall(NP, lambda q: le(ZERO, at(MOL, q)))])
        r.ensures("moles_times_molar_property_at_the_mixture_state", eq(r.result, summ(NP, lambda q: ite(lt(ZERO, at(MOL, q)), mul(at(MOL, q), mk("uf", (nm, lift(q), T, Pr), "R")), ZERO))))
        r.ensures("phases_brought_to_the_state_of_the_mixture", eq(r.post("ghost_fresh", "I"), IONE)); r.frame([])
    r = V.fn(C + "volume", **E, requires=[Bs("this.m_init")])
    r.ensures("moles_over_molar_density_at_the_mixture_state", eq(r.result, summ(NP, lambda q: div(at(MOL, q), mk("uf", ("molarDensity", lift(q), T, Pr), "R")))))
    r.ensures("phases_brought_to_the_state_of_the_mixture", eq(r.post("ghost_fresh", "I"), IONE)); r.frame([])

def v_values(V):
    r = V.fn(C + "speciesMoles", **E); r.ensures("phase_moles_times_mole_fraction", eq(r.result, mul(at(MOL, at(OW, p)), at(XX, p)))); r.frame([])
    r = V.fn(C + "phaseMoles", **E); r.ensures("stored", eq(r.result, at(MOL, p))); r.frame([])
    r = V.fn(C + "moleFraction", **E); r.ensures("stored", eq(r.result, at(XX, p))); r.frame([])
    r = V.fn(C + "speciesPhaseIndex", **E); r.ensures("stored", eq(r.result, at(OW, p))); r.frame([])
    r = V.fn(C + "nAtoms", **E); r.ensures("stored", eq(r.result, atoms(Is("arg1"), p))); r.frame([])
    r = V.fn(C + "getMoleFractions", **E); r.ensures("stored", eq(r.postat("arg0.[]", k), at(XX, k)), [lt(k, NS)]); r.frame([])
    r = V.fn(C + "setPhaseMoles", **E); r.ensures("stored", eq(r.postat("this.m_moles.[]", k), ite(eq(k, p), Rs("arg1"), at(MOL, k))), [lt(k, NP), lt(p, NP)]); r.frame(["this.m_moles"])
    r = V.fn(C + "speciesIndex", sub="unsigned long", **E); r.ensures("position_of_the_phase_plus_index", eq(r.result, add(at(ST, Is("arg1")), p))); r.frame([])
    r = V.fn(C + "solutionSpecies", **E); r.ensures("more_than_one_species", eq(ite(r.result, IONE, IZERO), ite(lt(IONE, ns(at(OW, p))), IONE, IZERO))); r.frame([])
    for fn, bad in (("checkPhaseIndex", le(NP, p)), ("checkPhaseArraySize", lt(p, NP)), ("checkElementIndex", le(NE, p)), ("checkElementArraySize", lt(p, NE)), ("checkSpeciesIndex", le(NS, p)), ("checkSpeciesArraySize", lt(p, NS))):
        r = V.fn(C + fn, **E); r.throws_iff("rejected", bad); r.frame([])

# contents written segment by segment, for a given number of phases of any size
def seg(n):
    """facts about n consecutive segments: bounds of the segment starts and of the species stored in them"""
    st = [IZERO]
    for q in range(n): st.append(add(st[-1], ns(I(q))))
    return st
def c_setX(ex, th, a, n):
    """the phase takes temperature, pressure and the normalised positive part of the composition"""
    q = idx(th); x = ex.load(*a[2]); src = ex.rdarr(x.loc.path + ("[]",), "R"); g = lambda j: rmax(at(src, add(x.off, j)), ZERO); tot = summ(ns(q), g)
    j = fresh("j", "I"); old = ex.rdarr(("ghost_X", "[]", "[]"), "R"); pp = fresh("p", "I")
    ex.st.mem[("ghost_X", "[]", "[]")] = tm.lam((pp, j), ite(eq(pp, q), div(g(j), tot), sel(old, (pp, j))))
    for nm, i in (("ghost_T", 0), ("ghost_P", 1)): ex.wr(Loc((nm, "[]"), [q]), ex.term_of(*a[i]), sort="R")
def c_getX(ex, th, a, n):
    q = idx(th); x = ex.load(*a[0]); gx = ex.rdarr(("ghost_X", "[]", "[]"), "R")
    ex.map_range(x, ns(q), "double", lambda suf, so, rel, bs, tt: sel(gx, (q, rel)))
SEG = {v + TP + "setState_TPX": c_setX for v in ("", "virtual ")}
SEG.update({P + "getMoleFractions": c_getX, C + "calcElemAbundances": lambda ex, th, a, n: None})
SEG.update({v + TP + nm: (lambda nm: lambda ex, th, a, n: mk("uf", (nm, idx(th)), "R"))(nm) for nm in ("minTemp", "maxTemp") for v in ("", "virtual ")})
GX = lambda q, j: mk("sel", (mk("sym", ("ghost_X.[].[]",), ("A", 2, "R")), lift(q), j), "R")
def segments(V, n):
    st = seg(n); mm = dict(mem); mm["this.m_phase.#len"] = I(n); mm["this.m_moles.#len"] = I(n); mm["this.m_spstart.#len"] = I(n); mm["this.m_temp_OK.#len"] = I(n); mm["this.m_nsp"] = st[-1]; mm["this.m_moleFractions.#len"] = st[-1]
    rq = [le(IZERO, ns(I(q))) for q in range(n)]; e2 = dict(this="Cantera::MultiPhase", mem=mm, contracts={**CT, **SEG})
    j = Is("j")
    r = V.fn(C + "getMoles", name="MultiPhase::getMoles(%d)" % n, **e2, requires=rq)
    for q in range(n): r.ensures("phase_moles_times_mole_fraction.%d" % q, eq(r.postat("arg0.[]", add(st[q], j)), mul(at(MOL, I(q)), at(XX, add(st[q], j)))), [lt(j, ns(I(q)))])
    r.frame([])
    r = V.fn(C + "updatePhases", name="MultiPhase::updatePhases(%d)" % n, **e2, requires=rq)
    gx, gt, gp, ok = r.post("ghost_X.[].[]"), r.post("ghost_T.[]"), r.post("ghost_P.[]"), r.post("this.m_temp_OK.[]", "B")
    pos = lambda arr, q, i: rmax(at(arr, add(st[q], i)), ZERO)
    for q in range(n):
        Q = I(q)
        r.ensures("composition_of_its_own_segment.%d" % q, eq(mul(sel(gx, (Q, j)), summ(ns(Q), lambda i: pos(XX, q, i))), pos(XX, q, j)), [lt(j, ns(Q)), lt(ZERO, summ(ns(Q), lambda i: pos(XX, q, i)))])
        r.ensures("temperature_and_pressure_of_the_mixture.%d" % q, and_(eq(at(gt, Q), T), eq(at(gp, Q), Pr)))
        bad = or_(lt(T, mk("uf", ("minTemp", Q), "R")), lt(mk("uf", ("maxTemp", Q), "R"), T))
        r.ensures("validity_flag_is_false_outside_the_range.%d" % q, not_(at(ok, Q)), [bad]); r.ensures("validity_flag_is_true_inside_the_range.%d" % q, at(ok, Q), [not_(bad)])
    r.frame(["this.m_temp_OK", "ghost_"])
    r = V.fn(C + "uploadMoleFractionsFromPhases", name="MultiPhase::uploadMoleFractionsFromPhases(%d)" % n, **e2, requires=rq)
    for q in range(n): r.ensures("mole_fractions_of_the_phase.%d" % q, eq(r.postat("this.m_moleFractions.[]", add(st[q], j)), GX(I(q), j)), [lt(j, ns(I(q)))])
    r.frame(["this.m_moleFractions"])
    nn = As("arg0.[]"); tot = lambda q: summ(ns(I(q)), lambda i: at(nn, add(st[q], i)))
    r = V.fn(C + "setMoles", name="MultiPhase::setMoles(%d)" % n, **e2, requires=[le(IONE, ns(I(q))) for q in range(n)] + [Bs("this.m_init")] + [forall(st[-1], lambda i: le(ZERO, at(nn, i)))])
    mo, x, gx, gt, gp = r.post("this.m_moles.[]"), r.post("this.m_moleFractions.[]"), r.post("ghost_X.[].[]"), r.post("ghost_T.[]"), r.post("ghost_P.[]")
    for q in range(n):
        Q = I(q); inq = [lt(j, ns(Q))]; xj = at(x, add(st[q], j)); present = [lt(ZERO, tot(q))]
        r.ensures("phase_moles_are_the_sum_over_its_species.%d" % q, eq(at(mo, Q), tot(q)))
        r.ensures("mole_fraction_is_the_share_of_the_phase.%d" % q, eq(mul(xj, tot(q)), at(nn, add(st[q], j))), inq + present + [le(I(2), ns(Q))] + [eq(rmax(at(nn, add(st[q], j)), ZERO), at(nn, add(st[q], j))), eq(summ(ns(Q), lambda i: rmax(at(nn, add(st[q], i)), ZERO)), tot(q))])
        r.ensures("single_species_phase.%d" % q, eq(at(x, st[q]), ONE), [eq(ns(Q), IONE)])
        r.ensures("empty_phase_keeps_its_composition.%d" % q, eq(xj, GX(Q, j)), inq + [le(tot(q), ZERO), le(I(2), ns(Q))])
        r.ensures("phase_brought_to_the_state_of_the_mixture.%d" % q, and_(eq(at(gt, Q), T), eq(at(gp, Q), Pr), eq(sel(gx, (Q, j)), xj)), inq + present + [le(I(2), ns(Q))])
    r.frame(["this.m_moles", "this.m_moleFractions", "ghost_"])
def v_seg1(V): segments(V, 1)
def v_seg2(V): segments(V, 2)
def v_seg3(V): segments(V, 3)

def v_setters(V):
    """setters over any number of phases: setMoles and updatePhases by their contracts"""
    n_ = As("arg2.[]")
    def c_setMoles(ex, th, a, n):
        x = ex.load(*a[0]); ex.st.mem[("ghost_moles", "[]")] = array(lambda i, s=ex.rdarr(x.loc.path + ("[]",), "R"), o=x.off: at(s, add(o, i)))
        ex.wr(Loc(("ghost_set_T",), []), ex.rd(th.f("m_temp"), sort="R"), sort="R"); ex.wr(Loc(("ghost_set_P",), []), ex.rd(th.f("m_press"), sort="R"), sort="R"); ex.wr(Loc(("ghost_fresh",), []), IZERO, sort="I")
    c2 = {**CT, **UP, C + "setMoles": c_setMoles}; e2 = dict(this="Cantera::MultiPhase", mem=mem, contracts=c2, requires=[Bs("this.m_init")])
    fresh_ = lambda r, t, pr: r.ensures("all_phases_brought_to_the_state", and_(eq(r.post("ghost_fresh", "I"), IONE), eq(r.postat("ghost_T.[]", k), t), eq(r.postat("ghost_P.[]", k), pr)))
    r = V.fn(C + "setState_TP", **e2); a0, a1 = Rs("arg0"), Rs("arg1")
    r.ensures("stored", and_(eq(r.post("this.m_temp"), a0), eq(r.post("this.m_press"), a1))); fresh_(r, a0, a1); r.frame(["this.m_temp", "this.m_press", "ghost_"])
    r = V.fn(C + "setTemperature", **e2); r.ensures("stored", and_(eq(r.post("this.m_temp"), a0), eq(r.post("this.m_press"), Pr))); fresh_(r, a0, Pr); r.frame(["this.m_temp", "ghost_"])
    r = V.fn(C + "setPressure", **e2); r.ensures("stored", and_(eq(r.post("this.m_press"), a0), eq(r.post("this.m_temp"), T))); fresh_(r, T, a0); r.frame(["this.m_press", "ghost_"])
    r = V.fn(C + "setState_TPMoles", **e2)
    r.ensures("moles_set_at_the_new_state", and_(eq(r.postat("ghost_moles.[]", k), at(n_, k)), eq(r.post("ghost_set_T"), a0), eq(r.post("ghost_set_P"), a1))); fresh_(r, a0, a1); r.frame(["this.m_temp", "this.m_press", "ghost_"])
    # adding moles of one species
    c3 = dict(c2); c3[C + "getMoles"] = lambda ex, th, a, n: ex.map_range(ex.load(*a[0]), NS, "double", lambda suf, so, rel, bs, tt: at(As("ghost_n.[]"), rel))
    r = V.fn(C + "addSpeciesMoles", **dict(e2, contracts=c3), requires_=None) if False else V.fn(C + "addSpeciesMoles", this="Cantera::MultiPhase", mem=mem, contracts=c3, requires=[le(IZERO, p), lt(p, NS)])
    w = at(As("ghost_n.[]"), k)
    r.ensures("only_that_species_changes_and_stays_non_negative", eq(r.postat("ghost_moles.[]", k), ite(eq(k, p), rmax(add(w, Rs("arg1")), ZERO), w)), [lt(k, NS)])
    r.frame(["ghost_"])
    # composition of one phase
    CP = {**CT, **SEG}; s = at(ST, p); pos = lambda i: rmax(at(As("arg1.[]"), i), ZERO)
    r = V.fn(C + "setPhaseMoleFractions", this="Cantera::MultiPhase", mem=mem, contracts=CP, requires=[Bs("this.m_init"), lt(p, NP), lt(ZERO, summ(ns(p), pos))])
    x = r.post("this.m_moleFractions.[]"); j = Is("j")
    r.ensures("normalised_composition_stored", eq(mul(at(x, add(s, j)), summ(ns(p), pos)), pos(j)), [lt(j, ns(p))])
    r.ensures("other_phases_unchanged", eq(at(x, k), at(XX, k)), [or_(lt(k, s), le(add(s, ns(p)), k))])
    r.ensures("phase_has_the_stored_composition_and_state", and_(eq(sel(r.post("ghost_X.[].[]"), (p, j)), at(x, add(s, j))), eq(r.postat("ghost_T.[]", p), T), eq(r.postat("ghost_P.[]", p), Pr)), [lt(j, ns(p))])
    r.frame(["this.m_moleFractions", "ghost_"])
    # the reference to a phase handed out has the state of the mixture
    def c_one(nm): return lambda ex, th, a, n: ex.wr(Loc((nm, "[]"), [idx(th)]), ex.term_of(*a[0]), sort="R")
    def c_nonorm(ex, th, a, n):
        q = idx(th); x = ex.load(*a[0]); src = ex.rdarr(x.loc.path + ("[]",), "R"); j = fresh("j", "I"); pp = fresh("p", "I"); old = ex.rdarr(("ghost_X", "[]", "[]"), "R")
        ex.st.mem[("ghost_X", "[]", "[]")] = tm.lam((pp, j), ite(eq(pp, q), at(src, add(x.off, j)), sel(old, (pp, j))))
    c4 = dict(CT); c4[P + "setMoleFractions_NoNorm"] = c4["virtual " + P + "setMoleFractions_NoNorm"] = c_nonorm
    for nm, g in (("setTemperature", "ghost_T"), ("setPressure", "ghost_P")): c4[P + nm] = c4["virtual " + P + nm] = c_one(g)
    r = V.fn(C + "phase", this="Cantera::MultiPhase", mem=mem, contracts=c4, requires=[Bs("this.m_init"), lt(p, NP)])
    r.ensures("phase_has_the_state_of_the_mixture", and_(eq(r.postat("ghost_T.[]", p), T), eq(r.postat("ghost_P.[]", p), Pr), eq(sel(r.post("ghost_X.[].[]"), (p, j)), at(XX, add(s, j)))), [lt(j, ns(p))])
    r.frame(["ghost_"])
    # moles by species name: negative and missing entries count as zero
    c5 = dict(c2); c5[C + "nSpecies"] = lambda ex, th, a, n: NS
    r = V.fn(C + "setMolesByName", sub="map", this="Cantera::MultiPhase", mem=mem, contracts=c5, requires=[Bs("this.m_init")])
    nm, kn, vn, q = As("this.m_snames.[]", "O"), As("arg0.[].first", "O"), As("arg0.[].second"), Is("q"); ML = Is("arg0.#len")
    none = forall(ML, lambda i: ne(at(kn, i), at(nm, k))); hit = First(q, IZERO, ML, eq(at(kn, q), at(nm, k)))
    r.ensures("amount_listed_under_the_name_or_none", eq(r.postat("ghost_moles.[]", k), rmax(ite(none, ZERO, at(vn, hit)), ZERO)), [lt(k, NS)])
    r.frame(["ghost_"])
