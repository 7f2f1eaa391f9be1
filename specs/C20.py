"""C20: equivalence ratio, mixture fraction, air-fuel ratio and basis changes"""
from engine.spec import *
from specs.phase_env import Env
TUS = ["src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp"]
DRIVER = "C20.cpp"
BOUND = "random fuels, oxidizers and mixtures of six shipped gas mechanisms on both bases, and the mass-basis properties of twelve shipped phases at random states"
C = "Cantera::ThermoPhase::"; P = "Cantera::Phase::"
HINT_FNS = [C + f for f in ("setEquivalenceRatio", "equivalenceRatio", "mixtureFraction", "setMixtureFraction", "o2Required", "stoichAirFuelRatio")]
ASSUME = ["setMassFractions normalises what it is given and setPressure(p) restores the pressure at the new composition (C01, C03, C19); the round trips are proved from what is passed to them and from what mixtureFraction and equivalenceRatio return for that composition",
          "the element indices of C, H, S and O are those elementIndex returns (Phase); compositions given as maps or strings go through getCompositionFromMap and parseCompString (C01) and are exercised by the driver",
          "an oxidizer without oxygen surplus has an infinite stoichiometric ratio: setting an equivalence ratio with it is outside the domain"]
e = Env(); K = e.K
el = {"C": Is("el_C"), "H": Is("el_H"), "S": Is("el_S"), "O": Is("el_O")}
na = lambda k, m: mk("uf", ("na", lift(k), lift(m)), "R")
from engine import exec as _ex
_ex.NONNEG.add("na"); NPOS = I(2**64 - 1)
def c_el(ex, th, a, n):
    t = ex.term_of(*a[0])
    for nm, i in el.items():
        if tm.show(t) == '"%s"' % nm: return i
    return mk("uf", ("el", t), "I")
CT = {P + "elementIndex": c_el, P + "nAtoms": lambda ex, th, a, n: na(ex.term_of(*a[0]), ex.term_of(*a[1]))}
B = dict(this="Cantera::ThermoPhase", mem=e.mem)
k = Is("k")
has = lambda nm: ne(el[nm], NPOS)
def need(y): return summ(K, lambda i: mul(div(y(i), at(e.W, i)), add(ite(has("C"), na(i, el["C"]), ZERO), ite(has("S"), na(i, el["S"]), ZERO), ite(has("H"), mul(num(Fr(1, 4)), na(i, el["H"])), ZERO))))
a0 = lambda i: at(As("arg0.[]"), i)

def v_oxygen(V):
    S = summ(K, a0)
    r = V.fn(C + "o2Required", **B, contracts=CT, requires=e.base)
    r.throws_iff("no_composition", eq(S, ZERO))
    for m in range(8):
        h = [has(nm) if m >> j & 1 else eq(el[nm], NPOS) for j, nm in enumerate("CHS")]
        r.ensures("one_per_carbon_and_sulfur_quarter_per_hydrogen_%d" % m, eq(mul(r.result, S), need(a0)), h + [ne(S, ZERO)])
    r.frame([])
    r = V.fn(C + "o2Present", **B, contracts=CT, requires=e.base + [has("O")])
    r.throws_iff("no_composition", eq(S, ZERO))
    r.ensures("half_per_oxygen", eq(mul(r.result, S), summ(K, lambda i: mul(num(Fr(1, 2)), div(a0(i), at(e.W, i)), na(i, el["O"])))), [ne(S, ZERO)]); r.frame([])
    r = V.fn(P + "nAtoms", **B, requires=[lt(Is("arg0"), K), lt(Is("arg1"), e.M)])
    r.ensures("stored_composition", eq(r.result, at(As("this.m_speciesComp.[]"), add(mul(Is("arg0"), e.M), Is("arg1"))))); r.frame([])

# per kilogram of a mixture: oxygen needed to burn it and oxygen it holds
q_need = lambda i: mk("uf", ("o2_need", lift(i)), "R"); q_pres = lambda i: mk("uf", ("o2_pres", lift(i)), "R")
NEED = lambda y: summ(K, lambda i: mul(y(i), q_need(i))); PRES = lambda y: summ(K, lambda i: mul(y(i), q_pres(i)))
# "needs" and "holds" name these amounts per kilogram, so that the arithmetic of the callers is separate from the sums
def amount(nm, tot, s): return mk("uf", (nm, div(tot, s)), "R")
def c_o2(f, nm):
    def g(ex, th, a, n):
        p = ex.load(*a[0]); arr = ex.rdarr(p.loc.path + ("[]",), "R"); y = lambda i: at(arr, add(p.off, i))
        tot = summ(K, y); ex.throw_if(eq(tot, ZERO), "Cantera::CanteraError")
        return amount(nm, summ(K, lambda i: mul(y(i), f(i))), tot)
    return g
def c_moleToMass(ex, th, a, n):
    """proved of the function in C01: Y_k = X_k W_k / sum X W, or an exception; named by what is converted"""
    x = ex.load(*a[0]); arr = ex.rdarr(x.loc.path + ("[]",), "R")
    ex.throw_if(eq(summ(K, lambda i: mul(at(arr, add(x.off, i)), at(e.W, i))), ZERO), "Cantera::CanteraError")
    nm = ".".join(x.loc.path) if tm.show(x.off) == "0" else "elsewhere"
    ex.map_range(ex.load(*a[1]), K, "double", lambda suf, so, rel, bs, tt: at(As("mass_fractions_of_%s.[]" % nm), rel))
def c_setY(nm):
    def g(ex, th, a, n):
        p = ex.load(*a[0]); arr = ex.rdarr(p.loc.path + ("[]",), "R"); ex.st.mem[("ghost_" + nm, "[]")] = array(lambda i: at(arr, add(p.off, i)))
        ex.wr(Loc(("ghost_set",), []), add(ex.rd(Loc(("ghost_set",), []), sort="I"), IONE), sort="I")
    return g
def c_setP(ex, th, a, n):
    ex.wr(Loc(("ghost_P",), []), ex.term_of(*a[0]), sort="R"); ex.wr(Loc(("ghost_after",), []), ex.rd(Loc(("ghost_set",), []), sort="I"), sort="I")
both = lambda nm, f: {nm: f, "virtual " + nm: f}
CO = {C + "o2Required": c_o2(q_need, "needs"), C + "o2Present": c_o2(q_pres, "holds"), P + "moleFractionsToMassFractions": c_moleToMass}
CO.update(both(P + "setMassFractions", c_setY("Y"))); CO.update(both(P + "setMassFractions_NoNorm", c_setY("Yn"))); CO.update(both(P + "setPressure", c_setP)); CO.update(both(P + "pressure", lambda ex, th, a, n: Rs("P_now")))
class Arg:
    """an array argument: element i"""
    def __init__(self, nm): self.nm = nm
    def __call__(self, i): return at(As(self.nm + ".[]"), i)
f0, f1, f2 = Arg("arg0"), Arg("arg1"), Arg("arg2")
def as_mass(y): return Arg("mass_fractions_of_" + y.nm)
def fixed(V, i, b, s_=None):
    """arguments as given, with the basis (and the element) fixed"""
    def g(ex, fd):
        l = list(V.default_args(ex, fd)); l[i] = (I(b), fd["params"][i]["t"])
        if s_ is not None: l[i + 1] = (tm.strlit(s_), fd["params"][i + 1]["t"])
        return l
    return g
def unit(y): return lambda i: div(y(i), summ(K, y))
BASES = (("mass", 0, lambda y: y, unit), ("molar", 1, as_mass, lambda y: unit(as_mass(y))))     # what the functions use, and its normalised mass fractions
# what the functions need to know about fuel f and oxidizer o (mass fractions up to a factor)
def surplus(y): return sub(NEED(y), PRES(y))
def extra(y): return sub(amount("needs", NEED(y), summ(K, y)), amount("holds", PRES(y), summ(K, y)))
def proper(b, *raw): return [lt(ZERO, summ(K, as_mass(y) if b else y)) for y in raw] + ([lt(ZERO, summ(K, lambda i, y=y: mul(y(i), at(e.W, i)))) for y in raw] if b else [])
def v_airfuel(V):
    for nm, b, used, conv in BASES:
        f, o = extra(used(f0)), extra(used(f1))
        r = V.fn(C + "stoichAirFuelRatio", sub="const double", **B, contracts=CO, requires=e.base + proper(b, f0, f1), args=fixed(V, 2, b), name="stoichAirFuelRatio(%s)" % nm)
        r.throws_iff("mixed_up", or_(lt(f, ZERO), lt(ZERO, o)))
        r.ensures("oxygen_needed_by_the_fuel_over_surplus_of_the_oxidizer", eq(mul(r.result, neg(o)), f), [le(ZERO, f), lt(o, ZERO)])
        r.ensures("infinite_without_surplus", eq(r.result, Rs("#dbl_infinity")), [le(ZERO, f), eq(o, ZERO)]); r.frame([])

AFR = Rs("afr")
def v_set(V):
    for nm, b, used, conv in BASES:
        f, o = conv(f1), conv(f2)
        ct = {**CO, C + "stoichAirFuelRatio": lambda ex, th, a, n: AFR}
        rq = e.base + proper(b, f1, f2) + [eq(Is("ghost_set"), IZERO)]
        r = V.fn(C + "setEquivalenceRatio", sub="const double", **B, contracts=ct, requires=rq, args=fixed(V, 3, b), name="setEquivalenceRatio(%s)" % nm)
        r.throws_iff("negative_rejected", lt(Rs("arg0"), ZERO))
        r.ensures("fuel_times_ratio_plus_stoichiometric_oxidizer", eq(r.postat("ghost_Y.[]", k), add(mul(Rs("arg0"), f(k)), mul(AFR, o(k)))), [lt(k, K), le(ZERO, Rs("arg0"))])
        r.ensures("pressure_restored_afterwards", and_(eq(r.post("ghost_P", "R"), Rs("P_now")), eq(r.post("ghost_set", "I"), IONE), eq(r.post("ghost_after", "I"), IONE)), [le(ZERO, Rs("arg0"))]); r.frame(["ghost"])
        r = V.fn(C + "setMixtureFraction", sub="const double", **B, contracts=ct, requires=rq, args=fixed(V, 3, b), name="setMixtureFraction(%s)" % nm)
        bad = or_(lt(Rs("arg0"), ZERO), lt(ONE, Rs("arg0"))); Z = Rs("arg0")
        r.throws_iff("outside_zero_one_rejected", bad)
        g = r.post("ghost_Yn.[]")
        r.ensures("mass_fraction_of_the_fuel_stream", eq(at(g, k), add(mul(Z, f(k)), mul(sub(ONE, Z), o(k)))), [lt(k, K), not_(bad)])
        r.ensures("sums_to_one", eq(summ(K, lambda i: at(g, i)), ONE), [not_(bad)])
        r.ensures("pressure_restored_afterwards", and_(eq(r.post("ghost_P", "R"), Rs("P_now")), eq(r.post("ghost_set", "I"), IONE), eq(r.post("ghost_after", "I"), IONE)), [not_(bad)]); r.frame(["ghost"])

def v_get(V):
    Z, phi, A = Rs("Z"), Rs("phi"), AFR
    for nm, b, used, conv in BASES:
        f, o = conv(f0), conv(f1)
        yZ = array(lambda i: add(mul(Z, f(i)), mul(sub(ONE, Z), o(i))))
        pre = e.base + proper(b, f0, f1)
        # whatever the mixture: value from the oxygen balance, clipped to the physical range
        mem0 = {**e.mem}; Y = lambda i: at(e.Y, i)
        r = V.fn(C + "mixtureFraction", sub="const double", this="Cantera::ThermoPhase", mem=mem0, contracts=CO, args=fixed(V, 2, b, "Bilger"), requires=pre + [eq(summ(K, Y), ONE)], name="mixtureFraction(Bilger, %s)" % nm)
        xf, xo, xy = extra(used(f0)), extra(used(f1)), extra(Y)
        r.throws_iff("mixed_up_or_equal", or_(lt(xf, ZERO), lt(ZERO, xo), eq(xf, xo)))
        ok = [le(ZERO, xf), le(xo, ZERO), lt(ZERO, sub(xf, xo))]; bal = sub(xy, xo); den = sub(xf, xo)
        r.ensures("oxygen_balance", eq(mul(r.result, den), bal), ok + [le(ZERO, bal), le(bal, den)])
        r.ensures("not_below_zero", eq(r.result, ZERO), ok + [lt(bal, ZERO)]); r.ensures("not_above_one", eq(r.result, ONE), ok + [lt(den, bal)]); r.frame([])
        # the mixture setMixtureFraction makes
        ok = [le(ZERO, surplus(f)), le(surplus(o), ZERO), lt(ZERO, sub(surplus(f), surplus(o)))]; den = sub(surplus(f), surplus(o))
        V.lemma("bilger_fraction_of_a_blend_" + nm, pre + ok + [le(ZERO, Z), le(Z, ONE)], eq(sub(surplus(lambda i: at(yZ, i)), surplus(o)), mul(Z, den)))
        V.lemma("blend_sums_to_one_" + nm, pre, eq(summ(K, lambda i: at(yZ, i)), ONE))
        # one element
        ef = lambda y: summ(K, lambda i: mul(div(y(i), at(e.W, i)), na(i, Is("el_X"))))
        ct = {**CO, P + "elementIndex": lambda ex, th, a, n: Is("el_X"), P + "nAtoms": CT[P + "nAtoms"]}
        r = V.fn(C + "mixtureFraction", sub="const double", this="Cantera::ThermoPhase", mem=mem0, contracts=ct, args=fixed(V, 2, b, "X"), requires=pre, name="mixtureFraction(element, %s)" % nm)
        zf, zo = div(ef(used(f0)), summ(K, used(f0))), div(ef(used(f1)), summ(K, used(f1)))
        r.throws_iff("same_fraction", eq(zf, zo))
        ze = div(sub(ef(Y), zo), sub(zf, zo)); low = ite(lt(ze, ZERO), ZERO, ze)
        r.ensures("element_balance_within_zero_and_one", eq(r.result, ite(lt(ONE, low), ONE, low)), [ne(zf, zo)])
        r.frame([])
        zf, zo = ef(f), ef(o)
        V.lemma("element_fraction_of_a_blend_" + nm, pre, eq(sub(ef(lambda i: at(yZ, i)), zo), mul(Z, sub(zf, zo))))
        # ratio relative to fuel and oxidizer
        ct = {**CO, C + "stoichAirFuelRatio": lambda ex, th, a, n: A, C + "mixtureFraction": lambda ex, th, a, n: Z}
        r = V.fn(C + "equivalenceRatio", sub="const double", this="Cantera::ThermoPhase", mem=mem0, contracts=ct, args=fixed(V, 2, b), requires=pre + [le(ZERO, Z), le(Z, ONE), le(ZERO, A)], name="equivalenceRatio(%s)" % nm)
        r.ensures("from_the_mixture_fraction", eq(mul(r.result, sub(ONE, Z)), mul(Z, A)), [lt(Z, ONE)])
        r.ensures("infinite_for_pure_fuel", eq(r.result, Rs("#dbl_infinity")), [eq(Z, ONE)]); r.nothrow(); r.frame([])
    # the mixture setEquivalenceRatio makes: what goes in comes out
    f, o = unit(f0), unit(f1); pre = e.base + proper(0, f0, f1)
    tot = add(phi, A); yphi = lambda i: div(add(mul(phi, f(i)), mul(A, o(i))), tot)
    A_def = eq(mul(A, neg(surplus(o))), surplus(f)); ok = [lt(ZERO, surplus(f)), lt(surplus(o), ZERO), lt(ZERO, A), le(ZERO, phi), A_def]
    V.lemma("normaliser", pre + ok, eq(summ(K, lambda i: add(mul(phi, f(i)), mul(A, o(i)))), tot))
    V.lemma("mixture_fraction_of_a_ratio", pre + ok, eq(mul(sub(surplus(yphi), surplus(o)), tot), mul(phi, sub(surplus(f), surplus(o)))))
    V.lemma("ratio_returned_is_ratio_set", [le(ZERO, phi), lt(ZERO, A), eq(mul(Z, tot), phi), eq(mul(Rs("ratio"), sub(ONE, Z)), mul(Z, A))], eq(Rs("ratio"), phi))
    # without reference to fuel and oxidizer: needed over present
    r = V.fn(C + "equivalenceRatio", sub="() const", this="Cantera::ThermoPhase", mem=e.mem, contracts=CO, requires=e.base + [eq(summ(K, lambda i: at(e.Y, i)), ONE)], name="equivalenceRatio()")
    Y = lambda i: at(e.Y, i)
    nd, pr = amount("needs", NEED(Y), summ(K, Y)), amount("holds", PRES(Y), summ(K, Y))
    r.ensures("needed_over_present", eq(mul(r.result, pr), nd), [ne(pr, ZERO)])
    r.ensures("infinite_without_oxygen", eq(r.result, Rs("#dbl_infinity")), [eq(pr, ZERO)]); r.nothrow(); r.frame([])
    for nm, X in (("needed", NEED), ("present", PRES)): V.lemma(nm + "_of_a_ratio", pre + ok, eq(mul(X(yphi), tot), add(mul(phi, X(f)), mul(A, X(o)))))
    nf, pf, no, po = Rs("nf"), Rs("pf"), Rs("no"), Rs("po")
    V.lemma("needed_over_present_of_a_ratio", [eq(pf, ZERO), eq(no, ZERO), eq(nf, add(pf, mul(A, sub(po, no))))], eq(add(mul(phi, nf), mul(A, no)), mul(phi, add(mul(phi, pf), mul(A, po)))))

def v_basis(V):
    mm = {P + "meanMolecularWeight": lambda ex, th, a, n: Rs("this.m_mmw")}
    for nm in ("enthalpy", "intEnergy", "entropy", "gibbs", "cp", "cv"):
        ct = {**mm, **both(C + nm + "_mole", lambda ex, th, a, n: Rs("molar"))}
        r = V.fn(C + nm + "_mass", **B, contracts=ct, requires=[lt(ZERO, e.mmw)])
        r.ensures("molar_over_mean_molecular_weight", eq(mul(r.result, e.mmw), Rs("molar"))); r.frame([])
    # defaults built from partial molar quantities
    for nm, g in (("enthalpy", "getPartialMolarEnthalpies"), ("entropy", "getPartialMolarEntropies"), ("gibbs", "getChemPotentials"), ("cp", "getPartialMolarCp")):
        def c_pm(ex, th, a, n): ex.map_range(ex.load(*a[0]), K, "double", lambda suf, so, rel, bs, tt: mk("uf", ("pm", rel), "R"))
        r = V.fn(C + nm + "_mole", **B, contracts=both(C + g, c_pm), requires=e.base, name="ThermoPhase::%s_mole" % nm)
        r.ensures("mole_fraction_average_of_the_partial_molar_values", eq(r.result, mul(e.mmw, summ(K, lambda i: mul(at(e.Ym, i), mk("uf", ("pm", lift(i)), "R")))))); r.frame(["this.m_workS"])
    r = V.fn(C + "intEnergy_mole", **B, contracts={**both(C + "enthalpy_mole", lambda ex, th, a, n: Rs("h")), **both(P + "pressure", lambda ex, th, a, n: Rs("P_now")), **both(P + "molarVolume", lambda ex, th, a, n: Rs("v")), **both(P + "molarDensity", lambda ex, th, a, n: Rs("n"))})
    r.ensures("enthalpy_minus_pressure_times_volume", eq(r.result, sub(Rs("h"), mul(Rs("P_now"), Rs("v"))))); r.frame([])
