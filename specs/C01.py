"""C01: phase composition is normalized and consistent between bases."""
from engine.spec import *
from .phase_env import Env, pos_part
TUS = ["src/thermo/Phase.cpp"]
DRIVER = "C01.cpp"
BOUND = "random phases from the shipped mechanisms plus synthetic phases, random compositions with negative, zero and tiny entries"
P = "Cantera::Phase::"
HINT_FNS = [P + n for n in ("setMoleFractions", "setMassFractions", "setConcentrations", "setMolesNoTruncate", "elementalMassFraction", "sum_xlogx", "massFractionsToMoleFractions")]
ASSUME = ["virtual hooks (compositionChanged, setDensity, isCompressible, density) taken as the Phase implementations",
          "a composition input has a positive total (otherwise 0/0)"]

def after(r, e, tag, X=None, Y=None, norm=True, setdens=None):
    """post-state: the stored composition equals the mixture given by X (or Y), all bases agree"""
    y, ym, w = r.post("this.m_y.[]"), r.post("this.m_ym.[]"), r.post("this.m_mmw")
    K = e.K
    if X is not None:
        tot = summ(K, lambda i: X(i)) if norm else ONE
        S = summ(K, lambda i: mul(X(i), at(e.W, i)))
        ok = [lt(ZERO, tot), lt(ZERO, S)]
        r.ensures("mean_molecular_weight", eq(w, div(S, tot)), ok)
        r.ensures("mass_fractions", forall(K, lambda i: eq(at(y, i), div(mul(X(i), at(e.W, i)), S))), ok)
        r.ensures("mole_fractions", forall(K, lambda i: eq(mul(at(ym, i), w), div(X(i), tot))), ok)
    else:
        tot = summ(K, lambda i: Y(i)) if norm else ONE
        R = summ(K, lambda i: div(Y(i), at(e.W, i)))
        ok = [lt(ZERO, tot), lt(ZERO, R)]
        r.ensures("mean_molecular_weight", eq(w, div(tot, R)), ok)
        r.ensures("mass_fractions", forall(K, lambda i: eq(at(y, i), div(Y(i), tot))), ok)
        r.ensures("mole_fractions", forall(K, lambda i: eq(mul(at(ym, i), w), div(div(Y(i), at(e.W, i)), R))), ok)
    r.ensures("bases_agree", forall(K, lambda i: eq(at(y, i), mul(at(ym, i), at(e.W, i)))), ok)
    if norm:
        r.ensures("mass_fractions_sum_to_one", eq(summ(K, lambda i: at(y, i)), ONE), ok)
        r.ensures("mole_fractions_sum_to_one", eq(mul(w, summ(K, lambda i: at(ym, i))), ONE), ok)
    r.ensures("marks_state_changed", ne(r.post("this.m_stateNum", "I"), Is("this.m_stateNum", False)), ok)
    if setdens is None:
        r.ensures("density_kept", eq(r.post("this.m_dens"), e.rho), ok)
    r.ensures("temperature_kept", eq(r.post("this.m_temp"), e.T), ok)
    r.frame(["this.m_y", "this.m_ym", "this.m_mmw", "this.m_stateNum", "this.m_dens"])

def arg(i): return at(As("arg0.[]"), i)

def v_setMoleFractions(V):
    e = Env(); X = lambda i: pos_part(arg(i))
    r = V.fn(P + "setMoleFractions", this="Cantera::Phase", mem=e.mem, requires=e.base + [lt(ZERO, summ(e.K, lambda i: X(i))), lt(ZERO, summ(e.K, lambda i: mul(X(i), at(e.W, i))))])
    r.nothrow(); after(r, e, "X", X=X)
def v_setMoleFractions_NoNorm(V):
    e = Env()
    r = V.fn(P + "setMoleFractions_NoNorm", this="Cantera::Phase", mem=e.mem, requires=e.base + [lt(ZERO, summ(e.K, lambda i: mul(arg(i), at(e.W, i))))])
    r.nothrow(); after(r, e, "X", X=arg, norm=False)
def v_setMassFractions(V):
    e = Env(); Y = lambda i: pos_part(arg(i))
    r = V.fn(P + "setMassFractions", this="Cantera::Phase", mem=e.mem, requires=e.base + [lt(ZERO, summ(e.K, lambda i: Y(i))), lt(ZERO, summ(e.K, lambda i: div(Y(i), at(e.W, i))))])
    r.nothrow(); after(r, e, "Y", Y=Y)
def v_setMassFractions_NoNorm(V):
    e = Env()
    r = V.fn(P + "setMassFractions_NoNorm", this="Cantera::Phase", mem=e.mem, requires=e.base + [lt(ZERO, summ(e.K, lambda i: div(arg(i), at(e.W, i))))])
    r.nothrow(); after(r, e, "Y", Y=arg, norm=False)
def v_setConcentrations(V):
    for nm, C in (("setConcentrations", lambda i: pos_part(arg(i))), ("setConcentrationsNoNorm", arg)):
        e = Env(); S = summ(e.K, lambda i: mul(C(i), at(e.W, i)))
        r = V.fn(P + nm, this="Cantera::Phase", mem=e.mem, requires=e.base + [lt(ZERO, summ(e.K, C)), lt(ZERO, S)])
        r.nothrow(); after(r, e, "C", X=C, setdens=S)
        r.ensures("density_is_total_mass_concentration", eq(r.post("this.m_dens"), S))
        # concentrations read back: rho * ym_k
        ym = r.post("this.m_ym.[]"); d = r.post("this.m_dens")
        r.ensures("concentrations_read_back", forall(e.K, lambda i: eq(mul(at(ym, i), d), C(i))))
def v_setMolesNoTruncate(V):
    e = Env()
    r = V.fn(P + "setMolesNoTruncate", this="Cantera::Phase", mem=e.mem,
             requires=e.base + [lt(ZERO, summ(e.K, arg)), lt(ZERO, summ(e.K, lambda i: mul(arg(i), at(e.W, i))))])
    r.nothrow(); after(r, e, "N", X=arg)
def v_getters(V):
    e = Env(); q = dict(this="Cantera::Phase", mem=e.mem, requires=e.base + e.comp)
    out = lambda r: r.post("arg0.[]")
    r = V.fn(P + "getMoleFractions", **q); r.nothrow()
    r.ensures("value", forall(e.K, lambda i: eq(at(out(r), i), e.X(i)))); r.frame([], name="frame_object_unchanged")
    v = fresh("j", "I")
    r.ensures("writes_only_nspecies_entries", eq(at(out(r), v), at(As("arg0.[]"), v)), [le(e.K, v)])
    r = V.fn(P + "getMassFractions", **q); r.ensures("value", forall(e.K, lambda i: eq(at(out(r), i), at(e.Y, i)))); r.frame([])
    r.ensures("writes_only_nspecies_entries", eq(at(out(r), v), at(As("arg0.[]"), v)), [le(e.K, v)])
    r = V.fn(P + "getConcentrations", **q)
    r.ensures("value", forall(e.K, lambda i: eq(at(out(r), i), div(mul(e.rho, at(e.Y, i)), at(e.W, i))))); r.frame([])
    r = V.fn(P + "getMolecularWeights", **q); r.ensures("value", forall(e.K, lambda i: eq(at(out(r), i), at(e.W, i))))
    k = Is("arg0")
    for nm, val in (("moleFraction", e.X(k)), ("massFraction", at(e.Y, k)), ("concentration", div(mul(e.rho, at(e.Y, k)), at(e.W, k))), ("molecularWeight", at(e.W, k))):
        r = V.fn(P + nm, sub="unsigned", **q)
        r.ensures("value", eq(r.result, val)); r.throws_iff("rejects_bad_index_only", le(e.K, k)); r.frame([])
    r = V.fn(P + "massFractionsToMoleFractions", **dict(q, requires=e.base))
    S = summ(e.K, lambda i: div(at(As("arg0.[]"), i), at(e.W, i)))
    r.throws_iff("rejects_empty", eq(S, ZERO))
    X = r.post("arg1.[]")
    r.ensures("value", forall(e.K, lambda i: eq(mul(at(X, i), mul(S, at(e.W, i))), at(As("arg0.[]"), i))), [ne(S, ZERO)]); r.frame([])
    r = V.fn(P + "moleFractionsToMassFractions", **dict(q, requires=e.base))
    S2 = summ(e.K, lambda i: mul(at(As("arg0.[]"), i), at(e.W, i)))
    r.throws_iff("rejects_empty", eq(S2, ZERO))
    Y = r.post("arg1.[]")
    r.ensures("value", forall(e.K, lambda i: eq(mul(at(Y, i), S2), mul(at(As("arg0.[]"), i), at(e.W, i)))), [ne(S2, ZERO)]); r.frame([])
def v_mixture(V):
    e = Env(); q = dict(this="Cantera::Phase", mem=e.mem, requires=e.base + e.comp)
    A = As("this.m_speciesComp.[]"); Aw = As("this.m_atomicWeights.[]"); m = Is("arg0")
    nat = lambda k, j: at(A, add(mul(e.M, k), j))
    r = V.fn(P + "elementalMassFraction", **q)
    r.ensures("value", eq(r.result, summ(e.K, lambda k: div(mul(nat(k, m), at(Aw, m), at(e.Y, k)), at(e.W, k)))))
    r.throws_iff("rejects_bad_element_only", le(e.M, m)); r.frame([])
    r = V.fn(P + "elementalMoleFraction", **q)
    r.ensures("value", eq(r.result, div(summ(e.K, lambda k: mul(nat(k, m), e.X(k))), summ(e.K, lambda k: mul(summ(e.M, lambda j: nat(k, j)), e.X(k))))))
    r.throws_iff("rejects_bad_element_only", le(e.M, m)); r.frame([])
    r = V.fn(P + "molarDensity", **q); r.ensures("value", eq(r.result, div(e.rho, e.mmw)))
    r = V.fn(P + "molarVolume", **q); r.ensures("value", eq(r.result, div(e.mmw, e.rho)))
    r = V.fn(P + "meanMolecularWeight", **q); r.ensures("value", eq(r.result, e.mmw))
    z = As("this.m_speciesCharge.[]")
    r = V.fn(P + "chargeDensity", **q); r.ensures("value", eq(r.result, mul(Rs("#Faraday"), summ(e.K, lambda k: mul(at(z, k), e.X(k))))))
    Q = As("arg0.[]")
    r = V.fn(P + "mean_X", sub="const double *const", **q); r.ensures("value", eq(r.result, summ(e.K, lambda k: mul(at(Q, k), e.X(k)))))
    r = V.fn(P + "mean_X", sub="vector", **q); r.ensures("value", eq(r.result, summ(e.K, lambda k: mul(at(Q, k), e.X(k)))))
    # sum_k X_k ln X_k for strictly positive composition (the guard against log(0) inactive)
    p = forall(e.K, lambda i: lt(Rs("#SmallNumber"), at(e.Ym, i)))
    r = V.fn(P + "sum_xlogx", **dict(q, requires=e.base + e.comp + [p, forall(e.K, lambda i: lt(ZERO, at(e.Y, i))), eq(mul(e.mmw, summ(e.K, lambda i: at(e.Ym, i))), ONE), lt(ZERO, Rs("#SmallNumber"))]))
    r.ensures("value", eq(r.result, summ(e.K, lambda k: mul(e.X(k), log(e.X(k))))))
def v_density_temperature(V):
    e = Env(); q = dict(this="Cantera::Phase", mem=e.mem)
    for nm in ("setDensity", "assignDensity"):
        r = V.fn(P + nm, **q); r.throws_iff("rejects_nonpositive_only", le(Rs("arg0"), ZERO))
        r.ensures("stored", eq(r.post("this.m_dens"), Rs("arg0"))); r.frame(["this.m_dens"])
    r = V.fn(P + "setTemperature", **q); r.throws_iff("rejects_nonpositive_only", le(Rs("arg0"), ZERO))
    r.ensures("stored", eq(r.post("this.m_temp"), Rs("arg0"))); r.frame(["this.m_temp"])
    r = V.fn(P + "setState_TD", **q)
    r.ensures("stored", and_(eq(r.post("this.m_temp"), Rs("arg0")), eq(r.post("this.m_dens"), Rs("arg1")))); r.frame(["this.m_temp", "this.m_dens"])
def v_setMolecularWeight(V):
    e = Env(); k = Is("arg0"); mw = Rs("arg1")
    r = V.fn(P + "setMolecularWeight", this="Cantera::Phase", mem=e.mem, requires=e.base + [le(IZERO, k), lt(k, e.K), lt(ZERO, mw)])
    W, RW, ym = r.post("this.m_molwts.[]"), r.post("this.m_rmolwts.[]"), r.post("this.m_ym.[]")
    r.ensures("reciprocal_weights", forall(e.K, lambda i: eq(mul(at(W, i), at(RW, i)), ONE)))
    r.ensures("bases_agree", forall(e.K, lambda i: eq(mul(at(ym, i), at(W, i)), at(e.Y, i))))
    r.ensures("mean_molecular_weight", eq(mul(r.post("this.m_mmw"), summ(e.K, lambda i: at(ym, i))), ONE), [lt(ZERO, summ(e.K, lambda i: at(ym, i)))])
