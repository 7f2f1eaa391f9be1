"""C02: saving and restoring a phase state is lossless"""
from engine.spec import *
from .phase_env import Env, pos_part
TUS = ["src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/IdealGasPhase.cpp"]
DRIVER = "C02.cpp"
BOUND = "random states of shipped gas, surface, condensed, lattice, pure-fluid and cubic phases; random interleavings of setters, saves, restores and rejected updates"
P = "Cantera::Phase::"; TP = "Cantera::ThermoPhase::"; IG = "Cantera::IdealGasPhase::"
HINT_FNS = [P + "restoreState", P + "saveState", TP + "setState_TP"]
ASSUME = ["pressure() and setPressure() of an incompressible phase read and write one stored pressure (checked on the shipped phases by the driver)",
          "iterative setters (HP, UV, SP, SV, ...) and phases overriding the base class setters are covered by the bounded driver only"]
e = Env(); K = e.K; k = Is("k"); kk = [lt(k, K)]
Pst = Rs("this.m_Pcurrent")
def flags(pure, comp):
    b = lambda v: (lambda ex, th, a, n: boolc(v))
    def setp(ex, th, a, n): ex.wr(th.f("m_Pcurrent"), ex.term_of(*a[0]), sort="R")
    d = {}
    for v in ("", "virtual "):
        d[v + P + "isPure"] = b(pure); d[v + P + "isCompressible"] = b(comp)
        d[v + P + "pressure"] = lambda ex, th, a, n: ex.rdarr(th.path + ("m_Pcurrent",), "R"); d[v + P + "setPressure"] = setp
    return d
KINDS = [(p, c) for p in (False, True) for c in (False, True)]
def tag(p, c): return "(%s,%s)" % ("pure" if p else "mixture", "compressible" if c else "incompressible")
def size(p): return I(2) if p else add(K, I(2))

def v_save(V):
    for p, c in KINDS:
        q = dict(this="Cantera::Phase", mem=e.mem, requires=e.base + e.comp, contracts=flags(p, c))
        r = V.fn(P + "stateSize", name="Phase::stateSize" + tag(p, c), **q); r.ensures("value", eq(r.result, size(p))); r.frame([])
        r = V.fn(P + "saveState", sub="long,double *)", name="Phase::saveState" + tag(p, c), **q); o = r.post("arg1.[]")
        r.nothrow(); r.ensures("temperature", eq(at(o, 0), e.T)); r.ensures("density_or_pressure", eq(at(o, 1), e.rho if c else Pst))
        if not p: r.ensures("mass_fractions", eq(at(o, add(k, I(2))), at(e.Y, k)), kk)
        j = Is("j"); r.ensures("nothing_beyond_the_state", eq(at(o, j), at(As("arg1.[]"), j)), [le(size(p), j)]); r.frame([])
        r = V.fn(P + "saveState", sub="vector", name="Phase::saveState(vector)" + tag(p, c), **q); o = r.post("arg0.[]")
        r.nothrow(); r.ensures("length", eq(r.post("arg0.#len", "I"), size(p))); r.ensures("temperature", eq(at(o, 0), e.T)); r.ensures("density_or_pressure", eq(at(o, 1), e.rho if c else Pst))
        if not p: r.ensures("mass_fractions", eq(at(o, add(k, I(2))), at(e.Y, k)), kk)
        r.frame([])

def v_restore(V):
    for p, c in KINDS:
        for sub, s, ln in (("long,const double *)", "arg1.[]", "arg0"), ("vector", "arg0.[]", "arg0.#len")):
            A = As(s); n = Is(ln); Yv = lambda i: at(A, add(i, I(2)))
            S = summ(K, lambda i: div(Yv(i), at(e.W, i)))
            r = V.fn(P + "restoreState", sub=sub, name="Phase::restoreState" + ("(vector)" if sub == "vector" else "") + tag(p, c), this="Cantera::Phase", mem=e.mem, contracts=flags(p, c), requires=e.base + [lt(ZERO, S)])
            bad = or_(lt(n, size(p)), le(at(A, 0), ZERO)); bad = or_(bad, le(at(A, 1), ZERO)) if c else bad
            r.throws_iff("rejects_short_vectors_and_nonpositive_values_only", bad)
            r.throw_ensures("short_vector_changes_nothing", lambda g: implies(lt(n, size(p)), and_(eq(g("this.m_temp"), e.T), eq(g("this.m_dens"), e.rho), eq(g("this.m_Pcurrent"), Pst), eq(g("this.m_stateNum", "I"), Is("this.m_stateNum", False)),
                                                          eq(sel(g("this.m_y.[]"), (k,)), at(e.Y, k)), eq(sel(g("this.m_ym.[]"), (k,)), at(e.Ym, k)), eq(g("this.m_mmw"), e.mmw))))
            r.ensures("temperature", eq(r.post("this.m_temp"), at(A, 0)))
            r.ensures("density_or_pressure", eq(r.post("this.m_dens" if c else "this.m_Pcurrent"), at(A, 1)))
            if c: r.ensures("pressure_variable_untouched", eq(r.post("this.m_Pcurrent"), Pst))
            if not p:
                y, ym, w = r.post("this.m_y.[]"), r.post("this.m_ym.[]"), r.post("this.m_mmw")
                r.ensures("mass_fractions_exactly_as_saved", eq(at(y, k), Yv(k)), kk)
                r.ensures("mole_fractions_agree", eq(mul(at(ym, k), at(e.W, k)), at(y, k)), kk)
                r.ensures("mean_molecular_weight", eq(mul(w, S), ONE))
            else: r.ensures("composition_untouched", and_(eq(r.postat("this.m_y.[]", k), at(e.Y, k)), eq(r.postat("this.m_ym.[]", k), at(e.Ym, k)), eq(r.post("this.m_mmw"), e.mmw)))
            r.ensures("cached_results_out_of_date", ne(r.post("this.m_stateNum", "I"), Is("this.m_stateNum", False)))
            r.frame(["this.m_temp", "this.m_stateNum"] + (["this.m_dens"] if c else ["this.m_Pcurrent"]) + ([] if p else ["this.m_y", "this.m_ym", "this.m_mmw"]))

def v_roundtrip(V):
    """restore after save, whatever the phase contains in between: same T, density/pressure, composition in every basis"""
    for p, c in KINDS:
        r = V.fn(P + "saveState", sub="long,double *)", this="Cantera::Phase", mem=e.mem, requires=e.base + e.comp, contracts=flags(p, c), count=False)
        saved = r.post("arg1.[]")
        # every other history: all state variables hold arbitrary other values
        other = {"this." + v: Rs("between." + v) for v in ("m_temp", "m_dens", "m_mmw", "m_Pcurrent")}
        if not p: other.update({"this.m_y.[]": As("between.m_y"), "this.m_ym.[]": As("between.m_ym")})
        else: del other["this.m_mmw"]
        S = summ(K, lambda i: at(e.Ym, i))
        q = V.fn(P + "restoreState", sub="long,const double *)", name="Phase::restoreState(after saveState)" + tag(p, c), this="Cantera::Phase", mem=dict(e.mem, **dict(other, **{"arg1.[]": saved})), contracts=flags(p, c),
                 requires=e.base + e.comp + [lt(ZERO, e.T), lt(ZERO, S), le(size(p), Is("arg0"))])
        q.nothrow("accepts_its_own_saved_state")
        q.ensures("temperature_reproduced", eq(q.post("this.m_temp"), e.T))
        q.ensures("density_or_pressure_reproduced", eq(q.post("this.m_dens" if c else "this.m_Pcurrent"), e.rho if c else Pst))
        if not p:
            q.ensures("composition_reproduced", and_(eq(q.postat("this.m_y.[]", k), at(e.Y, k)), eq(q.postat("this.m_ym.[]", k), at(e.Ym, k))), kk)
            q.ensures("mean_molecular_weight_reproduced", eq(q.post("this.m_mmw"), e.mmw))

# ---- setters by temperature and pressure/density
ok = lambda t, p, st: mk("uf", ("pressure_reachable", t, p), "B")
def v_setState(V):
    rhof = lambda t, p: mk("uf", ("density_at", t, p), "R")
    def setp(ex, th, a, n):
        p = ex.term_of(*a[0]); t = ex.rdarr(th.path + ("m_temp",), "R")
        ex.throw_if(not_(mk("uf", ("pressure_reachable", t, p), "B")), "Cantera::CanteraError")
        ex.wr(th.f("m_dens"), rhof(t, p), sort="R")
    ct = {v + P + "setPressure": setp for v in ("", "virtual ")}
    t, p = Rs("arg0"), Rs("arg1")
    r = V.fn(TP + "setState_TP", this="Cantera::ThermoPhase", mem=e.mem, contracts=ct, requires=e.base + e.comp + [lt(ZERO, e.T), lt(ZERO, rhof(t, p))])
    r.throws_iff("only_if_unreachable", or_(le(t, ZERO), not_(mk("uf", ("pressure_reachable", t, p), "B"))))
    r.ensures("temperature", eq(r.post("this.m_temp"), t)); r.ensures("pressure", eq(r.post("this.m_dens"), rhof(t, p)))
    r.frame(["this.m_temp", "this.m_dens"])
    r.throw_frame([])
    r.throw_ensures("state_restored", lambda g: and_(eq(g("this.m_temp"), e.T), eq(g("this.m_dens"), e.rho)))
    w = e.mmw; Rg = Rs("#GasConstant")
    # ideal gas: temperature, pressure and composition together
    x = lambda i: pos_part(at(As("arg2.[]"), i))
    for nm, tot in (("X", summ(K, lambda i: mul(x(i), at(e.W, i)))), ("Y", summ(K, lambda i: div(x(i), at(e.W, i))))):
        r = V.fn(TP + "setState_TP" + nm, sub="const double *", name="ThermoPhase::setState_TP%s(ideal gas)" % nm, this="Cantera::IdealGasPhase", mem=e.mem, requires=e.base + [lt(ZERO, w), lt(ZERO, Rg), lt(ZERO, tot), lt(ZERO, summ(K, x)), lt(ZERO, t), lt(ZERO, p), lt(ZERO, e.rho), lt(ZERO, e.T)])
        y, ym, mw = r.post("this.m_y.[]"), r.post("this.m_ym.[]"), r.post("this.m_mmw")
        wmix = div(tot, summ(K, x)) if nm == "X" else div(summ(K, x), tot)
        r.ensures("temperature", eq(r.post("this.m_temp"), t))
        r.ensures("pressure", eq(mul(r.post("this.m_dens"), Rg, t), mul(p, mw)))
        r.ensures("mean_molecular_weight_of_the_new_composition", eq(mw, wmix))
        r.ensures("composition", eq(mul(at(ym, k), mw), div(x(k), summ(K, x))) if nm == "X" else eq(at(y, k), div(x(k), summ(K, x))), kk)
        r.ensures("bases_agree", eq(mul(at(ym, k), at(e.W, k)), at(y, k)), kk)
        r.ensures("cached_results_out_of_date", ne(r.post("this.m_stateNum", "I"), Is("this.m_stateNum", False)))
    # every phase: the composition is set first, then temperature and pressure with it
    for nm in ("X", "Y"):
        for sub, kind in (("const double *", ""), ("map", "ByName"), ("basic_string", "ByName")):
            log_ = []
            def sx(ex, th, a, n): log_.append(("comp", a[0][0] if kind else ex.load(*a[0]))); ex.wr(th.f("ghost_comp"), Is("newcomp"), sort="I")
            def st(ex, th, a, n): log_.append(("TP",)); ex.wr(th.f("ghost_t"), ex.term_of(*a[0]), sort="R"); ex.wr(th.f("ghost_p"), ex.term_of(*a[1]), sort="R"); ex.wr(th.f("ghost_comp_at_tp"), ex.rdarr(th.path + ("ghost_comp",), "I"), sort="I")
            base = {"X": "setMoleFractions", "Y": "setMassFractions"}[nm] + kind
            ct = {}
            for v in ("", "virtual "): ct[v + P + base] = sx; ct[v + TP + "setState_TP"] = st; ct[v + P + "setState_TP"] = st
            r = V.fn(TP + "setState_TP" + nm, sub=sub, name="ThermoPhase::setState_TP%s(%s)" % (nm, sub.split()[0]), this="Cantera::ThermoPhase", mem=e.mem, contracts=ct)
            r.ensures("given_temperature_and_pressure", and_(eq(r.post("this.ghost_t"), t), eq(r.post("this.ghost_p"), p)))
            r.ensures("composition_set_before_pressure", eq(r.post("this.ghost_comp_at_tp", "I"), Is("newcomp")))
            c = [x for x in log_ if x[0] == "comp"]
            r.ensures("given_composition", boolc(len(c) == 1 and "arg2" in str(c[0][1])))
    r = V.fn(P + "setState_TD", name="Phase::setState_TD", this="Cantera::Phase", mem=e.mem, requires=e.base + e.comp + [lt(ZERO, e.T)])
    r.ensures("stored", and_(eq(r.post("this.m_temp"), t), eq(r.post("this.m_dens"), p))); r.throws_iff("nonpositive_only", or_(le(t, ZERO), le(p, ZERO))); r.frame(["this.m_temp", "this.m_dens"])
