"""C16: walls and flow devices exchange equal and opposite amounts by their laws"""
from engine.spec import *
TUS = ["src/zeroD/Wall.cpp", "src/zeroD/FlowDevice.cpp", "src/zeroD/flowControllers.cpp", "src/zeroD/Reactor.cpp"]
DRIVER = "C16.cpp"
BOUND = "random walls, valves, controllers, functions of time and pressure, and histories of parameter changes"
Q = "Cantera::"
W, WB, FD = Q + "Wall", Q + "WallBase", Q + "FlowDevice"
HINT_FNS = [W + "::heatRate", W + "::expansionRate"]
ASSUME = ["a prescribed function of time or pressure is a pure function of its argument (contract of Func1::eval; Func1 itself is property C11)",
          "a reactor with a phase inserted has a non-empty stored state (ReactorBase::insert / syncState; exercised by the bounded driver)"]
def fn(obj): return lambda ex, th, a, n: uf("func:" + ".".join(x for x in th.path if x != "*"), [ex.term_of(*a[0])], "R")
CT = {"virtual Cantera::Func1::eval": fn(None), "Cantera::Func1::eval": fn(None)}
def F(name, x): return uf("func:this." + name, [x], "R")
def has(p): return Bs("this.%s.#nn" % p)
def Rr(p): return Rs("this." + p)
def TT(side): return at(As("this.%s.*.m_state.[]" % side), 0)
def PP(side): return Rs("this.%s.*.m_pressure" % side)
st = [ne(Is("this.%s.*.m_state.#len" % s), IZERO) for s in ("m_left", "m_right")]
t = Rr("m_time"); A = Rr("m_area")
sigma = div(mul(R(2), pw(Rs("#Pi"), 5), pw(Rs("#Boltzmann"), 4)), mul(R(15), pw(Rs("#Planck"), 3), pw(Rs("#lightSpeed"), 2)))
nrdy = not_(and_(has("m_left"), has("m_right")))

def v_wall(V):
    dT = sub(TT("m_left"), TT("m_right")); d4 = sub(pw(TT("m_left"), 4), pw(TT("m_right"), 4)); em = Rr("m_emiss")
    r = V.fn(W + "::heatRate", this=W, contracts=CT, requires=st + [le(ZERO, em)])
    r.throws_iff("needs_both_sides", nrdy)
    r.ensures("documented_law", eq(r.result, add(mul(A, Rr("m_rrth"), dT), mul(em, A, sigma, d4), ite(has("m_qf"), mul(A, F("m_qf", t)), ZERO))))
    r.frame([], ("this",))
    q = r.result
    sw = lambda x: subst(x, {As("this.m_left.*.m_state.[]"): As("this.m_right.*.m_state.[]"), As("this.m_right.*.m_state.[]"): As("this.m_left.*.m_state.[]")})
    V.lemma("heat_flow_antisymmetric_without_prescribed_flux", st + [le(ZERO, em), not_(has("m_qf"))], eq(add(q, sw(q)), ZERO))
    r = V.fn(W + "::expansionRate", this=W, contracts=CT)
    r.throws_iff("needs_both_sides", nrdy)
    r.ensures("documented_law", eq(r.result, add(mul(Rr("m_k"), A, sub(PP("m_left"), PP("m_right"))), ite(has("m_vf"), mul(A, F("m_vf", t)), ZERO))))
    r.frame([], ("this",))
    for nm, fp in (("velocity", "m_vf"), ("heatFlux", "m_qf")):
        r = V.fn(W + "::" + nm, this=W, contracts=CT); r.ensures("prescribed_or_zero", eq(r.result, ite(has(fp), F(fp, t), ZERO))); r.frame([])
    a0 = Rs("arg0")
    r = V.fn(W + "::setThermalResistance", this=W); r.ensures("reciprocal", eq(r.post("this.m_rrth"), div(ONE, a0)), [ne(a0, ZERO)]); r.frame(["this.m_rrth"])
    r = V.fn(W + "::setHeatTransferCoeff", this=W); r.ensures("set", eq(r.post("this.m_rrth"), a0)); r.frame(["this.m_rrth"])
    r = V.fn(W + "::setExpansionRateCoeff", this=W); r.ensures("set", eq(r.post("this.m_k"), a0)); r.frame(["this.m_k"])
    r = V.fn(W + "::setEmissivity", this=W); r.throws_iff("range", or_(lt(ONE, a0), lt(a0, ZERO))); r.ensures("set", eq(r.post("this.m_emiss"), a0)); r.frame(["this.m_emiss"])
    r = V.fn(WB + "::setArea", this=W); r.ensures("set", eq(r.post("this.m_area"), a0)); r.frame(["this.m_area"])
    r = V.fn(WB + "::area", this=W); r.ensures("value", eq(r.result, A))
    r = V.fn(WB + "::ready", this=W); r.ensures("both_sides", eq(r.result, and_(has("m_left"), has("m_right"))))
    for g, f_ in (("getHeatTransferCoeff", "m_rrth"), ("getEmissivity", "m_emiss"), ("getExpansionRateCoeff", "m_k")):
        r = V.fn(W + "::" + g, this=W); r.ensures("value", eq(r.result, Rr(f_))); r.frame([])
    r = V.fn(WB + "::setSimTime", this=W); r.ensures("set", eq(r.post("this.m_time"), a0)); r.frame(["this.m_time"])

def v_flow(V):
    a0 = Rs("arg0"); dP = sub(Rs("this.m_in.*.m_pressure"), Rs("this.m_out.*.m_pressure")); c = Rr("m_coeff")
    inst = and_(has("m_in"), has("m_out")); pf = ite(has("m_pfunc"), F("m_pfunc", dP), dP)
    def tf(x): return ite(has("m_tfunc"), F("m_tfunc", x), ONE)
    def clip(x): return ite(lt(x, ZERO), ZERO, x)
    C = Q + "MassFlowController"
    r = V.fn(C + "::updateMassFlowRate", this=C, contracts=CT); r.throws_iff("needs_installation", not_(inst))
    r.ensures("documented_law", eq(r.post("this.m_mdot"), clip(mul(c, tf(a0))))); r.ensures("non_negative", le(ZERO, r.post("this.m_mdot"))); r.frame(["this.m_mdot"])
    r = V.fn(C + "::setMassFlowRate", this=C); r.ensures("constant_rate", and_(eq(r.post("this.m_coeff"), a0), not_(r.postnn("this.m_tfunc")))); r.frame(["this.m_coeff", "this.m_tfunc"])
    r = V.fn(C + "::setMassFlowCoeff", this=C); r.ensures("set", eq(r.post("this.m_coeff"), a0)); r.frame(["this.m_coeff"])
    r = V.fn(C + "::setPressureFunction", this=C); r.throws_if("not_supported", TRUE)
    C = Q + "Valve"
    r = V.fn(C + "::updateMassFlowRate", this=C, contracts=CT); r.throws_iff("needs_installation", not_(inst))
    r.ensures("documented_law", eq(r.post("this.m_mdot"), clip(mul(c, tf(a0), pf)))); r.ensures("non_negative", le(ZERO, r.post("this.m_mdot"))); r.frame(["this.m_mdot"])
    r = V.fn(C + "::setValveCoeff", this=C); r.ensures("set", eq(r.post("this.m_coeff"), a0)); r.frame(["this.m_coeff"])
    C = Q + "PressureController"; prim = Rs("primary_rate")
    ct2 = dict(CT); ct2["virtual Cantera::FlowDevice::updateMassFlowRate"] = lambda ex, th, a, n: ex.wr(th.f("m_mdot"), uf("primary", [ex.term_of(*a[0])], "R"), sort="R")
    r = V.fn(C + "::updateMassFlowRate", this=C, contracts=ct2, requires=[ne(uf("primary", [a0], "R"), Rs("#Undef"))])
    r.throws_iff("needs_installation_and_primary", not_(and_(inst, has("m_primary"))))
    r.ensures("documented_law", eq(r.post("this.m_mdot"), clip(add(mul(c, pf), uf("primary", [a0], "R"))))); r.ensures("non_negative", le(ZERO, r.post("this.m_mdot"))); r.frame(["this.m_mdot", "this.m_primary"])
    r = V.fn(C + "::ready", this=C); r.ensures("installed_with_primary", eq(r.result, and_(inst, has("m_primary"))))
    r = V.fn(C + "::setPressureCoeff", this=C); r.ensures("set", eq(r.post("this.m_coeff"), a0)); r.frame(["this.m_coeff"])
    r = V.fn(C + "::setTimeFunction", this=C); r.throws_if("not_supported", TRUE)
    C = Q + "Valve"
    r = V.fn(FD + "::massFlowRate", this=C); r.throws_iff("undefined_until_updated", eq(Rr("m_mdot"), Rs("#Undef"))); r.ensures("value", eq(r.result, Rr("m_mdot"))); r.frame([])
    r = V.fn(FD + "::evalPressureFunction", this=C, contracts=CT); r.ensures("law", eq(r.result, pf)); r.frame([])
    r = V.fn(FD + "::evalTimeFunction", this=C, contracts=CT); r.ensures("law", eq(r.result, tf(t))); r.frame([])
    r = V.fn(FD + "::ready", this=C); r.ensures("both_ends", eq(r.result, inst))
    k = Is("arg0"); ki = at(As("this.m_out2in.[]", "I"), k); npos = I(2**64 - 1)
    ns = Is("this.m_nspout")
    r = V.fn(FD + "::outletSpeciesMassFlowRate", this=C, requires=[ne(Is("this.m_in.*.m_state.#len"), IZERO)])
    r.ensures("upstream_composition", eq(r.result, mul(Rr("m_mdot"), at(As("this.m_in.*.m_state.[]"), add(ki, I(2))))), [lt(k, ns), ne(ki, npos)])
    r.ensures("zero_for_species_not_upstream", eq(r.result, ZERO), [or_(le(ns, k), eq(ki, npos))]); r.frame([]); r.nothrow()
    r = V.fn(FD + "::enthalpy_mass", this=C, requires=[ne(Is("this.m_in.*.m_state.#len"), IZERO)]); r.ensures("upstream_enthalpy", eq(r.result, Rs("this.m_in.*.m_enthalpy"))); r.frame([])

def v_reactor_side(V):
    """each reactor adds the wall's rates with opposite signs on the two sides"""
    n = Is("this.m_wall.#len"); E, H = As("wall_expansion"), As("wall_heat"); lr = As("this.m_lr.[]", "I")
    ix = lambda th: th.idx[-1]
    ct = {"virtual Cantera::WallBase::expansionRate": lambda ex, th, a, nn: sel(E, (ix(th),)), "virtual Cantera::WallBase::heatRate": lambda ex, th, a, nn: sel(H, (ix(th),)),
          "Cantera::WallBase::setSimTime": lambda ex, th, a, nn: None}
    r = V.fn(Q + "Reactor::evalWalls", this=Q + "Reactor", contracts=ct)
    f = lambda i: sub(mul(R(2), at(lr, i)), ONE)
    r.ensures("volume_change", eq(r.post("this.m_vdot"), neg(summ(n, lambda i: mul(f(i), at(E, i))))))
    r.ensures("heat_input", eq(r.post("this.m_Qdot"), summ(n, lambda i: mul(f(i), at(H, i)))))
    r.frame(["this.m_vdot", "this.m_Qdot"])
