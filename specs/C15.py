"""C15: right-hand sides of the zero-dimensional reactors are the balances of mass, species, volume and energy"""
from engine.spec import *
from engine.exec import Loc
from .phase_env import Env
Z = ["Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"]
TUS = ["src/zeroD/%s.cpp" % z for z in Z] + ["src/zeroD/ReactorSurface.cpp", "src/thermo/Phase.cpp"]
DRIVER = "C15.cpp"
BOUND = "reactors of every type with up to 3 inlets, 2 outlets, 3 walls and 2 surfaces (species occupying 1-3 sites), contents of 10 or 53 species, inlets and outlets with other species sets, energy equation and chemistry switched on and off between evaluations, phase objects left in other states"
Q = "Cantera::"
HINT_FNS = [Q + z + "::eval" for z in Z] + [Q + "MoleReactor::evalSurfaces", Q + "Reactor::evalSurfaces"]
ASSUME = ["the production rates, flow rates, wall rates and phase properties used are those of the current state (C05, C16, C01)", "root finding for the temperature from the internal energy (boost) is trusted; the bounded driver compares the state it finds",
          "exact arithmetic; LHS = 1 and RHS = 0 on entry (ReactorNet::eval)"]
e = Env("this.m_thermo.*"); K = Is("this.m_nsp"); W = lambda i: at(e.W, i); Y = lambda i: at(e.Y, i); k = Is("k"); kk = [lt(k, K), le(IZERO, k)]
wd, sd, uk, hk = (lambda i, A=As(nm): at(A, i) for nm in ("wdot_now", "sdot_now", "u_now", "h_now")); V_, M_ = Rs("this.m_vol"), Rs("this.m_mass"); vd, Qd, Pn, h = Rs("vdot_now"), Rs("Qdot_now"), Rs("P_now"), Rs("this.m_enthalpy")
NO, NI = Is("this.m_outlet.#len"), Is("this.m_inlet.#len"); mo, mi, hi = As("mdot_out"), As("mdot_in"), As("h_in"); min_ = lambda i, n: mk("uf", ("mdot_species_in", lift(i), lift(n)), "R")
def summ_(n, f): return summ(n, f)
def sums(f): return summ(K, f)
both = lambda q, f: {q: f, "virtual " + q: f}
def rng(A): return lambda ex, th, a, n: ex.map_range(ex.load(*a[-1]), K, "double", lambda suf, so, rel, bs, tt: A(rel))
nop = lambda ex, th, a, n: None
def contracts():
    ct = {}
    def walls(ex, th, a, n): ex.wr(th.f("m_vdot"), vd, sort="R"); ex.wr(th.f("m_Qdot"), Qd, sort="R")
    for z in Z + ["ReactorBase"]:
        ct.update(both(Q + z + "::evalWalls", walls)); ct.update(both(Q + z + "::evalSurfaces", rng(sd)))
    isout = lambda th: "m_outlet" in th.path
    def mf(ex, th, a, n): return at(mo if isout(th) else mi, th.idx[-1])
    def sp(ex, th, a, n):
        if isout(th): return mk("uf", ("flow_by_downstream_species", th.idx[-1], ex.term_of(*a[0])), "R")
        return min_(th.idx[-1], ex.term_of(*a[0]))
    def en(ex, th, a, n): return at(hi, th.idx[-1]) if not isout(th) else h
    ct.update(both(Q + "FlowDevice::massFlowRate", mf)); ct.update(both(Q + "FlowDevice::outletSpeciesMassFlowRate", sp)); ct.update(both(Q + "FlowDevice::enthalpy_mass", en))
    for f in ("Phase::restoreState",): ct.update(both(Q + f, nop))
    ct.update(both(Q + "Kinetics::getNetProductionRates", rng(wd))); ct.update(both(Q + "ThermoPhase::getPartialMolarIntEnergies", rng(uk))); ct.update(both(Q + "ThermoPhase::getPartialMolarEnthalpies", rng(hk)))
    for c in ("Phase", "ThermoPhase"): ct.update(both(Q + c + "::pressure", lambda ex, th, a, n: Pn))
    ct.update(both(Q + "ThermoPhase::cv_mass", lambda ex, th, a, n: Rs("cv_now"))); ct.update(both(Q + "ThermoPhase::cp_mass", lambda ex, th, a, n: Rs("cp_now"))); ct.update(both(Q + "Phase::density", lambda ex, th, a, n: e.rho))
    return ct
mem = dict(e.mem); mem.update({"this.%s.#len" % q: K for q in ("m_sdot", "m_wdot", "m_uk", "m_hk")})
base = [eq(e.K, K), lt(ZERO, M_), lt(ZERO, V_)] + e.base + [eq(div(M_, V_), e.rho), eq(Rs("this.m_pressure"), Pn)]
L0, R0 = As("arg1.[]"), As("arg2.[]"); z0 = [eq(at(R0, i), ZERO) for i in range(3)] + [eq(at(L0, i), ONE) for i in range(3)]
chem, en_ = Bs("this.m_chem"), Bs("this.m_energy")

def section(z):
    mole, cp, ideal = "Mole" in z, "ConstPressure" in z, "Ideal" in z
    def f(V):
        ei = 0 if mole else 1 if cp else 2; off = (1 if cp else 2) if mole else (2 if cp else 3)
        extra = {"this.m_sidx": I(off)} if mole else {}
        for ch in (True, False):
            w = wd if ch else (lambda i: ZERO)
            ck = [chem] if ch else [not_(chem), forall(K, lambda i: eq(at(As("this.m_wdot.[]"), i), ZERO))]
            for en in (True, False):
                tag = "(%s%s)" % ("chemistry" if ch else "no chemistry", "" if en else ", energy off")
                r = V.fn(Q + z + "::eval", this=Q + z, mem=dict(mem, **extra), contracts=contracts(), requires=base + z0 + ck + [en_ if en else not_(en_)], name=z + "::eval" + tag)
                L, R = r.post("arg1.[]"), r.post("arg2.[]")
                ms = sums(lambda i: mul(sd(i), W(i))); dm = add(sub(ms, summ(NO, lambda i: at(mo, i))), summ(NI, lambda i: at(mi, i)))
                gen = lambda i: add(mul(w(i), V_), sd(i))
                if not cp: r.ensures("volume", eq(at(R, 1), vd))
                if not mole: r.ensures("total_mass", eq(at(R, 0), dm))
                if mole:
                    r.ensures("species_moles", eq(at(R, add(k, I(off))), add(sub(gen(k), summ(NO, lambda i: div(mul(at(mo, i), Y(k)), W(k)))), summ(NI, lambda i: div(min_(i, k), W(k))))), kk)
                    r.ensures("left_hand_side", eq(at(L, add(k, I(off))), at(L0, add(k, I(off)))), kk)
                else:
                    r.ensures("species_mass_at_constant_mass", eq(at(R, add(k, I(off))), add(mul(gen(k), W(k)), neg(mul(Y(k), ms)), summ(NI, lambda i: sub(min_(i, k), mul(at(mi, i), Y(k)))))), kk)
                    r.ensures("left_hand_side_is_mass", eq(at(L, add(k, I(off))), M_), kk)
                if not en: r.ensures("energy_variable_fixed", eq(at(R, ei), ZERO)); continue
                flows = add(summ(NI, lambda i: mul(at(mi, i), at(hi, i))), Qd)
                if not cp: flows = sub(flows, mul(Pn, vd))
                if not ideal:
                    r.ensures("energy_balance", eq(at(R, ei), sub(flows, summ(NO, lambda i: mul(at(mo, i), h)))))
                else:
                    x = hk if cp else uk
                    want = sub(sub(flows, sums(lambda i: mul(gen(i), x(i)))), summ(NI, lambda j: sums(lambda i: div(mul(x(i), min_(j, i)), W(i)))))
                    if not cp: want = sub(want, summ(NO, lambda i: div(mul(at(mo, i), Pn), e.rho)))
                    r.ensures("energy_balance_in_terms_of_temperature", eq(at(R, ei), want)); r.ensures("heat_capacity", eq(at(L, ei), mul(M_, Rs("cp_now" if cp else "cv_now"))))
    f.__doc__ = z + ": right-hand side"
    return f
for _z in Z: globals()["v_" + _z] = section(_z)
