"""C10: unit conversion is a consistent algebra of dimensions and factors"""
from engine.spec import *
TUS = ["src/base/Units.cpp"]
DRIVER = "C10.cpp"
BOUND = "random unit strings built from every known unit and prefix with real exponents, random unit systems, stacks and values"
Q = "Cantera::"; U = Q + "Units"; S = Q + "UnitSystem"; K = Q + "UnitStack"
HINT_FNS = [S + "::convertTo", S + "::convertFrom"]
ASSUME = ["Units(string) parsing, Units::str, the tables of known units and prefixes beyond K/eV, UnitSystem::setDefaults and the AnyValue/AnyMap overloads are covered by the bounded driver only",
          "contract of the Units(string) constructor: factor and dimensions are functions of the text; J/kmol, K and eV have their SI values (checked by the driver)"]
DIMS = ["m_mass_dim", "m_length_dim", "m_time_dim", "m_temperature_dim", "m_current_dim", "m_quantity_dim"]
PE = ["m_pressure_dim", "m_energy_dim"]
ALL = ["m_factor"] + DIMS + PE
Rg, NA, qe = Rs("#GasConstant"), Rs("#Avogadro"), Rs("#ElectronCharge")
KNOWN = {"J/kmol": (ONE, (1, 2, -2, 0, 0, -1)), "K": (ONE, (0, 0, 0, 1, 0, 0)), "eV": (qe, (1, 2, -2, 0, 0, 0))}
def uf_(s): return fn_r("units.factor", s)
def ud_(s): return [fn_r("units." + x, s) for x in DIMS]
def from_string(ex, th, a, n):
    if "basic_string" not in n["pt"][0]: return NotImplemented
    s = ex.term_of(*a[0]); f, d = uf_(s), ud_(s)
    if s.op == "strlit" and s.args[0] in KNOWN: f, d = KNOWN[s.args[0]][0], [R(x) for x in KNOWN[s.args[0]][1]]
    ex.wr(th.f("m_factor"), f, sort="R")
    for x, v in zip(DIMS, d): ex.wr(th.f(x), v, sort="R")
    for x in PE: ex.wr(th.f(x), fn_r("units." + x, s), sort="R")
CT = {"ctor " + U + "::Units": from_string}
def f(p, x): return Rs(p + "." + x)
def dims(p): return [f(p, x) for x in DIMS]
def same(a, b): return and_(*[eq(x, y) for x, y in zip(a, b)])
def is_(d, nm): return same(d, [R(x) for x in KNOWN[nm][1]])

def v_units(V):
    a = [Rs("arg%d" % i) for i in range(7)]
    r = V.fn(U + "::Units", sub="(double", this=U)
    r.ensures("factor_and_dimensions", and_(eq(r.post("this.m_factor"), a[0]), *[eq(r.post("this." + x), v) for x, v in zip(DIMS, a[1:])]))
    m = a[1]
    pa = and_(ne(m, ZERO), eq(a[2], neg(m)), eq(a[3], mul(R(-2), m)), *[eq(x, ZERO) for x in a[4:]])
    jo = and_(ne(m, ZERO), eq(a[2], mul(R(2), m)), eq(a[3], mul(R(-2), m)), *[eq(x, ZERO) for x in a[4:]])
    z = {"this.m_pressure_dim": ZERO, "this.m_energy_dim": ZERO}
    r.ensures("pressure_like", eq(r.post("this.m_pressure_dim"), ite(pa, m, ZERO)))
    r.ensures("energy_like", eq(r.post("this.m_energy_dim"), ite(jo, m, ZERO)))
    r = V.fn(U + "::operator*=", this=U)
    r.ensures("factors_multiply", eq(r.post("this.m_factor"), mul(f("this", "m_factor"), f("arg0", "m_factor"))))
    for x in DIMS + PE: r.ensures("adds." + x, eq(r.post("this." + x), add(f("this", x), f("arg0", x))))
    r.frame(["this." + x for x in ALL], ("this", "arg0"))
    r = V.fn(U + "::pow", this=U); e = a[0]
    r.ensures("factor_power", eq(r.retleaf("m_factor"), powt(f("this", "m_factor"), e)))
    for x in DIMS: r.ensures("scales." + x, eq(r.retleaf(x), mul(f("this", x), e)))
    r.frame([])
    pre = dims("this")
    pa = and_(ne(pre[0], ZERO), eq(pre[1], neg(pre[0])), eq(pre[2], mul(R(-2), pre[0])), *[eq(x, ZERO) for x in pre[3:]])
    jo = and_(ne(pre[0], ZERO), eq(pre[1], mul(R(2), pre[0])), eq(pre[2], mul(R(-2), pre[0])), *[eq(x, ZERO) for x in pre[3:]])
    r.ensures("pressure_power_stays_pressure", eq(r.retleaf("m_pressure_dim"), mul(e, pre[0])), [pa, ne(e, ZERO)])
    r.ensures("energy_power_stays_energy", eq(r.retleaf("m_energy_dim"), mul(e, pre[0])), [jo, ne(e, ZERO)])
    r = V.fn(U + "::convertible", this=U); r.ensures("iff_all_dimensions_agree", eq(r.result, same(dims("this"), dims("arg0")))); r.frame([], ("this", "arg0"))
    r = V.fn(U + "::operator==", this=U); r.ensures("iff_factor_and_dimensions_agree", eq(r.result, same([f("this", x) for x in ALL], [f("arg0", x) for x in ALL]))); r.frame([], ("this", "arg0"))
    r = V.fn(U + "::factor", this=U); r.ensures("value", eq(r.result, f("this", "m_factor"))); r.frame([])
    r = V.fn(U + "::scale", this=U); r.ensures("value", eq(r.post("this.m_factor"), mul(f("this", "m_factor"), a[0]))); r.frame(["this.m_factor"])
    r = V.fn(U + "::dimension", this=U); nm = Ss("arg0")
    for x in DIMS: r.ensures("named." + x, eq(r.result, f("this", x)), [eq(nm, strlit(x[2:-4]))])
    r.throws_iff("rejects_unknown", and_(*[ne(nm, strlit(x[2:-4])) for x in DIMS]))

def v_stack(V):
    n = Is("this.stack.#len"); E0 = As("this.stack.[].second"); F = lambda x: As("this.stack.[].first." + x)
    one = R(1)
    r = V.fn(K + "::standardUnits", this=K)
    for x in ["m_factor"] + DIMS: r.ensures("first_entry." + x, eq(r.retleaf(x), at(F(x), 0)), [lt(IZERO, n)])
    r.ensures("undefined_when_empty", eq(r.retleaf("m_factor"), ZERO), [eq(n, IZERO)])
    r = V.fn(K + "::standardExponent", this=K); r.ensures("first_exponent", eq(r.result, at(E0, 0)), [lt(IZERO, n)]); r.frame([])
    r = V.fn(K + "::setStandardUnits", this=K)
    r.throws_iff("only_once", and_(lt(IZERO, n), ne(at(E0, 0), ZERO)))
    for x in ["m_factor"] + DIMS: r.ensures("stored." + x, eq(r.postat("this.stack.[].first." + x, 0), f("arg0", x)))
    r.ensures("count", eq(r.post("this.stack.#len", "I"), ite(eq(n, IZERO), I(1), n)))
    j = Is("j")
    r.ensures("others_kept", and_(eq(r.postat("this.stack.[].second", j), at(E0, j)), *[eq(r.postat("this.stack.[].first." + x, j), at(F(x), j)) for x in ["m_factor"] + DIMS]), [lt(IZERO, j), lt(j, n)])
    r = V.fn(K + "::join", this=K); e = Rs("arg0")
    r.throws_iff("needs_standard_unit", eq(n, IZERO))
    r.ensures("adds_exponent", eq(r.postat("this.stack.[].second", j), add(at(E0, j), ite(eq(j, IZERO), e, ZERO))), [lt(j, n)])
    r.frame(["this.stack.[].second"])
    r = V.fn(K + "::update", this=K); e = Rs("arg1"); vals = lambda q: and_(*[eq(at(F(x), q), f("arg0", x)) for x in ALL])
    hit = exists(n, vals)
    r.ensures("appended_when_new", implies(not_(hit), and_(eq(r.post("this.stack.#len", "I"), add(n, I(1))), eq(r.postat("this.stack.[].second", n), e), *[eq(r.postat("this.stack.[].first." + x, n), f("arg0", x)) for x in ALL])))
    r.ensures("old_entries_kept_when_new", eq(r.postat("this.stack.[].second", j), at(E0, j)), [lt(j, n), not_(hit)])
    r.ensures("no_growth_when_present", implies(hit, eq(r.post("this.stack.#len", "I"), n)))
    r.ensures("exponent_added_to_first_match", eq(r.postat("this.stack.[].second", j), add(at(E0, j), e)), [lt(j, n), vals(j), forall(j, lambda q: not_(vals(q)))])
    r.ensures("other_exponents_kept", eq(r.postat("this.stack.[].second", j), at(E0, j)), [lt(j, n), not_(vals(j))])
    r = V.fn(K + "::product", this=K)
    r.ensures("factor", eq(r.retleaf("m_factor"), prodd(n, lambda q: powt(at(F("m_factor"), q), at(E0, q)))), [lt(IZERO, n), Forall(bv_ := freshbv(), IZERO, n, lt(ZERO, at(F("m_factor"), bv_)))])
    for x in DIMS: r.ensures("dimension." + x, eq(r.retleaf(x), summ(n, lambda q: mul(at(F(x), q), at(E0, q)))), [lt(IZERO, n)])
    r.ensures("undefined_when_empty", eq(r.retleaf("m_factor"), ZERO), [eq(n, IZERO)]); r.frame([])

FAC = ["mass", "length", "time", "quantity", "pressure", "energy"]
fac = {x: Rs("this.m_%s_factor" % x) for x in FAC}
pos_ = [pos(x) for x in fac.values()]
def v_convert(V):
    v = Rs("arg0")
    r = V.fn(S + "::convert", sub="(double,const Cantera::Units &", this=S, contracts=CT)
    r.ensures("ratio_of_factors", eq(r.result, div(mul(v, f("arg1", "m_factor")), f("arg2", "m_factor"))), [ne(f("arg2", "m_factor"), ZERO)])
    r.throws_iff("incompatible_rejected", not_(same(dims("arg1"), dims("arg2")))); r.frame([], ("this", "arg1", "arg2"))
    s1, s2 = Ss("arg1"), Ss("arg2")
    r = V.fn(S + "::convert", sub="(double,const std::basic_string", this=S, contracts=CT, name="UnitSystem::convert(text)")
    r.ensures("ratio_of_factors", eq(r.result, div(mul(v, uf_(s1)), uf_(s2))), [ne(uf_(s2), ZERO)])
    r.throws_iff("incompatible_rejected", not_(same(ud_(s1), ud_(s2)))); r.frame([])
    res = {}
    for nm, sg in (("convertTo", 1), ("convertFrom", -1)):
        r = V.fn(S + "::" + nm, sub="Units", this=S, requires=pos_ + [pos(f("arg1", "m_factor"))], name="UnitSystem::%s(units)" % nm); res[nm] = r
        M, L, T_, Th, A, Qd = dims("arg1"); P, E = f("arg1", "m_pressure_dim"), f("arg1", "m_energy_dim"); F = f("arg1", "m_factor")
        def scale(*pe):
            p = ONE
            for b, e in pe: p = mul(p, powt(fac[b], e))
            return p
        D = scale(("mass", M), ("length", L), ("time", T_), ("quantity", Qd))
        w = (lambda D: div(mul(v, D), F)) if sg > 0 else (lambda D: div(mul(v, F), D))
        r.ensures("base_dimensions", eq(r.result, w(D)), [eq(P, ZERO), eq(E, ZERO)])
        hp = pos_ + [pos(F)]
        def special(name, want, d): V.lemma("UnitSystem::%s(units).%s" % (nm, name), hp, eq(subst(r.result, d), w(want)))
        special("pressure_power", powt(fac["pressure"], P), {E: ZERO, M: P, L: neg(P), T_: mul(R(-2), P), Qd: ZERO})
        special("energy_power", powt(fac["energy"], E), {P: ZERO, M: E, L: mul(R(2), E), T_: mul(R(-2), E), Qd: ZERO})
        special("energy_per_quantity", mul(fac["energy"], powt(fac["quantity"], R(-1))), {P: ZERO, E: ONE, M: ONE, L: R(2), T_: R(-2), Qd: R(-1)})
        r.ensures("general_law", eq(r.result, w(scale(("mass", sub(M, add(P, E))), ("length", add(L, P, mul(R(-2), E))), ("time", add(T_, mul(R(2), P), mul(R(2), E))), ("quantity", Qd), ("pressure", P), ("energy", E)))))
        r.ensures("consistent_system", eq(r.result, w(D)), [eq(fac[x], ONE) for x in ("mass", "length", "time", "pressure", "energy")])
        r.frame([], ("this", "arg1")); r.nothrow()
        t = V.fn(S + "::" + nm, sub="basic_string", this=S, contracts=CT, name="UnitSystem::%s(text)" % nm, requires=pos_)
        t.ensures("as_units", eq(t.result, subst(r.result, {**{f("arg1", x): fn_r("units." + x, s1) for x in DIMS + PE}, f("arg1", "m_factor"): uf_(s1)})))
    to, fr = res["convertTo"].result, res["convertFrom"].result
    hy = pos_ + [pos(f("arg1", "m_factor"))]
    V.lemma("convertFrom_inverts_convertTo", hy, eq(subst(fr, {v: to}), v))
    V.lemma("convertTo_inverts_convertFrom", hy, eq(subst(to, {v: fr}), v))

def v_activation(V):
    v = Rs("arg0"); ea = Rs("this.m_activation_energy_factor"); s1, s2 = Ss("arg1"), Ss("arg2")
    def si(F, d): return ite(is_(d, "J/kmol"), F, ite(is_(d, "K"), mul(Rg, F), mul(NA, F)))     # J/kmol per unit
    def ok(d): return or_(*[is_(d, k) for k in KNOWN])
    d1, d2 = ud_(s1), ud_(s2); F1, F2 = uf_(s1), uf_(s2)
    h = [pos(Rg), pos(NA), pos(ea)]
    r = V.fn(S + "::convertActivationEnergy", sub="(double", this=S, contracts=CT, requires=h + [pos(F1), pos(F2)])
    r.throws_iff("rejects_other_dimensions", not_(and_(ok(d1), ok(d2))))
    r.ensures("ratio", eq(r.result, div(mul(v, si(F1, d1)), si(F2, d2)))); r.frame([])
    F, d = f("arg1", "m_factor"), dims("arg1")
    r = V.fn(S + "::convertActivationEnergyTo", sub="Units", this=S, contracts=CT, requires=h + [pos(F)], name="UnitSystem::convertActivationEnergyTo(units)"); to = r.result
    r.throws_iff("rejects_other_dimensions", not_(ok(d))); r.ensures("ratio", eq(r.result, div(mul(v, ea), si(F, d)))); r.frame([], ("this", "arg1"))
    r = V.fn(S + "::convertActivationEnergyTo", sub="basic_string", this=S, contracts=CT, requires=h + [pos(F1)], name="UnitSystem::convertActivationEnergyTo(text)"); to = r.result
    r.throws_iff("rejects_other_dimensions", not_(ok(d1))); r.ensures("ratio", eq(r.result, div(mul(v, ea), si(F1, d1)))); r.frame([])
    r = V.fn(S + "::convertActivationEnergyFrom", sub="(double", this=S, contracts=CT, requires=h + [pos(F1)])
    r.throws_iff("rejects_other_dimensions", not_(ok(d1))); r.ensures("ratio", eq(r.result, div(mul(v, si(F1, d1)), ea))); r.frame([])
    V.lemma("activation_energy_round_trip", h + [pos(F1), ok(d1)], eq(subst(r.result, {v: to}), v))
    r = V.fn(S + "::setDefaultActivationEnergy", this=S, contracts=CT); s0 = Ss("arg0")
    r.throws_iff("rejects_other_dimensions", not_(ok(ud_(s0))))
    r.ensures("explicit_factor", and_(eq(r.post("this.m_activation_energy_factor"), si(uf_(s0), ud_(s0))), r.post("this.m_explicit_activation_energy", "B")))
