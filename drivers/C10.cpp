#include "vd.h"
#include "cantera/base/Units.h"
#include "cantera/base/AnyMap.h"
#include "cantera/base/ctexceptions.h"
#include <array>
using namespace Cantera; using namespace vd; using std::vector; using std::string; using std::map;
static const double e_ = 1.602176634e-19, NA_ = 6.02214076e26, Rg_ = 8314.46261815324;
struct UU { double f; std::array<double, 6> d; double P = 0, E = 0; };   // mass length time temperature current quantity
static const map<string, UU> KU{
 {"kg", {1, {1}}}, {"g", {1e-3, {1}}}, {"m", {1, {0, 1}}}, {"micron", {1e-6, {0, 1}}}, {"angstrom", {1e-10, {0, 1}}}, {"Å", {1e-10, {0, 1}}},
 {"s", {1, {0, 0, 1}}}, {"min", {60, {0, 0, 1}}}, {"hr", {3600, {0, 0, 1}}}, {"K", {1, {0, 0, 0, 1}}}, {"C", {1, {0, 0, 0, 1}}}, {"A", {1, {0, 0, 0, 0, 1}}},
 {"mol", {1e-3, {0, 0, 0, 0, 0, 1}}}, {"gmol", {1e-3, {0, 0, 0, 0, 0, 1}}}, {"mole", {1e-3, {0, 0, 0, 0, 0, 1}}}, {"kmol", {1, {0, 0, 0, 0, 0, 1}}}, {"kgmol", {1, {0, 0, 0, 0, 0, 1}}}, {"molec", {1 / NA_, {0, 0, 0, 0, 0, 1}}},
 {"J", {1, {1, 2, -2}, 0, 1}}, {"cal", {4.184, {1, 2, -2}, 0, 1}}, {"erg", {1e-7, {1, 2, -2}, 0, 1}}, {"eV", {e_, {1, 2, -2}, 0, 1}},
 {"N", {1, {1, 1, -2}}}, {"dyn", {1e-5, {1, 1, -2}}}, {"Pa", {1, {1, -1, -2}, 1}}, {"atm", {101325, {1, -1, -2}, 1}}, {"bar", {1e5, {1, -1, -2}, 1}},
 {"liter", {1e-3, {0, 3}}}, {"L", {1e-3, {0, 3}}}, {"l", {1e-3, {0, 3}}}, {"cc", {1e-6, {0, 3}}}, {"ohm", {1, {1, 2, -3, 0, -2}}}, {"V", {1, {1, 2, -3, 0, -1}}}, {"coulomb", {1, {0, 0, 1, 0, 1}}}};
static const map<string, double> PFX{{"Y", 1e24}, {"Z", 1e21}, {"E", 1e18}, {"P", 1e15}, {"T", 1e12}, {"G", 1e9}, {"M", 1e6}, {"k", 1e3}, {"h", 1e2}, {"d", 0.1}, {"c", 1e-2}, {"m", 1e-3}, {"u", 1e-6}, {"n", 1e-9}, {"p", 1e-12}, {"f", 1e-15}, {"a", 1e-18}, {"z", 1e-21}, {"y", 1e-24}};
static const char* DN[6] = {"mass", "length", "time", "temperature", "current", "quantity"};
template <class M> static std::pair<string, typename M::mapped_type> pick(const M& m) { auto it = m.begin(); std::advance(it, N(0, m.size() - 1)); return {it->first, it->second}; }
static std::pair<string, UU> unit1(double pfx = 0.3) { auto [n, u] = pick(KU); if (coin(pfx)) { auto [p, f] = pick(PFX); if (KU.count(p + n)) return {p + n, KU.at(p + n)}; u.f *= f; n = p + n; } return {n, u}; }
static UU pw(const UU& u, double e) { UU r = u; r.f = std::pow(u.f, e); for (auto& x : r.d) x *= e; r.P *= e; r.E *= e; return r; }
static UU mul(const UU& a, const UU& b) { UU r = a; r.f *= b.f; for (int i = 0; i < 6; i++) r.d[i] += b.d[i]; r.P += b.P; r.E += b.E; return r; }
static std::pair<string, UU> compound() {
    UU r{1, {}}; string s; int n = N(1, 4);
    if (coin(0.2)) { double f = N(1, 999) / (coin() ? 1.0 : 8.0); s = str(f); s.pop_back(); r.f = f; if (coin()) s += " "; else { s += coin() ? " * " : "/"; } }
    for (int i = 0; i < n; i++) {
        bool den = !s.empty() && s.back() == '/'; if (i) { den = coin(); s += coin() ? (den ? " / " : " * ") : (den ? "/" : "*"); }
        auto [nm, u] = unit1(); double e = 1; s += nm;
        if (coin(0.4)) { static const double ex[] = {2, 3, -1, 0.5, -0.5, -2, 1.5, 0.25, 1, -3, 0}; e = ex[N(0, 10)]; string q = str(e); q.pop_back(); s += "^" + q; if (coin(0.2)) s += ""; }
        r = mul(r, pw(u, den ? -e : e)); }
    return {s, r}; }
static void same(const char* cl, const Units& u, const UU& w) { eq(cl, u.factor(), w.f, 1e-12, 0, "factor"); for (int i = 0; i < 6; i++) eq(cl, u.dimension(DN[i]), w.d[i], 1e-12, 1e-12, DN[i]); }
static bool sameDims(const UU& a, const UU& b) { return a.d == b.d; }
struct Sys { double m = 1, l = 1, t = 1, q = 1, p = 1, e = 1, ea = 1; bool ex = false; string am = "kg", al = "m", at = "s", aq = "kmol", ap = "Pa", ae = "J", aa = ""; };
static string withDims(std::array<double, 6> d, double& f) { for (;;) { auto [n, u] = unit1(0.5); if (u.d == d) { f = u.f; return n; } } }
static string eaUnit(double& si) { int k = N(0, 3); double f, g; if (k == 0) { string a = withDims({1, 2, -2}, f), b = withDims({0, 0, 0, 0, 0, 1}, g); si = f / g; return a + (coin() ? "/" : " / ") + b; }
    if (k == 1) { string a = withDims({0, 0, 0, 1}, f); si = f * Rg_; return a; } if (k == 2) { string a = coin() ? "eV" : withDims({1, 2, -2}, f); if (a == "eV") f = e_; si = f * NA_; return a; } si = 1; return "J/kmol"; }
static void setSys(UnitSystem& s, Sys& w) {
    map<string, string> m; vector<string> L; double f;
    auto one = [&](const char* dim, std::array<double, 6> d, double& slot, string& nm) { if (!coin()) return; nm = withDims(d, f); slot = f; m[dim] = nm; };
    one("mass", {1}, w.m, w.am); one("length", {0, 1}, w.l, w.al); one("time", {0, 0, 1}, w.t, w.at); one("quantity", {0, 0, 0, 0, 0, 1}, w.q, w.aq); one("pressure", {1, -1, -2}, w.p, w.ap); one("energy", {1, 2, -2}, w.e, w.ae);
    if (coin(0.2)) m["temperature"] = "K"; if (coin(0.2)) m["current"] = "A";
    if (coin(0.3)) { double si; m["activation-energy"] = w.aa = eaUnit(si); w.ea = si; w.ex = true; }
    if (!w.ex) w.ea = w.e / w.q;
    if (coin(0.7) || m.count("activation-energy")) s.setDefaults(m);
    else { vector<string> v; for (auto& kv : m) v.push_back(kv.second); switch (v.size()) { case 0: s.setDefaults({}); s.setDefaults(m); break; case 1: s.setDefaults({v[0]}); break; case 2: s.setDefaults({v[1], v[0]}); break; case 3: s.setDefaults({v[2], v[0], v[1]}); break; default: s.setDefaults({v[3], v[0], v[1], v[2]}); for (size_t i = 4; i < v.size(); i++) s.setDefaults({v[i]}); } }
}
static double toW(double v, const Sys& s, const UU& u) { return v / u.f * std::pow(s.m, u.d[0] - u.P - u.E) * std::pow(s.l, u.d[1] + u.P - 2 * u.E) * std::pow(s.t, u.d[2] + 2 * u.P + 2 * u.E) * std::pow(s.q, u.d[5]) * std::pow(s.p, u.P) * std::pow(s.e, u.E); }
int main() {
    for (auto& [n, u] : KU) { ctx() = n; guard("known_units", [&, n = n, u = u] { same("known_units", Units(n), u); for (auto& [p, f] : PFX) { string q = p + n; UU w = u; w.f *= f; if (KU.count(q)) w = KU.at(q); same("prefixes", Units(q), w); } }); }
    guard("composite_names", [&] { for (string s : {"", "1"}) same("dimensionless", Units(s), UU{1, {}}); });
    for (int it = 0; it < reps(12000); it++) {
        auto [s1, w1] = compound(); auto [s2, w2] = compound(); double e = coin() ? N(-3, 3) : U(-2, 2); ctx() = str("'" + s1 + "'", "'" + s2 + "'", e);
        if (w1.f < 1e-200 || w1.f > 1e200 || w2.f < 1e-200 || w2.f > 1e200) continue;
        guard("algebra", [&] {
            Units a(s1), b(s2); same("parse", a, w1); same("parse", b, w2);
            Units c = a; c *= b; same("product", c, mul(w1, w2));
            if (std::fabs(std::log10(w1.f) * e) < 200) same("power", a.pow(e), pw(w1, e));
            check("convertible", a.convertible(b) == (a.dimension("mass") == b.dimension("mass") && a.dimension("length") == b.dimension("length") && a.dimension("time") == b.dimension("time") && a.dimension("temperature") == b.dimension("temperature") && a.dimension("current") == b.dimension("current") && a.dimension("quantity") == b.dimension("quantity")));
            if (sameDims(w1, w2)) check("convertible", a.convertible(b)); else check("convertible", !a.convertible(b));
            Units g = a; g.scale(2.5); UU ws = w1; ws.f *= 2.5; same("scale", g, ws); check("equal", a == Units(s1) && !(g == a));
            string t = a.str(false); if (t.find('e') == string::npos) { Units r(t); same("str_round_trip", r, w1); }
            // one dimension off is never convertible
            Units off = a; off *= Units(1.0, it % 6 == 0, it % 6 == 1, it % 6 == 2, it % 6 == 3, it % 6 == 4, it % 6 == 5); check("one_dimension_off", !a.convertible(off) && !off.convertible(a)); UnitSystem us; must_throw("incompatible_rejected", [&] { us.convert(1.0, a, off); }); });
        // compatible pair: same dimensions, another factor
        guard("convert", [&] { UnitSystem us; double v = U(-1, 1) * LU(1e-3, 1e3); UU w = w1; string s3 = s1; Units a(s1), b = a; double f = LU(1e-3, 1e3); b.scale(f);
            eq("ratio", us.convert(v, a, b), v / f, 1e-12); eq("there_and_back", us.convert(us.convert(v, a, b), b, a), v, 1e-12); if (!sameDims(w1, w2)) must_throw("incompatible_rejected", [&] { us.convert(v, s1, s2); }); else eq("ratio", us.convert(v, s1, s2), v * w1.f / w2.f, 1e-12); });
    }
    guard("unknown", [&] { for (string s : {"foo", "kgg*", "m*foo", "xx", "m^x", "Pa/qq^2"}) must_throw("unknown_unit_rejected", [&] { Units u(s); }, s); must_throw("unknown_dimension", [&] { Units("m").dimension("lenght"); }); Units u("kg/s", true); must_throw("force_unity", [&] { Units("g/s", true); }); });
    for (int it = 0; it < reps(12000); it++) {
        UnitSystem s; Sys w; string hist;
        guard("system", [&] {
            for (int k = N(1, 3); k; k--) setSys(s, w);
            ctx() = str(w.am, w.al, w.at, w.aq, w.ap, w.ae, w.aa);
            eq("mass", s.convertTo(1.0, "kg"), w.m, 1e-13); eq("length", s.convertTo(1.0, "m"), w.l, 1e-13); eq("time", s.convertTo(1.0, "s"), w.t, 1e-13); eq("quantity", s.convertTo(1.0, "kmol"), w.q, 1e-13); eq("pressure", s.convertTo(1.0, "Pa"), w.p, 1e-13); eq("energy", s.convertTo(1.0, "J"), w.e, 1e-13); eq("activation", s.convertActivationEnergyTo(1.0, "J/kmol"), w.ea, 1e-12);
            auto d = s.defaults(); check("defaults", d["mass"] == w.am && d["length"] == w.al && d["time"] == w.at && d["quantity"] == w.aq && d["pressure"] == w.ap && d["energy"] == w.ae && d["activation-energy"] == (w.ex ? w.aa : w.ae + " / " + w.aq));
            UnitSystem c; c.setDefaults(d); if (!w.ex) eq("defaults_reproduce", c.convertActivationEnergyTo(1.0, "J/kmol"), w.ea, 1e-12); eq("defaults_reproduce", c.convertTo(1.0, "J"), w.e, 1e-13); eq("defaults_reproduce", c.convertTo(1.0, "Pa"), w.p, 1e-13);
            AnyMap dl = s.getDelta(UnitSystem()); check("delta", dl.hasKey("mass") == (w.m != 1) && dl.hasKey("length") == (w.l != 1) && dl.hasKey("time") == (w.t != 1) && dl.hasKey("quantity") == (w.q != 1) && dl.hasKey("pressure") == (w.p != 1) && dl.hasKey("energy") == (w.e != 1) && dl.hasKey("activation-energy") == w.ex); });
        guard("to_from", [&] {
            auto [s1, u] = compound(); double v = U(-1, 1) * LU(1e-3, 1e3), x = toW(v, w, u), y = v * (v / toW(v, w, u)); if (!std::isnormal(x) || !std::isnormal(y) || std::fabs(x) > 1e250 || std::fabs(x) < 1e-250) return; ctx() += str(" unit", s1, "value", v); Units uu(s1);
            eq("convertTo", s.convertTo(v, s1), x, 1e-10); eq("convertTo", s.convertTo(v, uu), x, 1e-10); eq("convertFrom", s.convertFrom(v, s1), y, 1e-10); eq("convertFrom", s.convertFrom(s.convertTo(v, uu), uu), v, 1e-10); eq("convertTo", s.convertTo(s.convertFrom(v, s1), s1), v, 1e-10);
            AnyValue a; a = v; eq("any_number", s.convert(a, s1), x, 1e-10); eq("any_number", s.convert(a, uu), x, 1e-10); eq("any_rate", s.convertRateCoeff(a, uu), x, 1e-10);
            double f = LU(0.01, 100); Units b = uu; b.scale(f); a = str(v) + s1; bool num = isdigit((unsigned char)s1[0]); if (!num) { eq("any_text", s.convert(a, b), v / f, 1e-10); eq("any_text", s.convert(a, s1), v, 1e-10); eq("any_rate", s.convertRateCoeff(a, b), v / f, 1e-10);
                Units off = b; off *= Units("A"); must_throw("any_incompatible", [&] { s.convert(a, off); }); vector<AnyValue> vv(2); vv[0] = v; vv[1] = a; auto o = s.convert(vv, uu); eq("any_vector", o[0], x, 1e-10); eq("any_vector", o[1], v, 1e-10); auto o2 = s.convert(vv, s1); eq("any_vector", o2[0], x, 1e-10); eq("any_vector", o2[1], v, 1e-10); }
            if (a.is<string>()) { AnyValue bad; bad = str(v); string q = bad.asString(); q.pop_back(); bad = q; must_throw("any_malformed", [&] { s.convert(bad, uu); }); } });
        guard("undefined_rate_units", [&] { AnyValue a; a = 3.5; if (w.l == 1 && w.q == 1) eq("rate_mks", s.convertRateCoeff(a, Units(0.0)), 3.5); else must_throw("rate_undefined", [&] { s.convertRateCoeff(a, Units(0.0)); }); a = string("2.5 m^3/kmol/s"); eq("rate_mks", s.convertRateCoeff(a, Units(0.0)), 2.5); a = string("2.5 cm^3/mol/s"); must_throw("rate_undefined", [&] { s.convertRateCoeff(a, Units(0.0)); }); });
        guard("activation", [&] {
            double v = U(-1, 1) * LU(1e-2, 1e5), f1, f2; string a = eaUnit(f1), b = eaUnit(f2); ctx() += str(" activation", a, b, "value", v);
            eq("ea_ratio", s.convertActivationEnergy(v, a, b), v * f1 / f2, 1e-10); eq("ea_to", s.convertActivationEnergyTo(v, a), v * w.ea / f1, 1e-10); eq("ea_to", s.convertActivationEnergyTo(v, Units(a)), v * w.ea / f1, 1e-10); eq("ea_from", s.convertActivationEnergyFrom(v, a), v * f1 / w.ea, 1e-10); eq("ea_round_trip", s.convertActivationEnergyFrom(s.convertActivationEnergyTo(v, b), b), v, 1e-10);
            AnyValue x; x = v; eq("ea_any", s.convertActivationEnergy(x, a), v * w.ea / f1, 1e-10); x = str(v) + a; eq("ea_any", s.convertActivationEnergy(x, b), v * f1 / f2, 1e-10);
            for (string q : {"m", "kg", "J/mol/K", "Pa", "K^2", "1/K", "V", "kmol", "J/kg", "eV/kmol^2"}) { must_throw("ea_rejected", [&] { s.convertActivationEnergy(v, q, a); }); must_throw("ea_rejected", [&] { s.convertActivationEnergy(v, a, q); }); must_throw("ea_rejected", [&] { s.convertActivationEnergyTo(v, q); }); must_throw("ea_rejected", [&] { s.convertActivationEnergyFrom(v, q); }); must_throw("ea_rejected", [&] { UnitSystem z; z.setDefaultActivationEnergy(q); }); } });
        if (it < 300) guard("rejects", [&] { UnitSystem z; must_throw("bad_default", [&] { z.setDefaults({"m/s"}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"mass", "m"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"length", "kg"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"time", "Pa"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"temperature", "mK"}}); }); must_throw("bad_default", [&] { z.setDefaults({"mK"}); }); must_throw("bad_default", [&] { z.setDefaults({"mA"}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"current", "mA"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"pressure", "J"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"energy", "Pa"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"quantity", "kg"}}); }); must_throw("bad_default", [&] { z.setDefaults(std::map<std::string, std::string>{{"mas", "kg"}}); }); });
    }
    for (int it = 0; it < reps(4000); it++) guard("stack", [&] {
        UnitStack st({}); check("stack_empty", st.size() == 0 && st.product().factor() == 0 && st.standardUnits().factor() == 0 && std::isnan(st.standardExponent())); must_throw("stack_join_empty", [&] { st.join(1); });
        auto [s0, w0] = compound(); Units u0(s0); if (w0.f < 1e-100 || w0.f > 1e100) return; st.setStandardUnits(u0); double x0 = 0; ctx() = s0; vector<std::pair<Units, double>> L{{u0, 0}}; vector<UU> W{w0};
        for (int k = N(0, 5); k; k--) { if (coin(0.3)) { double e = N(-2, 2); st.join(e); L[0].second += e; } else { size_t i = N(0, L.size()); double e = coin() ? N(-2, 2) : U(-1, 1);
                if (i == L.size()) { auto [s, w] = compound(); if (w.f < 1e-60 || w.f > 1e60) continue; Units u(s); bool hit = false; for (size_t j = 0; j < L.size() && !hit; j++) if (L[j].first == u) { L[j].second += e; hit = true; } if (!hit) { L.push_back({u, e}); W.push_back(w); } st.update(u, e); }
                else { size_t j = 0; while (!(L[j].first == L[i].first)) j++; L[j].second += e; st.update(L[i].first, e); } } }
        (void)x0; eq("standard_exponent", st.standardExponent(), L[0].second, 1e-13, 1e-13); check("standard_units", st.standardUnits() == u0); check("stack_size", st.size() == L.size());
        UU w{1, {}}; double lf = 0; for (size_t i = 0; i < L.size(); i++) { w = mul(w, pw(W[i], L[i].second)); lf += std::fabs(std::log10(W[i].f) * L[i].second); } if (lf < 250) same("stack_product", st.product(), w);
        if (L[0].second != 0) must_throw("standard_only_once", [&] { st.setStandardUnits(u0); });
    });
    return done();
}
