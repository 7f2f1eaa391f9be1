#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/ConstCpPoly.h"
#include "cantera/base/utilities.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string;
typedef vector<double> Vd;
static Vd comp(size_t K, bool neg) { Vd v(K); int mode = N(0, 3); for (auto& x : v) { x = U(0, 1); if (mode == 1 && coin(.6)) x = 0; if (mode == 2) x = LU(1e-12, 10); if (neg && coin(.25)) x = -U(0, 1); x = hint(x, neg ? -10 : 0, 50, 0.05); }
    v[N(0, K - 1)] = U(.1, 1); double f = coin(.5) ? 1 : LU(1e-3, 1e3); for (auto& x : v) x *= f; return v; }
static void consistent(ThermoPhase& p, const Vd& X, const char* what) {
    size_t K = p.nSpecies(); Vd W = p.molecularWeights(); double mw = 0; for (size_t k = 0; k < K; k++) mw += X[k] * W[k];
    Vd x(K), y(K), c(K); p.getMoleFractions(x.data()); p.getMassFractions(y.data()); p.getConcentrations(c.data());
    eq("mean_molecular_weight", p.meanMolecularWeight(), mw, 1e-9, 0, what);
    double sx = 0, sy = 0, cd = 0, mq = 0, xlx = 0; Vd Q(K); for (auto& q : Q) q = U(-3, 3);
    for (size_t k = 0; k < K; k++) {
        eq("mole_fractions", x[k], X[k], 1e-9, 1e-14, what); eq("mass_fractions", y[k], X[k] * W[k] / mw, 1e-9, 1e-14, what);
        eq("concentrations", c[k], p.density() * y[k] / W[k], 1e-9, 1e-14, what);
        eq("single_getters", p.moleFraction(k), x[k], 1e-12, 1e-300, what); eq("single_getters", p.massFraction(k), y[k], 1e-12, 1e-300, what); eq("single_getters", p.concentration(k), c[k], 1e-12, 1e-300, what);
        eq("single_getters", p.moleFraction(p.speciesName(k)), x[k], 1e-12, 1e-300, what); eq("single_getters", p.massFraction(p.speciesName(k)), y[k], 1e-12, 1e-300, what);
        sx += x[k]; sy += y[k]; cd += p.charge(k) * X[k]; mq += Q[k] * X[k]; if (X[k] > 0) xlx += X[k] * log(X[k]);
    }
    eq("sums_to_one", sx, 1, 1e-9, 0, what); eq("sums_to_one", sy, 1, 1e-9, 0, what);
    eq("chargeDensity", p.chargeDensity(), cd * Faraday, 1e-9, 1e-6, what); eq("mean_X", p.mean_X(Q.data()), mq, 1e-8, 1e-12, what); eq("mean_X", p.mean_X(Q), mq, 1e-8, 1e-12, what);
    if (*std::min_element(X.begin(), X.end()) >= 0) eq("sum_xlogx", p.sum_xlogx(), xlx, 1e-8, 1e-10, what);
    eq("molarDensity", p.molarDensity(), p.density() / mw, 1e-10); eq("molarVolume", p.molarVolume(), mw / p.density(), 1e-10);
    Vd z(K); p.massFractionsToMoleFractions(y.data(), z.data()); veq("helpers", z, x, 1e-9, 1e-14, what); p.moleFractionsToMassFractions(x.data(), z.data()); veq("helpers", z, y, 1e-9, 1e-14, what);
    double se = 0, st = 0; double tot = 0; for (size_t k = 0; k < K; k++) for (size_t m = 0; m < p.nElements(); m++) tot += p.nAtoms(k, m) * X[k];
    for (size_t m = 0; m < p.nElements(); m++) { double z1 = 0, z2 = 0; for (size_t k = 0; k < K; k++) { z1 += p.nAtoms(k, m) * p.atomicWeight(m) / W[k] * y[k]; z2 += p.nAtoms(k, m) * X[k]; }
        eq("elementalMassFraction", p.elementalMassFraction(m), z1, 1e-9, 1e-14, what); if (tot > 0) eq("elementalMoleFraction", p.elementalMoleFraction(m), z2 / tot, 1e-9, 1e-14, what); }
    auto mx = p.getMoleFractionsByName(); for (size_t k = 0; k < K; k++) if (X[k] > 1e-12) eq("by_name", getValue(mx, p.speciesName(k), 0.0), x[k], 1e-12, 0, what);
    double th = U(0, .3); auto m2 = p.getMassFractionsByName(th); for (size_t k = 0; k < K; k++) check("by_name", (m2.count(p.speciesName(k)) > 0) == (y[k] > th) , what);
}
static void run(ThermoPhase& p, int reps_, bool setters = true) {
    size_t K = p.nSpecies(); Vd W = p.molecularWeights();
    for (int r = 0; r < reps_; r++) {
        double T0 = U(250, 2500); p.setTemperature(T0); double rho0 = LU(1e-3, 50); p.setDensity(rho0);
        int sn = p.stateMFNumber();
        int op = N(0, 8); Vd a, X(K); double S = 0, M = 0; string what; double rho = rho0;
        bool neg = op <= 2; a = comp(K, neg); if (op >= 3 && op <= 6 && K > 1 && coin(0.3)) { double t = 0; for (double x : a) t += x; a[N(0, K - 1)] = -0.003 * t; double t2 = 0; for (double x : a) t2 += x; if (t2 <= 0.01 * t) a[0] = a[0] < 0 ? a[0] : t, a[K - 1] = a[0] < 0 ? t : a[K - 1]; }   // unnormalized setters keep (slightly) negative entries
        Vd b = a; if (neg) for (auto& x : b) x = std::max(x, 0.0);
        auto fromX = [&]() { S = 0; for (double x : b) S += x; for (size_t k = 0; k < K; k++) X[k] = b[k] / S; };
        auto fromY = [&]() { S = 0; for (size_t k = 0; k < K; k++) S += b[k] / W[k]; for (size_t k = 0; k < K; k++) X[k] = b[k] / W[k] / S; };
        for (size_t k = 0; k < K; k++) M += b[k] * W[k];
        Vd a0 = a;
        ctx() = str("phase", p.name(), "T", T0, "rho", rho0, "input", vec(a));
        if (op == 0) { what = "setMoleFractions"; p.setMoleFractions(a.data()); fromX(); }
        else if (op == 1) { what = "setMassFractions"; p.setMassFractions(a.data()); fromY(); }
        else if (op == 2) { what = "setConcentrations"; p.setConcentrations(a.data()); fromX(); rho = M; }
        else if (op == 3) { what = "setConcentrationsNoNorm"; p.setConcentrationsNoNorm(a.data()); fromX(); rho = M; }
        else if (op == 4) { what = "setMolesNoTruncate"; p.setMolesNoTruncate(a.data()); fromX(); }
        else if (op == 5) { what = "setMoleFractions_NoNorm"; fromX(); a = X; p.setMoleFractions_NoNorm(a.data()); }
        else if (op == 6) { what = "setMassFractions_NoNorm"; double t = 0; for (double x : a) t += x; for (double& x : a) x /= t; b = a; p.setMassFractions_NoNorm(a.data()); fromY(); }
        else { std::map<string, double> m; for (size_t k = 0; k < K; k++) if (a[k] != 0 && coin(.5)) m[p.speciesName(k)] = a[k]; else b[k] = 0; if (m.empty()) { m[p.speciesName(0)] = 1; b[0] = 1; }
            what = op == 7 ? "setMoleFractionsByName" : "setMassFractionsByName"; ctx() += str(" restricted to", m.size(), "names");
            if (op == 7) { p.setMoleFractionsByName(m); fromX(); } else { p.setMassFractionsByName(m); fromY(); } }
        check("marks_state_changed", p.stateMFNumber() != sn, what);
        eq("temperature_kept", p.temperature(), T0, 0, 0, what); eq("density", p.density(), rho, 1e-9, 0, what);
        consistent(p, X, what.c_str());
    }
    ctx() = p.name();
    must_throw("bad_index", [&] { p.moleFraction(K); }); must_throw("bad_index", [&] { p.massFraction(K); }); must_throw("bad_index", [&] { p.concentration(K); }); must_throw("bad_index", [&] { p.molecularWeight(K); });
    must_throw("bad_index", [&] { p.elementalMassFraction(p.nElements()); }); must_throw("bad_index", [&] { p.elementalMoleFraction(p.nElements()); });
    must_throw("bad_density", [&] { p.setDensity(0.0); }); must_throw("bad_density", [&] { p.setDensity(-1.0); }); must_throw("bad_temperature", [&] { p.setTemperature(0.0); }); must_throw("bad_temperature", [&] { p.setTemperature(-5.0); });
    must_throw("unknown_species", [&] { p.setMoleFractionsByName("NoSuchSpecies:1"); });
    Vd z(K, 0.0), o(K); must_throw("empty_helper", [&] { p.massFractionsToMoleFractions(z.data(), o.data()); }); must_throw("empty_helper", [&] { p.moleFractionsToMassFractions(z.data(), o.data()); });
}
static shared_ptr<ThermoPhase> synth(size_t K) {
    auto p = std::make_shared<IdealGasPhase>(); p->setName(str("synthetic", K)); vector<string> el = {"H", "O", "C", "N", "Ar", "E"}; 
    for (auto& e : el) p->addElement(e);
    for (size_t k = 0; k < K; k++) { Composition c; for (auto& e : el) if (e != "E" && coin(.5)) c[e] = (double)N(1, 6); if (c.empty()) c["Ar"] = 1; double z = 0; if (coin(.3)) { z = N(-1, 1); if (z) c["E"] = -z; }
        auto s = std::make_shared<Species>("S" + std::to_string(k), c, z); double cc[4] = {298.15, U(-1e8, 1e8), U(1e5, 3e5), U(2e4, 9e4)}; s->thermo = std::make_shared<ConstCpPoly>(200, 5000, 101325, cc); p->addSpecies(s); }
    p->initThermo(); return p;
}
int main() {
    guard("runs", [] {
        for (auto f : {"h2o2.yaml", "gri30.yaml", "air.yaml"}) { auto s = newThermo(f); run(*s, reps(60)); }
        for (size_t K : {1, 2, 3, 7}) { auto s = synth(K); run(*s, reps(120)); 
            // molecular weight change keeps the bases consistent
            if (K > 1) { Vd y(K), x(K); s->getMassFractions(y.data()); s->setMolecularWeight(1, 33.3); s->getMoleFractions(x.data()); double r = 0; for (size_t k = 0; k < K; k++) r += y[k] / s->molecularWeight(k); for (size_t k = 0; k < K; k++) eq("setMolecularWeight", x[k], y[k] / s->molecularWeight(k) / r, 1e-9, 1e-14); eq("setMolecularWeight", s->meanMolecularWeight(), 1 / r); } }
    });
    return done();
}
