#include "vd.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/kinetics/BlowersMaselRate.h"
#include "cantera/kinetics/TwoTempPlasmaRate.h"
#include "cantera/kinetics/PlogRate.h"
#include "cantera/kinetics/ChebyshevRate.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/base/global.h"
using namespace Cantera; using namespace vd; using std::vector;
struct St { double T, P, Te; };
static double Ar(const vector<double>& p, double T) { return p[0] * std::pow(T, p[1]) * std::exp(-p[2] / GasConstant / T); }
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    // numerical derivative of ln k
    auto dlog = [](auto f, double T) { double h = 1e-4 * T; auto L = [&](double t) { return std::log(f(t)); }; return (8 * (L(T + h) - L(T - h)) - (L(T + 2 * h) - L(T - 2 * h))) / (12 * h); };
    for (int it = 0; it < reps(3000); it++) {
        double A = LU(1e-5, 1e15), b = coin(0.2) ? 0 : U(-4, 4), Ea = coin(0.2) ? 0 : U(-5e7, 4e8);
        if (coin(0.05)) A = hint(A, 1e-5, 1e15); if (coin(0.05)) b = hint(b, -4, 4);
        double T = coin(0.1) ? hint(1000, 100, 6000) : U(200, 5000), Te = U(200, 20000);
        ctx() = str("A", A, "b", b, "Ea", Ea, "T", T);
        guard("arrhenius", [&] {
            ArrheniusRate r(A, b, Ea); ArrheniusData d; d.update(T); auto f = [&](double t) { return Ar({A, b, Ea}, t); };
            double k = f(T);
            eq("arrhenius", r.evalFromStruct(d), k, 1e-10); eq("arrhenius", r.evalRate(std::log(T), 1 / T), k, 1e-10); eq("arrhenius_log", r.evalLog(std::log(T), 1 / T), std::log(k), 1e-10, 1e-9);
            eq("arrhenius_dlogk_dT", r.ddTScaledFromStruct(d), dlog(f, T), 1e-6, 1e-9);
            eq("parameters", r.preExponentialFactor(), A, 1e-14); eq("parameters", r.temperatureExponent(), b, 1e-14); eq("parameters", r.activationEnergy(), Ea, 1e-13);
            ArrheniusRate n(-A, b, Ea); eq("arrhenius", n.evalFromStruct(d), -k, 1e-10); must_throw("negative_A_rejected", [&] { n.check("eq"); }); must_throw("negative_A_rejected", [&] { n.check(""); });
            n.setAllowNegativePreExponentialFactor(true); guard("negative_A_allowed", [&] { n.check("eq"); }); guard("positive_A_ok", [&] { r.check("eq"); });
        });
        guard("blowers", [&] {
            double E0 = coin(0.1) ? 0 : U(1e6, 2e8), w = U(2.5e8, 1e9), dH = coin(0.1) ? 0 : U(-1.2e9, 1.2e9); if (coin(0.2)) dH = (coin() ? 1 : -1) * 4 * E0 * (coin() ? 1 + 1e-9 : 1 - 1e-9);
            if (coin(0.1)) dH = hint(4 * E0, -1e9, 1e9);
            ctx() += str("E0", E0, "w", w, "dH", dH);
            BlowersMaselRate r(A, b, E0, w); r.setDeltaH(dH);
            double E; if (dH < -4 * E0) E = 0; else if (dH > 4 * E0) E = dH; else { double vp = 2 * w * (w + E0) / (w - E0); double q = vp - 2 * w + dH; double den = vp * vp - 4 * w * w + dH * dH; E = (w + dH / 2) * q * q / den; }
            if (!std::isnan(E) && std::fabs(std::fabs(dH) - 4 * E0) > 1e-6 * E0) {
                eq("blowers_Ea", r.activationEnergy(), E, 1e-8, 1e-6 * (E0 + std::fabs(dH)));
                BlowersMaselData d; d.ReactionData::update(T); auto f = [&](double t) { return Ar({A, b, E}, t); };
                eq("blowers", r.evalFromStruct(d), f(T), 1e-6); eq("blowers", r.evalRate(std::log(T), 1 / T), f(T), 1e-6); eq("blowers_dlogk_dT", r.ddTScaledFromStruct(d), dlog(f, T), 1e-6, 1e-9);
                eq("blowers_params", r.bondEnergy(), w, 1e-13); eq("blowers_params", r.deltaH(), dH, 1e-13);
                size_t ns = N(2, 6); d.resize(ns, 1, 1); double s = 0; for (auto& v : d.partialMolarEnthalpies) v = U(-1e9, 1e9); r.m_stoich_coeffs.clear();
                for (size_t q = 0; q < 3; q++) { size_t k = N(0, ns - 1); double nu = U(-2, 2); r.m_stoich_coeffs.emplace_back(k, nu); s += nu * d.partialMolarEnthalpies[k]; }
                r.updateFromStruct(d); eq("blowers_deltaH", r.deltaH(), s, 1e-10, 1e-3); r.updateFromStruct(d); eq("blowers_deltaH", r.deltaH(), s, 1e-10, 1e-3);
            }
        });
        guard("plasma", [&] {
            double EE = coin(0.2) ? 0 : U(-3e8, 3e8); TwoTempPlasmaRate r(A, b, Ea, EE); TwoTempPlasmaData d; d.update(T, Te);
            auto f = [&](double t) { return A * std::pow(Te, b) * std::exp(-Ea / GasConstant / t) * std::exp(EE * (Te - t) / (GasConstant * t * Te)); };
            eq("plasma", r.evalFromStruct(d), f(T), 1e-9); if (f(T) > 0 && std::isfinite(f(T))) eq("plasma_dlogk_dT", r.ddTScaledFromStruct(d), dlog(f, T), 1e-6, 1e-8); eq("plasma_params", r.activationElectronEnergy(), EE, 1e-13);
            must_throw("plasma_needs_Te", [&] { d.update(T); });
        });
    }
    // P-log: histories of set / query
    for (int it = 0; it < reps(1500); it++) {
        std::multimap<double, ArrheniusRate> m; vector<std::pair<double, vector<vector<double>>>> tab;
        auto gen = [&] { m.clear(); tab.clear(); size_t np = N(1, 5); double p = LU(1e2, 1e5); for (size_t i = 0; i < np; i++, p *= LU(1.5, 50)) { vector<vector<double>> g; size_t ng = coin(0.7) ? 1 : N(2, 3); for (size_t q = 0; q < ng; q++) { g.push_back({LU(1e2, 1e12), U(-2, 2), U(0, 1e8)}); m.insert({p, ArrheniusRate(g.back()[0], g.back()[1], g.back()[2])}); } tab.push_back({p, g}); } };
        gen(); PlogRate r(m); PlogData d; string hist;
        for (int q = 0; q < 12; q++) {
            if (coin(0.15)) { gen(); r.setRates(m); hist += " setRates"; }
            double T = U(300, 3000), P; size_t i = N(0, tab.size() - 1); double x = U();
            P = x < 0.3 ? tab[i].first : x < 0.4 ? tab[i].first * (1 + 1e-10) : x < 0.5 ? tab[0].first * LU(1e-4, 1) : x < 0.6 ? tab.back().first * LU(1, 1e4) : LU(1e1, 1e8);
            if (q) { P = nearby(d.pressure, P); T = nearby(d.temperature, T); }
            hist += str(" (T", T, "P", P, ")"); ctx() = hist;
            auto k = [&](size_t j) { double s = 0; for (auto& a : tab[j].second) s += Ar(a, T); return s; };
            double want; if (P <= tab[0].first) want = k(0); else if (P >= tab.back().first) want = k(tab.size() - 1);
            else { size_t j = 0; while (tab[j + 1].first < P) j++; double l = std::log(k(j)), u = std::log(k(j + 1)); want = std::exp(l + (u - l) * (std::log(P) - std::log(tab[j].first)) / (std::log(tab[j + 1].first) - std::log(tab[j].first))); }
            guard("plog", [&] { d.update(T, P); r.updateFromStruct(d); eq("plog", r.evalFromStruct(d), want, 1e-7); });
            if (coin(0.1)) guard("plog_perturb", [&] { d.perturbPressure(1e-3); must_throw("plog_double_perturb", [&] { d.perturbPressure(1e-3); }); eq("plog_perturb", d.pressure, P * 1.001, 1e-12); d.restore(); eq("plog_restore", d.pressure, P, 1e-12); eq("plog_restore", d.temperature, T, 1e-12); eq("plog_restore", d.logP, std::log(P), 1e-12); });
        }
        guard("plog_read_back", [&] { auto g = r.getRates(); check("plog_read_back", g.size() == m.size()); auto a = g.begin(); auto b = m.begin(); for (; a != g.end() && b != m.end(); ++a, ++b) { eq("plog_read_back", a->first, b->first, 1e-9); eq("plog_read_back", a->second.preExponentialFactor(), b->second.preExponentialFactor(), 1e-14); eq("plog_read_back", a->second.activationEnergy(), b->second.activationEnergy(), 1e-13); } });
    }
    // Chebyshev
    for (int it = 0; it < reps(1500); it++) {
        double Tmin = U(200, 400), Tmax = U(1000, 3000), Pmin = LU(1e2, 1e4), Pmax = LU(1e5, 1e7); Array2D c;
        auto gen = [&] { c = Array2D(N(1, 6), N(1, 6)); for (auto& v : c.data()) v = U(-2, 2); };
        gen(); ChebyshevRate r(Tmin, Tmax, Pmin, Pmax, c); ChebyshevData d; string hist;
        for (int q = 0; q < 8; q++) {
            if (coin(0.15)) { gen(); r.setData(c); hist += " setData"; }
            if (coin(0.1)) { Tmin = U(200, 400); Tmax = U(1000, 3000); Pmin = LU(1e2, 1e4); Pmax = LU(1e5, 1e7); r.setLimits(Tmin, Tmax, Pmin, Pmax); hist += " setLimits"; }
            double T = coin(0.1) ? Tmin : U(Tmin, Tmax), P = LU(Pmin, Pmax); if (q) { P = nearby(d.pressure, P, 0.5); T = nearby(d.temperature, T); } hist += str(" (T", T, "P", P, ")"); ctx() = hist + str("n", c.nRows(), c.nColumns(), vec(c.data(), 40));
            double Tr = (2 / T - 1 / Tmin - 1 / Tmax) / (1 / Tmax - 1 / Tmin), Pr = (2 * std::log10(P) - std::log10(Pmin) - std::log10(Pmax)) / (std::log10(Pmax) - std::log10(Pmin));
            auto ch = [](size_t n, double x) { double a = 1, b = x; for (size_t i = 0; i < n; i++) { double t = 2 * x * b - a; a = b; b = t; } return a; };
            double s = 0; for (size_t i = 0; i < c.nRows(); i++) for (size_t j = 0; j < c.nColumns(); j++) s += c(i, j) * ch(i, Tr) * ch(j, Pr);
            guard("chebyshev", [&] { d.update(T, P); r.updateFromStruct(d); eq("chebyshev", r.evalFromStruct(d), std::pow(10, s), 1e-7); });
            if (coin(0.1)) guard("cheb_perturb", [&] { d.perturbPressure(1e-3); must_throw("cheb_double_perturb", [&] { d.perturbPressure(1e-3); }); d.restore(); eq("cheb_restore", d.pressure, P, 1e-12); eq("cheb_restore", d.temperature, T, 1e-12); eq("cheb_restore", d.log10P, std::log10(P), 1e-12); });
        }
        eq("cheb_limits", r.Tmin(), Tmin); eq("cheb_limits", r.Tmax(), Tmax); eq("cheb_limits", r.Pmin(), Pmin); eq("cheb_limits", r.Pmax(), Pmax);
    }
    // shared data follows the phase state (every history of T, P, composition changes)
    guard("data_update", [&] {
        auto th = std::shared_ptr<ThermoPhase>(newThermo("h2o2.yaml")); auto kin = newKinetics({th}, "h2o2.yaml"); size_t K = th->nSpecies();
        ArrheniusData ad; PlogData pd; ChebyshevData cd; BlowersMaselData bd; bd.resize(K, 1, 1); th->setState_TP(300, 1e5); bd.invalidateCache();
        for (int it = 0; it < reps(300); it++) {
            int w = N(0, 3); if (w == 0) th->setState_TP(U(300, 2500), th->pressure()); else if (w == 1) th->setState_TP(th->temperature(), LU(1e3, 1e7)); else if (w == 2) { vector<double> X(K); for (auto& v : X) v = U(); th->setMoleFractions(X.data()); } else { vector<double> X(K); for (auto& v : X) v = U(); double D = th->density(); th->setMoleFractions(X.data()); th->setDensity(D); }
            double T = th->temperature(), P = th->pressure(); ctx() = str("what", w, "T", T, "P", P);
            ad.update(*th, *kin); eq("data_update_T", ad.temperature, T); eq("data_update_T", ad.logT, std::log(T), 1e-13); eq("data_update_T", ad.recipT, 1 / T, 1e-13);
            check("data_update_ret", !ad.update(*th, *kin));
            pd.update(*th, *kin); eq("data_update_P", pd.temperature, T); eq("data_update_P", pd.pressure, P); eq("data_update_P", pd.logP, std::log(P), 1e-13); eq("data_update_P", pd.recipT, 1 / T, 1e-13);
            cd.update(*th, *kin); eq("data_update_P", cd.temperature, T); eq("data_update_P", cd.pressure, P); eq("data_update_P", cd.log10P, std::log10(P), 1e-13);
            bd.update(*th, *kin); vector<double> h(K); th->getPartialMolarEnthalpies(h.data()); veq("data_update_H", bd.partialMolarEnthalpies, h, 1e-12); eq("data_update_H", bd.recipT, 1 / T, 1e-13);
        }
    });
    return done();
}
