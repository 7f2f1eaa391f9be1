#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/ConstCpPoly.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
typedef void (ThermoPhase::*Get)(double*) const;
static Vd get(ThermoPhase& p, Get g) { Vd v(p.nSpecies() + 1, 77.25); (p.*g)(v.data()); check("no_write_past_the_end", v.back() == 77.25); v.pop_back(); return v; }
int main() {
    suppress_warnings();
    struct M { const char* f; const char* n; }; M ms[] = {{"h2o2.yaml", "ohmech"}, {"gri30.yaml", "gri30"}, {"air.yaml", "air"}, {"nasa_gas.yaml", ""}, {"airNASA9.yaml", ""}, {"gri30_ion.yaml", "gas"}, {"ohn.yaml", ""}, {"silicon.yaml", "gas"}};
    for (auto& mm : ms) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError& e) { continue; }
        auto g = std::dynamic_pointer_cast<IdealGasPhase>(tp); if (!g) continue;
        auto& p = *g; size_t K = p.nSpecies(); if (K > 200) continue; Vd W = p.molecularWeights(); double P0 = p.refPressure(), R = GasConstant;
        double T = 300, P = OneAtm; Vd X(K, 1. / K); p.setState_TPX(T, P, X.data()); Vd h(K), s(K), cp(K), z(K);
        for (int it = 0; it < reps(K > 30 ? 1500 : 4000); it++) {
            ctx() = string(mm.n) + str(it);
            guard("state", [&] {
                // change some part of the state only
                int op = N(0, 6); double T2 = nearby(T, U(250, 3000)), P2 = nearby(P, LU(1e2, 1e7)); double rho; Vd x2(K); double t = 0; for (auto& x : x2) { x = coin(0.3) ? 0 : LU(1e-8, 1); t += x; } if (t <= 0) { x2[N(0, K - 1)] = t = 1; } for (auto& x : x2) x /= t;
                if (op == 0) { rho = p.density(); p.setTemperature(T2); T = T2; }
                else if (op == 1) { p.setPressure(P2); P = P2; rho = -1; }
                else if (op == 2) { rho = p.density(); p.setMoleFractions(x2.data()); X = x2; }
                else if (op == 3) { p.setState_TP(T2, P2); T = T2; P = P2; rho = -1; }
                else if (op == 4) { p.setState_TPX(T2, P2, x2.data()); T = T2; P = P2; X = x2; rho = -1; }
                else if (op == 5) { rho = LU(1e-3, 1e2); p.setState_DP(rho, P2); double m = 0; for (size_t k = 0; k < K; k++) m += X[k] * W[k]; P = P2; T = P * m / (R * rho); if (T > 20000 || T < 10) { p.setState_TP(T2, P2); T = T2; P = P2; } rho = -1; }
                else { size_t k = N(0, K - 1); if (coin(0.3)) try { double dh = p.Hf298SS(k); p.modifyOneHf298SS(k, dh + U(-1e7, 1e7)); } catch (NotImplementedError&) {} rho = p.density(); }
                double mw = 0; for (size_t k = 0; k < K; k++) mw += X[k] * W[k]; if (rho > 0) P = rho * R * T / mw; rho = P * mw / (R * T);
                // species functions evaluated one at a time, past every cache of the phase
                for (size_t k = 0; k < K; k++) { p.speciesThermo().update_single(k, T, &cp[k], &h[k], &s[k]); }
                ctx() = string(mm.n) + str(it, "op", op, "T", T, "P", P);
                double RT = R * T, lp = std::log(P / P0); size_t nq = N(2, 6);
                auto V = [&](const char* n, Get f, std::function<double(size_t)> w, double sc) { Vd g = get(p, f), ww(K); for (size_t k = 0; k < K; k++) ww[k] = w(k); veq(n, g, ww, 1e-9, 1e-9 * sc); };
                auto lx = [&](size_t k) { return std::log(std::max(X[k], SmallNumber)); };
                double H = 0, S = 0, C = 0, lxx = 0; for (size_t k = 0; k < K; k++) { H += X[k] * h[k]; S += X[k] * s[k]; C += X[k] * cp[k]; if (X[k] > 0) lxx += X[k] * std::log(X[k]); } H *= RT; S = R * (S - lxx - lp); C *= R;
                for (size_t q = 0; q < nq; q++) switch (N(0, 33)) {
                case 0: eq("pressure", p.pressure(), P); eq("pressure", p.density(), rho); eq("temperature", p.temperature(), T); break;
                case 1: eq("enthalpy_mole", p.enthalpy_mole(), H, 1e-8, 1e-7 * RT); eq("enthalpy_mass", p.enthalpy_mass(), H / mw, 1e-8, 1e-7 * RT / mw); break;
                case 2: eq("entropy_mole", p.entropy_mole(), S, 1e-8, 1e-8 * R); eq("entropy_mass", p.entropy_mass(), S / mw, 1e-8, 1e-8 * R); break;
                case 3: eq("cp_mole", p.cp_mole(), C); eq("cv_mole", p.cv_mole(), C - R); eq("cp_mass", p.cp_mass(), C / mw); eq("cv_mass", p.cv_mass(), (C - R) / mw); break;
                case 4: eq("intEnergy_mole", p.intEnergy_mole(), H - RT, 1e-8, 1e-7 * RT); eq("intEnergy_mass", p.intEnergy_mass(), (H - RT) / mw, 1e-8, 1e-7 * RT / mw); break;
                case 5: eq("gibbs_mole", p.gibbs_mole(), H - T * S, 1e-8, 1e-7 * RT); eq("gibbs_mass", p.gibbs_mass(), (H - T * S) / mw, 1e-8, 1e-7 * RT / mw); break;
                case 6: eq("isothermalCompressibility", p.isothermalCompressibility(), 1 / P); eq("thermalExpansionCoeff", p.thermalExpansionCoeff(), 1 / T); eq("soundSpeed", p.soundSpeed(), std::sqrt(C / (C - R) * RT / mw)); break;
                case 7: V("getChemPotentials", &ThermoPhase::getChemPotentials, [&](size_t k) { return RT * (h[k] - s[k] + lp + lx(k)); }, RT); break;
                case 8: V("getPartialMolarEnthalpies", &ThermoPhase::getPartialMolarEnthalpies, [&](size_t k) { return RT * h[k]; }, RT); break;
                case 9: V("getPartialMolarEntropies", &ThermoPhase::getPartialMolarEntropies, [&](size_t k) { return R * (s[k] - lp - lx(k)); }, R); break;
                case 10: V("getPartialMolarIntEnergies", &ThermoPhase::getPartialMolarIntEnergies, [&](size_t k) { return RT * (h[k] - 1); }, RT); break;
                case 11: V("getPartialMolarCp", &ThermoPhase::getPartialMolarCp, [&](size_t k) { return R * cp[k]; }, R); break;
                case 12: V("getPartialMolarVolumes", &ThermoPhase::getPartialMolarVolumes, [&](size_t) { return RT / P; }, 0); break;
                case 13: V("getStandardChemPotentials", &ThermoPhase::getStandardChemPotentials, [&](size_t k) { return RT * (h[k] - s[k] + lp); }, RT); break;
                case 14: V("getPureGibbs", &ThermoPhase::getPureGibbs, [&](size_t k) { return RT * (h[k] - s[k] + lp); }, RT); break;
                case 15: V("getEnthalpy_RT", &ThermoPhase::getEnthalpy_RT, [&](size_t k) { return h[k]; }, 1); break;
                case 16: V("getEntropy_R", &ThermoPhase::getEntropy_R, [&](size_t k) { return s[k] - lp; }, 1); break;
                case 17: V("getGibbs_RT", &ThermoPhase::getGibbs_RT, [&](size_t k) { return h[k] - s[k] + lp; }, 1); break;
                case 18: V("getIntEnergy_RT", &ThermoPhase::getIntEnergy_RT, [&](size_t k) { return h[k] - 1; }, 1); break;
                case 19: V("getCp_R", &ThermoPhase::getCp_R, [&](size_t k) { return cp[k]; }, 1); break;
                case 20: V("getStandardVolumes", &ThermoPhase::getStandardVolumes, [&](size_t) { return RT / P; }, 0); break;
                case 21: V("getEnthalpy_RT_ref", &ThermoPhase::getEnthalpy_RT_ref, [&](size_t k) { return h[k]; }, 1); break;
                case 22: V("getGibbs_RT_ref", &ThermoPhase::getGibbs_RT_ref, [&](size_t k) { return h[k] - s[k]; }, 1); break;
                case 23: V("getGibbs_ref", &ThermoPhase::getGibbs_ref, [&](size_t k) { return RT * (h[k] - s[k]); }, RT); break;
                case 24: V("getEntropy_R_ref", &ThermoPhase::getEntropy_R_ref, [&](size_t k) { return s[k]; }, 1); break;
                case 25: V("getIntEnergy_RT_ref", &ThermoPhase::getIntEnergy_RT_ref, [&](size_t k) { return h[k] - 1; }, 1); break;
                case 26: V("getCp_R_ref", &ThermoPhase::getCp_R_ref, [&](size_t k) { return cp[k]; }, 1); break;
                case 27: V("getStandardVolumes_ref", &ThermoPhase::getStandardVolumes_ref, [&](size_t) { return RT / P0; }, 0); break;
                case 28: V("getActivityConcentrations", &ThermoPhase::getActivityConcentrations, [&](size_t k) { return X[k] * P / RT; }, 1e-6 * P / RT); break;
                case 29: V("getActivityCoefficients", &ThermoPhase::getActivityCoefficients, [&](size_t) { return 1.; }, 0); V("getLnActivityCoefficients", &ThermoPhase::getLnActivityCoefficients, [&](size_t) { return 0.; }, 0); break;
                case 30: V("getActivities", &ThermoPhase::getActivities, [&](size_t k) { return X[k]; }, 1e-6); eq("standardConcentration", p.standardConcentration(N(0, K - 1)), P / RT); break;
                case 31: { Vd m = get(p, &ThermoPhase::getChemPotentials), e(K); p.getElectrochemPotentials(e.data()); for (size_t k = 0; k < K; k++) m[k] += Faraday * p.charge(k) * p.electricPotential(); veq("getElectrochemPotentials", e, m, 1e-10, 1e-6 * RT); break; }
                case 32: { if (T < 200) break; Vd mu(K), Xs(K); double tot = 0; Vd pp(K); for (size_t k = 0; k < K; k++) { pp[k] = coin(0.1) ? 0 : LU(1e-3, 1e5); mu[k] = pp[k] > 0 ? std::log(pp[k] / P0) + h[k] - s[k] : h[k] - s[k] - 700; tot += pp[k]; } if (!(tot > 0)) break; p.setToEquilState(mu.data()); P = tot; for (size_t k = 0; k < K; k++) X[k] = pp[k] / tot; p.getMoleFractions(Xs.data()); veq("setToEquilState", Xs, X, 1e-7, 1e-10); eq("setToEquilState", p.pressure(), P, 1e-7);
                    mw = 0; for (size_t k = 0; k < K; k++) mw += X[k] * W[k]; rho = P * mw / RT; lp = std::log(P / P0); H = S = C = lxx = 0; for (size_t k = 0; k < K; k++) { H += X[k] * h[k]; S += X[k] * s[k]; C += X[k] * cp[k]; if (X[k] > 0) lxx += X[k] * std::log(X[k]); } H *= RT; S = R * (S - lxx - lp); C *= R; break; }
                default: must_throw("setState_DP_rejects", [&] { p.setState_DP(1.0, coin() ? 0. : -1e5); }); eq("setState_DP_rejects", p.pressure(), P, 1e-9); break;
                }
            });
        }
    }
    return done();
}
