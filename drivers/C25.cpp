#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/IdealSolidSolnPhase.h"
#include "cantera/thermo/LatticePhase.h"
#include "cantera/thermo/StoichSubstance.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/Species.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    struct M { const char* f; const char* n; }; M ms[] = {{"KOH.yaml", "KOH_a"}, {"KOH.yaml", "liquid_water"}, {"graphite.yaml", "graphite"}, {"silicon.yaml", "silicon"}, {"SiF4_NH3_mec.yaml", "NBulk"}, {"thermo-models.yaml", "NaCl(s)"}, {"thermo-models.yaml", "KCl(s)"},
        {"sofc.yaml", "oxide_bulk"}, {"thermo-models.yaml", "Li7Si3-interstitial"}, {"Li7Si3_ls.yaml", "Li7Si3_Interstitial"}, {"thermo-models.yaml", "IdealSolidSolnPhase"}, {"thermo-models.yaml", "IdealSolidSolnPhase2"}, {"lithium_ion_battery.yaml", "electrolyte"}, {"IdealSolidSolnPhaseExample.yaml", "solidSolutionExample"}};
    for (auto& mm : ms) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError& e) { ctx() = e.what(); check("phase_builds", false, string(mm.f) + mm.n); continue; }
        ThermoPhase* p = tp.get(); auto* is = dynamic_cast<IdealSolidSolnPhase*>(p); auto* la = dynamic_cast<LatticePhase*>(p); auto* ss = dynamic_cast<StoichSubstance*>(p);
        if (!is && !la && !ss) { ctx() = mm.n; check("phase_type_known", false); continue; }
        size_t K = p->nSpecies(); Vd W = p->molecularWeights(); double p0 = p->refPressure(), T = 400, Pr = OneAtm; Vd X(K, 0.); p->getMoleFractions(X.data()); p->setState_TP(T, Pr);
        Vd Vm(K); p->getStandardVolumes(Vm.data()); double n0 = la ? la->m_site_density : 0; bool explicitV = false;
        if (la) for (size_t k = 0; k < K; k++) { auto& in = p->species(k)->input; if (in.hasKey("equation-of-state")) explicitV = true; }
        for (int it = 0; it < reps(500); it++) {
            ctx() = string(mm.f) + ":" + mm.n + " it" + str(it);
            guard("no_unexpected_exception", [&] {
                double Tn = nearby(T, hint(U(250, 1500), 250, 1500), 0.4), Pn = nearby(Pr, LU(10, 1e8), 0.4); Tn = std::min(std::max(Tn, 250.), 2000.); int how = N(0, 6);
                auto newX = [&] { Vd x(K); double z = 0; for (auto& v : x) v = coin(0.25) ? 0 : coin(0.1) ? LU(1e-14, 1e-6) : LU(1e-3, 1); if (z == 0) x[N(0, K - 1)] += 0.3; for (double v : x) z += v; for (auto& v : x) v /= z; return x; };
                if (la && !explicitV && coin(0.15)) { n0 = nearby(n0, LU(1, 100), 0.3); la->setSiteDensity(n0); }
                if (K == 1) { if (how < 3) { p->setState_TP(Tn, Pn); T = Tn; Pr = Pn; } else if (how < 5) { p->setTemperature(Tn); T = Tn; } else { p->setPressure(Pn); Pr = Pn; } }
                else switch (how) {
                case 0: p->setState_TP(Tn, Pn); T = Tn; Pr = Pn; break;
                case 1: p->setTemperature(Tn); T = Tn; break;
                case 2: p->setPressure(Pn); Pr = Pn; break;
                case 3: X = newX(); p->setMoleFractions(X.data()); break;
                case 4: { X = newX(); Vd y(K); double z = 0; bool heavy = true; for (size_t k = 0; k < K; k++) { y[k] = X[k] * W[k]; z += y[k]; if (!(W[k] > 1e-6)) heavy = false; } if (heavy) p->setMassFractions(y.data()); else p->setMoleFractions(X.data()); break; }
                case 5: X = newX(); p->setState_TPX(Tn, Pn, X.data()); T = Tn; Pr = Pn; break;
                default: { Vd st; p->saveState(st); Vd x2 = newX(); p->setState_TPX(Tn, Pn, x2.data()); p->cp_mole(); p->restoreState(st); break; } }
                if (coin(0.05)) { size_t k = N(0, K - 1); bool up = coin(); p->modifyOneHf298SS(k, p->Hf298SS(k) + (up ? 1e6 : -1e6)); if (coin()) p->resetHf298(k); if (coin(0.3)) p->resetHf298(); }
                if (ss) X[0] = 1;
                Vd cp(K), h(K), s(K), a(K); for (size_t k = 0; k < K; k++) p->speciesThermo().update_single(k, T, &cp[k], &h[k], &s[k]);
                if (la && !explicitV) for (auto& v : Vm) v = 1 / n0;
                double RT = GasConstant * T, M = 0, vm = 0; for (size_t k = 0; k < K; k++) { M += X[k] * W[k]; vm += X[k] * Vm[k]; } double dp = Pr - p0;
                if (ss) { Vm[0] = vm = W[0] / p->density(); }
                eq("temperature", p->temperature(), T, 1e-14); eq("pressure", p->pressure(), Pr, 1e-14);
                { Vd x(K); p->getMoleFractions(x.data()); veq("mole_fractions", x, X, 1e-10, 1e-290); }
                auto vq = [&](const char* nm, void (ThermoPhase::*g)(double*) const, auto fn, auto sc) { std::fill(a.begin(), a.end(), -7.7e77); (p->*g)(a.data()); for (size_t k = 0; k < K; k++) eq(nm, a[k], fn(k), 1e-9, 1e-10 * sc(k), p->speciesName(k)); };
                auto lg = [&](size_t k) { return K == 1 ? 0 : std::log(std::max(X[k], SmallNumber)); };
                auto hs = [&](size_t k) { return RT * (std::fabs(h[k]) + std::fabs(s[k]) + std::fabs(lg(k)) + 1) + std::fabs(dp) * Vm[k] + (p0 + Pr) * Vm[k]; }; auto one = [&](size_t) { return 1.0; }; auto hr = [&](size_t k) { return hs(k) / RT; }; auto vr = [&](size_t k) { return Vm[k]; };
                auto rs = [&](size_t k) { return GasConstant * (std::fabs(s[k]) + std::fabs(lg(k)) + 1); };
                auto H = [&](size_t k) { return RT * h[k] + dp * Vm[k]; }; auto G = [&](size_t k) { return RT * (h[k] - s[k]) + dp * Vm[k]; };
                for (int j = 0; j < 6; j++) switch (N(0, 19)) {
                case 0: vq("getPartialMolarEnthalpies", &ThermoPhase::getPartialMolarEnthalpies, H, hs); break;
                case 1: vq("getPartialMolarEntropies", &ThermoPhase::getPartialMolarEntropies, [&](size_t k) { return GasConstant * (s[k] - lg(k)); }, rs); break;
                case 2: vq("getPartialMolarCp", &ThermoPhase::getPartialMolarCp, [&](size_t k) { return GasConstant * cp[k]; }, one); break;
                case 3: vq("getPartialMolarVolumes", &ThermoPhase::getPartialMolarVolumes, vr, vr); vq("getStandardVolumes", &ThermoPhase::getStandardVolumes, vr, vr); break;
                case 4: vq("getStandardChemPotentials", &ThermoPhase::getStandardChemPotentials, G, hs); break;
                case 5: vq("getChemPotentials", &ThermoPhase::getChemPotentials, [&](size_t k) { return G(k) + RT * lg(k); }, hs); break;
                case 6: vq("getPureGibbs", &ThermoPhase::getPureGibbs, G, hs); break;
                case 7: vq("getGibbs_RT", &ThermoPhase::getGibbs_RT, [&](size_t k) { return G(k) / RT; }, hr); vq("getGibbs_RT_ref", &ThermoPhase::getGibbs_RT_ref, [&](size_t k) { return h[k] - s[k]; }, hr); break;
                case 8: vq("getEnthalpy_RT", &ThermoPhase::getEnthalpy_RT, [&](size_t k) { return H(k) / RT; }, hr); if (!la) vq("getEnthalpy_RT_ref", &ThermoPhase::getEnthalpy_RT_ref, [&](size_t k) { return h[k]; }, hr); break;
                case 9: vq("getEntropy_R", &ThermoPhase::getEntropy_R, [&](size_t k) { return s[k]; }, hr); if (!la) vq("getEntropy_R_ref", &ThermoPhase::getEntropy_R_ref, [&](size_t k) { return s[k]; }, hr); break;
                case 10: vq("getCp_R", &ThermoPhase::getCp_R, [&](size_t k) { return cp[k]; }, one); if (!la) vq("getCp_R_ref", &ThermoPhase::getCp_R_ref, [&](size_t k) { return cp[k]; }, one); break;
                case 11: if (!la) { vq("getIntEnergy_RT", &ThermoPhase::getIntEnergy_RT, [&](size_t k) { return (H(k) - Pr * Vm[k]) / RT; }, hr); } break;
                case 12: vq("getGibbs_ref", &ThermoPhase::getGibbs_ref, [&](size_t k) { return RT * (h[k] - s[k]); }, hs); break;
                case 13: case 14: case 15: { double mh = 0, ms = 0, mc = 0, sc = 0, rc = 0; for (size_t k = 0; k < K; k++) { mh += X[k] * H(k); mc += X[k] * GasConstant * cp[k]; ms += X[k] * GasConstant * (s[k] - (X[k] > 0 ? lg(k) : 0)); sc += X[k] * hs(k); rc += X[k] * rs(k); }
                    if (la && explicitV && !close(mh, p->enthalpy_mole(), 1e-9, 1e-10 * sc)) { check("lattice_explicit_volumes", false, str("enthalpy_mole", p->enthalpy_mole(), "sum of X_k h_k", mh)); break; }
                    if (la && explicitV) { eq("entropy_mole", p->entropy_mole(), ms, 1e-9, 1e-10 * rc); break; }
                    eq("enthalpy_mole", p->enthalpy_mole(), mh, 1e-9, 1e-10 * sc); eq("entropy_mole", p->entropy_mole(), ms, 1e-9, 1e-10 * rc); eq("gibbs_mole", p->gibbs_mole(), mh - T * ms, 1e-9, 1e-10 * sc); eq("cp_mole", p->cp_mole(), mc, 1e-9); eq("cv_mole", p->cv_mole(), mc, 1e-9);
                    eq("internal_energy_is_h_minus_Pv", p->intEnergy_mole(), mh - Pr * vm, 1e-9, 1e-10 * sc); break; }
                case 16: if (la && explicitV) { if (!close(p->density(), M / vm, 1e-9)) check("lattice_explicit_volumes", false, str("density", p->density(), "sum X_k W_k / sum X_k V_k", M / vm)); break; }
                    eq("density_is_mass_over_volume", p->density(), M / vm, 1e-10); eq("molar_volume", p->molarVolume(), vm, 1e-10); break;
                case 17: { Vd c(K); p->getActivityConcentrations(c.data()); for (size_t k = 0; k < K; k++) { double c0 = 1; if (is && is->m_formGC == 1) c0 = 1 / Vm[k]; if (is && is->m_formGC == 2) c0 = 1 / Vm[K - 1]; eq("standard_concentration", p->standardConcentration(k), c0, 1e-12);
                    eq("log_standard_concentration", p->logStandardConc(k), std::log(c0), 1e-10, 1e-12); eq("activity_concentration", c[k], X[k] * c0, 1e-10, 1e-290); } break; }
                case 18: { Vd g(K); p->getActivityCoefficients(g.data()); for (size_t k = 0; k < K; k++) eq("activity_coefficient", g[k], 1, 0); p->getActivities(g.data()); for (size_t k = 0; k < K; k++) eq("activity", g[k], K == 1 ? 1 : X[k], 1e-10, 1e-290); break; }
                default: if (is) { int f = N(0, 2); is->setStandardConcentrationModel(f == 0 ? "unity" : f == 1 ? "species-molar-volume" : "solvent-molar-volume"); check("standard_concentration_model", is->m_formGC == f); }
                    break; }
            });
        }
    }
    return done();
}
