#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/Species.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    struct M { const char* f; const char* n; bool thermo; }; M ms[] = {{"ptcombust.yaml", "Pt_surf", true}, {"surface-phases.yaml", "Pt-multi-sites", true}, {"SiF4_NH3_mec.yaml", "SI3N4", true}, {"surface-phases.yaml", "TPB", true}, {"diamond.yaml", "diamond_100", true}, {"silane.yaml", "", false},
        {"copt_covdepsurf_example.yaml", "covdep", false}, {"methane_pox_on_pt.yaml", "Pt_surf", true}, {"sofc.yaml", "metal_surface", true}, {"sofc.yaml", "oxide_surface", true}};
    for (auto& mm : ms) for (int reb = 0; reb < 2; reb++) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError&) { continue; }
        auto sp0 = std::dynamic_pointer_cast<SurfPhase>(tp); if (!sp0) continue;
        SurfPhase* sp = sp0.get(); shared_ptr<SurfPhase> own;
        if (reb) { if (!mm.thermo) continue; // same species, other site occupancies, built with addSpecies
            own = std::make_shared<SurfPhase>(); for (size_t m = 0; m < sp->nElements(); m++) own->addElement(sp->elementName(m), sp->atomicWeight(m));
            for (size_t k = 0; k < sp->nSpecies(); k++) { auto s0 = sp->species(k); auto s = std::make_shared<Species>(s0->name, s0->composition, s0->charge); s->thermo = s0->thermo; s->size = coin(0.4) ? 1 : coin(0.5) ? (double)N(1, 4) : LU(0.3, 4); own->addSpecies(s); }
            own->initThermo(); own->setSiteDensity(LU(1e-10, 1e-6)); sp = own.get(); }
        size_t K = sp->nSpecies(); Vd s(K); bool multi = false; for (size_t k = 0; k < K; k++) { s[k] = sp->size(k); if (s[k] != 1) multi = true; check("size_is_that_of_the_species", s[k] == sp->species(k)->size); }
        Vd W = sp->molecularWeights(); double n0 = sp->siteDensity(), T = 900; sp->setState_TP(T, OneAtm);
        for (int it = 0; it < reps(400); it++) {
            ctx() = string(mm.f) + ":" + mm.n + (reb ? "(sizes changed)" : "") + " it" + str(it);
            guard("no_unexpected_exception", [&] {
                T = nearby(T, hint(U(300, 2000), 300, 2000), 0.4); T = std::min(std::max(T, 250.), 2500.);
                Vd th(K); double tot = 0, q = 0; for (size_t k = 0; k < K; k++) { th[k] = coin(0.3) ? 0 : coin(0.1) ? LU(1e-15, 1e-6) : LU(1e-4, 1); } th[N(0, K - 1)] = U(0.1, 1);
                double f = coin(0.3) ? 1 : LU(1e-6, 1e6); for (auto& v : th) v *= f; for (size_t k = 0; k < K; k++) { tot += th[k]; q += th[k] / s[k]; }
                bool norm = true; int how = N(0, 9); if (coin(0.3)) { n0 = nearby(n0, LU(1e-11, 1e-5), 0.5); sp->setSiteDensity(n0); }
                if (coin()) { sp->setTemperature(T); }
                Vd nt(K); for (size_t k = 0; k < K; k++) nt[k] = th[k] / tot; bool zeroed = false;
                if (how < 4) sp->setCoverages(th.data());
                else if (how == 4) { Composition c; bool sparse = coin(); for (size_t k = 0; k < K; k++) if (th[k] > 0 || !sparse) c[sp->speciesName(k)] = th[k] > 0 ? th[k] : -coin() * 0.5; sp->setCoveragesByName(c); }
                else if (how == 5) { std::ostringstream o; o.precision(17); for (size_t k = 0; k < K; k++) o << (k ? ", " : "") << sp->speciesName(k) << ":" << th[k]; sp->setCoveragesByName(o.str()); }
                else if (how == 6) { sp->setCoveragesNoNorm(th.data()); norm = false; }
                else if (how == 7) { Vd x(K); for (size_t k = 0; k < K; k++) x[k] = th[k] / s[k]; sp->setMoleFractions(x.data()); }
                else if (how == 8) { Vd y(K); for (size_t k = 0; k < K; k++) y[k] = th[k] / s[k] * W[k]; double z = 0; for (double v : y) z += v; if (z > 0) sp->setMassFractions(y.data()); else sp->setCoverages(th.data());
                    for (size_t k = 0; k < K; k++) if (!(W[k] > 1e-6)) zeroed = true; }
                else { AnyMap st; AnyMap c; for (size_t k = 0; k < K; k++) c[sp->speciesName(k)] = th[k]; st["coverages"] = c; st["T"] = T; st["P"] = OneAtm; sp->setState(st); }
                if (zeroed) { sp->setCoverages(th.data()); norm = true; }
                sp->setTemperature(T);
                if (coin(0.3)) { n0 = nearby(n0, LU(1e-11, 1e-5), 0.5); sp->setSiteDensity(n0); }
                const Vd& want = norm ? nt : th; double S = norm ? tot : 1, Q = 0; for (size_t k = 0; k < K; k++) Q += want[k] / s[k]; // Q: mean of 1/size
                Vd got(K); sp->getCoverages(got.data()); veq("coverages_read_back", got, want, 1e-10, 1e-300);
                if (norm) { double z = 0; for (double v : got) z += v; eq("coverages_sum_to_one", z, 1, 1e-12); }
                Vd X(K), C(K), A(K); sp->getMoleFractions(X.data()); sp->getConcentrations(C.data()); sp->getActivityConcentrations(A.data()); (void)S;
                double sw = 0, mw = 0; for (size_t k = 0; k < K; k++) sw += want[k];
                for (size_t k = 0; k < K; k++) { mw += want[k] / s[k] * W[k]; }
                for (size_t k = 0; k < K; k++) { eq("mole_fraction_of_a_species", X[k], want[k] / s[k] * sw / Q, 1e-10, 1e-300);
                    double doc = want[k] * n0 / s[k], cx = n0 * X[k];
                    if (!close(C[k], doc, 1e-9, 1e-300)) { if (multi && close(C[k], cx, 1e-9, 1e-300)) check("multi_site_concentrations_not_scaled", false, str("coverage", want[k], "sites", s[k], "n0", n0, "concentration", C[k])); else eq("concentration_is_coverage_times_site_density_over_sites", C[k], doc, 1e-9, 1e-300, str("sites", s[k], "coverage", want[k])); }
                    else check("concentration_is_coverage_times_site_density_over_sites", true);
                    eq("single_concentration_agrees", sp->concentration(k), C[k], 1e-12, 1e-300);
                    eq("activity_concentration_is_the_concentration", A[k], C[k], 1e-12, 1e-300);
                    eq("standard_concentration", sp->standardConcentration(k), n0 / s[k], 1e-12); eq("log_standard_concentration", sp->logStandardConc(k), std::log(n0 / s[k]), 1e-10, 1e-12); }
                eq("site_density_stored", sp->siteDensity(), n0, 0);
                if (!mm.thermo) return;
                // thermodynamic properties on every query order; reference values from the species' own polynomials
                Vd cp(K), h(K), en(K), a(K), act(K); for (size_t k = 0; k < K; k++) { sp->speciesThermo().update_single(k, T, &cp[k], &h[k], &en[k]); act[k] = C[k] * s[k] / n0; }
                double RT = GasConstant * T; typedef void (ThermoPhase::*G)(double*) const;
                auto vq = [&](const char* nm, G g, auto fn, double at) { (sp->*g)(a.data()); for (size_t k = 0; k < K; k++) eq(nm, a[k], fn(k), 1e-9, at, sp->speciesName(k)); };
                auto lg = [&](size_t k) { return std::log(std::max(act[k], 1e-280)); };
                auto lgm = [&](size_t k) { return act[k] > 0 ? lg(k) : std::log(SmallNumber) - std::log(n0 / s[k]); };
                for (int j = 0; j < 6; j++) switch (N(0, 17)) {
                case 0: vq("getPartialMolarEnthalpies", &ThermoPhase::getPartialMolarEnthalpies, [&](size_t k) { return RT * h[k]; }, 1e-9 * RT); break;
                case 1: vq("getPartialMolarEntropies", &ThermoPhase::getPartialMolarEntropies, [&](size_t k) { return GasConstant * (en[k] - lgm(k)); }, 1e-8 * GasConstant); break;
                case 2: vq("getPartialMolarCp", &ThermoPhase::getPartialMolarCp, [&](size_t k) { return GasConstant * cp[k]; }, 1e-9 * GasConstant); break;
                case 3: vq("getPartialMolarVolumes", &ThermoPhase::getPartialMolarVolumes, [&](size_t) { return 0.; }, 0); vq("getStandardVolumes", &ThermoPhase::getStandardVolumes, [&](size_t) { return 0.; }, 0); eq("molarVolume", sp->molarVolume(), 0, 0); break;
                case 4: vq("getStandardChemPotentials", &ThermoPhase::getStandardChemPotentials, [&](size_t k) { return RT * (h[k] - en[k]); }, 1e-9 * RT); break;
                case 5: vq("getChemPotentials", &ThermoPhase::getChemPotentials, [&](size_t k) { return RT * (h[k] - en[k] + lgm(k)); }, 1e-8 * RT); break;
                case 6: vq("getPureGibbs", &ThermoPhase::getPureGibbs, [&](size_t k) { return RT * (h[k] - en[k]); }, 1e-9 * RT); break;
                case 7: vq("getGibbs_RT", &ThermoPhase::getGibbs_RT, [&](size_t k) { return h[k] - en[k]; }, 1e-9); vq("getGibbs_RT_ref", &ThermoPhase::getGibbs_RT_ref, [&](size_t k) { return h[k] - en[k]; }, 1e-9); break;
                case 8: vq("getEnthalpy_RT", &ThermoPhase::getEnthalpy_RT, [&](size_t k) { return h[k]; }, 1e-9); vq("getEnthalpy_RT_ref", &ThermoPhase::getEnthalpy_RT_ref, [&](size_t k) { return h[k]; }, 1e-9); break;
                case 9: vq("getEntropy_R", &ThermoPhase::getEntropy_R, [&](size_t k) { return en[k]; }, 1e-9); vq("getEntropy_R_ref", &ThermoPhase::getEntropy_R_ref, [&](size_t k) { return en[k]; }, 1e-9); break;
                case 10: vq("getCp_R", &ThermoPhase::getCp_R, [&](size_t k) { return cp[k]; }, 1e-9); vq("getCp_R_ref", &ThermoPhase::getCp_R_ref, [&](size_t k) { return cp[k]; }, 1e-9); break;
                case 11: { double v = 0, sc = 0; for (size_t k = 0; k < K; k++) { v += X[k] * RT * h[k]; sc += X[k] * RT * std::fabs(h[k]); } eq("enthalpy_mole", sp->enthalpy_mole(), v, 1e-9, 1e-9 * sc); eq("intEnergy_mole", sp->intEnergy_mole(), v, 1e-9, 1e-9 * sc); break; }
                case 12: { double v = 0, sc = 0; for (size_t k = 0; k < K; k++) if (X[k] > 0) { v += X[k] * GasConstant * (en[k] - lg(k)); sc += X[k] * GasConstant * (std::fabs(en[k]) + std::fabs(lg(k))); } eq("entropy_mole", sp->entropy_mole(), v, 1e-9, 1e-9 * (sc + GasConstant)); break; }
                case 13: { double v = 0, sc = 0; for (size_t k = 0; k < K; k++) { v += X[k] * GasConstant * cp[k]; sc += X[k] * GasConstant * std::fabs(cp[k]); } eq("cp_mole", sp->cp_mole(), v, 1e-9, 1e-9 * sc); eq("cv_mole", sp->cv_mole(), v, 1e-9, 1e-9 * sc); break; }
                case 14: { if (norm && coin(0.2)) { double p = LU(1e3, 1e6); sp->setPressure(p); eq("pressure_stored", sp->pressure(), p, 0); Vd c2(K); sp->getConcentrations(c2.data()); veq("pressure_has_no_effect", c2, C, 1e-12); } break; }
                case 15: { double bad = coin() ? 0 : -LU(1e-9, 1); must_throw("nonpositive_site_density_rejected", [&] { sp->setSiteDensity(bad); }); eq("rejected_site_density_changes_nothing", sp->siteDensity(), n0, 0); break; }
                case 16: { Vd z(K, 0.); must_throw("zero_coverages_rejected", [&] { if (coin()) sp->setCoverages(z.data()); else sp->setCoveragesNoNorm(z.data()); }); must_throw("zero_coverages_rejected", [&] { Composition c; c[sp->speciesName(0)] = -1; sp->setCoveragesByName(c); });
                    Vd c2(K); sp->getCoverages(c2.data()); veq("rejected_coverages_change_nothing", c2, got, 1e-12); break; }
                default: if (!norm) break; { Vd st; sp->saveState(st); Vd z(K, 1.); sp->setCoverages(z.data()); sp->restoreState(st); Vd c2(K); sp->getCoverages(c2.data()); veq("restored_coverages", c2, got, 1e-12, 1e-300); sp->getConcentrations(c2.data()); veq("restored_concentrations", c2, C, 1e-12, 1e-300); }
                }
            });
        }
    }
    return done();
}
