#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    struct M { const char* f; const char* n; }; M ms[] = {{"gri30.yaml", "gri30"}, {"h2o2.yaml", "ohmech"}, {"nDodecane_Reitz.yaml", "nDodecane_IG"}, {"ptcombust.yaml", "gas"}, {"ohn.yaml", "gas"}, {"gri30_ion.yaml", "gas"}};
    for (auto& mm : ms) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError& e) { ctx() = e.what(); check("phase_builds", false, string(mm.f) + mm.n); continue; }
        ThermoPhase* p = tp.get(); size_t K = p->nSpecies(); Vd W = p->molecularWeights(); vector<string> names = p->speciesNames();
        auto nel = [&](const char* e) { Vd r(K, 0.); size_t m = p->elementIndex(e); if (m != npos) for (size_t k = 0; k < K; k++) r[k] = p->nAtoms(k, m); return r; };
        Vd nC = nel("C"), nH = nel("H"), nO = nel("O"), nS = nel("S"); Vd qn(K), qp(K);
        for (size_t k = 0; k < K; k++) { qn[k] = (nC[k] + nS[k] + 0.25 * nH[k]) / W[k]; qp[k] = 0.5 * nO[k] / W[k]; }
        vector<size_t> fuels, oxs, any; for (size_t k = 0; k < K; k++) { if (qn[k] > qp[k]) fuels.push_back(k); if (qp[k] > qn[k]) oxs.push_back(k); any.push_back(k); }
        if (fuels.empty() || oxs.empty()) { ctx() = mm.n; check("has_fuel_and_oxidizer", false); continue; }
        auto pick = [&](vector<size_t>& l) { return l[N(0, l.size() - 1)]; };
        for (int it = 0; it < reps(1200); it++) {
            ctx() = string(mm.f) + " it" + str(it);
            guard("no_unexpected_exception", [&] {
                bool molar = coin(); ThermoBasis b = molar ? ThermoBasis::molar : ThermoBasis::mass; double T = U(300, 2500), P = LU(1e3, 1e7);
                Vd f(K, 0.), o(K, 0.), y0(K, 0.); double sc = coin() ? 1 : LU(1e-3, 1e3);
                for (int j = N(1, 3); j > 0; j--) f[pick(fuels)] += U(0.1, 1); if (coin(0.4)) f[pick(any)] += U(0, 0.2); for (int j = N(1, 2); j > 0; j--) o[pick(oxs)] += U(0.1, 1); if (coin(0.5)) o[pick(any)] += U(0, 0.1);
                for (size_t k = 0; k < K; k++) y0[k] = coin(0.6) ? 0 : U(0, 1); y0[N(0, K - 1)] += 0.1; if (coin(0.15)) { y0 = Vd(K, 0.); y0[pick(any)] = 1; }
                Vd fs = f, os = o; for (auto& v : fs) v *= sc; double sc2 = coin() ? 1 : LU(1e-3, 1e3); for (auto& v : os) v *= sc2;
                auto toY = [&](const Vd& x, bool mol) { Vd y = x; double s = 0; for (size_t k = 0; k < K; k++) { if (mol) y[k] *= W[k]; s += y[k]; } for (auto& v : y) v /= s; return y; };
                Vd fy = toY(f, molar), oy = toY(o, molar);
                auto dotv = [&](const Vd& a, const Vd& q) { double s = 0; for (size_t k = 0; k < K; k++) s += a[k] * q[k]; return s; };
                double nf = dotv(fy, qn), pf = dotv(fy, qp), no = dotv(oy, qn), po = dotv(oy, qp), Rf = nf - pf, Ro = no - po;
                p->setState_TPY(T, P, y0.data()); Vd ys(K); p->getMassFractions(ys.data());
                // oxygen needed and held by the mixture and by any composition
                eq("oxygen_needed", p->o2Required(fs.data()), dotv(toY(fs, false), qn), 1e-12, 1e-300); eq("oxygen_held", p->o2Present(os.data()), dotv(toY(os, false), qp), 1e-12, 1e-300);
                double ny = dotv(ys, qn), py = dotv(ys, qp); double er = p->equivalenceRatio(); if (py == 0) check("equivalence_ratio_without_oxygen", std::isinf(er)); else eq("equivalence_ratio_of_the_mixture", er, ny / py, 1e-11, 1e-300);
                bool bad = Rf < 0 || Ro > 0; double edge = 1e-10 * (nf + pf + no + po); if (std::fabs(Rf) < edge || std::fabs(Ro) < edge) return;
                if (bad) { must_throw("mixed_up_rejected_afr", [&] { p->stoichAirFuelRatio(fs.data(), os.data(), b); }); must_throw("mixed_up_rejected_z", [&] { p->mixtureFraction(fs.data(), os.data(), b); }); return; }
                double A = Rf / -Ro; Composition fm, om; for (size_t k = 0; k < K; k++) { if (fs[k]) fm[names[k]] = fs[k]; if (os[k]) om[names[k]] = os[k]; }
                int how = N(0, 1);
                eq("air_fuel_ratio", how ? p->stoichAirFuelRatio(fs.data(), os.data(), b) : p->stoichAirFuelRatio(fm, om, b), A, 1e-10);
                // an arbitrary mixture
                double bal = ny - py - Ro, Z = std::min(std::max(bal / (Rf - Ro), 0.), 1.); double tol = 1e-11 * (nf + pf + no + po + ny + py) / (Rf - Ro);
                double z = how ? p->mixtureFraction(fs.data(), os.data(), b) : p->mixtureFraction(fm, om, b, "Bilger"); check("mixture_fraction_of_any_mixture", std::fabs(z - Z) <= tol + 1e-13, str(z) + " " + str(Z));
                for (const char* e : {"C", "H", "O", "N"}) { if (p->elementIndex(e) == npos) continue; Vd q = nel(e); for (size_t k = 0; k < K; k++) q[k] /= W[k]; double zf = dotv(fy, q), zo = dotv(oy, q), zy = dotv(ys, q);
                    if (std::fabs(zf - zo) < 1e-9 * (zf + zo) || zf == zo) continue; double want = std::min(std::max((zy - zo) / (zf - zo), 0.), 1.), got = how ? p->mixtureFraction(fs.data(), os.data(), b, e) : p->mixtureFraction(fm, om, b, e);
                    check("element_mixture_fraction_of_any_mixture", std::fabs(got - want) <= 1e-11 * (zf + zo + zy) / std::fabs(zf - zo) + 1e-13, string(e) + " " + str(got) + " " + str(want)); }
                // set and read back
                double phi = hint(coin(0.1) ? 0 : coin(0.1) ? 1 : LU(1e-3, 50), 0, 50);
                if (how) p->setEquivalenceRatio(phi, fs.data(), os.data(), b); else p->setEquivalenceRatio(phi, fm, om, b);
                eq("temperature_kept", p->temperature(), T, 1e-12); eq("pressure_kept", p->pressure(), P, 1e-10);
                Vd y1(K), w(K); p->getMassFractions(y1.data()); for (size_t k = 0; k < K; k++) w[k] = (phi * fy[k] + A * oy[k]) / (phi + A); veq("composition_of_the_ratio", y1, w, 1e-9, 1e-14);
                double cond = 1e-11 * (nf + pf + no + po) / (Rf - Ro); double Zp = phi / (phi + A);
                double back = how ? p->equivalenceRatio(fs.data(), os.data(), b) : p->equivalenceRatio(fm, om, b);
                if (1 - Zp > 1e3 * cond) check("ratio_returned_is_ratio_set", std::fabs(back - phi) <= (cond / (1 - Zp) + 1e-9) * (phi + A) * 10 , str(back) + " " + str(phi));
                if (pf == 0 && no == 0 && po > 0) eq("ratio_without_reference", p->equivalenceRatio(), phi, 1e-9, 1e-13);
                double Zs = coin(0.1) ? 0 : coin(0.1) ? 1 : U(0, 1);
                if (how) p->setMixtureFraction(Zs, fs.data(), os.data(), b); else p->setMixtureFraction(Zs, fm, om, b);
                eq("temperature_kept", p->temperature(), T, 1e-12); eq("pressure_kept", p->pressure(), P, 1e-10);
                p->getMassFractions(y1.data()); for (size_t k = 0; k < K; k++) w[k] = Zs * fy[k] + (1 - Zs) * oy[k]; veq("composition_of_the_fraction", y1, w, 1e-11, 1e-14);
                check("fraction_returned_is_fraction_set", std::fabs(p->mixtureFraction(fs.data(), os.data(), b) - Zs) <= cond * 10 + 1e-12, str(Zs));
                if (coin(0.1)) { must_throw("negative_ratio", [&] { p->setEquivalenceRatio(-LU(1e-6, 1), fs.data(), os.data(), b); }); must_throw("negative_fraction", [&] { p->setMixtureFraction(-LU(1e-6, 1), fs.data(), os.data(), b); }); must_throw("large_fraction", [&] { p->setMixtureFraction(1 + LU(1e-6, 1), fs.data(), os.data(), b); }); }
            });
        }
    }
    M ps[] = {{"gri30.yaml", "gri30"}, {"liquidvapor.yaml", "water"}, {"liquidvapor.yaml", "carbon-dioxide"}, {"thermo-models.yaml", "CO2-RK"}, {"thermo-models.yaml", "CO2-PR"}, {"thermo-models.yaml", "debye-huckel-beta_ij"}, {"thermo-models.yaml", "HMW-NaCl-HKFT"},
        {"thermo-models.yaml", "molten-salt-Margules"}, {"thermo-models.yaml", "Li7Si3-interstitial"}, {"thermo-models.yaml", "IdealSolidSolnPhase"}, {"ptcombust.yaml", "Pt_surf"}, {"graphite.yaml", "graphite"}};
    for (auto& mm : ps) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError& e) { ctx() = e.what(); check("phase_builds", false, string(mm.f) + mm.n); continue; }
        ThermoPhase* p = tp.get(); size_t K = p->nSpecies(); Vd W = p->molecularWeights(); Vd X(K); p->getMoleFractions(X.data());
        for (int it = 0; it < reps(60); it++) {
            ctx() = string(mm.f) + ":" + mm.n + " it" + str(it);
            try { double Tn = hint(U(290, 500), 290, 500), Pn = LU(5e4, 5e5); p->setState_TP(Tn, Pn); } catch (CanteraError&) { continue; }
            Vd x(K); p->getMoleFractions(x.data()); double M = 0; for (size_t k = 0; k < K; k++) M += x[k] * W[k]; eq("mean_molecular_weight", p->meanMolecularWeight(), M, 1e-12);
            auto pair = [&](const char* nm, double (ThermoPhase::*mo)() const, double (ThermoPhase::*ma)() const) { double a, b; try { a = (p->*mo)(); } catch (CanteraError&) { return; } b = (p->*ma)(); eq(string(nm).c_str(), b * M, a, 1e-9, 1e-9 * GasConstant); };
            pair("enthalpy_basis", &ThermoPhase::enthalpy_mole, &ThermoPhase::enthalpy_mass); pair("energy_basis", &ThermoPhase::intEnergy_mole, &ThermoPhase::intEnergy_mass); pair("entropy_basis", &ThermoPhase::entropy_mole, &ThermoPhase::entropy_mass);
            pair("gibbs_basis", &ThermoPhase::gibbs_mole, &ThermoPhase::gibbs_mass); pair("cp_basis", &ThermoPhase::cp_mole, &ThermoPhase::cp_mass); pair("cv_basis", &ThermoPhase::cv_mole, &ThermoPhase::cv_mass);
            if (string(mm.n) != "Pt_surf") eq("volume_basis", p->molarVolume(), M / p->density(), 1e-10); eq("density_basis", p->molarDensity() * M, p->density(), 1e-10);
        }
    }
    return done();
}
