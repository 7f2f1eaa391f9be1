#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SurfPhase.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
struct Snap { double T, D, P; Vd X, Y; Vd q; };
static Snap snap(ThermoPhase& p) {
    Snap s; s.T = p.temperature(); s.D = p.density(); s.P = p.pressure(); size_t K = p.nSpecies(); s.X.resize(K); s.Y.resize(K); p.getMoleFractions(s.X.data()); p.getMassFractions(s.Y.data());
    auto tr = [&](auto f) { double v; try { v = f(); } catch (CanteraError&) { v = NAN; } s.q.push_back(v); };
    tr([&] { return p.enthalpy_mass(); }); tr([&] { return p.entropy_mass(); }); tr([&] { return p.cp_mass(); }); tr([&] { return p.meanMolecularWeight(); }); tr([&] { return p.gibbs_mole(); });
    Vd mu(K); tr([&] { p.getChemPotentials(mu.data()); return 0.; }); for (double m : mu) s.q.push_back(m);
    tr([&] { p.getActivityCoefficients(mu.data()); return 0.; }); for (double m : mu) s.q.push_back(m);
    return s;
}
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    struct M { const char* f; const char* n; double T0, T1, P0, P1; int w; }; M ms[] = {
        {"h2o2.yaml", "ohmech", 250, 3000, 1e2, 1e7, 3}, {"gri30.yaml", "gri30", 250, 3000, 1e2, 1e7, 1}, {"air.yaml", "air", 250, 3000, 1e3, 1e7, 2}, {"ptcombust.yaml", "Pt_surf", 400, 1500, 1e5, 1e5, 2}, {"silicon.yaml", "gas", 400, 2000, 1e3, 1e6, 1},
        {"diamond.yaml", "diamond", 300, 1500, 1e4, 1e6, 1}, {"liquidvapor.yaml", "water", 290, 900, 1e4, 1e7, 1}, {"liquidvapor.yaml", "nitrogen", 70, 900, 1e4, 1e7, 1},
        {"thermo-models.yaml", "NaCl(s)", 300, 900, 1e4, 1e7, 1}, {"thermo-models.yaml", "molten-salt-Margules", 700, 1100, 1e4, 1e7, 1}, {"thermo-models.yaml", "ideal-molal-aqueous", 300, 340, 1e5, 1e6, 1}, {"thermo-models.yaml", "debye-huckel-B-dot-ak", 300, 350, 1e5, 1e6, 1},
        {"thermo-models.yaml", "IdealSolnGas-liquid", 300, 500, 1e5, 1e6, 1}, {"thermo-models.yaml", "Redlich-Kister-LiC6", 300, 500, 1e5, 1e6, 1}, {"thermo-models.yaml", "HMW-NaCl-electrolyte", 300, 350, 1e5, 1e6, 1}, {"thermo-models.yaml", "CO2-RK", 300, 1500, 1e4, 1e7, 1},
        {"thermo-models.yaml", "CO2-PR", 300, 1500, 1e4, 1e7, 1}, {"thermo-models.yaml", "IdealSolidSolnPhase", 500, 1000, 1e5, 1e6, 2}, {"thermo-models.yaml", "Li7Si3-interstitial", 500, 800, 1e5, 1e6, 1}, {"thermo-models.yaml", "Li7Si3_and_interstitials", 500, 800, 1e5, 1e6, 1},
        {"thermo-models.yaml", "Metal", 300, 500, 1e5, 1e6, 1}, {"thermo-models.yaml", "graphite-anode", 290, 400, 1e5, 1e6, 1}, {"thermo-models.yaml", "nitrogen", 90, 900, 1e4, 1e7, 1}, {"thermo-models.yaml", "liquid-water", 290, 360, 1e5, 1e7, 1}, {"oxygen-plasma.yaml", "isotropic-electron-energy-plasma", 290, 2000, 1e2, 1e5, 1}};
    for (auto& mm : ms) {
        shared_ptr<ThermoPhase> tp; try { tp = newThermo(mm.f, mm.n); } catch (CanteraError& e) { continue; }
        auto& p = *tp; size_t K = p.nSpecies(); string nm = mm.n; bool lattice = nm == "Li7Si3_and_interstitials", cubic = nm.find("CO2-") == 0, surf = (bool)std::dynamic_pointer_cast<SurfPhase>(tp), pure = p.isPure(), ideal = p.type() == "ideal-gas";
        auto comp = [&] { Vd x(K); double t = 0; for (auto& v : x) { v = coin(0.3) ? 0 : LU(1e-6, 1); t += v; }
            if (cubic) { x.assign(K, 0); string big = "CO2"; size_t j = p.speciesIndex(big); for (size_t k = 0; k < K; k++) t += x[k] = k == j ? 1 : LU(1e-6, 0.05); t = 0; for (double v : x) t += v; }
            else if (p.nElements() && (p.speciesIndex("H2O(l)") != npos || p.speciesIndex("H2O(L)") != npos) && K > 1) { size_t j = p.speciesIndex("H2O(l)"); if (j == npos) j = p.speciesIndex("H2O(L)"); t = 0; double f = LU(1e-4, 1e-2); for (size_t k = 0; k < K; k++) { x[k] = k == j ? 1 : f * (p.charge(k) == 0 ? 0.01 : 1); t += x[k]; } }
            if (!(t > 0)) { x[0] = t = 1; } for (auto& v : x) v /= t; return x; };
        auto W = p.molecularWeights(); auto toY = [&](Vd x) { double t = 0; for (size_t k = 0; k < K; k++) t += x[k] *= W[k]; for (auto& v : x) v /= t; return x; };
        double T = 0.5 * (mm.T0 + mm.T1), P = mm.P0; Vd X0 = comp();
        auto mutate = [&](const string& tag) { // any setter
            double T2 = nearby(T, U(mm.T0, mm.T1), 0.3), P2 = nearby(P, LU(mm.P0, mm.P1), 0.3); Vd x = lattice ? X0 : comp(); T2 = std::min(std::max(T2, mm.T0), mm.T1);
            switch (N(0, 7)) {
            case 0: p.setState_TP(T2, P2); T = T2; P = P2; break;
            case 1: if (!surf && !lattice) p.setState_TPX(T2, P2, x.data()); else p.setState_TP(T2, P2); T = T2; P = P2; break;
            case 2: if (!lattice) p.setMoleFractions(x.data()); break;
            case 3: if (!lattice) p.setMassFractions(toY(x).data()); break;
            case 4: if (!cubic && !pure) p.setTemperature(T2); break;
            case 5: if (ideal) p.setState_TD(T2, LU(1e-3, 10)); break;
            case 6: if (!lattice && !cubic) p.setMoleFractions_NoNorm(x.data()); break;
            default: if (!pure) p.setPressure(P2);
            }
        };
        for (int it = 0; it < reps(K > 30 ? 300 : 150) * mm.w; it++) {
            ctx() = nm + str(it);
            guard("no_unexpected_exception", [&] {
                bool okset = true; try { mutate("a"); } catch (CanteraError&) { okset = false; } if (!okset) return;
                bool raw = !surf && !p.nativeState().count("X") && !pure && coin(0.2); Vd before(K);
                // save
                size_t ls = p.stateSize(); check("state_size", ls == (pure ? 2 : K + 2)); Vd st(ls + 2, 77.25); Vd sv;
                if (!p.isCompressible() && !lattice && !surf) p.setPressure(p.pressure()); /* the density belongs to the current composition */
                if (raw && !cubic && p.isCompressible()) { Vd y(K); for (auto& v : y) v = coin(0.3) ? 0 : U(-1e-12, 1); y[N(0, K - 1)] = 0.7; p.setMassFractions_NoNorm(y.data()); }
                Snap a = snap(p); if (!(a.D > 0) || !(a.T > 0)) return;
                p.saveState(ls, st.data()); check("no_write_past_the_state", st[ls] == 77.25 && st[ls + 1] == 77.25); p.saveState(sv); check("vector_and_pointer_saves_agree", Vd(st.begin(), st.begin() + ls) == sv);
                eq("saved_temperature", sv[0], a.T, 0); eq("saved_density_or_pressure", sv[1], p.isCompressible() ? a.D : a.P, 0);
                if (!pure && !lattice) { auto nat = p.nativeState(); Vd c(sv.begin() + 2, sv.end()); veq("saved_composition", c, nat.count("X") ? a.X : a.Y, 0); }
                // anything in between
                for (int j = N(0, 3); j > 0; j--) { try { mutate("b"); } catch (CanteraError&) {} if (coin(0.7)) snap(p); }
                int num = p.stateMFNumber();
                // too short: rejected, nothing changed
                if (coin(0.3)) { Snap b = snap(p); size_t sh = N(0, ls - 1); Vd bad(ls, 0.5); must_throw("short_vector_rejected", [&] { if (coin()) p.restoreState(sh, bad.data()); else p.restoreState(Vd(bad.begin(), bad.begin() + sh)); });
                    Snap c = snap(p); check("short_vector_changes_nothing", c.T == b.T && c.D == b.D && c.X == b.X && c.Y == b.Y && close(c.P, b.P, 1e-12), str("length", sh, "of", ls)); }
                if (coin()) p.restoreState(sv); else p.restoreState(ls + N(0, 2), st.data());
                check("marks_composition_changed", p.stateMFNumber() != num);
                Snap r = snap(p); ctx() += str("T", a.T, "P", a.P, "D", a.D);
                eq("restored_temperature", r.T, a.T, 0); if (p.isCompressible()) eq("restored_density", r.D, a.D, 1e-15); else eq("restored_density", r.D, a.D, 1e-10);
                if (pure) eq("restored_pressure", r.P, a.P, 1e-8); else eq("restored_pressure", r.P, a.P, p.isCompressible() ? 1e-9 : 0);
                if (!lattice) { veq("restored_mass_fractions", r.Y, a.Y, 1e-14, 1e-300); veq("restored_mole_fractions", r.X, a.X, 1e-14, 1e-300); } else veq("restored_mole_fractions", r.X, a.X, 1e-12);
                for (size_t i = 0; i < a.q.size(); i++) { double sc = std::fabs(a.q[i]); if (std::isfinite(sc) && std::isfinite(r.q[i])) eq("restored_properties", r.q[i], a.q[i], 1e-8, i < 5 ? 1e-3 : 1e-2, str("property", i)); }
            });
            if (lattice) continue;
            // setters leave exactly the state they were given
            guard("no_unexpected_exception", [&] {
                double T2 = std::min(std::max(nearby(T, U(mm.T0, mm.T1), 0.2), mm.T0), mm.T1), P2 = nearby(P, LU(mm.P0, mm.P1), 0.2), D2 = 0; Vd x = comp(), y = toY(x), gx(K), gy(K); ctx() = nm + str(it, "T", T2, "P", P2);
                Composition cx, cy; string sx, sy; for (size_t k = 0; k < K; k++) if (x[k] > 0) { cx[p.speciesName(k)] = x[k]; cy[p.speciesName(k)] = y[k]; }
                bool viaP = true; int op = N(0, 9); double tol = 1e-8;
                if (surf) { if (op > 1) return; }
                if (op == 0) p.setState_TPX(T2, P2, x.data()); else if (op == 1) p.setState_TPY(T2, P2, y.data()); else if (op == 2) p.setState_TPX(T2, P2, cx); else if (op == 3) p.setState_TPY(T2, P2, cy);
                else if (op == 4) { AnyMap s; s["T"] = T2; s["P"] = P2; s["X"] = cx; p.setState(s); } else if (op == 5) { AnyMap s; s["temperature"] = T2; s["pressure"] = P2; s["mass-fractions"] = cy; p.setState(s); }
                else if (op == 6 && p.isCompressible()) { if (!ideal) return; viaP = false; D2 = LU(1e-3, 10); p.setMoleFractions(x.data()); p.setState_TD(T2, D2); }
                else if (op == 7 && ideal) { viaP = false; D2 = LU(1e-3, 10); AnyMap s; s["T"] = T2; s["D"] = D2; s["Y"] = cy; p.setState(s); }
                else if (op == 8 && ideal) { viaP = false; D2 = LU(1e-3, 10); double mw = 0; for (size_t k = 0; k < K; k++) mw += x[k] * W[k]; P2 = D2 * GasConstant * T2 / mw; p.setMoleFractions(x.data()); p.setState_DP(D2, P2); eq("pressure_set", p.pressure(), P2, tol); }
                else { p.setMoleFractions(x.data()); p.setState_TP(T2, P2); }
                eq("temperature_set", p.temperature(), T2, 1e-13); if (viaP && !surf) eq("pressure_set", p.pressure(), P2, pure || cubic ? 1e-6 : tol); if (!viaP) eq("density_set", p.density(), D2, 1e-13);
                p.getMoleFractions(gx.data()); p.getMassFractions(gy.data()); veq("composition_set", gx, x, 1e-9, 1e-15); veq("composition_set", gy, y, 1e-9, 1e-15);
                T = T2; P = p.pressure(); if (surf) P = mm.P0;
                // a fresh object in the same state agrees (nothing stale)
                if (ideal && coin(0.3)) { Snap a = snap(p); auto f = newThermo(mm.f, mm.n); f->setState_TPX(T2, p.pressure(), x.data()); Snap b = snap(*f); for (size_t i = 0; i < a.q.size(); i++) if (std::isfinite(a.q[i])) eq("same_as_a_fresh_phase", a.q[i], b.q[i], 1e-8, 1e-2); }
                // a rejected update leaves temperature, density and composition
                if (!surf && coin(0.3)) { Snap b = snap(p); double bt = coin() ? T2 : -5., bp = bt < 0 ? P2 : -1e5; if (!pure) { bool t = throws([&] { p.setState_TP(bt, bp); }); Snap c = snap(p); if (t) check("rejected_TP_changes_nothing", c.T == b.T && close(c.D, b.D, 1e-12) && c.X == b.X, str("asked", bt, bp, "now", c.T, c.D)); else check("nonpositive_temperature_rejected", bt > 0, str(bt)); p.setState_TPX(T2, P2, x.data()); } }
                // property pairs (ideal gases): the pair and the composition read back
                if (ideal && coin(0.3)) {
                    double h = p.enthalpy_mass(), s = p.entropy_mass(), u = p.intEnergy_mass(), v = 1 / p.density(), P1 = p.pressure(), T1 = p.temperature(); int o2 = N(0, 3); double R = GasConstant;
                    p.setState_TP(std::min(std::max(T1 + U(-100, 100), 250.), 3000.), P1 * U(0.5, 2)); if (T1 < 300 || T1 > 2900) return;
                    if (o2 == 0) { p.setState_HP(h, P1); eq("HP_read_back", p.pressure(), P1, 1e-8); eq("HP_read_back", p.enthalpy_mass(), h, 1e-6, 1e-2 * p.cp_mass()); }
                    else if (o2 == 1) { p.setState_UV(u, v); eq("UV_read_back", 1 / p.density(), v, 1e-8); eq("UV_read_back", p.intEnergy_mass(), u, 1e-6, 1e-2 * p.cp_mass()); }
                    else if (o2 == 2) { p.setState_SP(s, P1); eq("SP_read_back", p.pressure(), P1, 1e-8); eq("SP_read_back", p.entropy_mass(), s, 1e-6, 1e-5 * p.cp_mass()); }
                    else { p.setState_SV(s, v); eq("SV_read_back", 1 / p.density(), v, 1e-8); eq("SV_read_back", p.entropy_mass(), s, 1e-6, 1e-5 * p.cp_mass()); }
                    p.getMoleFractions(gx.data()); veq("property_pair_keeps_composition", gx, x, 1e-9, 1e-15); T = p.temperature(); P = p.pressure(); (void)R; }
            });
        }
    }
    return done();
}
