#include "vd.h"
#include "cantera/zerodim.h"
#include "cantera/thermo.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/kinetics.h"
#include "cantera/base/Solution.h"
#include "cantera/base/Interface.h"
#include "cantera/base/AnyMap.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string;
typedef vector<double> Vd;
static const char* RT[] = {"Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"};
static std::shared_ptr<Solution> gas(const char* f = "h2o2.yaml") { auto s = newSolution(f, "", "none"); auto th = s->thermo(); Vd X(th->nSpecies()); for (auto& x : X) x = coin(0.3) ? 0 : U(); X[N(0, X.size() - 1)] += 0.1;
    th->setMoleFractions(X.data()); th->setState_TP(U(500, 2500), LU(1e4, 1e6)); return s; }
static string surfYaml(int sz, bool second) { return string(R"(
phases:
- name: surf
  thermo: ideal-surface
  elements: [Pt, H, O]
  species: [V, HS, OS, O2S]
  kinetics: surface
  reactions: [rx]
  site-density: )") + (second ? "4.1e-08" : "2.7e-08") + R"( kmol/m^2
species:
- {name: V, composition: {Pt: 1}, thermo: {model: constant-cp, h0: 0.0, s0: 0.0, cp0: 0.0}}
- {name: HS, composition: {Pt: 1, H: 1}, thermo: {model: constant-cp, h0: -30e6, s0: 20e3, cp0: 10e3}}
- {name: OS, composition: {Pt: 1, O: 1}, thermo: {model: constant-cp, h0: -100e6, s0: 30e3, cp0: 12e3}}
- {name: O2S, composition: {Pt: )" + std::to_string(sz) + R"(, O: 2}, sites: )" + std::to_string(sz) + R"(, thermo: {model: constant-cp, h0: -60e6, s0: 25e3, cp0: 11e3}}
rx:
- {equation: H2 + 2 V <=> 2 HS, rate-constant: {A: 3e11, b: 0, Ea: 10e6}}
- {equation: O2 + )" + std::to_string(sz) + R"( V <=> O2S, rate-constant: {A: )" + (sz == 1 ? "2e2" : sz == 2 ? "1e10" : "1e18") + R"(, b: 0, Ea: 5e6}}
- {equation: O2S)" + (sz == 1 ? " + V <=> 2 OS" : sz == 2 ? " => 2 OS" : " => 2 OS + V") + R"(, rate-constant: {A: )" + (sz == 1 ? "1e12" : "1e4") + R"(, b: 0, Ea: 20e6}}
- {equation: OS + H2 => H2O + V, rate-constant: {A: 1e3, b: 0, Ea: 8e6}}
)"; }
struct Flow { std::shared_ptr<FlowDevice> d; std::shared_ptr<Solution> up; double mdot; };
int main() {
    suppress_warnings(); suppress_deprecation_warnings();
    for (int it = 0; it < reps(500); it++) {
        int ty = N(0, 7); bool mole = ty >= 4, cp = (ty % 4) >= 2, ideal = ty % 2; ctx() = RT[ty];
        guard("reactor", [&] {
            auto g = gas(coin(0.85) ? "h2o2.yaml" : "gri30.yaml"); auto rb = newReactor(RT[ty], g); auto r = std::dynamic_pointer_cast<Reactor>(rb); double V0 = LU(1e-3, 10); r->setInitialVolume(V0);
            vector<Flow> in, out; vector<std::shared_ptr<ReactorBase>> keep; vector<std::shared_ptr<WallBase>> walls; vector<std::pair<std::shared_ptr<ReactorSurface>, std::shared_ptr<Interface>>> sf; string d;
            int ni = N(0, 3), no = N(0, 2), nw = N(0, 3), ns = N(0, 2); if (coin(0.3)) ns = 0;
            for (int i = 0; i < ni; i++) { auto u = gas(coin(0.7) ? "h2o2.yaml" : "gri30.yaml"); auto res = newReactor("Reservoir", u); keep.push_back(res); auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", res, rb)); double md = coin(0.2) ? 0 : LU(1e-3, 10); m->setMassFlowRate(md); in.push_back({m, u, md}); }
            for (int i = 0; i < no; i++) { auto res = newReactor("Reservoir", gas()); keep.push_back(res); auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", rb, res)); double md = LU(1e-3, 10); m->setMassFlowRate(md); out.push_back({m, nullptr, md}); }
            for (int i = 0; i < nw; i++) { auto res = newReactor("Reservoir", gas()); keep.push_back(res); bool left = coin(); auto w = std::dynamic_pointer_cast<Wall>(newWall("Wall", left ? rb : res, left ? res : rb)); w->setArea(LU(0.1, 5)); w->setHeatTransferCoeff(LU(1, 1e3)); if (coin(0.7)) w->setExpansionRateCoeff(LU(1e-8, 1e-6)); walls.push_back(w); }
            for (int i = 0; i < ns; i++) { AnyMap y = AnyMap::fromYamlString(surfYaml(N(1, 3), coin())); auto& ph = y["phases"].asVector<AnyMap>()[0]; auto s = newInterface(ph, y, {g}); auto rs = std::make_shared<ReactorSurface>(); rs->setKinetics(s->kinetics().get()); rs->setArea(LU(0.01, 100)); r->addSurface(rs.get()); sf.push_back({rs, s}); }
            d = str("in", ni, "out", no, "walls", nw, "surf", ns);
            ReactorNet net; net.addReactor(*r); bool chem = coin(0.8), en = coin(0.8); r->setChemistry(chem); r->setEnergy(en); net.initialize();
            auto th = g->thermo(); size_t K = th->nSpecies(); auto fr = newSolution(K > 20 ? "gri30.yaml" : "h2o2.yaml", "", "none"); Vd W(th->molecularWeights());
            for (int q = 0; q < 5; q++) {
                size_t nv = r->neq(); Vd y(nv), L(nv, 1.0), R(nv, 0.0); size_t off = mole ? (cp ? 1 : 2) : (cp ? 2 : 3);
                if (q) switch (N(0, 4)) { case 0: chem = coin(); r->setChemistry(chem); break; case 1: en = coin(); r->setEnergy(en); break;
                    case 2: { Vd X(K); for (auto& x : X) x = coin(0.3) ? 0 : U(); X[0] += 0.1; th->setMoleFractions(X.data()); th->setState_TP(U(500, 2500), LU(1e4, 1e6)); r->syncState(); net.reinitialize(); break; }
                    case 3: { if (in.size()) { auto& f = in[N(0, in.size() - 1)]; f.mdot = LU(1e-3, 10); std::dynamic_pointer_cast<MassFlowController>(f.d)->setMassFlowRate(f.mdot); } break; }
                    case 4: for (auto& s : sf) { Vd c(s.second->thermo()->nSpecies()); double t = 0; for (auto& x : c) t += (x = U()); for (auto& x : c) x /= t; s.first->setCoverages(c.data()); } break; }
                for (auto& s : sf) if (q == 0) { Vd c(4); double t = 0; for (auto& x : c) t += (x = U()); for (auto& x : c) x /= t; s.first->setCoverages(c.data()); }
                r->getState(y.data()); r->updateState(y.data()); r->eval(net.time(), L.data(), R.data());
                // independent evaluation at the same state, with objects of our own
                th->restoreState(r->m_state); auto ft = fr->thermo(); Vd st; ft->setMassFractions_NoNorm(th->massFractions()); ft->setState_TD(th->temperature(), th->density()); double T = ft->temperature(), P = ft->pressure(), V = r->volume(), M = r->mass(), h = ft->enthalpy_mass();
                eq("mass_of_contents", M, ft->density() * V, 1e-9); ctx() = str(RT[ty], d, "chem", chem, "energy", en, "step", q, "T", T, "P", P);
                Vd w(K), sd(K, 0.0), dN(K), sc(K), u(K), hk(K); fr->kinetics()->getNetProductionRates(w.data()); Vd cr(K), de(K); fr->kinetics()->getCreationRates(cr.data()); fr->kinetics()->getDestructionRates(de.data()); ft->getPartialMolarIntEnergies(u.data()); ft->getPartialMolarEnthalpies(hk.data()); Vd Y(ft->massFractions(), ft->massFractions() + K);
                size_t loc = off + K; 
                for (auto& s : sf) { auto sp = std::dynamic_pointer_cast<SurfPhase>(s.second->thermo()); auto kn = s.second->kinetics(); size_t nk = sp->nSpecies(); Vd cv(nk); s.first->getCoverages(cv.data()); sp->setTemperature(T); sp->setCoveragesNoNorm(cv.data()); Vd pr(kn->nTotalSpecies()); kn->getNetProductionRates(pr.data()); Vd c2(kn->nTotalSpecies()), d2(kn->nTotalSpecies()); kn->getCreationRates(c2.data()); kn->getDestructionRates(d2.data()); double A = s.first->area(), n0 = sp->siteDensity(), t = 0, mx = 0;
                    for (size_t k = 0; k < nk; k++) mx = std::max(mx, (c2[k] + d2[k]) * sp->size(k));
                    for (size_t k = 0; k < nk; k++) { double got = R[loc + k], want = mole ? pr[k] * A : pr[k] * sp->size(k) / n0; t += mole ? got * sp->size(k) : got; eq(mole ? "surface_species_moles" : "surface_coverages", got, want, 1e-8, 1e-9 * (mole ? mx * A : mx / n0)); }
                    eq("sites_conserved", t, 0, 1e-8, 1e-8 * (mole ? mx * A : mx / n0) + 1e-300); loc += nk;
                    size_t b = kn->kineticsSpeciesIndex(th->speciesName(0)); for (size_t k = 0; k < K; k++) { sd[k] += A * pr[b + k]; sc[k] += A * (c2[b + k] + d2[b + k]); } }
                for (size_t k = 0; k < K; k++) { dN[k] = (chem ? V * w[k] : 0) + sd[k]; sc[k] += chem ? V * (cr[k] + de[k]) : 0; }
                double dm = 0, E = 0, Esc = 1e-6; for (size_t k = 0; k < K; k++) dm += sd[k] * W[k];
                for (auto& f : in) { auto up = f.up->thermo(); dm += f.mdot; E += f.mdot * up->enthalpy_mass(); Esc += f.mdot * (std::fabs(up->enthalpy_mass()) + 1e6); for (size_t k = 0; k < K; k++) { size_t j = up->speciesIndex(th->speciesName(k)); double x = j == npos ? 0 : f.mdot * up->massFraction(j) / W[k]; dN[k] += x; sc[k] += x; } }
                for (auto& f : out) { dm -= f.mdot; E -= f.mdot * h; Esc += f.mdot * (std::fabs(h) + 1e6); for (size_t k = 0; k < K; k++) { dN[k] -= f.mdot * Y[k] / W[k]; sc[k] += f.mdot * Y[k] / W[k]; } }
                double vd = 0, Q = 0; for (auto& wl : walls) { bool left = &wl->left() == rb.get(); vd += (left ? 1 : -1) * wl->expansionRate(); Q -= (left ? 1 : -1) * wl->heatRate(); Esc += std::fabs(wl->heatRate()) + P * std::fabs(wl->expansionRate()); }
                E += Q; if (!cp) E -= P * vd;
                double tot = 0; for (size_t k = 0; k < K; k++) tot += sc[k] * W[k];
                if (!cp) { eq("volume", R[1], vd, 1e-9, 1e-14); check("unit_left_hand_side", L[1] == 1); }
                if (!mole) { eq("total_mass", R[0], dm, 1e-9, 1e-11 * tot); check("unit_left_hand_side", L[0] == 1); }
                for (size_t k = 0; k < K; k++) { if (mole) eq("species_moles", R[off + k] / L[off + k], dN[k], 1e-8, 1e-10 * sc[k] + 1e-20); else { eq("species_mass", R[off + k] * M / L[off + k] + Y[k] * R[0], W[k] * dN[k], 1e-8, 1e-10 * sc[k] * W[k] + 1e-11 * Y[k] * (std::fabs(dm) + tot) + 1e-18); } }
                size_t ei = mole ? 0 : cp ? 1 : 2;
                if (!en) check("energy_variable_fixed_when_energy_is_off", R[ei] == 0);
                else if (!ideal) { eq("energy", R[ei] / L[ei], E, 1e-8, 1e-9 * Esc); }
                else { double cap = M * (cp ? ft->cp_mass() : ft->cv_mass()), S = 0; const Vd& e = cp ? hk : u; for (size_t k = 0; k < K; k++) { S += e[k] * dN[k]; Esc += std::fabs(e[k]) * sc[k]; } eq("heat_capacity_on_the_left", L[ei], cap, 1e-9); eq("energy", R[ei] + S, E, 1e-8, 1e-10 * Esc + 1e-9 * std::fabs(E)); }
                // the state vector determines the state, whatever the thermo object holds
                Vd y2(nv); if (coin(0.5)) { th->setState_TP(U(500, 2500), LU(1e4, 1e6)); } r->updateState(y.data()); Vd L2(nv, 1.0), R2(nv, 0.0); r->eval(net.time(), L2.data(), R2.data()); th->restoreState(r->m_state); ctx() += en ? "" : " (energy off)"; eq("temperature_after_updateState", th->temperature(), T, 1e-6); eq("pressure_after_updateState", th->pressure(), P, 1e-6);
                r->getState(y2.data()); for (size_t k = 0; k < nv; k++) eq("state_vector_round_trip", y2[k], y[k], 1e-6, 1e-12 * (k == ei ? M * 1e6 : 1) + 1e-14);
            }
        });
    }
    return done();
}
