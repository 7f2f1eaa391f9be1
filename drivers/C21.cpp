#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/equil/vcs_MultiPhaseEquil.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
struct Lib { const char* f; const char* n; };
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    vector<Lib> lib{{"h2o2.yaml", "ohmech"}, {"graphite.yaml", "graphite"}, {"diamond.yaml", "diamond"}, {"silicon.yaml", "silicon"}, {"argon.yaml", "argon"}, {"thermo-models.yaml", "NaCl(s)"}, {"silicon.yaml", "gas"}, {"ions.yaml", "ions"}, {"gri30_ion.yaml", "gas"}, {"liquid-water.yaml", "liquid-water"},
        {"thermo-models.yaml", "molten-salt-Margules"}, {"water.yaml", "liquid-water"}, {"sofc.yaml", "gas"}, {"sofc.yaml", "metal"}, {"sofc.yaml", "oxide_bulk"}, {"thermo-models.yaml", "IdealSolidSolnPhase"}, {"air.yaml", "air"}, {"thermo-models.yaml", "ideal-molal-aqueous"}};
    vector<shared_ptr<ThermoPhase>> ok_; vector<Lib> okl; for (auto& l : lib) try { ok_.push_back(newThermo(l.f, l.n)); okl.push_back(l); } catch (CanteraError&) {}
    for (int mx = 0; mx < reps(60); mx++) {
        vector<shared_ptr<ThermoPhase>> ph, ref; vector<int> id; int np = N(1, 5);
        for (int i = 0; i < np; i++) { int j; do j = N(0, okl.size() - 1); while (std::count(id.begin(), id.end(), j)); id.push_back(j); if ((int)id.size() == (int)okl.size()) break; ph.push_back(newThermo(okl[j].f, okl[j].n)); ref.push_back(newThermo(okl[j].f, okl[j].n)); ph.back()->setName((coin(0.3) ? "p" : ph.back()->name()) + std::to_string(i)); }
        auto m = std::make_shared<MultiPhase>(); string names; Vd mol; vector<Vd> X; double T = 300, P = OneAtm; bool tset = false;
        double T0 = U(300, 1500), P0 = LU(1e4, 1e6);
        guard("no_unexpected_exception", [&] {
            ctx() = str("building", mx); double tmin = 1, tmax = 100000;
            for (auto& p : ph) { names += p->name() + ","; Vd x(p->nSpecies()); for (auto& v : x) v = coin(0.3) ? 0 : LU(1e-4, 1); x[N(0, x.size() - 1)] = 0.5; double t = 0; for (double v : x) t += v; for (auto& v : x) v /= t; p->setState_TPX(T0, P0, x.data()); X.push_back(x); mol.push_back(coin(0.2) ? 0 : LU(1e-4, 10)); if (p->nSpecies() > 1) { tmin = std::max(tmin, p->minTemp()); tmax = std::min(tmax, p->maxTemp()); } }
            int how = N(0, 2);
            if (how == 0) { for (size_t i = 0; i < ph.size(); i++) if (coin()) m->addPhase(ph[i], mol[i]); else m->addPhase(ph[i].get(), mol[i]); m->init(); }
            else if (how == 1) { vector<ThermoPhase*> v; for (auto& p : ph) v.push_back(p.get()); m->addPhases(v, mol); }
            else { MultiPhase o; for (size_t i = 0; i < ph.size(); i++) o.addPhase(ph[i], mol[i]); m->addPhases(o); m->init(); }
            T = T0; P = ph[0]->pressure(); (void)tset; eq("temperature_of_the_first_phase", m->temperature(), T, 1e-12); eq("pressure_of_the_first_phase", m->pressure(), P, 1e-9); P = m->pressure();
            eq("minTemp", m->minTemp(), tmin, 0); eq("maxTemp", m->maxTemp(), tmax, 0);
            must_throw("no_phase_added_after_init", [&] { m->addPhase(ref[0].get(), 1.0); });
        });
        size_t NP = ph.size(), NS = 0; vector<size_t> start; for (auto& p : ph) { start.push_back(NS); NS += p->nSpecies(); }
        vector<string> el; for (auto& p : ph) for (size_t e = 0; e < p->nElements(); e++) if (!std::count(el.begin(), el.end(), p->elementName(e))) el.push_back(p->elementName(e));
        ctx() = names; check("counts", m->nPhases() == NP && m->nSpecies() == NS && m->nElements() == el.size());
        for (size_t e = 0; e < el.size(); e++) { check("element_names_in_order_of_appearance", m->elementName(e) == el[e] && m->elementIndex(el[e]) == e, el[e]); }
        for (size_t i = 0; i < NP; i++) { check("phase_names", m->phaseName(i) == ph[i]->name() && m->phaseIndex(ph[i]->name()) == (int)i); for (size_t k = 0; k < ph[i]->nSpecies(); k++) { size_t g = start[i] + k;
            check("species_indices", m->speciesIndex(k, i) == g && m->speciesPhaseIndex(g) == i && m->speciesName(g) == ph[i]->speciesName(k) && m->solutionSpecies(g) == (ph[i]->nSpecies() > 1)); guard("species_indices", [&] { check("species_indices", m->speciesIndex(ph[i]->speciesName(k), ph[i]->name()) == g); });
            for (size_t e = 0; e < el.size(); e++) { size_t le = ph[i]->elementIndex(el[e]); eq("atoms", m->nAtoms(g, e), le == npos ? 0 : ph[i]->nAtoms(k, le), 0); } } }
        must_throw("unknown_names_rejected", [&] { m->speciesIndex("nope", m->phaseName(0)); }); must_throw("unknown_names_rejected", [&] { m->speciesIndex(m->speciesName(0), "nope"); }); check("unknown_element", m->elementIndex("Nope") == npos);
        must_throw("index_checks", [&] { m->checkPhaseIndex(NP); }); must_throw("index_checks", [&] { m->checkSpeciesIndex(NS); }); must_throw("index_checks", [&] { m->checkElementIndex(el.size()); }); must_throw("index_checks", [&] { m->checkSpeciesArraySize(NS - 1); }); guard("index_checks", [&] { m->checkPhaseIndex(NP - 1); m->checkSpeciesIndex(NS - 1); m->checkElementIndex(el.size() - 1); m->checkPhaseArraySize(NP); m->checkElementArraySize(el.size()); m->checkSpeciesArraySize(NS); });
        for (int it = 0; it < 12; it++) {
            ctx() = names + str(" step", it);
            guard("no_unexpected_exception", [&] {
                T = nearby(T, hint(U(300, 1500), 300, 1500)); T = std::min(std::max(T, 300.), 1800.); if (coin(0.1)) T = U(220, 300); double P2 = nearby(P, LU(1e4, 1e6)); int what = N(0, 9); bool same = coin(0.4);
                auto newmoles = [&] { Vd n(NS); for (size_t i = 0; i < NP; i++) { bool empty = coin(0.2); for (size_t k = 0; k < ph[i]->nSpecies(); k++) n[start[i] + k] = empty || coin(0.3) ? 0 : LU(1e-5, 5); } return n; };
                auto absorb = [&](const Vd& n) { for (size_t i = 0; i < NP; i++) { double t = 0; for (size_t k = 0; k < ph[i]->nSpecies(); k++) t += n[start[i] + k]; mol[i] = t; if (t > 0) for (size_t k = 0; k < ph[i]->nSpecies(); k++) X[i][k] = n[start[i] + k] / t; } };
                double Told = m->temperature();
                switch (what) {
                case 0: m->setState_TP(T, P2); P = P2; break;
                case 1: { Vd n = newmoles(); m->setState_TPMoles(T, P2, n.data()); P = P2; absorb(n); break; }
                case 2: { Vd n = newmoles(); m->setMoles(n.data()); absorb(n); T = Told; break; }
                case 3: m->setTemperature(T); break;
                case 4: m->setPressure(P2); P = P2; T = Told; break;
                case 5: { size_t i = N(0, NP - 1); Vd x(X[i].size()); double t = 0; for (auto& v : x) { v = coin(0.3) ? 0 : LU(1e-3, 1); } x[N(0, x.size() - 1)] = 0.3; for (double v : x) t += v; double f = coin() ? 1 / t : LU(0.1, 10); Vd y = x; for (auto& v : y) v *= f; m->setPhaseMoleFractions(i, y.data()); for (size_t k = 0; k < x.size(); k++) X[i][k] = x[k] / t; T = Told; break; }
                case 6: { size_t i = N(0, NP - 1); mol[i] = coin(0.2) ? 0 : LU(1e-4, 10); m->setPhaseMoles(i, mol[i]); T = Told; break; }
                case 7: { Vd n(NS); for (size_t g = 0; g < NS; g++) n[g] = m->speciesMoles(g); size_t g = N(0, NS - 1); double d = coin() ? LU(1e-3, 1) : -LU(1e-3, 20); m->addSpeciesMoles(g, d); n[g] = std::max(n[g] + d, 0.); absorb(n); T = Told; break; }
                case 8: { // by name: the first species of that name in every phase gets the amount
                    Composition c; Vd n(NS, 0.); for (size_t g = 0; g < NS; g++) if (coin(0.6)) c[m->speciesName(g)] = coin(0.1) ? -0.5 : LU(1e-4, 3); for (size_t g = 0; g < NS; g++) if (c.count(m->speciesName(g))) n[g] = std::max(c[m->speciesName(g)], 0.); if (coin()) m->setMolesByName(c); else { std::ostringstream o; o.precision(17); bool f = false; Vd n2(NS, 0.); for (auto& [k, v] : c) { if (k.find(' ') != npos) continue; o << (f ? ", " : "") << k << ":" << v; f = true; } bool plain = true; for (auto& [k, v] : c) if (k.find_first_of(" ,:") != npos) plain = false; if (plain && f) m->setMolesByName(o.str()); else m->setMolesByName(c); } absorb(n); T = Told; break; }
                default: { size_t i = N(0, NP - 1); if (ph[i]->nSpecies() < 2) { T = Told; break; } Vd x(X[i].size()); double t = 0; for (auto& v : x) t += v = LU(1e-3, 1); for (auto& v : x) v /= t; Vd other(X[i].size());
                    // compositions changed in the phase objects reach the mixture only through uploadMoleFractionsFromPhases
                    ph[i]->setMoleFractions(x.data()); m->uploadMoleFractionsFromPhases(); X[i] = x; T = Told; for (size_t j = 0; j < NP; j++) if (j != i) ; break; }
                }
                (void)same;
                eq("temperature_set", m->temperature(), T, 0); eq("pressure_set", m->pressure(), P, 0);
                // consistency of the amounts, queried in any order
                auto expect = [&](size_t i) -> ThermoPhase& { ref[i]->setState_TPX(m->temperature(), m->pressure(), X[i].data()); return *ref[i]; };
                auto sum = [&](auto f) { double s = 0; for (size_t i = 0; i < NP; i++) if (mol[i] > 0) s += mol[i] * f(expect(i)); return s; };
                auto asum = [&](auto f) { double s = 0; for (size_t i = 0; i < NP; i++) if (mol[i] > 0) s += std::fabs(mol[i] * f(expect(i))); return s; };
#define EXT(NAME, CALL, F) { auto f = [&](ThermoPhase& p) { return F; }; eq(NAME, m->CALL, sum(f), 1e-7, 1e-7 * asum(f)); }
                for (int j = 0; j < 9; j++) switch (N(0, 15)) {
                case 0: for (size_t i = 0; i < NP; i++) eq("phase_moles", m->phaseMoles(i), mol[i], 1e-12, 1e-15); break;
                case 1: for (size_t i = 0; i < NP; i++) for (size_t k = 0; k < X[i].size(); k++) eq("mole_fractions", m->moleFraction(start[i] + k), X[i][k], 1e-9, 1e-15); break;
                case 2: for (size_t i = 0; i < NP; i++) for (size_t k = 0; k < X[i].size(); k++) eq("species_moles", m->speciesMoles(start[i] + k), mol[i] * X[i][k], 1e-9, 1e-14); break;
                case 3: { Vd n(NS); m->getMoles(n.data()); for (size_t i = 0; i < NP; i++) for (size_t k = 0; k < X[i].size(); k++) eq("getMoles", n[start[i] + k], mol[i] * X[i][k], 1e-9, 1e-14); Vd x(NS); m->getMoleFractions(x.data()); for (size_t g = 0; g < NS; g++) eq("getMoleFractions", x[g], m->moleFraction(g), 0); break; }
                case 4: { Vd e(el.size()); m->getElemAbundances(e.data()); for (size_t q = 0; q < el.size(); q++) { double s = 0, sa = 0; for (size_t i = 0; i < NP; i++) { size_t le = ph[i]->elementIndex(el[q]); if (le != npos) for (size_t k = 0; k < X[i].size(); k++) { double t = mol[i] * X[i][k] * ph[i]->nAtoms(k, le); s += t; sa += std::fabs(t); } } eq("element_abundances", e[q], s, 1e-9, 1e-12 * sa + 1e-14); eq("element_moles", m->elementMoles(q), s, 1e-9, 1e-12 * sa + 1e-14); } break; }
                case 5: { double s = 0, sa = 0; for (size_t i = 0; i < NP; i++) { double z = 0, za = 0; for (size_t k = 0; k < X[i].size(); k++) { z += mol[i] * X[i][k] * ph[i]->charge(k) * Faraday; za += std::fabs(mol[i] * X[i][k] * ph[i]->charge(k) * Faraday); } eq("phase_charge", m->phaseCharge(i), z, 1e-9, 1e-9 * za); s += z; sa += za; } eq("charge", m->charge(), s, 1e-9, 1e-9 * sa); break; }
                case 6: EXT("enthalpy", enthalpy(), p.enthalpy_mole()); break;
                case 7: EXT("entropy", entropy(), p.entropy_mole()); break;
                case 8: EXT("gibbs", gibbs(), p.gibbs_mole()); break;
                case 9: EXT("internal_energy", IntEnergy(), p.intEnergy_mole()); break;
                case 10: EXT("cp", cp(), p.cp_mole()); break;
                case 11: EXT("volume", volume(), 1 / p.molarDensity()); break;
                case 12: { Vd mu(NS, -1), w(NS); m->getChemPotentials(mu.data()); for (size_t i = 0; i < NP; i++) expect(i).getChemPotentials(w.data() + start[i]); for (size_t g = 0; g < NS; g++) eq("chemical_potentials", mu[g], w[g], 1e-7, 1e-3); break; }
                case 13: { bool st = coin(); double nm = U(1, 9) * 1e9; Vd mu(NS, -1), w(NS); m->getValidChemPotentials(nm, mu.data(), st); for (size_t i = 0; i < NP; i++) { auto& p = expect(i); bool in = p.minTemp() <= m->temperature() && m->temperature() <= p.maxTemp(); if (p.nSpecies() == 1 && !in) w[start[i]] = nm; else if (st) p.getStandardChemPotentials(w.data() + start[i]); else p.getChemPotentials(w.data() + start[i]); } for (size_t g = 0; g < NS; g++) eq("valid_chemical_potentials", mu[g], w[g], 1e-7, 1e-3); break; }
                case 14: for (size_t i = 0; i < NP; i++) check("temperature_validity_of_a_phase", m->tempOK(i) == (ph[i]->minTemp() <= m->temperature() && m->temperature() <= ph[i]->maxTemp()), ph[i]->name() + str(m->temperature())); break;
                case 15: { size_t i = N(0, NP - 1); auto& p = m->phase(i); check("phase_access", &p == ph[i].get()); eq("phase_access_temperature", p.temperature(), m->temperature(), 1e-12); if (ph[i]->nSpecies() > 1 || true) eq("phase_access_pressure", p.pressure(), m->pressure(), 1e-7); eq("phase_access_density", p.density(), expect(i).density(), 1e-7); Vd x(X[i].size()); p.getMoleFractions(x.data()); veq("phase_access_composition", x, X[i], 1e-9, 1e-15); break; }
                }
            });
        }
    }
    return done();
}
