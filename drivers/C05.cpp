#include "rkin.h"
static Md dense(const Eigen::SparseMatrix<double>& m) { Md d(m.rows(), Vd(m.cols(), 0)); for (int c = 0; c < m.outerSize(); c++) for (Eigen::SparseMatrix<double>::InnerIterator i(m, c); i; ++i) d[i.row()][i.col()] += i.value(); return d; }
static void rates(Kinetics& kin, const Md& nr, const Md& np, const Md& nrev, vector<Vd> comp, double rt) {
    size_t K = kin.nTotalSpecies(), R = kin.nReactions(); Vd f(R + 1, 7.5), b(R + 1, 7.5), t(R + 1, 7.5), c(K + 1, 7.5), d(K + 1, 7.5), w(K + 1, 7.5), c2(K), d2(K), w2(K), cs(K), ds(K), ws(K);
    kin.getNetRatesOfProgress(t.data()); for (size_t r = 0; r < R; r++) if (!std::isfinite(t[r])) return;
    // in arbitrary order
    int o = N(0, 2); if (o == 0) { kin.getCreationRates(c.data()); kin.getDestructionRates(d.data()); kin.getNetProductionRates(w.data()); } kin.getNetRatesOfProgress(t.data()); kin.getFwdRatesOfProgress(f.data()); kin.getRevRatesOfProgress(b.data()); if (o) { kin.getNetProductionRates(w.data()); kin.getDestructionRates(d.data()); kin.getCreationRates(c.data()); }
    check("no_write_past_the_end", f[R] == 7.5 && b[R] == 7.5 && t[R] == 7.5 && c[K] == 7.5 && d[K] == 7.5 && w[K] == 7.5);
    for (size_t r = 0; r < R; r++) eq("net_progress", t[r], f[r] - b[r], rt, rt * (std::fabs(f[r]) + std::fabs(b[r])));
    for (size_t k = 0; k < K; k++) { double a = 0; for (size_t r = 0; r < R; r++) { c2[k] += np[k][r] * f[r] + nr[k][r] * b[r]; d2[k] += nr[k][r] * f[r] + nrev[k][r] * b[r]; w2[k] += (np[k][r] - nr[k][r]) * t[r]; a += (np[k][r] + nr[k][r]) * (std::fabs(f[r]) + std::fabs(b[r])); }
        double at = 1e-13 * a + 1e-300; eq("creation", c[k], c2[k], rt, at, "species " + kin.kineticsSpeciesName(k)); eq("destruction", d[k], d2[k], rt, at, "species " + kin.kineticsSpeciesName(k)); eq("net_production", w[k], w2[k], rt, 100 * at, "species " + kin.kineticsSpeciesName(k)); eq("net_is_creation_minus_destruction", w[k], c[k] - d[k], rt, 100 * at, "species " + kin.kineticsSpeciesName(k)); }
    for (auto& a : comp) { double s = 0, m = 0; for (size_t k = 0; k < K; k++) { s += a[k] * w[k]; m += std::fabs(a[k]) * (std::fabs(c[k]) + std::fabs(d[k])); } check("elements_and_charge_conserved", std::fabs(s) <= 1e-9 * m + 1e-280, str("imbalance", s, "scale", m)); }
    Vd pr(K), dl(R + 1, 7.5), dv(R + 1, 7.5); for (auto& x : pr) x = U(-1, 1); kin.getReactionDelta(pr.data(), dl.data()); kin.getRevReactionDelta(pr.data(), dv.data()); check("no_write_past_the_end", dl[R] == 7.5 && dv[R] == 7.5);
    for (size_t r = 0; r < R; r++) { double e = 0, g = 0; for (size_t k = 0; k < K; k++) { e += (np[k][r] - nr[k][r]) * pr[k]; g += (nrev[k][r] - nr[k][r]) * pr[k]; } eq("reaction_delta", dl[r], e, 1e-11, 1e-11); bool rev = false; for (size_t k = 0; k < K; k++) rev |= nrev[k][r] != 0; if (rev) eq("reversible_delta", dv[r], g, 1e-11, 1e-11); }
}
static void deltas(Kinetics& kin, const Md& nr, const Md& np, bool bulk) {
    size_t K = kin.nTotalSpecies(), R = kin.nReactions(); Vd mu(K), h(K), s(K), m0(K), h0(K), s0(K), o(R), b(K);
    for (size_t n = 0; n < kin.nPhases(); n++) { auto& p = kin.thermo(n); size_t i = kin.kineticsSpeciesIndex(0, n); double RT = p.RT(); p.getChemPotentials(&mu[i]); p.getPartialMolarEnthalpies(&h[i]); p.getPartialMolarEntropies(&s[i]); p.getStandardChemPotentials(&m0[i]); p.getEnthalpy_RT(&h0[i]); p.getEntropy_R(&s0[i]); for (size_t k = 0; k < p.nSpecies(); k++) { h0[i + k] *= RT; s0[i + k] *= GasConstant; } }
    auto D = [&](const char* c, const Vd& v, double sc) { for (size_t r = 0; r < R; r++) { double e = 0, a = 0; for (size_t k = 0; k < K; k++) { e += (np[k][r] - nr[k][r]) * v[k]; a += (np[k][r] + nr[k][r]) * std::fabs(v[k]); } eq(c, o[r], e, 1e-9, 1e-12 * a + 1e-12 * sc, "reaction " + kin.reaction(r)->equation()); } };
    kin.getDeltaGibbs(o.data()); D("delta_gibbs", mu, 1e6); kin.getDeltaEnthalpy(o.data()); D("delta_enthalpy", h, 1e6); kin.getDeltaEntropy(o.data()); D("delta_entropy", s, 1e3);
    kin.getDeltaSSGibbs(o.data()); D("delta_ss_gibbs", m0, 1e6); kin.getDeltaSSEnthalpy(o.data()); D("delta_ss_enthalpy", h0, 1e6); kin.getDeltaSSEntropy(o.data()); D("delta_ss_entropy", s0, 1e3);
}
int main() {
    suppress_warnings(); suppress_thermo_warnings(); string repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo"; addDirectory(repo + "/test/data");
    for (int it = 0; it < reps(250); it++) {
        ctx() = str("network", it);
        guard("random_network", [&] {
            Net n = rnet(N(2, 9), N(1, 14)); size_t K = n.K, R = n.rx.size(); auto& kin = *n.kin; Md nr(K, Vd(R, 0)), np = nr, nv = nr;
            check("all_reactions_added", kin.nReactions() == R);
            for (size_t r = 0; r < R; r++) { for (auto& [s, v] : n.rx[r].nr) nr[n.gas->speciesIndex(s)][r] += v; for (auto& [s, v] : n.rx[r].np) { np[n.gas->speciesIndex(s)][r] += v; if (n.rx[r].rev) nv[n.gas->speciesIndex(s)][r] += v; } }
            string all; for (auto& x : n.rx) all += desc(x) + "; "; ctx() = str("network", it) + all.substr(0, 500);
            Md a = dense(kin.reactantStoichCoeffs()), b = dense(kin.productStoichCoeffs()), c = dense(kin.revProductStoichCoeffs());
            for (size_t k = 0; k < K; k++) { veq("reactant_coefficients", a[k], nr[k], 1e-14); veq("product_coefficients", b[k], np[k], 1e-14); veq("reversible_product_coefficients", c[k], nv[k], 1e-14); for (size_t r = 0; r < R; r++) { eq("reactantStoichCoeff", kin.reactantStoichCoeff(k, r), nr[k][r], 1e-14); eq("productStoichCoeff", kin.productStoichCoeff(k, r), np[k][r], 1e-14); } }
            double T = 500, P = OneAtm; Vd X(K, 1. / K);
            for (int q = 0; q < 6; q++) { rstate(n, T, P, X); if (coin(0.3)) kin.setMultiplier(N(0, R - 1), coin(0.3) ? 0 : U(0, 3)); rates(kin, nr, np, nv, {Vd(n.at.begin(), n.at.end())}, 1e-10); deltas(kin, nr, np, true); }
        });
    }
    struct M { const char* f; const char* n; }; M ms[] = {{"h2o2.yaml", "ohmech"}, {"gri30.yaml", "gri30"}, {"gri30_ion.yaml", "gas"}, {"ptcombust.yaml", "Pt_surf"}, {"methane_pox_on_pt.yaml", "Pt_surf"}, {"diamond.yaml", "diamond_100"}, {"sofc.yaml", "tpb"}, {"sofc.yaml", "metal_surface"}, {"sofc.yaml", "oxide_surface"}, {"lithium_ion_battery.yaml", "edge_anode_electrolyte"}, {"silicon.yaml", ""}, {"reaction-orders.yaml", ""}, {"frac.yaml", ""}, {"nonreactant-order.yaml", ""}, {"surface-phases.yaml", "anode-surface"}, {"oxygen-plasma.yaml", ""}, {"kineticsfromscratch.yaml", ""}, {"pdep-test.yaml", ""}, {"jacobian-tests.yaml", ""}};
    int used = 0;
    for (auto& mm : ms) {
        ctx() = string(mm.f) + " " + mm.n; shared_ptr<Solution> s; try { try { s = newSolution(mm.f, mm.n); } catch (CanteraError&) { s = newInterface(mm.f, mm.n); } } catch (CanteraError& e) { if (getenv("VD_VERBOSE")) printf("skip %s %s\n", mm.f, e.what()); continue; }
        if (!s->kinetics() || !s->kinetics()->nReactions()) continue; auto& kin = *s->kinetics(); used++; size_t K = kin.nTotalSpecies(), R = kin.nReactions(); bool bulk = kin.nPhases() == 1 && !dynamic_cast<InterfaceKinetics*>(&kin);
        Md nr(K, Vd(R, 0)), np = nr, nv = nr; vector<Vd> comp;
        guard("shipped", [&] {
            for (size_t r = 0; r < R; r++) { auto x = kin.reaction(r); for (auto& [q, v] : x->reactants) nr[kin.kineticsSpeciesIndex(q)][r] += v; for (auto& [q, v] : x->products) { np[kin.kineticsSpeciesIndex(q)][r] += v; if (x->reversible) nv[kin.kineticsSpeciesIndex(q)][r] += v; } }
            std::map<string, Vd> el; for (size_t n = 0; n < kin.nPhases(); n++) { auto& p = kin.thermo(n); size_t i = kin.kineticsSpeciesIndex(0, n); for (size_t m = 0; m < p.nElements(); m++) for (size_t k = 0; k < p.nSpecies(); k++) { auto& v = el[p.elementName(m)]; v.resize(K, 0); v[i + k] = p.nAtoms(k, m); } for (size_t k = 0; k < p.nSpecies(); k++) { auto& v = el["#charge"]; v.resize(K, 0); v[i + k] = p.charge(k); } }
            for (auto& [q, v] : el) if (q != "E") comp.push_back(v);
            Md a = dense(kin.reactantStoichCoeffs()), b = dense(kin.productStoichCoeffs()), c = dense(kin.revProductStoichCoeffs()); for (size_t k = 0; k < K; k++) { veq("reactant_coefficients", a[k], nr[k], 1e-12); veq("product_coefficients", b[k], np[k], 1e-12); veq("reversible_product_coefficients", c[k], nv[k], 1e-12); }
            for (int q = 0; q < reps(R > 100 ? 6 : 20); q++) {
                double T = U(600, 1800); if (kin.nPhases() > 1 || T > 0) for (size_t n = 0; n < kin.nPhases(); n++) { auto& p = kin.thermo(n); Vd x(p.nSpecies()); for (auto& z : x) z = coin(0.1) ? 0 : LU(1e-6, 1); x[N(0, x.size() - 1)] += 1e-3; if (string(mm.f).find("lith") != string::npos) T = U(290, 320); try { p.setState_TP(T, p.isCompressible() ? LU(1e3, 1e6) : OneAtm); } catch (CanteraError&) { p.setTemperature(T); } if (string(mm.f).find("lith") == string::npos && (bulk || dynamic_cast<SurfPhase*>(&p) || dynamic_cast<IdealGasPhase*>(&p))) p.setMoleFractions(x.data()); }
                rates(kin, nr, np, nv, comp, 1e-9); try { deltas(kin, nr, np, bulk); } catch (NotImplementedError&) {}
            }
        });
    }
    ctx() = ""; check("shipped_mechanisms_loaded", used >= 10, str(used));
    return done();
}
