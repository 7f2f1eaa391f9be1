#include "rkin.h"
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    for (int it = 0; it < reps(400); it++) {
        ctx() = str("network", it);
        guard("random_network", [&] {
            Net n = rnet(N(2, 8), N(1, 12)); size_t K = n.K, R = n.rx.size(); auto& kin = *n.kin; auto& g = *n.gas; string all; for (auto& x : n.rx) all += desc(x) + "; "; all = all.substr(0, 300);
            for (size_t r = 0; r < R; r++) check("isReversible", kin.isReversible(r) == n.rx[r].rev);
            double T = 500, P = OneAtm; Vd X(K, 1. / K), mult(R, 1.); rstate(n, T, P, X);
            for (int q = 0; q < 12; q++) {
                // change one part of the state only
                int op = N(0, 8); string what; Vd y(K); g.getMassFractions(y.data());
                if (op == 0) { g.setTemperature(nearby(g.temperature(), U(300, 2500))); what = "temperature"; }
                else if (op == 1) { g.setDensity(nearby(g.density(), LU(1e-3, 50))); what = "density"; }
                else if (op == 2) { std::shuffle(y.begin(), y.end(), rng()); g.setMassFractions(y.data()); what = "mass fractions"; }
                else if (op == 3) { Vd x(K); for (auto& v : x) v = coin(0.1) ? 0 : LU(1e-3, 1); x[0] += 1e-3; g.setMoleFractions(x.data()); what = "mole fractions"; }
                else if (op == 4) { Vd x(K); for (auto& v : x) v = coin(0.1) ? 0 : LU(1e-3, 1); x[0] += 1e-3; g.setConcentrations(x.data()); what = "concentrations"; }
                else if (op == 5) { size_t r = N(0, R - 1); mult[r] = coin(0.2) ? 0 : U(0, 3); kin.setMultiplier(r, mult[r]); what = "multiplier"; }
                else if (op == 6) { g.setPressure(nearby(g.pressure(), LU(1e3, 1e7))); what = "pressure"; }
                else if (op == 7) { size_t r = N(0, R - 1); auto& x = n.rx[r]; if (!x.fall) { double A = LU(1e-2, 1e6), b = U(-1, 2), E = U(0, 5e7); auto nr = std::make_shared<Reaction>(x.nr, x.np, std::make_shared<ArrheniusRate>(A, b, E), x.r->thirdBody() && x.r->thirdBody()->name() == "M" ? x.r->thirdBody() : nullptr); nr->reversible = x.rev; nr->orders = x.ord; nr->allow_nonreactant_orders = true; bool ok = true; try { kin.modifyReaction(r, nr); } catch (CanteraError& e) { ok = false; } if (ok) { x.A = A; x.b = b; x.E = E; } what = "rate"; } }
                else { rstate(n, T, P, X); what = "state"; }
                T = g.temperature(); P = g.pressure(); g.getMoleFractions(X.data());
                ctx() = str("network", it, "step", q, "changed", what, "T", T, "P", P, "X", vec(X)) + all;
                Vd c(K), mu0(K); g.getConcentrations(c.data()); g.getStandardChemPotentials(mu0.data()); double c0 = g.standardConcentration(), RT = GasConstant * T, ct = g.molarDensity();
                Vd kf(R), kc(R), rf(R), rr(R), M(R, 1.), dG(R), big(R); Vd mu(K); g.getChemPotentials(mu.data()); Vd aff(R); bool cancel = false;
                for (size_t r = 0; r < R; r++) {
                    auto& x = n.rx[r]; double m = 0; for (size_t k = 0; k < x.eff.size(); k++) { m += x.eff[k] * c[k]; if (x.eff[k] > 0 && c[k] == 0) cancel |= x.fall || x.third; }
                    double hi = x.A * std::pow(T, x.b) * std::exp(-x.E / RT), lo = x.A0 * std::pow(T, x.b0) * std::exp(-x.E0 / RT); kf[r] = hi; if (x.fall) { double pr = lo * m / (hi + 1e-300); kf[r] = x.chem ? lo / (1 + pr) : hi * pr / (1 + pr); } kf[r] *= mult[r];
                    double f = kf[r] * (x.third ? m : 1), b = f, dg = 0, dn = 0; M[r] = m;
                    for (auto& [s, v] : x.nr) { size_t k = g.speciesIndex(s); double o = x.ord.count(s) ? x.ord.at(s) : v; if (o) f *= std::pow(c[k], o); dg -= v * mu0[k]; dn -= v; aff[r] -= v * mu[k]; } for (auto& [s, o] : x.ord) if (!x.nr.count(s) && o) f *= std::pow(c[g.speciesIndex(s)], o);
                    for (auto& [s, v] : x.np) { size_t k = g.speciesIndex(s); dg += v * mu0[k]; dn += v; b *= std::pow(c[k], v); aff[r] += v * mu[k]; }
                    kc[r] = std::exp(-dg / RT + dn * std::log(c0)); rf[r] = f; rr[r] = x.rev ? b * std::min(1 / kc[r], BigNumber) : 0; big[r] = 1 / kc[r] >= BigNumber; dG[r] = dg / RT; }
                if (cancel) continue; // a listed collider is absent: the factor may be a rounding residue
                auto tol = [&](size_t r) { return 1e-9 + 1e-13 * std::fabs(dG[r]); };
                for (int z = 0, e = N(1, 5); z < e; z++) { Vd o(R + 1, 7.5); bool irr = coin(); switch (N(0, 5)) {
                    case 0: kin.getFwdRateConstants(o.data()); for (size_t r = 0; r < R; r++) eq("forward_rate_constants", o[r], kf[r], 1e-9, 1e-300, desc(n.rx[r])); break;
                    case 1: kin.getEquilibriumConstants(o.data()); for (size_t r = 0; r < R; r++) eq("equilibrium_constants_of_current_temperature", o[r], kc[r], tol(r), 1e-300, desc(n.rx[r])); break;
                    case 2: kin.getRevRateConstants(o.data(), irr); for (size_t r = 0; r < R; r++) if (!big[r]) eq("reverse_rate_constants", o[r], n.rx[r].rev || irr ? kf[r] / kc[r] : 0, tol(r), 1e-300, desc(n.rx[r]) + (irr ? " all" : "")); break;
                    case 3: kin.getFwdRatesOfProgress(o.data()); for (size_t r = 0; r < R; r++) eq("forward_mass_action", o[r], rf[r], 1e-8, 1e-12 * kf[r], desc(n.rx[r])); break;
                    case 4: kin.getRevRatesOfProgress(o.data()); for (size_t r = 0; r < R; r++) eq("reverse_mass_action", o[r], rr[r], 10 * tol(r), 1e-12 * kf[r], desc(n.rx[r])); break;
                    case 5: kin.getNetRatesOfProgress(o.data()); for (size_t r = 0; r < R; r++) eq("net_is_forward_minus_reverse", o[r], rf[r] - rr[r], 1e-8, 1e-8 * (std::fabs(rf[r]) + std::fabs(rr[r])) + 1e-12 * kf[r], desc(n.rx[r])); break; }
                    check("no_write_past_the_end", o[R] == 7.5); }
                Vd f(R), b(R); kin.getFwdRatesOfProgress(f.data()); kin.getRevRatesOfProgress(b.data()); double xm = 1; for (double x : X) xm = std::min(xm, x);
                for (size_t r = 0; r < R; r++) { eq("multiplier_kept", kin.multiplier(r), mult[r], 1e-15); if (!n.rx[r].rev) check("irreversible_has_no_reverse_rate", b[r] == 0, desc(n.rx[r])); else if (xm > 1e-8 && !big[r] && f[r] > 1e-250 && b[r] > 1e-250 && n.rx[r].ord.empty()) eq("net_rate_vanishes_with_affinity", std::log(b[r] / f[r]), aff[r] / RT, 1e-8, 1e-8 * (1 + std::fabs(dG[r])), desc(n.rx[r])); }
            }
        });
    }
    return done();
}
