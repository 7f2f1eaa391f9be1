#include "rkin.h"
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    for (int it = 0; it < reps(400); it++) {
        ctx() = str("network", it);
        guard("random_network", [&] {
            Net n = rnet(N(2, 9), N(1, 14)); size_t K = n.K, R = n.rx.size(); auto& kin = *n.kin; string all; for (auto& x : n.rx) all += desc(x) + "; "; ctx() = str("network", it) + all.substr(0, 400);
            for (size_t r = 0; r < R; r++) if (auto tb = n.rx[r].r->thirdBody()) { for (size_t k = 0; k < K; k++) eq("efficiency", tb->efficiency(n.nm[k]), n.rx[r].eff[k], 1e-14); check("mass_action_flag", tb->mass_action == (n.rx[r].third)); }
            double T = 500, P = OneAtm; Vd X(K, 1. / K), mult(R, 1.);
            for (int q = 0; q < 8; q++) {
                rstate(n, T, P, X); if (coin(0.2)) { size_t r = N(0, R - 1); mult[r] = U(0, 2); kin.setMultiplier(r, mult[r]); }
                Vd c(K), m(R + 1, 7.5), f(R), b(R); n.gas->getConcentrations(c.data()); if (coin(0.3)) kin.getFwdRatesOfProgress(f.data());
                kin.getThirdBodyConcentrations(m.data()); kin.getFwdRatesOfProgress(f.data()); check("no_write_past_the_end", m[R] == 7.5);
                for (size_t r = 0; r < R; r++) {
                    auto& x = n.rx[r]; double M = 0; if (x.third || x.fall) { for (size_t k = 0; k < K; k++) M += x.eff[k] * c[k]; eq("efficiency_weighted_sum", m[r], M, 1e-10, 1e-14 * P / (GasConstant * T), desc(x)); } else check("undefined_without_third_body", std::isnan(m[r]), desc(x));
                    double hi = x.A * std::pow(T, x.b) * std::exp(-x.E / (GasConstant * T)), lo = x.A0 * std::pow(T, x.b0) * std::exp(-x.E0 / (GasConstant * T)), k = hi; if (x.fall) { double pr = lo * M / (hi + 1e-300); k = x.chem ? lo / (1 + pr) : hi * pr / (1 + pr); }
                    double rop = k * mult[r] * (x.third ? M : 1); for (auto& [s, v] : x.nr) { double o = x.ord.count(s) ? x.ord.at(s) : v; if (o) rop *= std::pow(c[n.gas->speciesIndex(s)], o); } for (auto& [s, o] : x.ord) if (!x.nr.count(s) && o) rop *= std::pow(c[n.gas->speciesIndex(s)], o);
                    eq("multiplies_exactly_its_reactions", f[r], rop, 1e-8, 1e-12 * std::fabs(rop) + (x.third || x.fall ? 1e-13 * (std::fabs(M) < 1e-9 * P / (GasConstant * T) ? 1e3 : 0) : 0), desc(x)); }
            }
        });
    }
    return done();
}
