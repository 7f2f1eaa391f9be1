#include "rkin.h"
struct Z { // value and derivative along one direction (exact forward differentiation)
    double v, d; Z(double a = 0, double b = 0) : v(a), d(b) {} };
static Z operator+(Z a, Z b) { return {a.v + b.v, a.d + b.d}; }
static Z operator-(Z a, Z b) { return {a.v - b.v, a.d - b.d}; }
static Z operator*(Z a, Z b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
static Z operator/(Z a, Z b) { return {a.v / b.v, (a.d - a.v / b.v * b.d) / b.v}; }
static Z& operator+=(Z& a, Z b) { return a = a + b; }
static Z& operator*=(Z& a, Z b) { return a = a * b; }
static Z exp(Z a) { double e = std::exp(a.v); return {e, e * a.d}; }
static Z log(Z a) { return {std::log(a.v), a.d / a.v}; }
static Z ipow(Z b, double o) { if (o == 0) return 1; if (o == 1) return b; return {std::pow(b.v, o), b.v == 0 ? (o > 1 || b.d == 0 ? 0 : 1e300) : o * std::pow(b.v, o - 1) * b.d}; }
static double real(Z a) { return a.v; }
static double imag(Z a) { return a.d; }
int main() {
    suppress_warnings(); suppress_thermo_warnings(); const double h = 1;
    for (int it = 0; it < reps(700); it++) {
        ctx() = str("network", it);
        guard("random_network", [&] {
            bool legacy = coin(0.1); use_legacy_rate_constants(legacy); struct Off { ~Off() { use_legacy_rate_constants(false); } } off;
            Net n = rnet(N(2, 9), N(1, 12)); size_t K = n.K, R = n.rx.size(); auto& kin = *n.kin; string all; for (auto& x : n.rx) all += desc(x) + "; "; ctx() = str("network", it) + (legacy ? " legacy " : " ") + all.substr(0, 400);
            double T = 500, P = OneAtm; Vd X(K, 1. / K), mult(R, 1.);
            for (int q = 0; q < 5; q++) {
                rstate(n, T, P, X, coin(0.3)); if (coin(0.4)) { size_t r = N(0, R - 1); mult[r] = coin(0.2) ? 0 : U(0, 3); kin.setMultiplier(r, mult[r]); }
                bool skip3 = coin(0.15), skipf = coin(0.15); AnyMap st; st["skip-third-bodies"] = skip3; st["skip-falloff"] = skipf; kin.setDerivativeSettings(st);
                Vd c(K), hrt(K), Kc(R); n.gas->getConcentrations(c.data()); n.gas->getEnthalpy_RT(hrt.data()); kin.getEquilibriumConstants(Kc.data()); double ctot = n.gas->molarDensity();
                // rate of progress of reaction r and its parts as functions of temperature and concentrations
                auto kf = [&](size_t r, Z t, Z M) { auto& x = n.rx[r]; Z hi = x.A * exp(x.b * log(t) - x.E / (GasConstant * t)); if (!x.fall) return hi * mult[r]; Z lo = x.A0 * exp(x.b0 * log(t) - x.E0 / (GasConstant * t)); Z pr = lo * M / hi; return (x.chem ? lo / (1. + pr) : hi * pr / (1. + pr)) * mult[r]; };
                auto Mof = [&](size_t r, const vector<Z>& cc) { Z m = 0; auto& x = n.rx[r]; if (x.third || x.fall) for (size_t k = 0; k < K; k++) m += x.eff[k] * cc[k]; return m; };
                auto prod = [&](size_t r, const vector<Z>& cc, bool fwd) { auto& x = n.rx[r]; Z p = 1; auto& side = fwd ? x.nr : x.np; for (auto& [s, v] : side) { double o = fwd && x.ord.count(s) ? x.ord.at(s) : v; p *= ipow(cc[n.gas->speciesIndex(s)], o); } if (fwd) for (auto& [s, o] : x.ord) if (!x.nr.count(s)) p *= ipow(cc[n.gas->speciesIndex(s)], o); return p; };
                auto order = [&](size_t r, size_t k, bool fwd) { auto& x = n.rx[r]; auto& s = n.nm[k]; if (fwd && x.ord.count(s)) return x.ord.at(s); auto& side = fwd ? x.nr : x.np; return side.count(s) ? side.at(s) : 0.; };
                vector<Z> c0(K); for (size_t k = 0; k < K; k++) c0[k] = c[k];
                auto rate = [&](size_t r, Z t, const vector<Z>& cc, const vector<Z>& cM, const vector<Z>& cF, bool fwd) { auto& x = n.rx[r]; if (!fwd && !x.rev) return Z(0); Z v = kf(r, t, Mof(r, cF)) * prod(r, cc, fwd); if (x.third) v *= Mof(r, cM); return fwd ? v : v / Kc[r]; };
                auto usable = [&](size_t r) { auto& x = n.rx[r]; if (!x.third && !x.fall) return true; double M = real(Mof(r, c0)); return M > 1e-6 * ctot; };
                if (coin(0.3)) { Vd w(R); kin.getNetRatesOfProgress(w.data()); }
                for (int j = 0; j < 4; j++) switch (N(0, 5)) {
                case 0: { // temperature
                    Vd df(R), dr(R), dn(R), dk(R), rf(R), rr(R); kin.getFwdRatesOfProgress_ddT(df.data()); kin.getRevRatesOfProgress_ddT(dr.data()); kin.getNetRatesOfProgress_ddT(dn.data()); kin.getFwdRateConstants_ddT(dk.data()); kin.getFwdRatesOfProgress(rf.data()); kin.getRevRatesOfProgress(rr.data());
                    for (size_t r = 0; r < R; r++) { if (!usable(r)) continue; auto& x = n.rx[r]; Z t(T, h * T); double kv = real(kf(r, T, Mof(r, c0))), dkv = imag(kf(r, t, Mof(r, c0))) / (h * T); double sc = 1e-5 * (1 + x.E / (GasConstant * T)) / T;
                        eq("rate_constant_ddT", dk[r], dkv, 1e-5, sc * std::fabs(kv) + 1e-290, desc(x)); double L = kv ? dkv / kv : 0; eq("forward_ddT", df[r], rf[r] * L, 1e-5, sc * std::fabs(rf[r]) + 1e-290, desc(x));
                        double du = 0, ah = 0; for (auto& [s, v] : x.np) { du += v * (hrt[n.gas->speciesIndex(s)] - 1); ah += std::fabs(v * hrt[n.gas->speciesIndex(s)]); } for (auto& [s, v] : x.nr) { du -= v * (hrt[n.gas->speciesIndex(s)] - 1); ah += std::fabs(v * hrt[n.gas->speciesIndex(s)]); }
                        double wr = rr[r] * (L - du / T); if (!(1 / Kc[r] < BigNumber)) continue; eq("reverse_ddT", dr[r], wr, 1e-5, (sc + 3e-6 * (ah + 1) / T) * std::fabs(rr[r]) + 1e-290, desc(x)); eq("net_ddT", dn[r], df[r] - dr[r], 1e-9, 1e-9 * (sc + (ah + 1) / T) * 1e3 * (std::fabs(rf[r]) + std::fabs(rr[r])) + 1e-290, desc(x)); }
                    break; }
                case 1: { // pressure: none of these rates depends on it
                    Vd d(R); kin.getFwdRatesOfProgress_ddP(d.data()); for (double v : d) check("forward_ddP", v == 0, str(v)); kin.getRevRatesOfProgress_ddP(d.data()); for (double v : d) check("reverse_ddP", v == 0); kin.getFwdRateConstants_ddP(d.data()); for (double v : d) check("rate_constant_ddP", v == 0); break; }
                case 2: { // total concentration at constant mole fractions
                    Vd df(R), dr(R), dn(R), dk(R); kin.getFwdRatesOfProgress_ddC(df.data()); kin.getRevRatesOfProgress_ddC(dr.data()); kin.getNetRatesOfProgress_ddC(dn.data()); kin.getFwdRateConstants_ddC(dk.data()); vector<Z> cs(K); for (size_t k = 0; k < K; k++) cs[k] = c[k] * Z(1, h);
                    for (size_t r = 0; r < R; r++) { if (!usable(r)) continue; auto& x = n.rx[r]; auto& cM = skip3 ? c0 : cs; auto& cF = skip3 || skipf ? c0 : cs; double f0 = real(rate(r, T, c0, c0, c0, true)), r0 = real(rate(r, T, c0, c0, c0, false)); double wf = imag(rate(r, T, cs, cM, cF, true)) / (h * ctot), wr = imag(rate(r, T, cs, cM, cF, false)) / (h * ctot);
                        eq("forward_ddC", df[r], wf, 1e-5, 1e-5 * std::fabs(f0) / ctot + 1e-290, desc(x)); eq("reverse_ddC", dr[r], wr, 1e-5, 1e-5 * std::fabs(r0) / ctot + 1e-290, desc(x)); eq("net_ddC", dn[r], df[r] - dr[r], 1e-9, 1e-9 * (std::fabs(df[r]) + std::fabs(dr[r])) + 1e-290, desc(x));
                        eq("rate_constant_ddC", dk[r], imag(kf(r, T, Mof(r, cF))) / (h * ctot), 1e-5, 1e-5 * std::fabs(real(kf(r, T, Mof(r, c0)))) / ctot + 1e-290, desc(x)); }
                    break; }
                default: { // species
                    bool X_ = coin(); int w = N(0, 2); Eigen::SparseMatrix<double> J = X_ ? (w == 0 ? kin.fwdRatesOfProgress_ddX() : w == 1 ? kin.revRatesOfProgress_ddX() : kin.netRatesOfProgress_ddX()) : (w == 0 ? kin.fwdRatesOfProgress_ddCi() : w == 1 ? kin.revRatesOfProgress_ddCi() : kin.netRatesOfProgress_ddCi());
                    check("shape", J.rows() == int(R) && J.cols() == int(K)); if (J.rows() != int(R) || J.cols() != int(K)) break;
                    for (size_t r = 0; r < R; r++) { if (!usable(r)) continue; auto& x = n.rx[r]; for (size_t k = 0; k < K; k++) { double of = order(r, k, true), orr = order(r, k, false); if (c[k] == 0 && ((of > 0 && of < 1) || (orr > 0 && orr < 1))) continue;
                        const double st = 1; vector<Z> cs = c0; cs[k] += Z(0, h * st); auto& cM = skip3 ? c0 : cs; auto& cF = skip3 || skipf ? c0 : cs; double f = imag(rate(r, T, cs, cM, cF, true)) / (h * st), b = imag(rate(r, T, cs, cM, cF, false)) / (h * st); double want = w == 0 ? f : w == 1 ? b : f - b; if (X_) want *= ctot;
                        double sc = 1e-5 * (std::fabs(real(rate(r, T, c0, c0, c0, true))) * (w != 1) + std::fabs(real(rate(r, T, c0, c0, c0, false))) * (w != 0)) / ctot * (X_ ? ctot : 1) * (x.fall && !skip3 && !skipf ? 1 + std::fabs(x.eff[k]) * ctot / std::max(real(Mof(r, c0)), 1e-300) : 1e-3) + 1e-8 * (std::fabs(f) * (w != 1) + std::fabs(b) * (w != 0)) * (X_ ? ctot : 1);
                        eq(w == 0 ? "forward_species" : w == 1 ? "reverse_species" : "net_species", J.coeff(r, k), want, 1e-8, sc + 1e-290, n.nm[k] + " in " + desc(x)); } } } }
                // nothing changes when derivatives are asked for
                Vd f(R); kin.getFwdRatesOfProgress(f.data()); for (size_t r = 0; r < R; r++) if (usable(r)) { double w = real(rate(r, T, c0, c0, c0, true)); eq("rates_unchanged_by_queries", f[r], w, 1e-8, 1e-12 * std::fabs(w) + 1e-290, desc(n.rx[r])); } eq("temperature_unchanged", n.gas->temperature(), T, 1e-13); eq("pressure_unchanged", n.gas->pressure(), P, 1e-9);
            }
        });
    }
    const char* root = getenv("VERIF_REPO"); addDirectory(string(root ? root : "/repo") + "/test/data");
    struct M { const char* f; const char* n; }; M ms[] = {{"gri30.yaml", "gri30"}, {"pdep-test.yaml", ""}, {"h2o2.yaml", "ohmech"}, {"jacobian-tests.yaml", ""}};
    for (auto& mm : ms) { shared_ptr<Solution> s; try { s = newSolution(mm.f, mm.n, "none"); } catch (CanteraError& e) { ctx() = e.what(); check("mechanism_builds", false, mm.f); continue; }
        auto& gas = *s->thermo(); auto& kin = *s->kinetics(); size_t K = gas.nSpecies(), R = kin.nReactions(); Vd mult(R, 1.); bool multi = string(mm.f) != "gri30.yaml";
        for (int it = 0; it < reps(40); it++) { ctx() = string(mm.f) + " it" + str(it);
            guard("no_unexpected_exception", [&] { double T = U(500, 2200), P = LU(1e4, 3e6); Vd X(K); for (auto& x : X) x = LU(1e-3, 1); gas.setState_TPX(T, P, X.data()); if (coin(0.4)) { size_t r = N(0, R - 1); mult[r] = U(0, 3); kin.setMultiplier(r, mult[r]); }
                AnyMap st; kin.setDerivativeSettings(st); Vd dT(R), dP(R), k0(R), kp(R), km(R); kin.getFwdRateConstants(k0.data()); kin.getFwdRateConstants_ddT(dT.data()); kin.getFwdRateConstants_ddP(dP.data()); double e = 1e-4, D = gas.density();
                auto at = [&](double t, double p, bool constD, Vd& k) { if (constD) { gas.setState_TD(t, D); } else gas.setState_TP(t, p); kin.getFwdRateConstants(k.data()); };
                for (int cd = 0; cd < 2; cd++) { at(T * (1 + e), P, cd, kp); at(T * (1 - e), P, cd, km); for (size_t r = 0; r < R; r++) { string ty = kin.reaction(r)->rate()->type(); string sub = kin.reaction(r)->type(); bool press = sub.find("Chebyshev") != string::npos || sub.find("pressure-dependent") != string::npos; if (sub.find("Blowers") != string::npos || sub.find("two-temp") != string::npos) continue; if (press == bool(cd)) continue;
                    eq("file_rate_constant_ddT", dT[r], (kp[r] - km[r]) / (2 * e * T), 1e-3, 1e-4 * std::fabs(k0[r]) / T, sub + " " + kin.reaction(r)->equation()); } }
                at(T, P * (1 + e), false, kp); at(T, P * (1 - e), false, km); for (size_t r = 0; r < R; r++) { string sub = kin.reaction(r)->type(); bool press = sub.find("Chebyshev") != string::npos || sub.find("pressure-dependent") != string::npos; if (press) eq("file_rate_constant_ddP", dP[r], (kp[r] - km[r]) / (2 * e * P), 1e-3, 1e-4 * std::fabs(k0[r]) / P, sub + " " + kin.reaction(r)->equation()); else check("file_no_pressure_dependence", dP[r] == 0, sub); }
                gas.setState_TPX(T, P, X.data());
                Vd f(R), b(R), w(K), fT(R), bT(R), wT(K); kin.getFwdRatesOfProgress_ddT(fT.data()); kin.getRevRatesOfProgress_ddT(bT.data()); int which = N(0, 2); if (which == 0) kin.getCreationRates_ddT(wT.data()); else if (which == 1) kin.getDestructionRates_ddT(wT.data()); else kin.getNetProductionRates_ddT(wT.data());
                Eigen::SparseMatrix<double> JF = kin.fwdRatesOfProgress_ddCi(), JB = kin.revRatesOfProgress_ddCi(); Eigen::SparseMatrix<double> J = which == 0 ? kin.creationRates_ddCi() : which == 1 ? kin.destructionRates_ddCi() : kin.netProductionRates_ddCi();
                for (size_t k = 0; k < K; k++) { double v = 0, sc = 0; Vd row(K, 0.), rs(K, 0.); for (size_t r = 0; r < R; r++) { double nr = kin.reactantStoichCoeff(k, r), np = kin.productStoichCoeff(k, r); if (nr == 0 && np == 0) continue; double a = which == 0 ? np : which == 1 ? nr : np - nr, c = which == 0 ? nr : which == 1 ? np : nr - np; v += a * fT[r] + c * bT[r]; sc += std::fabs(a * fT[r]) + std::fabs(c * bT[r]); for (size_t q = 0; q < K; q++) { double x = a * JF.coeff(r, q), y = c * JB.coeff(r, q); row[q] += x + y; rs[q] += std::fabs(x) + std::fabs(y); } }
                    eq("species_rate_ddT_is_stoichiometric_sum", wT[k], v, 1e-5, 1e-4 * sc + 1e-290); for (size_t q = 0; q < K; q++) eq("species_rate_ddCi_is_stoichiometric_sum", J.coeff(k, q), row[q], 1e-9, 1e-9 * rs[q] + 1e-290); if (K > 20 && k > 5 && coin(0.8)) break; }
            }); } }
    return done();
}
