#include "vd.h"
#include "cantera/kinetics/Falloff.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/BulkKinetics.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/base/global.h"
using namespace Cantera; using namespace vd; using std::vector;
static double Ar(const vector<double>& p, double T) { return p[0] * std::pow(T, p[1]) * std::exp(-p[2] / GasConstant / T); }
static double troe(double lF, double pr) { double l = std::log10(std::max(pr, 1e-300)), c = -0.4 - 0.67 * lF, n = 0.75 - 1.27 * lF, f = (l + c) / (n - 0.14 * (l + c)); return std::pow(10, lF / (1 + f * f)); }
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    for (int it = 0; it < reps(12000); it++) {
        int kind = N(0, 3); bool chem = coin(0.3), neg = coin(0.2); double sg = neg ? -1 : 1;
        vector<double> lo{sg * LU(1e2, 1e16), U(-3, 3), U(-1e7, 2e8)}, hi{sg * LU(1e2, 1e14), U(-3, 3), U(-1e7, 2e8)};
        vector<double> c; double T = coin(0.1) ? hint(1000, 200, 3000, 0.5) : U(200, 3500);
        if (kind == 1) { c = {U(-0.2, 1.2), coin(0.15) ? 0 : LU(1, 1e4), coin(0.15) ? 0 : LU(1, 1e4)}; if (coin()) c.push_back(coin(0.1) ? -U(100, 3000) : LU(10, 1e4)); }
        if (kind == 2) { c = {LU(1e-2, 2), U(-1000, 2000), coin(0.2) ? 0 : LU(10, 3000)}; if (coin()) { c.push_back(coin(0.1) ? 0 : coin(0.2) ? 1 : LU(0.1, 10)); c.push_back(coin(0.3) ? 0 : coin(0.2) ? 1 : U(-1, 1)); } }
        if (kind == 3) { c = {U(0.1, 1)}; if (coin()) c.push_back(coin(0.2) ? 0 : U(-1e-4, 1e-4)); }
        std::unique_ptr<FalloffRate> r;
        if (kind == 0) r.reset(new LindemannRate()); else if (kind == 1) r.reset(new TroeRate()); else if (kind == 2) r.reset(new SriRate()); else r.reset(new TsangRate());
        ctx() = str("kind", kind, "chem", chem, "low", vec(lo), "high", vec(hi), "coeffs", vec(c), "T", T);
        auto Fref = [&](double pr, double t) {
            if (kind == 0) return 1.0;
            if (kind == 1) { double f = (c[1] == 0 ? 0 : (1 - c[0]) * std::exp(-t / c[1])) + (c[2] == 0 ? 0 : c[0] * std::exp(-t / c[2])) + (c.size() == 4 && c[3] != 0 ? std::exp(-c[3] / t) : 0); return troe(std::log10(std::max(f, 1e-300)), pr); }
            if (kind == 2) { double l = std::log10(std::max(pr, 1e-300)), w = c[0] * std::exp(-c[1] / t) + (c[2] ? std::exp(-t / c[2]) : 0); return std::pow(w, 1 / (1 + l * l)) * (c.size() == 5 ? c[3] * std::pow(t, c[4]) : 1); }
            return troe(std::log10(std::max(c[0] + (c.size() > 1 ? c[1] * t : 0), 1e-300)), pr); };
        guard("configure", [&] {
            r->setAllowNegativePreExponentialFactor(neg); r->setChemicallyActivated(chem);
            ArrheniusRate L(lo[0], lo[1], lo[2]), H(hi[0], hi[1], hi[2]); bool first = coin();
            if (first) { r->setLowRate(L); r->setHighRate(H); } else { r->setHighRate(H); r->setLowRate(L); }
            r->setFalloffCoeffs(c); r->check("eq");
            auto st0 = [&] { eq("limits_kept", r->lowRate().preExponentialFactor(), lo[0], 1e-14); eq("limits_kept", r->highRate().preExponentialFactor(), hi[0], 1e-14); };
            if (!neg) { must_throw("negative_rejected", [&] { r->setLowRate(ArrheniusRate(-lo[0], 0, 0)); }); must_throw("negative_rejected", [&] { r->setHighRate(ArrheniusRate(-hi[0], 0, 0)); }); st0(); }
            else { must_throw("sign_mismatch_rejected", [&] { r->setLowRate(ArrheniusRate(-lo[0], 0, 0)); }); must_throw("sign_mismatch_rejected", [&] { r->setHighRate(ArrheniusRate(-hi[0], 0, 0)); }); st0(); }
            check("flags", r->chemicallyActivated() == chem && r->allowNegativePreExponentialFactor() == neg && r->type() == (chem ? "chemically-activated" : "falloff"));
        });
        guard("wrong_sizes", [&] { for (size_t n = 0; n < 8; n++) { bool ok = kind == 0 ? n == 0 : kind == 1 ? n == 3 || n == 4 : kind == 2 ? n == 3 || n == 5 : n == 1 || n == 2; if (!ok) must_throw("wrong_size_rejected", [&] { vector<double> x(n, 0.5); r->setFalloffCoeffs(x); }); }
            if (kind == 2) { must_throw("negative_c_rejected", [&] { r->setFalloffCoeffs({0.5, 1, -1}); }); must_throw("negative_d_rejected", [&] { r->setFalloffCoeffs({0.5, 1, 1, -1, 0}); }); r->setFalloffCoeffs(c); } });
        guard("read_back", [&] { vector<double> g; r->getFalloffCoeffs(g); size_t n = g.size(); vector<double> w = c;
            if (kind == 1 && w.size() == 4 && w[3] == 0) w.pop_back(); if (kind == 3 && w.size() == 2 && w[1] == 0) w.pop_back();
            if (kind == 2) { if (n == 5 && w.size() == 3) { w.push_back(1); w.push_back(0); } if (n == 3 && w.size() == 5 && w[3] == 1 && w[4] == 0) w.resize(3); }
            veq("read_back", g, w, 1e-13); check("nParameters", r->nParameters() == (kind == 0 ? 0 : kind == 1 ? 4 : kind == 2 ? 5 : 2)); });
        for (int q = 0; q < 3; q++) {
            double M = coin(0.1) ? 0 : LU(1e-12, 1e6); T = coin(0.3) ? T : U(200, 3500); ctx() += str(" T", T, "M", M);
            guard("rate", [&] {
                double k0 = Ar(lo, T), ki = Ar(hi, T), pr = k0 * M / (ki + 1e-300), F = Fref(pr, T);
                if (!std::isfinite(F) || !std::isfinite(pr)) return;
                double want = chem ? k0 / (1 + pr) * F : ki * pr / (1 + pr) * F;
                FalloffData d; d.update(T, M); eq("blending", r->evalFromStruct(d), want, 1e-9, 1e-280); eq("evalF", r->evalF(T, M), F, 1e-9);
                vector<double> work(3, -7); r->updateTemp(T, work.data()); eq("F", r->F(pr, work.data()), F, 1e-9); check("work_extent", work[2] == -7);
                // multi-reaction storage: the reaction's own third-body concentration is used
                FalloffData e; e.resize(4, 3, 1); e.ReactionData::update(T); for (auto& x : e.conc_3b) x = LU(1e-6, 1e3); size_t k = N(0, 2); e.conc_3b[k] = M; r->setRateIndex(k); eq("blending_indexed", r->evalFromStruct(e), want, 1e-9, 1e-280);
                auto sv = e.conc_3b; e.perturbThirdBodies(0.5); must_throw("double_perturb", [&] { e.perturbThirdBodies(0.1); }); for (size_t j = 0; j < 3; j++) eq("perturb", e.conc_3b[j], 1.5 * sv[j], 1e-13); e.restore(); veq("restore", e.conc_3b, sv, 0); e.restore(); veq("restore", e.conc_3b, sv, 0);
                must_throw("needs_third_body", [&] { d.update(T); });
                if (!chem && !neg && kind != 2 && F <= 1.0000001) check("below_limits", want <= ki * (1 + 1e-9) && want <= k0 * M * (1 + 1e-9));
            });
        }
    }
    guard("unset_limits", [&] { auto th = std::shared_ptr<ThermoPhase>(newThermo("h2o2.yaml")); auto kin = newKinetics({th}, "h2o2.yaml"); TroeRate r; must_throw("unset_limits", [&] { r.validate("eq", *kin); }); r.setLowRate(ArrheniusRate(1, 0, 0)); must_throw("unset_limits", [&] { r.validate("eq", *kin); }); });
    // the shared third-body concentrations follow every state change of the phase
    guard("data_update", [&] {
        auto th = std::shared_ptr<ThermoPhase>(newThermo("h2o2.yaml")); auto kin = newKinetics({th}, "h2o2.yaml"); size_t K = th->nSpecies();
        FalloffData d; d.resize(K, kin->nReactions(), 1); d.invalidateCache(); vector<double> k(kin->nReactions());
        for (int it = 0; it < reps(400); it++) {
            int w = N(0, 4); vector<double> X(K); for (auto& v : X) v = U();
            if (w == 0) th->setState_TP(U(300, 2500), th->pressure()); else if (w == 1) th->setState_TP(th->temperature(), LU(1e3, 1e7)); else if (w == 2) th->setMoleFractions(X.data());
            else if (w == 3) { double md = th->molarDensity(); th->setMoleFractions(X.data()); th->setDensity(md * th->meanMolecularWeight()); } else th->setState_TD(U(300, 2500), th->density());
            double T = th->temperature(); ctx() = str("what", w, "T", T); kin->getFwdRateConstants(k.data());
            bool ch = d.update(*th, *kin); eq("data_update", d.temperature, T); eq("data_update", d.logT, std::log(T), 1e-13); eq("data_update", d.recipT, 1 / T, 1e-13); auto& cc = kin->thirdBodyConcentrations();
            for (size_t i = 0; i < cc.size(); i++) if (kin->reaction(i)->usesThirdBody()) eq("data_update_3b", d.conc_3b[i], cc[i]);
            check("data_update_ret", !d.update(*th, *kin)); (void)ch;
            for (size_t i = 0; i < kin->nReactions(); i++) if (auto f = std::dynamic_pointer_cast<FalloffRate>(kin->reaction(i)->rate())) {
                double M = 0; vector<double> C(K); th->getConcentrations(C.data()); for (size_t s = 0; s < K; s++) M += C[s] * kin->reaction(i)->thirdBody()->efficiency(th->speciesName(s));
                double ki = f->highRate().evalRate(std::log(T), 1 / T), k0 = f->lowRate().evalRate(std::log(T), 1 / T), pr = k0 * M / ki; vector<double> wk(2); f->updateTemp(T, wk.data());
                eq("mechanism_rate", k[i], f->chemicallyActivated() ? k0 / (1 + pr) * f->F(pr, wk.data()) : ki * pr / (1 + pr) * f->F(pr, wk.data()), 1e-9); }
        }
    });
    return done();
}
