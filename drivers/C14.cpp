#include "vd.h"
#include "cantera/core.h"
#include "cantera/transport.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/transport/TransportFactory.h"
#include "cantera/transport/MixTransport.h"
#include "cantera/transport/MultiTransport.h"
#include "cantera/transport/UnityLewisTransport.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd;
static double p5(const Vd& c, double T, int n) { double L = std::log(T), z = 0; for (int i = n - 1; i >= 0; i--) z = z * L + c[i]; return z; }
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    auto h2 = newSolution("h2o2.yaml", "", "none"); auto gri = newSolution("gri30.yaml", "", "none");
    struct M { const char* model; bool ck, multi, ul; }; M ms[] = {{"mixture-averaged", 0, 0, 0}, {"mixture-averaged-CK", 1, 0, 0}, {"unity-Lewis-number", 0, 0, 1}, {"multicomponent", 0, 1, 0}, {"multicomponent-CK", 1, 1, 0}};
    auto build = [&](int nsp) { auto p = std::make_shared<IdealGasPhase>(); p->addUndefinedElements(); vector<string> used;
        for (int i = 0; i < nsp; i++) for (;;) { auto& src = coin(0.6) ? h2 : gri; auto sp = src->thermo()->species((size_t)N(0, src->thermo()->nSpecies() - 1)); if (p->speciesIndex(sp->name) != npos) continue; p->addSpecies(sp); break; }
        p->initThermo(); return p; };
    for (auto& mm : ms) for (int rep = 0; rep < reps(6); rep++) {
        ctx() = string(mm.model) + " network" + str(rep);
        guard("no_unexpected_exception", [&] {
        int n0 = rep == 0 ? 1 : rep == 1 ? 2 : N(3, 7); auto th = build(n0); size_t K = th->nSpecies(); if (mm.multi && K == 1) return;
        double T = 700, P = 1e5; Vd X(K, 1.0 / K); th->setState_TPX(T, P, X.data()); shared_ptr<Transport> sp(newTransport(th, mm.model)); auto* tr = dynamic_cast<GasTransport*>(sp.get()); auto* mx = dynamic_cast<MixTransport*>(sp.get()); auto* mu = dynamic_cast<MultiTransport*>(sp.get());
        bool grown = false, poly = false; vector<Vd> vc, cc; vector<vector<Vd>> dc; int np = mm.ck ? 4 : 5;
        auto coeffs = [&](GasTransport* t) { vc.assign(K, Vd(np)); cc = vc; dc.assign(K, vector<Vd>(K, Vd(np))); for (size_t k = 0; k < K; k++) { t->getViscosityPolynomial(k, vc[k].data()); t->getConductivityPolynomial(k, cc[k].data()); for (size_t j = 0; j < K; j++) t->getBinDiffusivityPolynomial(k, j, dc[k][j].data()); } };
        coeffs(tr); string log = "";
        for (int it = 0; it < 40; it++) {
            ctx() = string(mm.model) + " K" + str(K) + "network" + str(rep) + "it" + str(it) + log; if (log.size() > 120) log = log.substr(log.size() - 120);
            double Tn = hint(coin(0.3) ? nearby(T, U(250, 3000), 1) : coin(0.3) ? (coin() ? 400 : 1500) : U(250, 3000), 250, 3000); Tn = std::min(std::max(Tn, 250.), 3000.); double Pn = coin(0.3) ? nearby(P, LU(10, 1e8), 1) : LU(10, 1e8);
            auto newX = [&] { Vd x(K); double z = 0; for (auto& v : x) v = coin(0.25) ? 0 : coin(0.1) ? LU(1e-18, 1e-6) : LU(1e-3, 1); if (coin(0.15)) std::fill(x.begin(), x.end(), 0.); if (std::accumulate(x.begin(), x.end(), 0.) == 0) x[N(0, K - 1)] += 0.3; for (double v : x) z += v; for (auto& v : x) v /= z; return x; };
            switch (N(0, 6)) { case 0: T = Tn; th->setState_TP(T, P); log += "T"; break; case 1: { double d = th->density(); T = Tn; th->setTemperature(T); (void)d; P = th->pressure(); log += "t"; break; } case 2: P = Pn; th->setPressure(P); log += "P"; break;
            case 3: X = newX(); th->setMoleFractions(X.data()); th->setPressure(P); log += "X"; break; case 4: X = newX(); T = Tn; P = Pn; th->setState_TPX(T, P, X.data()); log += "*"; break; case 5: log += "-"; break;
            default: if (coin(0.25) && K < 9) { log += "+"; for (;;) { auto& src = coin(0.6) ? h2 : gri; auto s = src->thermo()->species((size_t)N(0, src->thermo()->nSpecies() - 1)); if (th->speciesIndex(s->name) != npos) continue; th->addSpecies(s); break; }
                    K = th->nSpecies(); X = newX(); if (coin(0.7)) th->setState_TPX(T, P, X.data()); else { T = Tn; th->setState_TPX(T, P, X.data()); } grown = true; tr->viscosity(); coeffs(tr); }
                else if (coin(0.4)) { log += "p"; size_t k = N(0, K - 1), j = N(0, K - 1); Vd c(np); poly = true; switch (N(0, 2)) { case 0: c = vc[k]; c[0] *= 1.01; tr->setViscosityPolynomial(k, c.data()); vc[k] = c; break; case 1: c = cc[k]; c[0] *= 1.01; tr->setConductivityPolynomial(k, c.data()); cc[k] = c; break; default: c = dc[k][j]; c[0] *= 1.01; tr->setBinDiffusivityPolynomial(k, j, c.data()); dc[k][j] = dc[j][k] = c; } } }
            Vd W = th->molecularWeights(), Y(K); th->getMassFractions(Y.data()); double M = th->meanMolecularWeight(), rho = th->density(); Vd x(K); for (size_t k = 0; k < K; k++) x[k] = std::max(Tiny, th->moleFraction(k));
            Vd mu_(K), la(K), phi(K, 0.); double s14 = std::pow(T, 0.25); vector<Vd> D(K, Vd(K));
            for (size_t k = 0; k < K; k++) { double q = mm.ck ? std::exp(p5(vc[k], T, np) / 2) : s14 * p5(vc[k], T, np); mu_[k] = q * q; la[k] = mm.ck ? std::exp(p5(cc[k], T, np)) : std::sqrt(T) * p5(cc[k], T, np); for (size_t j = 0; j < K; j++) { D[k][j] = (mm.ck ? std::exp(p5(dc[k][j], T, np)) : std::pow(T, 1.5) * p5(dc[k][j], T, np)); } }
            // documented formulas
            double visc = 0; for (size_t k = 0; k < K; k++) { double den = 0; for (size_t j = 0; j < K; j++) { double q = 1 + std::sqrt(mu_[k] / mu_[j]) * std::pow(W[j] / W[k], 0.25); den += x[j] * q * q / std::sqrt(8 * (1 + W[k] / W[j])); } visc += x[k] * mu_[k] / den; }
            double s1 = 0, s2 = 0; for (size_t k = 0; k < K; k++) { s1 += x[k] * la[k]; s2 += x[k] / la[k]; } double lam = 0.5 * (s1 + 1 / s2);
            Vd dm(K), dx(K), dy(K); for (size_t k = 0; k < K; k++) { double a = 0, b = 0; for (size_t j = 0; j < K; j++) if (j != k) { a += x[j] / D[j][k]; b += x[j] * W[j] / D[k][j]; }
                if (K == 1) dm[k] = dx[k] = dy[k] = D[0][0] / P; else { dm[k] = (M - x[k] * W[k]) / (P * M * a); dx[k] = (1 - x[k]) / (P * a); dy[k] = 1 / (P * a + P * x[k] / (M - W[k] * x[k]) * b); } }
            bool pure = false; for (double v : x) if (v > 1 - 1e-6) pure = true;   // (1-X) and (M-XW) cancel there: compare loosely
            if (mm.ul) { double q = lam / (rho * th->cp_mass()); std::fill(dm.begin(), dm.end(), q); dy = dm; }
            size_t nd = N(1, 3), lx = K + N(0, 3), lf = K + N(0, 3); Vd gx(nd * lx), gt(nd, 0.), f(nd * lf, -9e99); for (auto& v : gx) v = U(-1, 1) * LU(1e-3, 1e3); if (coin()) for (auto& v : gt) v = U(-1, 1) * 1e3;
            for (size_t n = 0; n < nd; n++) { double z = 0; for (size_t k = 0; k + 1 < K; k++) z += gx[n * lx + k]; gx[n * lx + K - 1] = -z; }
            Vd a(K), bb((K + 1) * K);
            for (int q = 0; q < 4; q++) switch (N(0, 8)) {
            case 0: log += "v"; eq("viscosity", tr->viscosity(), visc, 1e-8); break;
            case 1: { log += "s"; std::fill(a.begin(), a.end(), 0); tr->getSpeciesViscosities(a.data()); veq("species_viscosity", a, mu_, 1e-8); break; }
            case 2: log += "l"; if (mx) eq("conductivity", tr->thermalConductivity(), lam, 1e-8); break;
            case 3: { log += "b"; size_t ld = K + N(0, 1); if (K > 1 && coin(0.1)) must_throw("stride_too_small", [&] { tr->getBinaryDiffCoeffs(K - 1, bb.data()); }); tr->getBinaryDiffCoeffs(ld, bb.data()); for (size_t i = 0; i < K; i++) for (size_t j = 0; j < K; j++) eq("binary_diffusion_symmetric_and_inverse_in_pressure", bb[ld * j + i], D[i][j] / P, 1e-8); break; }
            case 4: { if (mm.multi) break; log += "d"; tr->getMixDiffCoeffs(a.data()); if (!pure || mm.ul || K == 1) veq("mixture_diffusion", a, dm, 1e-6); break; }
            case 5: { if (mm.multi) break; log += "e"; if (mm.ul) { must_throw("unity_lewis_has_no_mole_based_form", [&] { tr->getMixDiffCoeffsMole(a.data()); }); break; } tr->getMixDiffCoeffsMole(a.data()); if (!pure || K == 1) veq("mixture_diffusion_mole", a, dx, 1e-6); break; }
            case 6: { if (mm.multi) break; log += "y"; tr->getMixDiffCoeffsMass(a.data()); if (!pure || mm.ul || K == 1) veq("mixture_diffusion_mass", a, dy, 1e-6); break; }
            case 7: { log += "f"; tr->getSpeciesFluxes(nd, gt.data(), lx, gx.data(), lf, f.data());
                Vd f2(nd * lf, -9e99); Vd d(K); if (mx) { mx->getMixDiffCoeffs(d.data()); for (size_t n = 0; n < nd; n++) { double z = 0; for (size_t k = 0; k < K; k++) { f2[n * lf + k] = -rho / M * W[k] * d[k] * gx[n * lx + k]; z += f2[n * lf + k]; } double mxf = 0; for (size_t k = 0; k < K; k++) mxf = std::max(mxf, std::fabs(f2[n * lf + k])); for (size_t k = 0; k < K; k++) { f2[n * lf + k] -= Y[k] * z; eq("flux_formula", f[n * lf + k], f2[n * lf + k], 1e-9, 1e-9 * mxf); } } }
                for (size_t n = 0; n < nd; n++) { double z = 0, m = 0; for (size_t k = 0; k < K; k++) { z += f[n * lf + k]; m += std::fabs(f[n * lf + k]) + (mx ? rho / M * W[k] * d[k] * std::fabs(gx[n * lx + k]) : 0); } if (mx || !mm.multi) eq("fluxes_close_to_zero", z, 0, 0, 1e-9 * m); }
                for (size_t n = 0; n < nd; n++) for (size_t k = K; k < lf; k++) check("writes_only_its_block", f[n * lf + k] == -9e99); break; }
            default: { if (mx) { log += "m"; Vd d(K); mx->getMixDiffCoeffs(d.data()); tr->getMobilities(a.data()); for (size_t k = 0; k < K; k++) eq("mobility", a[k], d[k] * ElectronCharge / (Boltzmann * T), 1e-9); tr->getThermalDiffCoeffs(a.data()); for (double v : a) check("no_thermal_diffusion", v == 0); } } }
            if (mm.multi && coin(0.4)) {   // the reused object agrees with one that has never seen another state
                shared_ptr<Transport> fr; fr = newTransport(th, mm.model); if (poly) { auto* g = dynamic_cast<GasTransport*>(fr.get()); for (size_t k = 0; k < K; k++) { g->setViscosityPolynomial(k, vc[k].data()); g->setConductivityPolynomial(k, cc[k].data()); for (size_t j = 0; j < K; j++) g->setBinDiffusivityPolynomial(k, j, dc[k][j].data()); } }
                int which = N(0, 3); Vd g(nd * lf, -9e99), b2(K); log += string(1, "cghi"[which]);
                if (which == 0) eq("multi_conductivity_independent_of_history", tr->thermalConductivity(), fr->thermalConductivity(), 1e-6);
                else if (which == 1) { tr->getSpeciesFluxes(nd, gt.data(), lx, gx.data(), lf, f.data()); fr->getSpeciesFluxes(nd, gt.data(), lx, gx.data(), lf, g.data()); for (size_t n = 0; n < nd; n++) { double m = 0; for (size_t k = 0; k < K; k++) m = std::max(m, std::fabs(g[n * lf + k])); for (size_t k = 0; k < K; k++) eq("multi_fluxes_independent_of_history", f[n * lf + k], g[n * lf + k], 1e-6, 1e-6 * m); } }
                else if (which == 2) { tr->getThermalDiffCoeffs(a.data()); fr->getThermalDiffCoeffs(b2.data()); double m = 0; for (double v : b2) m = std::max(m, std::fabs(v)); veq("multi_thermal_diffusion_independent_of_history", a, b2, 1e-6, 1e-6 * m); }
                else { Vd b3((K + 1) * K); tr->getMultiDiffCoeffs(K, bb.data()); fr->getMultiDiffCoeffs(K, b3.data()); bb.resize(K * K); b3.resize(K * K); double m = 0; for (double v : b3) m = std::max(m, std::fabs(v)); veq("multi_diffusion_independent_of_history", bb, b3, 1e-6, 1e-6 * m); }
            }
        }
        }); cases()++; }
    return done();
}
