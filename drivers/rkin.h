// random gas mechanisms with an independent record of what was put in
#pragma once
#include "vd.h"
#include "cantera/core.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/thermo/ConstCpPoly.h"
#include "cantera/thermo/Species.h"
#include "cantera/kinetics/BulkKinetics.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/kinetics/Falloff.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string; typedef vector<double> Vd; typedef vector<Vd> Md;
struct Rx { Composition nr, np, ord; bool rev = true, third = false, fall = false, chem = false; Vd eff; double def = 1; double A, b, E, A0, b0, E0; shared_ptr<Reaction> r; };
struct Net { shared_ptr<IdealGasPhase> gas; shared_ptr<Solution> sol; shared_ptr<Kinetics> kin; vector<Rx> rx; size_t K; vector<string> nm; vector<int> at; };
inline string desc(const Rx& x) { string s; for (auto& [n, v] : x.nr) s += str(v) + n + " "; s += x.rev ? "<=>" : "=>"; for (auto& [n, v] : x.np) s += str(v) + n + " "; if (x.ord.size()) { s += " orders"; for (auto& [n, v] : x.ord) s += " " + n + str(v); } if (x.third) s += " third-body"; if (x.fall) s += " falloff"; return s; }
// every species consists of one to three atoms of the same element; atom totals are matched so that each reaction balances
inline Net rnet(size_t K, size_t R, bool orders = true, bool fractional = true, bool thirds = true) {
    Net n; n.K = K; n.gas = std::make_shared<IdealGasPhase>(); n.gas->addElement("H");
    for (size_t k = 0; k < K; k++) { string nm = string(1, char('A' + (k * 7) % 26)) + std::to_string(k); n.nm.push_back(nm); auto s = std::make_shared<Species>(nm, Composition{{"H", double(k == 0 ? n.at.push_back(1), 1 : (n.at.push_back(N(1, 3)), n.at.back()))}}); double c[4] = {298.15, U(-1e8, 1e8), U(5e4, 3e5), U(2e4, 6e4)}; s->thermo = std::make_shared<ConstCpPoly>(100, 5000, OneAtm, c); n.gas->addSpecies(s); }
    n.gas->initThermo(); n.sol = Solution::create(); n.sol->setThermo(n.gas);
    n.kin = newKinetics("bulk"); n.kin->addThermo(n.gas); n.kin->init(); n.sol->setKinetics(n.kin);
    for (size_t i = 0; i < R; i++) {
        Rx x; auto pick = [&](Composition& c, double total, bool frac) { c.clear(); if (frac) { size_t m = N(1, 5); double left = total; for (size_t q = 0; q < m; q++) { double v = q + 1 == m ? left : left * U(0.1, 0.7); if (coin(0.2) && left > 1) v = std::min(1.0, left); int kk = -1; if (coin(0.3)) { kk = N(0, K - 1); double w = n.at[kk] * (N(1, 2) + (coin() ? 1 : -1) * LU(1e-7, 2e-2)); if (w < left && q + 1 < m) v = w; else kk = -1; } size_t k = kk >= 0 ? kk : N(0, K - 1); c[n.nm[k]] += v / n.at[k]; left -= v; if (left <= 1e-9) break; } } else { int left = total; while (left > 0) { size_t k = coin(0.3) && !c.empty() ? (size_t)0 : N(0, K - 1); if (n.at[k] > left) continue; c[n.nm[k]] += 1; left -= n.at[k]; } } };
        int t = N(1, 7); if (coin(0.6)) t = N(1, 4);
        bool fr = fractional && coin(0.25), fp = fractional && coin(0.3); pick(x.nr, t, fr); pick(x.np, t, fp);
        double s1 = 0, s2 = 0; for (auto& [q, v] : x.nr) s1 += v * n.at[n.gas->speciesIndex(q)]; for (auto& [q, v] : x.np) s2 += v * n.at[n.gas->speciesIndex(q)]; if (std::fabs(s1 - s2) > 1e-9) { i--; continue; }
        x.rev = coin(0.6) && !fr && !fp;
        if (orders && !x.rev && coin(0.4)) { auto it = x.nr.begin(); x.ord[it->first] = coin() ? N(0, 3) : U(0.2, 2.5); if (coin(0.4)) x.ord[n.nm[N(0, K - 1)]] = coin() ? N(0, 3) : U(0.2, 2); }
        int kind = thirds ? N(0, 3) : 0; x.third = kind == 1; x.fall = kind >= 2; x.chem = kind == 3;
        x.A = LU(1e-2, 1e6); x.b = U(-1, 2); x.E = U(0, 5e7); x.A0 = LU(1e-2, 1e6); x.b0 = U(-1, 2); x.E0 = U(0, 5e7);
        shared_ptr<ThirdBody> tb; if (x.third || x.fall) { tb = std::make_shared<ThirdBody>("M"); x.def = coin(0.6) ? 1 : coin(0.3) ? 0 : U(0, 2); tb->default_efficiency = x.def; x.eff.assign(K, x.def); size_t ne = N(0, K); for (size_t q = 0; q < ne; q++) { size_t k = N(0, K - 1); double e = coin(0.2) ? 0 : coin(0.2) ? x.def : coin(0.2) ? N(1, 3) : coin(0.1) ? x.def * (1 + (coin() ? 1 : -1) * LU(1e-6, 1e-2)) : U(0, 6); tb->efficiencies[n.nm[k]] = e; x.eff[k] = e; } bool allz = x.def != 0; for (double e : x.eff) if (e != 0) allz = false; if (allz) { tb->efficiencies[n.nm[0]] = 2; x.eff[0] = 2; } // with every efficiency zero the sum cancels only up to round-off
        }
        shared_ptr<ReactionRate> rate; if (x.fall) { auto f = std::make_shared<LindemannRate>(); f->setChemicallyActivated(x.chem); f->setLowRate(ArrheniusRate(x.A0, x.b0, x.E0)); f->setHighRate(ArrheniusRate(x.A, x.b, x.E)); rate = f; } else rate = std::make_shared<ArrheniusRate>(x.A, x.b, x.E);
        x.r = std::make_shared<Reaction>(x.nr, x.np, rate, tb); if (!tb && x.r->thirdBody()) { x.third = true; x.def = 0; x.eff.assign(K, 0.); for (auto& [q, v] : x.r->thirdBody()->efficiencies) x.eff[n.gas->speciesIndex(q)] = v; } x.r->reversible = x.rev; x.r->orders = x.ord; x.r->allow_nonreactant_orders = true;
        n.kin->addReaction(x.r, coin(0.3)); n.rx.push_back(x);
    }
    n.kin->resizeReactions(); return n;
}
inline void rstate(Net& n, double& T, double& P, Vd& X, bool zeros = true) {
    int op = N(0, 5); double T2 = nearby(T, U(300, 2500)), P2 = nearby(P, LU(1e3, 1e7)); Vd x2(n.K); double t = 0; for (auto& x : x2) { x = zeros && coin(0.15) ? 0 : LU(1e-3, 1); t += x; } if (t <= 0) { x2[0] = 1; t = 1; } for (auto& x : x2) x /= t;
    if (op == 0) T = T2; else if (op == 1) P = P2; else if (op == 2) X = x2; else if (op == 3) { size_t a = N(0, n.K - 1), b = N(0, n.K - 1); std::swap(X[a], X[b]); } else { T = T2; P = P2; X = x2; }
    n.gas->setState_TPX(T, P, X.data());
}
