#include "vd.h"
#include "cantera/thermo/NasaPoly1.h"
#include "cantera/thermo/NasaPoly2.h"
#include "cantera/thermo/Nasa9Poly1.h"
#include "cantera/thermo/Nasa9PolyMultiTempRegion.h"
#include "cantera/thermo/ShomatePoly.h"
#include "cantera/thermo/ConstCpPoly.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/speciesThermoTypes.h"
#include "cantera/base/global.h"
using namespace Cantera; using namespace vd; using std::vector; using std::map;
using STP = std::shared_ptr<SpeciesThermoInterpType>;
struct Ref { int kind; vector<double> br; vector<vector<double>> c; double dH = 0; };   // kind 0 nasa7, 1 nasa9, 2 shomate, 3 const cp
static void eval(const Ref& r, double T, double& cp, double& h, double& s) {   // cp, h [J/kmol], s in J/kmol/K
    const double R = GasConstant; size_t i = 0;
    if (r.kind == 1) { while (i + 1 < r.c.size() && T >= r.br[i + 1]) i++; } else if (r.c.size() == 2) i = T <= r.br[1] ? 0 : 1;
    auto& a = r.c[i]; double L = std::log(T);
    if (r.kind == 0) { cp = R * (a[0] + a[1] * T + a[2] * T * T + a[3] * T * T * T + a[4] * std::pow(T, 4)); h = R * (a[0] * T + a[1] / 2 * T * T + a[2] / 3 * std::pow(T, 3) + a[3] / 4 * std::pow(T, 4) + a[4] / 5 * std::pow(T, 5) + a[5]); s = R * (a[0] * L + a[1] * T + a[2] / 2 * T * T + a[3] / 3 * std::pow(T, 3) + a[4] / 4 * std::pow(T, 4) + a[6]); }
    else if (r.kind == 1) { cp = R * (a[0] / T / T + a[1] / T + a[2] + a[3] * T + a[4] * T * T + a[5] * std::pow(T, 3) + a[6] * std::pow(T, 4)); h = R * (-a[0] / T + a[1] * L + a[2] * T + a[3] / 2 * T * T + a[4] / 3 * std::pow(T, 3) + a[5] / 4 * std::pow(T, 4) + a[6] / 5 * std::pow(T, 5) + a[7]); s = R * (-a[0] / 2 / T / T - a[1] / T + a[2] * L + a[3] * T + a[4] / 2 * T * T + a[5] / 3 * std::pow(T, 3) + a[6] / 4 * std::pow(T, 4) + a[8]); }
    else if (r.kind == 2) { double t = T / 1000; cp = 1000 * (a[0] + a[1] * t + a[2] * t * t + a[3] * t * t * t + a[4] / t / t); h = 1e6 * (a[0] * t + a[1] * t * t / 2 + a[2] * t * t * t / 3 + a[3] * std::pow(t, 4) / 4 - a[4] / t + a[5]); s = 1000 * (a[0] * std::log(t) + a[1] * t + a[2] * t * t / 2 + a[3] * t * t * t / 3 - a[4] / 2 / t / t + a[6]); }
    else { cp = a[3]; h = a[1] + a[3] * (T - a[0]); s = a[2] + a[3] * std::log(T / a[0]); }
    h += r.dH;
}
static STP make(Ref& r, double pref = OneAtm, int kind = -1) {
    r = Ref(); r.kind = kind < 0 ? N(0, 3) : kind; auto U7 = [&] { return vector<double>{U(-5, 10), U(-1e-2, 1e-2), U(-1e-5, 1e-5), U(-1e-8, 1e-8), U(-1e-12, 1e-12), U(-1e5, 1e5), U(-50, 50)}; };
    double Tl = U(100, 280), Th = U(2000, 6000);
    if (coin(0.3)) Tl = U(300, 500);
    size_t n = r.kind == 0 || r.kind == 2 ? N(1, 2) : r.kind == 1 ? N(1, 4) : 1; r.br.push_back(Tl); for (size_t i = 1; i < n; i++) r.br.push_back(coin(0.2) && n == 2 && Tl < 290 ? 298.15 : Tl + (Th - Tl) * (i + U(-0.3, 0.3)) / n); r.br.push_back(Th);
    for (size_t i = 0; i < n; i++) {
        if (r.kind == 0) r.c.push_back(U7());
        else if (r.kind == 1) { auto c = U7(); vector<double> d{U(-1e5, 1e5), U(-1e3, 1e3), c[0], c[1], c[2], c[3], c[4], c[5], c[6]}; r.c.push_back(d); }
        else if (r.kind == 2) r.c.push_back({U(0, 100), U(-50, 50), U(-20, 20), U(-5, 5), U(-3, 3), U(-400, 400), U(0, 400)});
        else r.c.push_back({coin() ? 298.15 : U(200, 1000), U(-5e8, 5e8), U(0, 4e5), U(-1e4, 3e5)});
    }
    bool viaArray = coin(); auto cat = [](double t, const vector<double>& a, const vector<double>& b) { vector<double> v{t}; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); return v; };
    STP p;
    if (r.kind == 0 && n == 1) { if (viaArray) p.reset(new NasaPoly1(Tl, Th, pref, r.c[0].data())); else { auto q = std::make_shared<NasaPoly1>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); q->setParameters(r.c[0]); p = q; } }
    else if (r.kind == 0) { if (viaArray) p.reset(new NasaPoly2(Tl, Th, pref, cat(r.br[1], r.c[1], r.c[0]).data())); else { auto q = std::make_shared<NasaPoly2>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); q->setParameters(r.br[1], r.c[0], r.c[1]); p = q; } }
    else if (r.kind == 2 && n == 1) { if (viaArray) p.reset(new ShomatePoly(Tl, Th, pref, r.c[0].data())); else { auto q = std::make_shared<ShomatePoly>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); q->setParameters(r.c[0]); p = q; } }
    else if (r.kind == 2) { if (viaArray) p.reset(new ShomatePoly2(Tl, Th, pref, cat(r.br[1], r.c[0], r.c[1]).data())); else { auto q = std::make_shared<ShomatePoly2>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); q->setParameters(r.br[1], r.c[0], r.c[1]); p = q; } }
    else if (r.kind == 1) {
        int w = N(0, 2);
        if (w == 0) { vector<double> v{double(n)}; for (size_t i = 0; i < n; i++) { v.push_back(r.br[i]); v.push_back(r.br[i + 1]); v.insert(v.end(), r.c[i].begin(), r.c[i].end()); } p.reset(new Nasa9PolyMultiTempRegion(Tl, Th, pref, v.data())); }
        else if (w == 1) { vector<Nasa9Poly1*> v; for (size_t i = 0; i < n; i++) v.push_back(new Nasa9Poly1(r.br[i], r.br[i + 1], pref, r.c[i].data())); p.reset(new Nasa9PolyMultiTempRegion(v)); }
        else { auto q = std::make_shared<Nasa9PolyMultiTempRegion>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); map<double, vector<double>> m; for (size_t i = 0; i < n; i++) m[r.br[i]] = r.c[i]; q->setParameters(m); p = q; }
    } else { if (viaArray) p.reset(new ConstCpPoly(Tl, Th, pref, r.c[0].data())); else { auto q = std::make_shared<ConstCpPoly>(); q->setMinTemp(Tl); q->setMaxTemp(Th); q->setRefPressure(pref); q->setParameters(r.c[0][0], r.c[0][1], r.c[0][2], r.c[0][3]); p = q; } }
    return p;
}
static string desc(const Ref& r) { string s = str("kind", r.kind, "ranges", vec(r.br)); for (auto& c : r.c) s += vec(c); return s; }
static double temp(const Ref& r) { double x = U(); if (x < 0.25 && r.br.size() > 2) { double b = r.br[N(1, (long)r.br.size() - 2)]; if (r.kind == 2) return b * (coin() ? 1 + 1e-12 : 1 - 1e-12); return x < 0.1 ? b : b * (coin() ? 1 + 1e-12 : 1 - 1e-12); } if (x < 0.3) return 298.15; if (x < 0.35) return r.br[0]; if (x < 0.4) return r.br.back(); return U(r.br[0] * 0.8, r.br.back() * 1.1); }
static void cmp(const char* cl, const Ref& r, double T, const double* g) {
    double cp, h, s; eval(r, T, cp, h, s); double sc = GasConstant * (std::fabs(cp) / GasConstant + 100);
    eq(cl, g[0] * GasConstant, cp, 1e-9, 1e-9 * sc, "cp"); eq(cl, g[1] * GasConstant * T, h, 1e-9, 1e-8 * sc * T + 1e-9 * std::fabs(r.dH), "h"); eq(cl, g[2] * GasConstant, s, 1e-9, 1e-8 * sc, "s");
}
int main() {
    suppress_warnings(); suppress_thermo_warnings();
    for (int it = 0; it < reps(6000); it++) {
        Ref r; STP p; guard("construct", [&] { p = make(r); }); if (!p) continue; ctx() = desc(r);
        eq("ranges", p->minTemp(), r.br[0]); eq("ranges", p->maxTemp(), r.br.back()); eq("ranges", p->refPressure(), OneAtm);
        auto probe = [&](const char* w) { for (int q = 0; q < 4; q++) guard(w, [&] {
            double T = temp(r); string sv = ctx(); ctx() += str(" ", w, "dH", r.dH, "T", T); double g[3]; p->updatePropertiesTemp(T, g, g + 1, g + 2); cmp(w, r, T, g);
            vector<double> tp(p->temperaturePolySize() + 1, -77), k(3); p->updateTemperaturePoly(T, tp.data()); check("poly_extent", tp.back() == -77); p->updateProperties(tp.data(), &k[0], &k[1], &k[2]); cmp("via_polynomial", r, T, k.data());
            // numerical integrals
            double hh = 1e-4 * T, a[3], b[3]; bool same = true; for (size_t i = 1; i + 1 < r.br.size(); i++) if (std::fabs(T - r.br[i]) <= 2 * hh) same = false;
            if (same) { p->updatePropertiesTemp(T - hh, a, a + 1, a + 2); p->updatePropertiesTemp(T + hh, b, b + 1, b + 2); double sc = std::fabs(g[0]) + 100 + std::fabs(g[1]) * 1e-3; eq("dh_dT_is_cp", (b[1] * (T + hh) - a[1] * (T - hh)) / (2 * hh), g[0], 1e-5, 1e-5 * sc); eq("ds_dT_is_cp_over_T", (b[2] - a[2]) / (2 * hh) * T, g[0], 1e-5, 1e-5 * sc); }
            ctx() = sv; }); };
        probe("value");
        if (r.kind != 1) {
            auto h298 = [&] { double cp, h, s; eval(r, 298.15, cp, h, s); return h; };
            for (int q = 0; q < 4; q++) guard("hf298", [&] {
                eq("hf298_reported", p->reportHf298(), h298(), 1e-9, 1e-2); 
                if (coin(0.6)) { double n = U(-5e8, 5e8); double d = n - h298(); p->modifyOneHf298(0, n); r.dH += d; eq("hf298_new", p->reportHf298(), n, 1e-9, 1e-2); ctx() += str(" modify", n); probe("after_modify"); }
                else { p->resetHf298(); r.dH = 0; ctx() += " reset"; probe("after_reset"); } });
        }
        guard("parameters", [&] { if (r.dH) { p->resetHf298(); r.dH = 0; }
            vector<double> c(1 + 11 * 5); size_t n; int type; double a, b, pr; p->reportParameters(n, type, a, b, pr, c.data());
            STP q(newSpeciesThermoInterpType(r.kind == 2 && r.c.size() == 1 ? SHOMATE1 : type, a, b, pr, c.data())); for (int k = 0; k < 3; k++) { double T = temp(r), g[3]; q->updatePropertiesTemp(T, g, g + 1, g + 2); cmp("reported_parameters", r, T, g); } });
        // reset on a chosen-at-random copy of nothing: wrong lengths are rejected
        if (it % 20 == 0) { NasaPoly1 a; Nasa9Poly1 b; ShomatePoly s; for (size_t n : {0, 6, 8, 9}) { vector<double> v(n, 1); must_throw("wrong_length", [&] { a.setParameters(v); }); must_throw("wrong_length", [&] { s.setParameters(v); }); if (n != 9) must_throw("wrong_length", [&] { b.setParameters(v); }); } }
    }
    // collections: every species index is served by its own parameterization
    for (int it = 0; it < reps(400); it++) {
        size_t K = N(1, 9); vector<Ref> RR(K); vector<STP> SS(K); MultiSpeciesThermo m; vector<size_t> order(K); for (size_t k = 0; k < K; k++) order[k] = k; if (coin()) std::shuffle(order.begin(), order.end(), rng());
        guard("install", [&] { for (size_t k : order) { SS[k] = make(RR[k]); m.install_STIT(k, SS[k]); } });
        must_throw("other_reference_pressure", [&] { Ref r; m.install_STIT(K, make(r, 1e5)); });
        check("ready", m.ready(K) && !m.ready(K + 1));
        double lo = 0, hi = 1e30; for (auto& r : RR) { lo = std::max(lo, r.br[0]); hi = std::min(hi, r.br.back()); } eq("min_temp", m.minTemp(), lo); eq("max_temp", m.maxTemp(), hi);
        for (int q = 0; q < 6; q++) {
            double T = temp(RR[N(0, K - 1)]); ctx() = str("K", K, "T", T); vector<double> cp(K + 1, 5), h(K + 1, 5), s(K + 1, 5); guard("update", [&] { m.update(T, cp.data(), h.data(), s.data()); check("extent", cp[K] == 5 && h[K] == 5 && s[K] == 5);
                for (size_t k = 0; k < K; k++) { if (RR[k].kind == 2 && RR[k].c.size() == 2 && std::fabs(T - RR[k].br[1]) < 1e-9 * T) continue; string sv = ctx(); ctx() += str(" species", k) + desc(RR[k]); double g[3] = {cp[k], h[k], s[k]}; cmp("collection", RR[k], T, g); double d[3]; m.update_single(k, T, d, d + 1, d + 2); cmp("collection_single", RR[k], T, d); eq("collection_min", m.minTemp(k), RR[k].br[0]); eq("collection_max", m.maxTemp(k), RR[k].br.back()); check("collection_type", m.reportType(k) == SS[k]->reportType()); ctx() = sv; } });
            size_t k = N(0, K - 1); if (RR[k].kind != 1) guard("collection_hf298", [&] { double c, hh, ss; eval(RR[k], 298.15, c, hh, ss); if (coin(0.6)) { double n = U(-5e8, 5e8); m.modifyOneHf298(k, n); RR[k].dH += n - hh; eq("collection_hf298", m.reportOneHf298(k), n, 1e-9, 1e-2); } else { m.resetHf298(k); RR[k].dH = 0; } });
            if (coin(0.3)) guard("replace_species", [&] { size_t j = N(0, K - 1); Ref r; STP p = make(r, OneAtm, RR[j].kind); if (p->reportType() == SS[j]->reportType() && r.br[0] <= lo && r.br.back() >= hi) { m.modifySpecies(j, p); RR[j] = r; SS[j] = p; } else must_throw("incompatible_replacement", [&] { if (p->reportType() != SS[j]->reportType() || p->minTemp() > m.minTemp() || p->maxTemp() < m.maxTemp()) m.modifySpecies(j, p); else throw std::runtime_error("skip"); }); });
        }
    }
    return done();
}
