#include "vd.h"
#include "cantera/zerodim.h"
#include "cantera/thermo.h"
#include "cantera/kinetics.h"
#include "cantera/base/Solution.h"
#include "cantera/numerics/Func1.h"
using namespace Cantera; using namespace vd; using std::vector; using std::string;
struct Lin : public Func1 { double a, b; Lin(double a_, double b_) : a(a_), b(b_) {} double eval(double x) const override { return a + b * x; } };
static std::shared_ptr<Solution> mix(const char* f) { auto s = newSolution(f, "", "none"); auto th = s->thermo(); vector<double> X(th->nSpecies()); for (auto& x : X) x = coin(0.3) ? 0 : U(); X[N(0, X.size() - 1)] += 0.1; th->setMoleFractions(X.data()); th->setState_TP(U(300, 2500), LU(1e3, 1e7)); return s; }
static const char* RT[] = {"Reservoir", "IdealGasReactor", "Reactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "IdealGasMoleReactor", "IdealGasConstPressureMoleReactor"};
int main() {
    suppress_warnings(); suppress_deprecation_warnings();
    const double sb = 2 * std::pow(M_PI, 5) * std::pow(1.380649e-23, 4) / (15 * std::pow(6.62607015e-34, 3) * std::pow(299792458.0, 2));
    for (int it = 0; it < reps(600); it++) {
        auto s1 = mix(coin() ? "h2o2.yaml" : "gri30.yaml"), s2 = mix(coin(0.7) ? "h2o2.yaml" : "air.yaml"), s3 = mix("h2o2.yaml");
        auto a = newReactor(RT[N(0, 6)], s1), b = newReactor(RT[N(0, 6)], s2); if (a->type() != "Reservoir") a->setInitialVolume(LU(0.1, 10));
        ctx() = str(a->type(), b->type(), "T", a->temperature(), b->temperature(), "P", a->pressure(), b->pressure());
        guard("wall", [&] {
            auto wb = newWall("Wall", a, b); auto w = std::dynamic_pointer_cast<Wall>(wb); Lin vf(U(-1, 1), U(-1, 1)), qf(U(-1e3, 1e3), U(-1e3, 1e3));
            double A = 1, k = 0, h = 0, em = 0, t = 0; bool hv = false, hq = false;
            for (int q = 0; q < 12; q++) {
                switch (N(0, 9)) { case 0: A = LU(0.01, 10); w->setArea(A); break; case 1: k = LU(1e-8, 1e-3); w->setExpansionRateCoeff(k); break; case 2: h = LU(0.1, 1e4); w->setHeatTransferCoeff(h); break; case 3: { double R = LU(1e-4, 10); w->setThermalResistance(R); h = 1 / R; break; }
                    case 4: em = coin(0.3) ? coin() : U(); w->setEmissivity(em); break; case 5: w->setVelocity(&vf); hv = true; break; case 6: w->setHeatFlux(&qf); hq = true; break; case 7: t = U(0, 10); w->setSimTime(t); break;
                    case 8: { double x = coin() ? 1 + LU(1e-9, 10) : -LU(1e-9, 10); must_throw("bad_emissivity", [&] { w->setEmissivity(x); }); break; }
                    case 9: { auto& s = coin() ? s1 : s2; auto& r = s == s1 ? a : b; s->thermo()->setState_TP(U(300, 2500), LU(1e3, 1e7)); r->syncState(); break; } }
                double dT = a->temperature() - b->temperature(), sc = std::fabs(A * h * dT) + em * A * sb * (std::pow(a->temperature(), 4) + std::pow(b->temperature(), 4)) + 1e3;
                eq("heatRate", w->heatRate(), A * h * dT + em * A * sb * (std::pow(a->temperature(), 4) - std::pow(b->temperature(), 4)) + (hq ? A * qf.eval(t) : 0), 1e-9, 1e-12 * sc);
                eq("expansionRate", w->expansionRate(), k * A * (a->pressure() - b->pressure()) + (hv ? A * vf.eval(t) : 0), 1e-9, 1e-15);
                eq("velocity", w->velocity(), hv ? vf.eval(t) : 0); eq("heatFlux", w->heatFlux(), hq ? qf.eval(t) : 0);
                check("read_back", w->area() == A && w->getExpansionRateCoeff() == k && w->getHeatTransferCoeff() == h && w->getEmissivity() == em); }
            // the two reactors see the same rates with opposite signs
            auto r1 = std::dynamic_pointer_cast<Reactor>(a), r2 = std::dynamic_pointer_cast<Reactor>(b);
            auto w2 = std::dynamic_pointer_cast<Wall>(newWall("Wall", b, a)); w2->setHeatTransferCoeff(3.5); w2->setExpansionRateCoeff(1e-6);
            double V = w->expansionRate() - w2->expansionRate(), H = w->heatRate() - w2->heatRate(), at = 1e-9 * (std::fabs(w->heatRate()) + std::fabs(w2->heatRate()) + 1e-20), av = 1e-9 * (std::fabs(w->expansionRate()) + std::fabs(w2->expansionRate()) + 1e-20);
            if (r1 && a->type() != "Reservoir") { r1->evalWalls(t); eq("left_side", r1->m_vdot, V, 1e-9, av); eq("left_side", r1->m_Qdot, -H, 1e-9, at); }
            if (r2 && b->type() != "Reservoir") { r2->evalWalls(t); eq("right_side", r2->m_vdot, -V, 1e-9, av); eq("right_side", r2->m_Qdot, H, 1e-9, at); }
        });
        guard("flow", [&] {
            auto c = newReactor("Reservoir", s3);
            auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", a, b)); auto v = std::dynamic_pointer_cast<Valve>(newFlowDevice("Valve", a, b)); auto p = std::dynamic_pointer_cast<PressureController>(newFlowDevice("PressureController", b, c));
            must_throw("not_updated_yet", [&] { m->massFlowRate(); }); must_throw("not_updated_yet", [&] { v->massFlowRate(); }); must_throw("primary_missing", [&] { p->updateMassFlowRate(0); }); must_throw("mfc_pressure_function", [&] { m->setPressureFunction(nullptr); }); must_throw("pc_time_function", [&] { p->setTimeFunction(nullptr); });
            p->setPrimary(coin() ? (FlowDevice*)m.get() : (FlowDevice*)v.get()); bool pm = p->m_primary == m.get();
            double cm = 1, cv = 1, cp = 1; Lin* tm = nullptr; Lin* tv = nullptr; Lin* pv = nullptr; Lin* pp = nullptr; Lin f1(U(-1, 1), U(-1, 1)), f2(U(-1, 1), U(-1, 1)), g1(U(-1, 1), U(-1e-5, 1e-5)), g2(U(-1, 1), U(-1e-5, 1e-5));
            for (int q = 0; q < 14; q++) {
                double t = U(0, 5), z = coin(0.8) ? LU(1e-6, 10) : -LU(1e-6, 10);
                switch (N(0, 8)) { case 0: cm = z; m->setMassFlowRate(z); tm = nullptr; break; case 1: cm = z; m->setMassFlowCoeff(z); break; case 2: cv = z; v->setValveCoeff(z); break; case 3: cp = z; p->setPressureCoeff(z); break;
                    case 4: tm = &f1; m->setTimeFunction(tm); break; case 5: tv = &f2; v->setTimeFunction(tv); break; case 6: pv = &g1; v->setPressureFunction(pv); break; case 7: pp = &g2; p->setPressureFunction(pp); break;
                    case 8: { auto& s = coin() ? s1 : s2; auto& r = s == s1 ? a : b; s->thermo()->setState_TP(U(300, 2500), LU(1e3, 1e7)); r->syncState(); break; } }
                double dab = a->pressure() - b->pressure(), dbc = b->pressure() - c->pressure(); ctx() = str("t", t, cm, cv, cp);
                double wm = std::max(0.0, cm * (tm ? tm->eval(t) : 1)), wv = std::max(0.0, cv * (tv ? tv->eval(t) : 1) * (pv ? pv->eval(dab) : dab));
                m->updateMassFlowRate(t); eq("mass_flow_controller", m->massFlowRate(), wm, 1e-12); v->updateMassFlowRate(t); eq("valve", v->massFlowRate(), wv, 1e-12);
                p->updateMassFlowRate(t); double prim = pm ? wm : wv; eq("pressure_controller", p->massFlowRate(), std::max(0.0, prim + cp * (pp ? pp->eval(dbc) : dbc)), 1e-9, 1e-9 * prim + 1e-12 * std::fabs(cp * dbc));
                // a controller refreshes its primary for the same time
                p->updateMassFlowRate(t + 0.5); double wm2 = std::max(0.0, cm * (tm ? tm->eval(t + 0.5) : 1)), wv2 = std::max(0.0, cv * (tv ? tv->eval(t + 0.5) : 1) * (pv ? pv->eval(dab) : dab)); eq("primary_time", p->m_primary->massFlowRate(), pm ? wm2 : wv2, 1e-12);
                check("read_back", m->getMassFlowCoeff() == cm && v->getValveCoeff() == cv && p->getPressureCoeff() == cp);
                for (FlowDevice* d : {(FlowDevice*)m.get(), (FlowDevice*)v.get()}) { double sum = 0; auto up = s1->thermo(), dn = s2->thermo(); for (size_t k = 0; k < dn->nSpecies() + 3; k++) { double w = 0; if (k < dn->nSpecies()) { size_t ki = up->speciesIndex(dn->speciesName(k)); if (ki != npos) w = d->massFlowRate() * a->massFraction(ki); } eq("upstream_composition", d->outletSpeciesMassFlowRate(k), w, 1e-12); sum += w; }
                    if (up->nSpecies() == dn->nSpecies() && up->speciesName(0) == dn->speciesName(0)) eq("all_mass_delivered", sum, d->massFlowRate(), 1e-10); eq("upstream_enthalpy", d->enthalpy_mass(), a->enthalpy_mass(), 1e-13); check("ends", &d->in() == a.get() && &d->out() == b.get()); }
                for (double x : {-1e3, 0.0, 2e4}) (void)x;
                eq("evalTimeFunction", (v->setSimTime(t), v->evalTimeFunction()), tv ? tv->eval(t) : 1); eq("evalPressureFunction", v->evalPressureFunction(), pv ? pv->eval(dab) : dab); }
        });
    }
    guard("not_installed", [] { must_throw("not_installed", [] { Wall w; w.heatRate(); }); must_throw("not_installed", [] { Wall w; w.expansionRate(); }); must_throw("not_installed", [] { MassFlowController m; m.updateMassFlowRate(0); }); must_throw("not_installed", [] { Valve m; m.updateMassFlowRate(0); }); must_throw("not_installed", [] { PressureController m; m.updateMassFlowRate(0); }); });
    guard("install", [] { auto s = newSolution("h2o2.yaml", "", "none"); auto a = newReactor("Reservoir", s), b = newReactor("IdealGasReactor", s); Valve v; check("install", v.install(*a, *b)); must_throw("install_once", [&] { v.install(*b, *a); }); check("install", &v.in() == a.get() && b->nInlets() == 1 && a->nOutlets() == 1); Wall w; check("install", w.install(*a, *b) && !w.install(*b, *a) && &w.left() == a.get() && &w.right() == b.get() && w.ready()); });
    // a constant rate replaces a time function, which stays with its owner
    guard("constant_rate", [] { auto s = newSolution("h2o2.yaml", "", "none"); auto a = newReactor("Reservoir", s), b = newReactor("IdealGasReactor", s); auto m = std::dynamic_pointer_cast<MassFlowController>(newFlowDevice("MassFlowController", a, b));
        auto f = std::make_shared<Lin>(0, 1); m->setTimeFunction(f.get()); m->setMassFlowRate(0.25); m->updateMassFlowRate(7.0); eq("constant_rate", m->massFlowRate(), 0.25); eq("constant_rate", f->eval(3.0), 3.0); m->setMassFlowRate(0.5); m->updateMassFlowRate(7.0); eq("constant_rate", m->massFlowRate(), 0.5); });
    return done();
}
