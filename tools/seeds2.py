TP = "cantera/thermo/ThermoPhase.h"
SEEDS = [
dict(id="C07_chebyshev_small_pressure_change", prop="C07", inc=["cantera/kinetics/ChebyshevRate.h"],
 edits=[("include/cantera/kinetics/ChebyshevRate.h", "        if (shared_data.log10P != m_log10P) {", "        // negated so that the initial NaN triggers an update\n        if (!(std::abs(shared_data.log10P - m_log10P) < 1e-4)) {")],
 needs="two evaluations of the same Chebyshev rate at pressures that differ by less than 0.02 percent (as in finite differences with respect to pressure)",
 breaks="the rate keeps using the pressure polynomials of the previous pressure",
 demo='''    Array2D c(2, 2); c(0, 0) = 3; c(0, 1) = 2; c(1, 0) = 0.5; c(1, 1) = 0.7; ChebyshevRate r(300, 2000, 1e3, 1e7, c), q(300, 2000, 1e3, 1e7, c);
    for (double P : {1e5, 1e5 * (1 + 1e-5), 2e5}) { ChebyshevData d; d.update(1000.0, P); r.updateFromStruct(d); double got = r.evalFromStruct(d); ChebyshevRate f(300, 2000, 1e3, 1e7, c); f.updateFromStruct(d); near("rate after a pressure change", got, f.evalFromStruct(d), 1e-13); }'''),
dict(id="C10_stack_merges_convertible", prop="C10", inc=["cantera/base/Units.h"],
 edits=[("src/base/Units.cpp", "        if (current_unit == units) {\n            current_exp += exponent;", "        if (current_unit.convertible(units)) {\n            current_exp += exponent;")],
 needs="a unit stack updated with two units of the same dimension but different scale (cm and m, mol and kmol)",
 breaks="the product of the stacked units loses the scale of the second unit",
 demo='''    UnitStack s(Units("m")); s.join(1.0); s.update(Units("cm"), 1.0); Units p = s.product(); near("factor of m*cm", p.factor(), 0.01, 1e-12); near("length dimension", p.dimension("length"), 2.0);
    UnitStack q(Units("m")); q.join(1.0); q.update(Units("m"), 2.0); near("cubic metre", q.product().factor(), 1.0); near("dimension", q.product().dimension("length"), 3.0);'''),
dict(id="C12_simpson_nearly_uniform", prop="C12", inc=["cantera/numerics/funcs.h"],
 edits=[("src/numerics/funcs.cpp", "        double hdh = h1 / h0;\n        double hmh = h1 * h0;\n", "        double hdh = h1 / h0;\n        double hmh = h1 * h0;\n        if (fabs(hdh - 1.0) < 1e-2) {\n            // equidistant points: classical rule\n            sum += (hph / 6.0) * (f[i - 1] + 4.0 * f[i] + f[i + 1]);\n            continue;\n        }\n")],
 needs="a grid on which two neighbouring intervals differ by less than one percent without being equal",
 breaks="Simpson integration is no longer exact for quadratics on such grids",
 demo='''    Eigen::ArrayXd x(5), f(5); double p[5] = {0, 0.5, 1.004, 1.5, 2.0}; for (int i = 0; i < 5; i++) { x[i] = p[i]; f[i] = p[i] * p[i] + p[i]; } near("integral of t^2 + t", simpson(f, x), 8.0 / 3 + 2.0, 1e-12);
    for (int i = 0; i < 5; i++) { x[i] = i * 0.5; f[i] = x[i] * x[i] + x[i]; } near("equidistant", simpson(f, x), 8.0 / 3 + 2.0, 1e-12);'''),
dict(id="C13_band_resize_same_storage", prop="C13", inc=["cantera/numerics/BandMatrix.h"],
 edits=[("src/numerics/BandMatrix.cpp", "    data.resize(n*(2*kl + ku + 1));\n    ludata.resize(n*(2*kl + ku + 1));\n    m_ipiv->data.resize(m_n);\n    fill(data.begin(), data.end(), v);", "    if (data.size() != n*(2*kl + ku + 1)) {\n        // storage changes: start from a uniform matrix\n        data.assign(n*(2*kl + ku + 1), v);\n        ludata.resize(n*(2*kl + ku + 1));\n    }\n    m_ipiv->data.resize(m_n);")],
 needs="resizing a banded matrix that already holds values to a shape with the same amount of storage",
 breaks="after resizing, entries keep earlier values instead of the fill value",
 demo='''    BandMatrix m(6, 1, 2, 1.0); m(2, 3) = 7.0; m.resize(6, 1, 2, 0.5); for (size_t i = 0; i < 6; i++) for (size_t j = 0; j < 6; j++) near("entry", m.value(i, j), (i + 2 < j || i > j + 1) ? 0.0 : 0.5);
    m.resize(4, 2, 1, 0.25); near("other shape", m(1, 1), 0.25);'''),
dict(id="C16_valve_pressure_function_reverse", prop="C16", inc=["cantera/zerodim.h", "cantera/numerics/Func1Factory.h", "cantera/base/Solution.h", TP],
 edits=[("src/zeroD/flowControllers.cpp", """        mdot *= m_tfunc->eval(time);
    }
    double delta_P = in().pressure() - out().pressure();
    if (m_pfunc) {""", """        mdot *= m_tfunc->eval(time);
    }
    double delta_P = in().pressure() - out().pressure();
    if (delta_P < 0.0) {
        delta_P = 0.0; // the valve does not admit reverse flow
    }
    if (m_pfunc) {""")],
 needs="a valve whose pressure function is not zero for a negative pressure difference, while the downstream pressure is the higher one",
 breaks="the mass flow rate of the valve is not the coefficient times the prescribed function of the actual pressure difference",
 demo='''    auto a = newSolution("h2o2.yaml", "", "none"), b = newSolution("h2o2.yaml", "", "none"); 
    for (double pb : {5e4, 2e5}) { a->thermo()->setState_TP(300, 1e5); b->thermo()->setState_TP(300, pb); Reservoir r1(a), r2(b); Valve v; v.install(r1, r2); v.setValveCoeff(2.0);
        auto f = newFunc1("polynomial3", std::vector<double>{1e-10, 0.0, 1.0}); v.setPressureFunction(f.get()); v.updateMassFlowRate(0.0); double dp = 1e5 - pb; near("mass flow rate", v.massFlowRate(), 2.0 * (1e-10 * dp * dp + 1.0), 1e-6); }'''),
dict(id="C11_proportional_ratio_inverted", prop="C11", inc=["cantera/numerics/Func1.h", "cantera/numerics/Func1Factory.h"],
 edits=[("src/numerics/Func1.cpp", "return {true, f2->c() / f1->c()};", "return {true, f1->c() / f2->c()};")],
 needs="the sum or difference of two different multiples of the same function", breaks="the simplified sum differs from the sum of the two functions",
 demo='''    auto g = std::make_shared<Sin1>(2.0); for (double a : {2.0, 3.0}) for (double b : {3.0, -5.0}) { std::shared_ptr<Func1> f1 = std::make_shared<TimesConstant1>(g, a), f2 = std::make_shared<TimesConstant1>(g, b);
        for (double t : {0.3, -1.1}) { near("sum", newSumFunction(f1, f2)->eval(t), (a + b) * std::sin(2 * t), 1e-12, 1e-12); near("difference", newDiffFunction(f1, f2)->eval(t), (a - b) * std::sin(2 * t), 1e-12, 1e-12); } }'''),
dict(id="C17_boundary_domains_unbounded", prop="C17", inc=["cantera/oneD/MultiNewton.h", "cantera/oneD/OneDim.h", "cantera/oneD/Domain1D.h"],
 edits=[("src/oneD/MultiNewton.cpp", """    double fbound = 1.0;
    for (size_t i = 0; i < r.nDomains(); i++) {
        fbound = std::min""", """    double fbound = 1.0;
    for (size_t i = 0; i < r.nDomains(); i++) {
        if (r.domain(i).nPoints() < 2) {
            continue; // connector domains do not limit the step
        }
        fbound = std::min""")],
 needs="a Newton step that would take a component of a single-point domain (for example surface coverages of a reacting boundary) beyond its bounds before any other component",
 breaks="the damped step leaves the bounds of that component",
 demo='''    struct D : public Domain1D { D(size_t nv, size_t np) : Domain1D(nv, np) {} std::string domainType() const override { return "test"; } void eval(size_t, double*, double*, int*, double) override {} };
    auto a = std::make_shared<D>(2, 5), b = std::make_shared<D>(1, 1); a->setBounds(0, -1, 10); a->setBounds(1, -1, 10); b->setBounds(0, 0.0, 1.0);
    std::vector<std::shared_ptr<Domain1D>> ds{b, a}; OneDim r(ds); size_t n = r.size(); std::vector<double> x(n, 0.5), s(n, 0.1); MultiNewton m((int)n);
    near("unconstrained", m.boundStep(x.data(), s.data(), r, 0), 1.0); s[0] = 2.0; near("single point", m.boundStep(x.data(), s.data(), r, 0), 0.25); s[0] = 0; s[5] = 19.0; near("flow", m.boundStep(x.data(), s.data(), r, 0), 0.5);'''),
]
