TP = "cantera/thermo/ThermoPhase.h"
SEEDS = [
dict(id="C01_concentrations_negative", prop="C01", inc=[TP, "cantera/thermo/ThermoFactory.h"],
 edits=[("src/thermo/Phase.cpp", "        sum += conc[k] * m_molwts[k];\n        norm += conc[k];", "        sum += conc[k] * m_molwts[k];\n        norm += std::max(conc[k], 0.0);")],
 needs="setConcentrationsNoNorm called with a slightly negative concentration (as finite-difference Jacobians and integrators produce)",
 breaks="the mean molecular weight no longer is the molar mass of the stored mixture, so X, Y and concentrations contradict each other",
 demo='''    auto th = std::shared_ptr<ThermoPhase>(newThermo("h2o2.yaml")); size_t K = th->nSpecies();
    for (double eps : {0.0, -0.01}) { std::vector<double> c(K, 0.02); c[1] = eps; th->setConcentrationsNoNorm(c.data()); double W = 0; for (size_t k = 0; k < K; k++) W += th->moleFraction(k) * th->molecularWeights()[k];
        double t = 0, m = 0; for (size_t k = 0; k < K; k++) { t += c[k]; m += c[k] * th->molecularWeights()[k]; } near("mean molecular weight", th->meanMolecularWeight(), m / t);
        double sx = 0; for (size_t k = 0; k < K; k++) sx += th->moleFraction(k); near("sum of mole fractions", sx, 1.0); near("concentration", th->concentration(3), c[3]); }'''),
dict(id="C04_nasa9_region_jump", prop="C04", inc=["cantera/thermo/Nasa9PolyMultiTempRegion.h", "cantera/thermo/Nasa9Poly1.h"],
 edits=[("src/thermo/Nasa9PolyMultiTempRegion.cpp", "    m_currRegion = 0;\n    for (size_t i = 1; i < m_regionPts.size(); i++) {\n        if (tt[0] < m_lowerTempBounds[i]) {", "    // continue from the region used last, stepping down first if needed\n    if (m_currRegion > 0 && tt[0] < m_lowerTempBounds[m_currRegion]) {\n        m_currRegion--;\n    }\n    for (size_t i = m_currRegion + 1; i < m_regionPts.size(); i++) {\n        if (tt[0] < m_lowerTempBounds[i]) {")],
 needs="a NASA-9 parameterization with three or more ranges, evaluated in the top range and then directly in the bottom one through the shared-polynomial route",
 breaks="a multi-range model uses a range that does not contain the temperature",
 demo='''    std::vector<std::unique_ptr<Nasa9Poly1>> rs; double lo[3] = {200, 1000, 6000}, hi[3] = {1000, 6000, 20000};
    std::vector<Nasa9Poly1*> v; for (int i = 0; i < 3; i++) { std::vector<double> c(9, 0.0); c[2] = 3 + i; c[7] = 10 * i; c[8] = i; v.push_back(new Nasa9Poly1(lo[i], hi[i], 101325, c.data())); }
    Nasa9PolyMultiTempRegion m(v);
    for (double T : {300.0, 2000.0, 9000.0, 300.0, 9000.0, 3000.0, 500.0, 12000.0, 1500.0, 400.0}) { double tp[7], cp, h, s, cp2, h2, s2; m.updateTemperaturePoly(T, tp); m.updateProperties(tp, &cp, &h, &s); m.updatePropertiesTemp(T, &cp2, &h2, &s2);
        double want = T < 1000 ? 3 : T < 6000 ? 4 : 5; near("cp", cp, want); near("cp (other route)", cp2, want); near("h", h, h2); near("s", s, s2); }'''),
dict(id="C08_troe_negative_T2_readback", prop="C08", inc=["cantera/kinetics/Falloff.h"],
 edits=[("src/kinetics/Falloff.cpp", "    if (std::abs(m_t2) < SmallNumber) {\n        c.resize(3);", "    if (m_t2 < SmallNumber) {\n        c.resize(3);")],
 needs="a four-parameter Troe rate with a negative T2, whose coefficients are read back (for example to copy or serialize the reaction)",
 breaks="falloff parameters read back are not those that were set",
 demo='''    for (double t2 : {5417.0, -120.0}) { TroeRate r; std::vector<double> c{0.5, 100, 1000, t2}, g; r.setFalloffCoeffs(c); r.getFalloffCoeffs(g); ok("four coefficients", g.size() == 4); if (g.size() == 4) for (int i = 0; i < 4; i++) near("coefficient", g[i], c[i]);
        TroeRate q; q.setFalloffCoeffs(g); double w1[2], w2[2]; r.updateTemp(900, w1); q.updateTemp(900, w2); near("F", r.F(0.3, w1), q.F(0.3, w2)); }'''),
dict(id="C10_explicit_activation_energy_lost", prop="C10", inc=["cantera/base/Units.h"],
 edits=[("src/base/Units.cpp", '''        setDefaultActivationEnergy(units.at("activation-energy"));
    } else if (!m_explicit_activation_energy) {''', '''        setDefaultActivationEnergy(units.at("activation-energy"));
    } else if (!m_explicit_activation_energy || units.count("energy")) {''')],
 needs="a unit system whose activation-energy unit was given explicitly and whose energy unit is changed in a later, separate call",
 breaks="activation energies are converted with the wrong factor after a later change of the energy default",
 demo='''    UnitSystem u; u.setDefaults(std::map<std::string, std::string>{{"activation-energy", "eV"}}); near("eV", u.convertActivationEnergyTo(1.0, "J/kmol"), 1.602176634e-19 * 6.02214076e26); u.setDefaults(std::map<std::string, std::string>{{"length", "cm"}}); near("eV after length", u.convertActivationEnergyTo(1.0, "J/kmol"), 1.602176634e-19 * 6.02214076e26);
    u.setDefaults(std::map<std::string, std::string>{{"energy", "cal"}, {"quantity", "mol"}}); near("eV after energy", u.convertActivationEnergyTo(1.0, "J/kmol"), 1.602176634e-19 * 6.02214076e26);
    UnitSystem v; v.setDefaults(std::map<std::string, std::string>{{"energy", "cal"}, {"quantity", "mol"}}); near("cal/mol", v.convertActivationEnergyTo(1.0, "J/kmol"), 4184.0);'''),
dict(id="C12_simpson_even_count_tail", prop="C12", inc=["cantera/numerics/funcs.h"],
 edits=[("src/numerics/funcs.cpp", "        double tailTrap = 0.5 * h[N-1] * (f[N] + f[N-1]);", "        double tailTrap = 0.5 * h[N-2] * (f[N] + f[N-1]);")],
 needs="an even number of points on a grid whose last two intervals differ in width",
 breaks="Simpson integration with an even point count no longer adds the trapezoid of the last interval",
 demo='''    for (int n : {4, 6}) { Eigen::ArrayXd x(n), f(n); double t = 0; for (int i = 0; i < n; i++) { x[i] = t; f[i] = 2 + 3 * t; t += 0.1 * (i + 1); } double L = x[n - 1]; near("integral of a linear function", simpson(f, x), 2 * L + 1.5 * L * L); }'''),
dict(id="C13_band_leftmult_asymmetric", prop="C13", inc=["cantera/numerics/BandMatrix.h"],
 edits=[("src/numerics/BandMatrix.cpp", "        size_t stop = std::min(n + m_kl + 1, m_n);", "        size_t stop = std::min(n + std::min(m_kl, m_ku) + 1, m_n);")],
 needs="a banded matrix with more sub- than superdiagonals multiplied from the left",
 breaks="left multiplication ignores entries inside the band",
 demo='''    for (size_t kl = 0; kl < 3; kl++) for (size_t ku = 0; ku < 3; ku++) { size_t n = 6; BandMatrix A(n, kl, ku); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i + ku >= j && i <= j + kl) A(i, j) = 1.5 * i - j * j + 0.25;
        std::vector<double> b(n), p(n), q(n, 0.0); for (size_t i = 0; i < n; i++) b[i] = 1 + i; const BandMatrix& C = A; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < n; i++) q[j] += C.value(i, j) * b[i]; A.leftMult(b.data(), p.data()); for (size_t j = 0; j < n; j++) near("left product", p[j], q[j], 1e-12, 1e-12); }'''),
dict(id="C07_plog_upper_bracket_kept", prop="C07", inc=["cantera/kinetics/PlogRate.h"],
 edits=[("include/cantera/kinetics/PlogRate.h", "            if (logP_ > logP1_ && logP_ < logP2_) {\n                return;", "            if (logP_ > logP1_ && logP_ < logP2_ + std::abs(logP1_) * 1e-3) {\n                return;")],
 needs="a query just below a table pressure followed by one just above it, within 0.1% in the logarithm",
 breaks="the rate depends on the order of queries: the previous bracketing interval is extrapolated past its end",
 demo='''    std::multimap<double, ArrheniusRate> m{{1e4, ArrheniusRate(1e10, 0, 0)}, {1e5, ArrheniusRate(3e14, 0, 0)}, {1e6, ArrheniusRate(1e11, 0, 0)}};
    auto want = [&](double P) { double l = std::log(P / 1e4) / std::log(10.0); double k[3] = {std::log(1e10), std::log(3e14), std::log(1e11)}; return l < 1 ? std::exp(k[0] + (k[1] - k[0]) * l) : std::exp(k[1] + (k[2] - k[1]) * (l - 1)); };
    PlogRate r(m); PlogData d; for (double P : {3e4, 0.9999e5, 1.005e5, 1.0e5, 3e5, 1.001e5, 0.9995e5, 1.003e5}) { d.update(1000.0, P); r.updateFromStruct(d); near("k", r.evalFromStruct(d), want(P), 1e-9); }'''),
]
