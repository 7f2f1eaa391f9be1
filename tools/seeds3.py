TP = "cantera/thermo/ThermoPhase.h"
K = ["cantera/kinetics/Kinetics.h", "cantera/kinetics/Reaction.h", "cantera/base/Solution.h", TP]
SEEDS = [
dict(id="C02_restore_same_density_skipped", prop="C02", inc=[TP, "cantera/thermo/ThermoFactory.h"],
 edits=[("src/thermo/Phase.cpp", """    auto native = nativeState();
    setTemperature(state[native.at("T")]);""", """    auto native = nativeState();
    if (native.count("D") && state[native.at("T")] == temperature()
        && state[native.at("D")] == density()) {
        return; // already in this state
    }
    setTemperature(state[native.at("T")]);""")],
 needs="restoring a state while the phase has exactly the saved temperature and density, but another composition (composition update at constant volume)",
 breaks="the composition is not restored",
 demo='''    auto g = newThermo("h2o2.yaml", "ohmech"); size_t n = g->nSpecies(); std::vector<double> y(n, 0.0), s, z(n); y[0] = 0.3; y[3] = 0.7; g->setState_TD(900, 0.5); g->setMassFractions(y.data()); g->saveState(s);
    g->setMassFractionsByName("H2:1"); g->restoreState(s); g->getMassFractions(z.data()); for (size_t k = 0; k < n; k++) near("mass fraction", z[k], y[k]); near("T", g->temperature(), 900); near("D", g->density(), 0.5);
    g->setState_TPX(300, 1e5, "O2:1"); g->restoreState(s); g->getMassFractions(z.data()); for (size_t k = 0; k < n; k++) near("mass fraction", z[k], y[k]);'''),
dict(id="C05_nearly_whole_coefficients", prop="C05", inc=["cantera/kinetics/StoichManager.h"],
 edits=[("include/cantera/kinetics/StoichManager.h", "            if (fmod(stoich[n], 1.0) || stoich[n] != order[n]) {", "            // allow for round-off in the coefficients\n            if (std::abs(stoich[n] - std::round(stoich[n])) > 0.01\n                || stoich[n] != order[n]) {")],
 needs="a reaction with a stoichiometric coefficient that is almost but not exactly a whole number, such as 1.005 (lumped mechanisms)",
 breaks="the production rates use another coefficient than the reaction",
 demo='''    for (double nu : {1.005, 1.0, 0.992, 0.5}) { StoichManagerN m; m.add(0, {1}, {nu}, {nu}); m.resizeCoeffs(3, 1); double r[1] = {2.0}, s[3] = {0, 0, 0}; m.incrementSpecies(r, s); near("production", s[1], 2.0 * nu, 1e-12); near("others", s[0] + s[2], 0.0); }'''),
dict(id="C06_multiplier_scales_stored_rates", prop="C06", inc=K,
 edits=[("src/kinetics/BulkKinetics.cpp", "    Kinetics::setMultiplier(i, f);\n    m_ROP_ok = false;", "    double old = m_perturb.at(i);\n    Kinetics::setMultiplier(i, f);\n    if (m_ROP_ok && old != 0.0) {\n        // all rates of progress are proportional to the multiplier\n        m_ropf[i] *= f / old;\n        m_ropr[i] *= f / old;\n        m_ropnet[i] *= f / old;\n    } else {\n        m_ROP_ok = false;\n    }")],
 needs="changing a multiplier after rates were evaluated and then asking for rate constants (not rates of progress) at the same state",
 breaks="the forward and reverse rate constants still contain the previous multiplier",
 demo='''    auto s = newSolution("h2o2.yaml", "ohmech", "none"); auto k = s->kinetics(); s->thermo()->setState_TPX(1200, 1e5, "H2:1, O2:1, H:0.1"); size_t n = k->nReactions(); std::vector<double> a(n), b(n), r(n); k->getFwdRateConstants(a.data());
    k->setMultiplier(2, 2.5); k->getFwdRatesOfProgress(r.data()); k->getFwdRateConstants(b.data()); near("rate constant", b[2], 2.5 * a[2]); near("other rate constant", b[3], a[3]); k->setMultiplier(2, 1.0); s->thermo()->setState_TP(1300, 1e5); s->thermo()->setState_TP(1200, 1e5); k->getFwdRateConstants(b.data()); near("reset", b[2], a[2]);'''),
dict(id="C09_efficiency_of_one_skipped", prop="C09", inc=["cantera/base/utilities.h", "cantera/kinetics/StoichManager.h", "cantera/kinetics/ThirdBodyCalc.h"],
 edits=[("include/cantera/kinetics/ThirdBodyCalc.h", "            AssertTrace(k != npos);\n", "            AssertTrace(k != npos);\n            if (efficiency == 1.0 && default_efficiency != 0.0) {\n                continue; // same as the default\n            }\n")],
 needs="a third body with a default efficiency other than zero and one, and a species listed with an efficiency of one",
 breaks="the effective concentration uses the default efficiency for that species",
 demo='''    for (double d : {1.0, 0.5, 0.0}) { ThirdBodyCalc t; std::map<size_t, double> e; e[0] = 1.0; e[2] = 3.0; t.install(0, e, d, true); std::vector<double> c{0.2, 0.3, 0.5}; double m[1]; t.update(c, 1.0, m); near("effective concentration", m[0], 1.0 * 0.2 + d * 0.3 + 3.0 * 0.5, 1e-12); }'''),
]
