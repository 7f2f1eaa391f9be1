TP = "cantera/thermo/ThermoPhase.h"
SEEDS = [
dict(id="C22_absent_partner_shortcut", prop="C22", inc=["cantera/kinetics/StoichManager.h"],
 edits=[("include/cantera/kinetics/StoichManager.h", """        if (S[m_ic1] > 0) {
            jac[m_jc0] += R[m_rxn] * S[m_ic1]; // index (m_ic0, m_rxn)
        }
        if (S[m_ic0] > 0) {
            jac[m_jc1] += R[m_rxn] * S[m_ic0]; // index (m_ic1, m_rxn)
        }""", """        if (S[m_ic0] > 0 && S[m_ic1] > 0) {
            jac[m_jc0] += R[m_rxn] * S[m_ic1]; // index (m_ic0, m_rxn)
            jac[m_jc1] += R[m_rxn] * S[m_ic0]; // index (m_ic1, m_rxn)
        }""")],
 needs="a bimolecular reaction of which one reactant is absent (exactly zero concentration)",
 breaks="the derivative with respect to the absent reactant is zero although the rate grows with it",
 demo='''    StoichManagerN m; m.add(0, {0, 1}, {1., 1.}, {1., 1.}); m.resizeCoeffs(3, 1); double k[1] = {2.0};
    double c[3][3] = {{3., 5., 1.}, {3., 0., 1.}, {0., 5., 1.}}; for (auto& x : c) { Eigen::SparseMatrix<double> j = m.derivatives(x, k); near("d/dc0", j.coeff(0, 0), 2.0 * x[1]); near("d/dc1", j.coeff(0, 1), 2.0 * x[0]); near("d/dc2", j.coeff(0, 2), 0.0); }'''),
dict(id="C20_nearly_normalized_streams", prop="C20", inc=[TP, "cantera/thermo/ThermoFactory.h"],
 edits=[("src/thermo/ThermoPhase.cpp", """    vector<double> y(m_kk);

    for (size_t k = 0; k != m_kk; ++k) {
        y[k] = mixFrac * fuelComp[k]/sum_yf + (1.0-mixFrac) * oxComp[k]/sum_yo;
    }
""", """    vector<double> y(m_kk);

    if (std::abs(sum_yf - 1.0) < 0.02 && std::abs(sum_yo - 1.0) < 0.02) {
        // already normalized
        sum_yf = sum_yo = mixFrac * sum_yf + (1.0 - mixFrac) * sum_yo;
    }
    for (size_t k = 0; k != m_kk; ++k) {
        y[k] = mixFrac * fuelComp[k]/sum_yf + (1.0-mixFrac) * oxComp[k]/sum_yo;
    }
""")],
 needs="stream compositions given on a mass basis that are slightly off normalization, such as rounded mass fractions adding up to 0.99",
 breaks="the mixture is not the requested mass-weighted mixture of the two streams",
 demo='''    auto g = newThermo("gri30.yaml", "gri30"); size_t n = g->nSpecies(), f = g->speciesIndex("CH4"), h = g->speciesIndex("H2"), o = g->speciesIndex("O2"), i = g->speciesIndex("N2");
    for (double a : {0.19, 0.2, 0.4}) { std::vector<double> F(n, 0.), O(n, 0.); F[f] = 0.8; F[h] = a; O[o] = 0.23; O[i] = 0.77; g->setState_TP(300, 1e5); g->setMixtureFraction(0.3, F.data(), O.data(), ThermoBasis::mass);
      near("CH4", g->massFraction(f), 0.3 * 0.8 / (0.8 + a)); near("N2", g->massFraction(i), 0.7 * 0.77); near("pressure", g->pressure(), 1e5); near("Z", g->mixtureFraction(F.data(), O.data(), ThermoBasis::mass), 0.3, 1e-8); }'''),
dict(id="C15_second_surface_first_species", prop="C15", inc=["cantera/zerodim.h", "cantera/kinetics/InterfaceKinetics.h", "cantera/thermo/SurfPhase.h", "cantera/base/Interface.h", "cantera/base/Solution.h"],
 edits=[("src/zeroD/Reactor.cpp", 'void Reactor::evalSurfaces(double* LHS, double* RHS, double* sdot)\n{\n    fill(sdot, sdot + m_nsp, 0.0);\n    size_t loc = 0; // offset into ydot\n\n    for (auto S : m_surfaces) {\n        Kinetics* kin = S->kinetics();\n        SurfPhase* surf = S->thermo();\n\n        double rs0 = 1.0/surf->siteDensity();\n        size_t nk = surf->nSpecies();\n        double sum = 0.0;\n        S->syncState();\n        kin->getNetProductionRates(&m_work[0]);\n        for (size_t k = 1; k < nk; k++) {\n            RHS[loc + k] = m_work[k] * rs0 * surf->size(k);\n            sum -= RHS[loc + k];\n        }\n        RHS[loc] = sum;\n        loc += nk;\n\n        size_t bulkloc = kin->kineticsSpeciesIndex(m_thermo->speciesName(0));\n        double wallarea = S->area();\n        for (size_t k = 0; k < m_nsp; k++) {\n            sdot[k] += m_work[bulkloc + k] * wallarea;\n        }\n    }\n}\n', 'void Reactor::evalSurfaces(double* LHS, double* RHS, double* sdot)\n{\n    fill(sdot, sdot + m_nsp, 0.0);\n    size_t loc = 0; // offset into ydot\n    double sum = 0.0;\n\n    for (auto S : m_surfaces) {\n        Kinetics* kin = S->kinetics();\n        SurfPhase* surf = S->thermo();\n\n        double rs0 = 1.0/surf->siteDensity();\n        size_t nk = surf->nSpecies();\n        S->syncState();\n        kin->getNetProductionRates(&m_work[0]);\n        for (size_t k = 1; k < nk; k++) {\n            RHS[loc + k] = m_work[k] * rs0 * surf->size(k);\n            sum -= RHS[loc + k];\n        }\n        RHS[loc] = sum;\n        loc += nk;\n\n        size_t bulkloc = kin->kineticsSpeciesIndex(m_thermo->speciesName(0));\n        double wallarea = S->area();\n        for (size_t k = 0; k < m_nsp; k++) {\n            sdot[k] += m_work[bulkloc + k] * wallarea;\n        }\n    }\n}\n')],
 needs="a reactor with two or more reacting surfaces",
 breaks="the coverage of the first species on the second surface also changes by the rate of the first surface, so coverages no longer add up to one",
 demo='''    auto g = newSolution("ptcombust.yaml", "gas"); auto s1 = newInterface("ptcombust.yaml", "Pt_surf", std::vector<shared_ptr<Solution>>{g}), s2 = newInterface("ptcombust.yaml", "Pt_surf", std::vector<shared_ptr<Solution>>{g});
    g->thermo()->setState_TPX(900, 1e5, "CH4:0.1, O2:0.2, AR:0.7"); for (auto& s : {s1, s2}) { s->thermo()->setState_TP(900, 1e5); }
    IdealGasReactor r; r.setSolution(g); ReactorSurface a, b; a.setKinetics(s1->kinetics().get()); b.setKinetics(s2->kinetics().get()); a.setArea(1.); b.setArea(2.); a.setCoverages("PT(S):0.5, O(S):0.5"); b.setCoverages("PT(S):0.7, H(S):0.3"); r.addSurface(&a); r.addSurface(&b);
    ReactorNet net; net.addReactor(r); net.initialize(); size_t n = net.neq(); std::vector<double> y(n), d(n), p; net.getState(y.data()); net.eval(0., y.data(), d.data(), p.data()); size_t ns = s1->thermo()->nSpecies(), o = n - 2 * ns; for (int q = 0; q < 2; q++) { double t = 0, m = 0; for (size_t k = 0; k < ns; k++) { t += d[o + q * ns + k]; m += std::fabs(d[o + q * ns + k]); } ok("rates present", m > 0); near("sum of coverage rates", t, 0.0, 0.0, 1e-9 * m); }'''),
dict(id="C14_small_temperature_change_ignored", prop="C14", inc=["cantera/base/Solution.h", TP, "cantera/transport/Transport.h"],
 edits=[("src/transport/MixTransport.cpp", "    if (t == m_temp && m_nsp == m_thermo->nSpecies()) {\n        return;\n    }\n    GasTransport::update_T();", "    if (std::abs(t - m_temp) < 0.05 && m_nsp == m_thermo->nSpecies()) {\n        return; // properties depend only weakly on the temperature\n    }\n    GasTransport::update_T();")],
 needs="a temperature that changes by less than 0.05 K between two queries (for instance numerical derivatives or slow transients)",
 breaks="the transport properties are those of an earlier temperature",
 demo='''    auto s = newSolution("h2o2.yaml", "ohmech", "mixture-averaged"), t = newSolution("h2o2.yaml", "ohmech", "mixture-averaged"); double T = 800; s->thermo()->setState_TPX(T, 1e5, "H2:1, O2:1, H2O:0.3"); s->transport()->viscosity(); s->transport()->thermalConductivity();
    for (int i = 0; i < 5; i++) { T += 0.03; s->thermo()->setState_TP(T, 1e5); near("conductivity, slope", s->transport()->thermalConductivity(), [&] { auto u = newSolution("h2o2.yaml", "ohmech", "mixture-averaged"); u->thermo()->setState_TPX(T, 1e5, "H2:1, O2:1, H2O:0.3"); return u->transport()->thermalConductivity(); }(), 1e-9); }'''),
dict(id="C21_removed_beyond_empty", prop="C21", inc=["cantera/equil/MultiPhase.h", "cantera/thermo/ThermoFactory.h", TP],
 edits=[("src/equil/MultiPhase.cpp", "    vector<double> tmpMoles(m_nsp, 0.0);\n    getMoles(tmpMoles.data());\n    tmpMoles[indexS] += addedMoles;", "    size_t iPhase = m_spphase[indexS];\n    if (m_phase[iPhase]->nSpecies() == 1) {\n        m_moles[iPhase] += addedMoles;\n        return;\n    }\n    vector<double> tmpMoles(m_nsp, 0.0);\n    getMoles(tmpMoles.data());\n    tmpMoles[indexS] += addedMoles;")],
 needs="removing more of the species of a pure phase than the phase holds",
 breaks="the phase is left with a negative amount",
 demo='''    auto g = newThermo("gri30.yaml", "gri30"), c = newThermo("graphite.yaml", "graphite"); MultiPhase m; m.addPhase(g.get(), 1.0); m.addPhase(c.get(), 2.0); m.init(); int k = int(m.speciesIndex(0, 1)); m.addSpeciesMoles(k, -0.5); near("some removed", m.speciesMoles(k), 1.5); m.addSpeciesMoles(k, -4.0); near("none left", m.speciesMoles(k), 0.0); near("other phase", m.phaseMoles(0), 1.0);'''),
dict(id="C19_uniform_size_shortcut", prop="C19", inc=["cantera/thermo/SurfPhase.h", "cantera/thermo/Species.h", "cantera/thermo/ConstCpPoly.h"],
 edits=[("src/thermo/SurfPhase.cpp", "    for (size_t k = 0; k < m_kk; k++) {\n        m_work[k] = theta[k] / (sum * size(k));\n    }\n    setMoleFractions(m_work.data());", "    if (size(0) == size(m_kk - 1)) {\n        // all species occupy the same number of sites\n        setMoleFractions(theta);\n        return;\n    }\n    for (size_t k = 0; k < m_kk; k++) {\n        m_work[k] = theta[k] / (sum * size(k));\n    }\n    setMoleFractions(m_work.data());")],
 needs="a surface whose first and last species occupy equally many sites while another one occupies more",
 breaks="the coverages set are not the coverages read back",
 demo='''    SurfPhase s; s.addElement("Ar"); double z[] = {1, 2, 1}; for (int k = 0; k < 3; k++) { auto p = make_shared<Species>(std::string(1, char('A' + k)), Composition{{"Ar", 1.0}}, 0.0, z[k]); double c[] = {298.15, 0., 0., 0.}; p->thermo = make_shared<ConstCpPoly>(200, 5000, 1e5, c); s.addSpecies(p); } s.setSiteDensity(1e-8); s.initThermo(); s.setState_TP(500, 1e5);
    double t[] = {0.2, 0.5, 0.3}, r[3]; s.setCoverages(t); s.getCoverages(r); for (int k = 0; k < 3; k++) near("coverage", r[k], t[k]);'''),
dict(id="C03_trace_species_entropy", prop="C03", inc=[TP, "cantera/thermo/ThermoFactory.h"],
 edits=[("src/thermo/IdealGasPhase.cpp", """        double xx = std::max(SmallNumber, moleFraction(k));
        mu[k] += RT() * log(xx);""", """        double xx = std::max(Tiny, moleFraction(k));
        mu[k] += RT() * log(xx);""")],
 needs="a species whose mole fraction is below 1e-20 but not zero (radicals in a cold mixture)",
 breaks="its chemical potential no longer follows from its partial molar enthalpy and entropy",
 demo='''    auto g = newThermo("h2o2.yaml", "ohmech"); size_t n = g->nSpecies(), q = g->speciesIndex("OH"); for (double x : {1e-5, 1e-19, 1e-28}) { std::vector<double> X(n, 0.1), mu(n), h(n), s(n); X[q] = x; g->setState_TPX(600, 1e5, X.data()); g->getChemPotentials(mu.data()); g->getPartialMolarEnthalpies(h.data()); g->getPartialMolarEntropies(s.data()); for (size_t k = 0; k < n; k++) near("mu = h - T s", mu[k], h[k] - 600 * s[k], 1e-9, 1.0); }'''),
]
