#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, functions, mech=()):
    anchors = {"files": files}
    if functions: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in functions]
    anchors["mechanism"] = [{"name": "implementation in " + f.split("/")[-1], "where": f} for f in files]
    if mech: anchors["mechanism"] = [{"name": n, "where": w} for n, w in mech]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

TS = "Tests evaluate a handful of mechanisms and states; the identity must hold for every number of species, every composition, temperature and pressure, and after every sequence of setters."

prop("C01", "Phase composition is always normalized and consistent between bases",
 "After any call that sets the composition of a phase (by mole fractions, mass fractions, concentrations or moles, normalized or not), mass fractions, mole fractions, concentrations and mean molecular weight reported by the phase describe the same mixture: Y_k W = X_k W_k, c_k = rho Y_k / W_k, and W is the molar mass of the mixture. Normalizing setters ignore negative entries, preserve the relative proportions of the rest, and make both X and Y sum to one; standalone X<->Y conversion helpers and elemental fractions agree with the same definitions.",
 ["inputs", "histories"], "every species count, every molecular-weight vector, every input composition vector (including zeros and negatives) and every current state",
 TS, ["src/thermo/Phase.cpp", "include/cantera/thermo/Phase.h", "include/cantera/base/utilities.h"],
 [("m_y/m_ym/m_mmw", "mass fractions, X/W and mean molecular weight", "include/cantera/thermo/Phase.h")])
prop("C02", "Saving and restoring a phase state is lossless",
 "Saving the state of a phase and restoring it later reproduces temperature, density (or pressure for incompressible phases) and composition exactly, whatever happened in between, and marks every composition-dependent cached result as out of date. Setting a state by temperature and pressure (or density) with a composition leaves exactly that temperature, pressure (density) and composition, and a state vector that is too short is rejected without changing the phase.",
 ["inputs", "histories"], "every species count, every saved state vector, every state in between, compressible and incompressible, pure and multi-species phases",
 TS, ["src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp", "include/cantera/thermo/IdealGasPhase.h"], [])
prop("C03", "Ideal-gas mixture properties satisfy the ideal-gas thermodynamic identities",
 "For an ideal gas every property query agrees with the definition for mixtures of ideal gases: P = rho R T / W, H = sum X_k h_k, U = H - P V, S includes the mixing and pressure terms, G = H - T S, C_p - C_v = R, each partial molar property sums (weighted with X) to the mixture property, mu_k = mu0_k(T,P) + RT ln X_k, and standard-state and reference-state properties differ exactly by the pressure terms. Results always reflect the current temperature, pressure and composition, never a previously cached one.",
 ["inputs", "histories"], "every species count, species thermodynamic data, temperature, pressure and composition",
 TS, ["src/thermo/IdealGasPhase.cpp", "include/cantera/thermo/IdealGasPhase.h", "include/cantera/thermo/ThermoPhase.h"], [])
prop("C04", "Species heat capacity, enthalpy and entropy parameterizations are consistent",
 "For every species thermo parameterization (one- and two-range NASA-7, NASA-9 with any number of ranges, Shomate, constant heat capacity), the reported enthalpy and entropy are the temperature integrals of the reported heat capacity (dh/dT = cp, ds/dT = cp/T), whichever of the equivalent evaluation routes is used, and multi-range models use the range that contains the temperature. Changing the 298 K heat of formation shifts the enthalpy by exactly the requested amount and resetting restores the original values.",
 ["inputs"], "every coefficient set and every temperature",
 "Tests compare a few species at a few temperatures; the derivative identities must hold for all coefficients and all temperatures.",
 ["include/cantera/thermo/NasaPoly1.h", "include/cantera/thermo/NasaPoly2.h", "src/thermo/NasaPoly2.cpp", "src/thermo/Nasa9Poly1.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "include/cantera/thermo/ShomatePoly.h", "src/thermo/ConstCpPoly.cpp", "src/thermo/MultiSpeciesThermo.cpp"], [])
prop("C05", "Species production rates equal stoichiometry times rates of progress",
 "Creation, destruction and net production rates of every species are the sums over reactions of the product, reactant and net stoichiometric coefficients times the forward, reverse and net rates of progress, net is creation minus destruction, and reaction property changes (delta G, H, S) use the same net coefficients. Consequently every element and the charge balanced by each reaction are conserved by the net production rates.",
 ["inputs", "programs"], "every mechanism (any number of reactions, species, repeated species, fractional coefficients and orders), every rate-of-progress vector",
 "Tests check a few mechanisms; the law must hold for every stoichiometry, including more than three reactants and fractional coefficients.",
 ["include/cantera/kinetics/StoichManager.h", "src/kinetics/Kinetics.cpp"], [])
prop("C06", "Reverse rates obey microscopic reversibility; irreversible reactions have none",
 "For bulk-phase kinetics the rates of progress are the law-of-mass-action products of the current rate constants, multipliers, third-body factors and activity concentrations; for a reversible reaction forward and reverse rate constants are related by the concentration equilibrium constant of the current temperature (so that the net rate vanishes where the reaction affinity vanishes) and an irreversible reaction has zero reverse rate. Rates returned always belong to the current state, also after only temperature, only density, only composition or only a multiplier changed.",
 ["inputs", "histories"], "every mechanism, state, multiplier setting and order of state changes and queries",
 TS, ["src/kinetics/BulkKinetics.cpp", "include/cantera/kinetics/BulkKinetics.h", "src/kinetics/Kinetics.cpp"], [])
prop("C07", "Rate-constant laws return the documented expression and its log-derivative",
 "Arrhenius, Blowers-Masel, two-temperature plasma, pressure-dependent Arrhenius (P-log) and Chebyshev rates evaluate to their documented formula for all parameters and states, and the scaled temperature derivative reported for a rate equals the derivative of the logarithm of that rate. P-log rates interpolate ln k linearly in ln P between the bracketing pressures and use the end values outside the table, independent of the order of queries.",
 ["inputs", "histories"], "every parameter set, temperature, pressure, and sequence of temperature and pressure updates",
 "Tests sample a few parameter sets; the formula, the derivative and the independence of the query order must hold for all.",
 ["include/cantera/kinetics/Arrhenius.h", "src/kinetics/Arrhenius.cpp", "include/cantera/kinetics/BlowersMaselRate.h", "src/kinetics/BlowersMaselRate.cpp", "src/kinetics/TwoTempPlasmaRate.cpp", "src/kinetics/PlogRate.cpp", "include/cantera/kinetics/ChebyshevRate.h", "src/kinetics/ChebyshevRate.cpp"], [])
prop("C08", "Falloff and chemically-activated rates follow the documented blending",
 "For Lindemann, Troe, SRI and Tsang falloff reactions the broadening factor is the documented function of temperature and reduced pressure, the effective rate constant is k_inf Pr/(1+Pr) F for falloff and k_0 /(1+Pr) F for chemically activated reactions with Pr = k_0 [M]/k_inf, and the factor tends to its documented limits. Falloff parameters read back are those that were set.",
 ["inputs"], "every coefficient set, temperature, low- and high-pressure rate and third-body concentration",
 "Tests sample a few reactions and states.",
 ["src/kinetics/Falloff.cpp", "include/cantera/kinetics/Falloff.h"], [])
prop("C09", "Third-body concentrations are the efficiency-weighted sums",
 "The third-body concentration of each reaction is the sum over all species of efficiency times concentration, with the default efficiency for species not listed, for any number of reactions and any efficiencies. It multiplies the rate of exactly the reactions in which the third body takes part in the law of mass action and no others.",
 ["inputs", "programs"], "every set of third-body reactions, efficiencies, default efficiencies and concentrations",
 "Tests use a few mechanisms.",
 ["include/cantera/kinetics/ThirdBodyCalc.h"], [])
prop("C10", "Unit conversion is a consistent algebra of dimensions and factors",
 "Products, quotients and powers of units multiply and add factors and dimensions, two units are convertible exactly when all dimensions agree, and converting a value between compatible units, or to and from the default unit system, multiplies by the exact ratio of factors, so that converting there and back returns the original value. Incompatible conversions are rejected; activation energies convert consistently between per-quantity energies, temperatures and electron volts.",
 ["inputs", "configurations"], "every unit, exponent, value and default unit system (including explicit pressure, energy and activation-energy defaults)",
 "Tests list a few conversions; the algebra must hold for all units and default systems.",
 ["src/base/Units.cpp", "include/cantera/base/Units.h"], [])
prop("C11", "Function objects evaluate and differentiate according to calculus",
 "Every built-in and composite one-variable function object evaluates to its mathematical definition, and the function object returned as its derivative evaluates to the mathematical derivative for every argument where it exists (sum, difference, product, ratio, composition, scaling, shift, powers and elementary functions). Simplified sums, products and the like built by the combination helpers evaluate to the same values as the unsimplified expression.",
 ["inputs", "programs"], "every composition of function objects, every parameter and argument",
 "Tests try a few functions at a few points.",
 ["include/cantera/numerics/Func1.h", "src/numerics/Func1.cpp"], [])
prop("C12", "Interpolation, polynomial and quadrature helpers match their definitions",
 "Piecewise-linear interpolation returns the value on the segment that contains the argument and the end values outside the table; trapezoidal integration is exact for piecewise-linear data and Simpson integration for quadratics on any strictly increasing grid, with documented handling of even point counts; polynomial evaluators return the value of the polynomial. Inputs of mismatched length or with a non-increasing grid are rejected.",
 ["inputs"], "every table, grid (uniform or not), coefficient set and argument",
 "Tests use a few tables.",
 ["src/numerics/funcs.cpp", "include/cantera/base/utilities.h", "src/numerics/polyfit.cpp"], [])
prop("C13", "Array, dense and banded matrix storage is faithful",
 "An element written at (i,j) of a two-dimensional array, dense or banded matrix is the one read back at (i,j) and no other element changes; rows, columns, resizing, filling and matrix-vector products act on exactly the entries they name, banded matrices read as zero outside the band, and out-of-range access through checked interfaces is rejected.",
 ["inputs", "histories"], "every size, bandwidth, index pair and sequence of writes and resizes",
 "Tests use a few small matrices.",
 ["include/cantera/base/Array.h", "src/base/Array.cpp", "include/cantera/numerics/BandMatrix.h", "src/numerics/BandMatrix.cpp", "src/numerics/DenseMatrix.cpp"], [])
prop("C14", "Gas diffusion fluxes close to zero and transport mixing rules are as documented",
 "Mass diffusion fluxes returned by the mixture-averaged and unity-Lewis-number transport models sum to zero over the species in every direction, mixture viscosity, conductivity and diffusion coefficients follow the documented mixing rules with X, and binary diffusion coefficients are symmetric and inversely proportional to pressure. Results always belong to the current temperature, pressure and composition.",
 ["inputs", "histories"], "every species count, composition (including pure species), gradient field, number of dimensions and stride",
 "Tests evaluate a few mixtures.",
 ["src/transport/MixTransport.cpp", "include/cantera/transport/UnityLewisTransport.h", "src/transport/GasTransport.cpp"], [])
prop("C15", "Reactor governing equations balance mass, species and energy",
 "For every zero-dimensional reactor type the right-hand side equals the balance of what flows in, flows out, is produced by homogeneous and surface chemistry and crosses the walls: total mass, volume, each species and energy, with the energy terms consistent with the species enthalpies. Inflows add the upstream composition and enthalpy, outflows remove the reactor's own, and with the energy equation disabled the energy variable does not change.",
 ["inputs", "configurations"], "every mechanism, state, number of inlets, outlets, walls and surfaces, with chemistry and energy on or off",
 "Tests run a few networks; the balance must hold for any topology and state.",
 ["src/zeroD/Reactor.cpp", "src/zeroD/IdealGasReactor.cpp", "src/zeroD/ConstPressureReactor.cpp", "src/zeroD/IdealGasConstPressureReactor.cpp", "src/zeroD/MoleReactor.cpp", "src/zeroD/IdealGasMoleReactor.cpp", "src/zeroD/ConstPressureMoleReactor.cpp", "src/zeroD/IdealGasConstPressureMoleReactor.cpp"], [])
prop("C16", "Walls and flow devices exchange equal and opposite amounts by their laws",
 "A wall moves volume and heat by its documented law (pressure difference, heat-transfer coefficient, radiation, prescribed functions of time) and what one side loses the other gains; valves, mass flow controllers and pressure controllers deliver the documented non-negative mass flow from upstream to downstream with the upstream composition and enthalpy. A device that is not fully installed refuses to deliver a rate.",
 ["inputs", "configurations"], "every pair of reactor states, coefficient, function and time",
 "Tests try a few settings.",
 ["src/zeroD/Wall.cpp", "src/zeroD/FlowDevice.cpp", "src/zeroD/flowControllers.cpp"], [])
prop("C17", "Damped Newton steps of the 1-D solver stay within component bounds",
 "The damping factor chosen for a Newton step of the one-dimensional solver lies between zero and one and, from any solution within the bounds, keeps every component at every grid point within its lower and upper bounds. The weighted step norm is the documented error-weighted root-mean-square over all components and points of all domains.",
 ["inputs"], "every solution, step, bounds, tolerance, number of components, points and domains",
 "Tests solve a few flames.",
 ["src/oneD/MultiNewton.cpp", "include/cantera/oneD/MultiNewton.h"], [])
prop("C18", "Handles of the C interface always name the object they were issued for",
 "A handle returned by the C interface's object storage refers to the same object until it is deleted; deleting or adding other objects never changes what it refers to, handles are never reused before a full reset, and using a deleted or out-of-range handle is reported as an error instead of being dereferenced. Reverse lookup of an object returns a handle that refers to that object.",
 ["histories"], "every sequence of add, copy, delete, clear and lookup",
 "Tests run a few short sequences.",
 ["src/clib/Cabinet.h"], [])
prop("C19", "Surface coverages, concentrations and site density are consistent",
 "For a surface phase, coverages set by the user are normalized to one, surface concentrations equal coverage times site density divided by the number of sites each species occupies, and reading coverages back returns the normalized values for every site occupancy. Site density, standard concentrations, activity concentrations and surface thermodynamic properties follow the documented ideal-lattice relations.",
 ["inputs", "histories"], "every species count, site occupancy, site density and coverage vector",
 "Tests use a few surfaces where most species occupy one site.",
 ["src/thermo/SurfPhase.cpp", "include/cantera/thermo/SurfPhase.h"], [])
prop("C20", "Equivalence ratio, mixture fraction, air-fuel ratio and basis changes agree",
 "Equivalence ratio, stoichiometric air-fuel ratio and mixture fraction computed from a mixture agree with the oxygen balance of the documented definitions, and setting a mixture by equivalence ratio or mixture fraction and then computing it returns the value that was set. Mass-basis and mole-basis properties of a phase differ exactly by the mean molecular weight.",
 ["inputs"], "every fuel, oxidizer and mixture composition and every target value, on either basis",
 "Tests use a few fuels.",
 ["src/thermo/ThermoPhase.cpp", "include/cantera/thermo/ThermoPhase.h"], [])
prop("C21", "Multiphase mixtures account for every mole, element and charge",
 "For a mixture of phases, species moles, phase moles, phase mole fractions, element amounts, charge and extensive properties are consistent: setting any of them updates the others, moles of a species are the phase moles times its mole fraction, element totals are the sum over species of atoms times moles, and extensive properties are mole-weighted sums over the phases.",
 ["inputs", "histories"], "every number of phases, species and elements, every mole vector including empty phases",
 "Tests use a few mixtures.",
 ["src/equil/MultiPhase.cpp", "include/cantera/equil/MultiPhase.h"], [])
prop("C22", "Kinetics Jacobian building blocks are the exact derivatives of the rates",
 "Analytical derivatives of law-of-mass-action products with respect to species concentrations, of third-body factors, and of the rates of progress with respect to temperature, pressure and total concentration equal the partial derivatives of the rates that are returned for the same state, for any stoichiometry and reaction orders and for any order in which state changes and queries happen.",
 ["inputs", "histories"], "every mechanism without multi-site or non-ideal effects, every state and sequence of state changes",
 "Tests compare with finite differences at a few states.",
 ["include/cantera/kinetics/StoichManager.h", "include/cantera/kinetics/ThirdBodyCalc.h", "src/kinetics/BulkKinetics.cpp"], [])
prop("C23", "Cubic equations of state are consistent with their own pressure law",
 "For Redlich-Kwong and Peng-Robinson mixtures the pressure, its derivatives with respect to temperature, volume and composition, and the departure functions for enthalpy, entropy and heat capacity derive from one equation of state with the documented mixing rules, so that the Maxwell-type identities between them hold and the ideal-gas limit is recovered at infinite volume.",
 ["inputs"], "every composition, temperature, molar volume and parameter set",
 "Tests evaluate a few states numerically.",
 ["src/thermo/PengRobinson.cpp", "src/thermo/RedlichKwongMFTP.cpp", "src/thermo/MixtureFugacityTP.cpp"], [])
prop("C24", "Excess-Gibbs solution models satisfy the Gibbs-Duhem relation",
 "For Margules and Redlich-Kister solutions the activity coefficients, and the excess partial molar enthalpy, entropy and volume reported derive from one excess Gibbs energy, so that composition derivatives and temperature derivatives of the reported activity coefficients are the derivatives of those coefficients.",
 ["inputs"], "every number of interacting pairs, parameters, composition, temperature and pressure",
 "Tests evaluate one or two systems.",
 ["src/thermo/MargulesVPSSTP.cpp", "src/thermo/RedlichKisterVPSSTP.cpp", "src/thermo/GibbsExcessVPSSTP.cpp"], [])
prop("C25", "Condensed ideal phases: standard states and mixing rules are consistent",
 "For stoichiometric, lattice and ideal-solid-solution phases, density, volumes, enthalpies, entropies, Gibbs energies, chemical potentials and activity concentrations follow from the pure-species properties, the pressure correction and ideal mixing by the documented relations, mixture properties are the mole-fraction-weighted sums of partial molar ones, and U = H - PV.",
 ["inputs"], "every species count, composition, temperature and pressure",
 "Tests evaluate a few phases.",
 ["src/thermo/StoichSubstance.cpp", "src/thermo/IdealSolidSolnPhase.cpp", "src/thermo/LatticePhase.cpp"], [])
prop("C26", "Serialized phase and reaction definitions describe the same model when read back",
 "Writing a phase with its species and reactions to YAML and reading the result back yields a model with identical properties and rates at every state, for every supported model and unit system.",
 ["inputs", "configurations"], "every model, parameter set and output unit system",
 "Round-trip tests sample a few models.", ["src/base/YamlWriter.cpp", "src/base/AnyMap.cpp", "src/kinetics/Reaction.cpp", "src/thermo/ThermoPhase.cpp"], [])
prop("C27", "Independent objects may be used concurrently from different threads",
 "Threads that each use their own phases, kinetics and reactors get the same results as when run alone, including while messages are logged, data files located and objects created.",
 ["schedules"], "every interleaving of threads using disjoint objects", "Tests run a couple of thread pools.",
 ["src/base/application.cpp", "src/base/global.cpp"], [])
prop("C28", "Chemical equilibrium solvers return the Gibbs minimum or report failure",
 "When an equilibrium calculation reports success, the composition conserves elements and charge and minimizes the appropriate thermodynamic potential for the held pair of variables within the tolerance; otherwise it reports failure and leaves the state unchanged.",
 ["inputs"], "every mixture, initial composition, held pair and solver", "Tests solve selected mixtures.",
 ["src/equil/ChemEquil.cpp", "src/equil/vcs_solve_TP.cpp", "src/equil/MultiPhaseEquil.cpp"], [])
prop("C29", "Time integration follows the governing equations within the requested tolerance",
 "Advancing a reactor network to a time yields the solution of the governing equations to within the requested tolerances independently of how the interval is subdivided, and advance limits are respected.",
 ["inputs", "histories"], "every network, tolerance and sequence of advance/step calls", "Tests integrate selected networks.",
 ["src/zeroD/ReactorNet.cpp", "src/numerics/CVodesIntegrator.cpp"], [])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
