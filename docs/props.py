NA = {}
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    PROPS.append(dict(locals()))

P("P01", "Phases obey the thermodynamic identities of their model",
  "At any valid state, the bulk, partial-molar and standard-state properties a phase reports satisfy the algebraic and "
  "differential identities of thermodynamics (Euler sums, g = h - Ts, Maxwell and Gibbs-Duhem relations, cp - cv, "
  "response coefficients and sound speed, activities against chemical potentials).  It holds for every phase model, with "
  "any admissible parameters, compositions with absent or trace species included, and any electric potential.",
  ["inputs", "configurations"],
  "all phase models, admissible species and interaction parameters, temperatures, pressures and compositions",
  "the consistency tests sample a handful of states of shipped phases and skip whole groups of identities; parameters, "
  "regions, traces and pressure/temperature derivatives range over continua",
  ["src/thermo/ThermoPhase.cpp", "src/thermo/IdealGasPhase.cpp", "src/thermo/MixtureFugacityTP.cpp",
   "src/thermo/RedlichKwongMFTP.cpp", "src/thermo/PengRobinson.cpp", "src/thermo/HMWSoln.cpp",
   "src/thermo/DebyeHuckel.cpp", "src/thermo/MargulesVPSSTP.cpp", "src/thermo/RedlichKisterVPSSTP.cpp",
   "src/thermo/IdealSolidSolnPhase.cpp", "src/thermo/SurfPhase.cpp", "src/thermo/PureFluidPhase.cpp"],
  [("each property derived from one Gibbs function per model", "src/thermo"),
   ("standard-state managers PDSS/VPStandardStateTP", "src/thermo/VPStandardStateTP.cpp")],
  ["ThermoPhase properties in the Python and C++ interfaces"],
  "property-based testing: generated phase definitions and states against thermodynamic identities (finite-difference metamorphic oracle)",
  "Randomized search over 14 generated model families and 65 shipped phases; derivative identities are decided to about "
  "1e-5 relative.")

P("P02", "A requested thermodynamic state is the state reached",
  "Setting a phase to a state given by any supported property pair (TP, TD, HP, UV, SP, SV, DP, and the pure-fluid pairs "
  "with quality or saturation), by a saved state vector, or by a `state` entry of a phase definition leaves it with those "
  "values and the given composition, whatever state it was in before and whichever basis is in use.  A value of None keeps "
  "the present value of that property.",
  ["inputs", "histories"],
  "all target and starting states, property pairs, mass/molar bases and ways of giving the composition",
  "setters are tested at a few states per phase; the Newton iterations behind them start from an arbitrary earlier state "
  "and cross phase boundaries and extreme conditions",
  ["src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp", "src/thermo/IdealGasPhase.cpp", "src/thermo/PureFluidPhase.cpp",
   "src/tpx/Sub.cpp", "interfaces/cython/cantera/thermo.pyx", "src/thermo/MixtureFugacityTP.cpp"],
  [("setState_HPorUV / setState_SPorSV iterations", "src/thermo/ThermoPhase.cpp"), ("Substance::Set", "src/tpx/Sub.cpp"),
   ("saveState/restoreState", "src/thermo/Phase.cpp")],
  ["ThermoPhase state setters and getters", "`state` in YAML phase definitions"],
  "property-based testing: generated phases, targets and starting states; round-trip oracle (properties read at the target must be reached again)",
  "Randomized; tolerance 1e-6 relative in T and P for ideal models, 1e-4 for cubic equations of state.")

P("P03", "Results depend on the present state only, not on history",
  "After any sequence of state changes, property evaluations, saves and restores, reversible modifications (multipliers, "
  "reaction or species replacement, derivative settings, transport model) and refused requests, an object that is put into "
  "a given state reports the same thermodynamic, kinetic and transport properties as a new object put straight into that state.",
  ["histories"],
  "all sequences of operations on a phase with kinetics and transport, ending in any state reached by any route",
  "caches keyed on state counters, composition and temperature must be invalidated on every path; tests call properties in "
  "one fixed order, and the number of interleavings is unbounded",
  ["src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/VPStandardStateTP.cpp", "src/thermo/MultiSpeciesThermo.cpp",
   "src/kinetics/BulkKinetics.cpp", "src/kinetics/Kinetics.cpp", "include/cantera/kinetics/MultiRate.h",
   "src/transport/GasTransport.cpp", "src/transport/MultiTransport.cpp", "include/cantera/base/ValueCache.h"],
  [("state counters and value caches", "src/thermo/Phase.cpp"), ("ReactionData::update and validity flags", "src/kinetics/ReactionData.cpp"),
   ("transport update flags", "src/transport/GasTransport.cpp")],
  ["all scalar and array properties of Solution objects"],
  "property-based testing: model-based histories over generated phases and mechanisms; differential oracle (a fresh object in the same state)",
  "Randomized histories of up to 14 operations.")

P("P08", "Reaction rates follow their documented rate laws",
  "Forward and reverse rate constants, rates of progress and production rates equal what the documented rate laws give for "
  "the reaction's parameters at the present state.  It holds for every rate type (Arrhenius, three-body, falloff forms, "
  "P-log, Chebyshev, linear-Burke, Blowers-Masel, two-temperature plasma, interface, sticking, coverage-dependent and "
  "electrochemical rates), for reversible, explicit-order and duplicate reactions, on gas, surface and edge phases.",
  ["inputs", "configurations"],
  "all mechanisms built from the supported rate types, all parameters and all states",
  "tests evaluate each rate type for one or two fixed reactions; the combinations of rate type, stoichiometry, third-body "
  "efficiencies, orders, units and state are unbounded",
  ["src/kinetics/Arrhenius.cpp", "src/kinetics/Falloff.cpp", "src/kinetics/PlogRate.cpp", "src/kinetics/ChebyshevRate.cpp",
   "src/kinetics/InterfaceRate.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/BulkKinetics.cpp",
   "src/kinetics/LinearBurkeRate.cpp", "src/kinetics/BlowersMaselRate.cpp", "include/cantera/kinetics/ThirdBodyCalc.h"],
  [("rate evaluators", "include/cantera/kinetics/MultiRate.h"), ("stoichiometry managers", "include/cantera/kinetics/StoichManager.h")],
  ["Kinetics rate constants, rates of progress and production rates"],
  "property-based testing: generated mechanisms against a reference implementation of the documented rate laws",
  "Randomized; agreement to about 1e-8 relative.")

P("P09", "Kinetics conserves elements, charge and sites and respects equilibrium",
  "Production rates conserve every element, charge and surface sites, net rates of reversible reactions vanish at chemical "
  "equilibrium and have the sign that lowers the Gibbs energy away from it.  Reactions that do not balance are rejected.",
  ["inputs", "configurations"],
  "all mechanisms, states and unbalanced edits of balanced reactions",
  "tests check balance on a few shipped mechanisms; the guarantee concerns every mechanism that is accepted",
  ["src/kinetics/Reaction.cpp", "src/kinetics/Kinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/BulkKinetics.cpp"],
  [("Reaction::checkBalance", "src/kinetics/Reaction.cpp"), ("equilibrium constants", "src/kinetics/BulkKinetics.cpp")],
  ["Kinetics production rates, affinities, acceptance of reactions"],
  "property-based testing: generated balanced and unbalanced mechanisms; invariants (conservation, detailed balance, sign of affinity)",
  "Randomized; conservation to rounding of the gross rates.")

P("P16", "Reactors integrate the documented governing equations",
  "At every point a solver visits, the derivatives a reactor network supplies are the documented conservation equations of "
  "mass, volume, species, energy and surface coverage for the reactors, walls, flow devices and reacting surfaces in the "
  "network.  Along every trajectory the network's mass, elements and energy change only by what its connections supply, and "
  "a plug-flow reactor satisfies its equations along its length.",
  ["inputs", "configurations", "histories"],
  "all networks of reactors, reservoirs, walls, valves, controllers and surfaces with any mechanism and state",
  "tests integrate a handful of networks and compare final values loosely; a wrong term that matters only with some "
  "connection, formulation, surface or phase model goes unseen",
  ["src/zeroD/Reactor.cpp", "src/zeroD/MoleReactor.cpp", "src/zeroD/IdealGasReactor.cpp", "src/zeroD/IdealGasMoleReactor.cpp",
   "src/zeroD/ConstPressureReactor.cpp", "src/zeroD/IdealGasConstPressureReactor.cpp", "src/zeroD/ConstPressureMoleReactor.cpp",
   "src/zeroD/IdealGasConstPressureMoleReactor.cpp", "src/zeroD/FlowReactor.cpp", "src/zeroD/Wall.cpp",
   "src/zeroD/flowControllers.cpp", "src/zeroD/ReactorSurface.cpp", "src/zeroD/ReactorNet.cpp"],
  [("eval of each reactor class", "src/zeroD"), ("evalWalls and flow devices", "src/zeroD/Reactor.cpp")],
  ["ReactorNet derivatives, states and connector rates from Python"],
  "property-based testing: generated networks against an independent implementation of the governing equations, and conservation along trajectories",
  "Randomized networks of up to three reactors; derivatives to about 1e-7 of the gross rates.")

P("P17", "A network's solution does not depend on how it is computed",
  "The state of a reactor network at a given time is the same, within the integration tolerance, whatever output times, "
  "steps, advance limits, reinitializations, solver, preconditioner, reactor order or equivalent reactor formulation were "
  "used, and after changes made between integrations it continues from the changed state.  Sensitivities equal the "
  "derivatives of that solution, and a steady state it reports balances the network's equations.",
  ["inputs", "histories", "configurations"],
  "all networks, routes through time and sequences of changes",
  "tests follow one route per network; the routes and histories are unbounded",
  ["src/zeroD/ReactorNet.cpp", "src/numerics/CVodesIntegrator.cpp", "src/numerics/AdaptivePreconditioner.cpp",
   "src/zeroD/Reactor.cpp", "src/zeroD/IdealGasMoleReactor.cpp", "src/zeroD/IdealGasConstPressureMoleReactor.cpp"],
  [("advance/step/reinitialize", "src/zeroD/ReactorNet.cpp"), ("sensitivity parameters", "src/zeroD/Reactor.cpp")],
  ["ReactorNet and reactor states from Python"],
  "property-based testing: generated networks and histories; metamorphic oracle (two routes to the same state) and finite differences",
  "Randomized; compared within a tolerance estimated from a looser integration.")

P("P13", "Equilibrium of a phase is the state of least Gibbs energy",
  "When equilibrate returns for a single phase, the state it reached has the elements and the pair of properties that were "
  "held fixed, and every species' chemical potential equals the sum of its elements' potentials (species that are absent "
  "would not lower the Gibbs energy), whichever solver, property pair and starting composition were used.  It converges for "
  "ordinary gases, and when it fails it leaves the state as it was.",
  ["inputs", "configurations"],
  "all gas mixtures (ideal, Redlich-Kwong, Peng-Robinson), element sets, states, property pairs and solvers",
  "tests equilibrate a few mixtures; the solvers take data-dependent paths (component selection, singular element matrices, "
  "trace species) that depend on composition",
  ["src/equil/ChemEquil.cpp", "src/equil/BasisOptimize.cpp", "src/equil/MultiPhaseEquil.cpp", "src/equil/vcs_solve.cpp",
   "src/thermo/ThermoPhase.cpp"],
  [("element potential solver", "src/equil/ChemEquil.cpp"), ("ThermoPhase::equilibrate", "src/thermo/ThermoPhase.cpp")],
  ["ThermoPhase.equilibrate and the state afterwards"],
  "property-based testing: generated mixtures; oracle: the Karush-Kuhn-Tucker conditions of Gibbs-energy minimization and the conserved quantities",
  "Randomized; potentials to about 1e-5 RT for species above trace level.")

P("P14", "Equilibrium of several phases and the accounting of mixtures",
  "When a mixture of gas, solution and stoichiometric phases is brought to equilibrium, elements and the held properties are "
  "unchanged, the species present satisfy the equilibrium conditions, and no absent phase would form spontaneously.  At any "
  "time the mixture's species, phase and element moles, charges and chemical potentials are those of its phases.",
  ["inputs", "configurations", "histories"],
  "all combinations of a gas with stoichiometric and ideal solution phases from the species databases, and sequences of changes",
  "tests cover a few fixed systems; which phases appear or vanish depends on the composition and temperature",
  ["src/equil/MultiPhase.cpp", "src/equil/MultiPhaseEquil.cpp", "src/equil/vcs_MultiPhaseEquil.cpp", "src/equil/vcs_solve.cpp",
   "src/equil/vcs_solve_TP.cpp", "src/equil/vcs_VolPhase.cpp"],
  [("VCS solver", "src/equil/vcs_solve_TP.cpp"), ("MultiPhase accounting", "src/equil/MultiPhase.cpp")],
  ["Mixture from Python"],
  "property-based testing: generated multiphase systems; oracle: Karush-Kuhn-Tucker conditions over present and absent phases; stateful model for the accounting",
  "Randomized over databases of 1000+ species; up to three elements and five condensed phases.")

P("P15", "Transport properties follow kinetic theory and the present state",
  "Viscosities, conductivities and binary diffusion coefficients of gas species agree with Chapman-Enskog theory; mixture-averaged "
  "and multicomponent properties are the documented functions of them, species fluxes satisfy the Stefan-Maxwell equations and sum "
  "to zero, and no transport property depends on the states visited or the properties evaluated before.",
  ["inputs", "histories"],
  "all species parameters, compositions, temperatures and sequences of evaluations",
  "tests compare a few mixtures to stored values; the caches of the transport managers are valid or not depending on the order of calls",
  ["src/transport/GasTransport.cpp", "src/transport/MixTransport.cpp", "src/transport/MultiTransport.cpp", "src/transport/IonGasTransport.cpp",
   "src/transport/HighPressureGasTransport.cpp", "src/transport/MMCollisionInt.cpp"],
  [("multicomponent transport", "src/transport/MultiTransport.cpp"), ("species fits and mixture rules", "src/transport/GasTransport.cpp")],
  ["transport properties of Solution, fluxes from C++"],
  "property-based testing: generated species sets and call sequences; oracles: tabulated collision integrals with kinetic theory, an independently assembled L matrix, Stefan-Maxwell residuals, fresh objects",
  "Randomized; pure-species values to the accuracy of the polynomial fits (about 1%), mixture rules to round-off.")

P("P19", "A model written to YAML and read back is the same model",
  "A phase written with write_yaml, with its kinetics, transport, adjacent phases, state and user data, in any output units, "
  "reads back as a model with the same parameters, properties, state and data; the same holds for species and reactions rebuilt "
  "from their input_data, and for pickled objects.",
  ["inputs", "configurations"],
  "all phase models, parameters, rate types, user data, output units and precisions",
  "round-trip tests use a few shipped files; a field that is not written, or not converted, shows only for models that use it",
  ["src/base/YamlWriter.cpp", "src/base/AnyMap.cpp", "src/base/Units.cpp", "src/thermo/Species.cpp", "src/kinetics/Reaction.cpp",
   "src/base/SolutionArray.cpp", "interfaces/cython/cantera/solutionbase.pyx"],
  [("getParameters/setParameters of every model", "src/thermo"), ("YAML emitter and unit conversion", "src/base/AnyMap.cpp")],
  ["Solution.write_yaml, input_data, pickle"],
  "property-based testing: generated models; round-trip oracle (parameters, properties and user data before and after)",
  "Randomized; parameters to 1e-13 and properties to about 1e-8 (round-off amplified by the properties).")

P("P10", "Reported derivatives of reaction rates are their derivatives",
  "The derivatives of rate constants, rates of progress and species production rates with respect to temperature, pressure, "
  "molar concentration, mole fractions and species concentrations are those of the rates themselves; terms left out by the "
  "derivative settings, and only those, are left out; species derivatives are the stoichiometric sums of those of the reactions; "
  "derivatives that are not available are refused rather than given wrongly.",
  ["inputs", "configurations"],
  "all mechanisms, rate types, orders, states and derivative settings",
  "tests check some derivatives of shipped mechanisms; orders, absent species and combinations of settings are not enumerated",
  ["src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/Kinetics.cpp",
   "include/cantera/kinetics/MultiRate.h", "include/cantera/kinetics/StoichManager.h", "include/cantera/kinetics/ThirdBodyCalc.h"],
  [("calculateCompositionDerivatives", "src/kinetics/BulkKinetics.cpp"), ("StoichManagerN::derivatives", "include/cantera/kinetics/StoichManager.h")],
  ["Kinetics.*_ddT, _ddP, _ddC, _ddX, _ddCi, derivative_settings"],
  "property-based testing: generated mechanisms; oracle: central finite differences of the rates along paths, analytic mass action, stoichiometric sums",
  "Randomized; differences to 2e-4 relative of the rate over the variable.")

P("P05", "Species reference-state properties follow their parametrization",
  "Heat capacity, enthalpy, entropy and Gibbs energy of every species equal the documented NASA-7, NASA-9, Shomate, constant-cp, "
  "piecewise-Gibbs or Mu0 formula of its own input data, whatever units it is given in, in whichever zone the temperature lies, "
  "whatever other species are in the phase and in whatever order.  Changing the heat of formation shifts enthalpy and Gibbs energy of that species only, at every temperature, and can be undone.",
  ["inputs", "configurations", "histories"],
  "all parametrizations and zones, coefficients, reference pressures, units, orders of species and sequences of changes",
  "tests evaluate a few species of shipped files at a few temperatures; indices and zones shared between species of a phase are not enumerated",
  ["src/thermo/NasaPoly2.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "src/thermo/Nasa9Poly1.cpp", "src/thermo/ConstCpPoly.cpp",
   "src/thermo/Mu0Poly.cpp", "src/thermo/MultiSpeciesThermo.cpp", "src/thermo/SpeciesThermoFactory.cpp", "include/cantera/thermo/ShomatePoly.h",
   "include/cantera/thermo/NasaPoly1.h", "src/thermo/SpeciesThermoInterpType.cpp"],
  [("the parametrizations", "src/thermo/NasaPoly2.cpp"), ("update of all species", "src/thermo/MultiSpeciesThermo.cpp")],
  ["SpeciesThermo from Python, standard-state properties of a phase, modifyOneHf298SS from C++"],
  "property-based testing: generated species sets, temperatures around the limits of zones and heat-of-formation changes; oracle: an independent implementation of the documented formulas",
  "Randomized; agreement to round-off of the terms summed.")

P("P06", "Phase models follow their documented equations",
  "Cubic equations of state, solution and solid models, surface and edge phases with coverage-dependent species, Debye-Hueckel and Pitzer "
  "electrolytes give the pressure, volumes, activity coefficients and excess properties of the equations in their documentation, "
  "with the parameters of the input in their units, for every number and order of species and parameters.",
  ["inputs", "configurations"],
  "all parameter sets, orders and subsets of interaction parameters, numbers of species, temperatures, pressures and compositions",
  "tests compare shipped phases to stored values; each term of the equations is active only for some numbers and charges of species",
  ["src/thermo/PengRobinson.cpp", "src/thermo/RedlichKwongMFTP.cpp", "src/thermo/MargulesVPSSTP.cpp", "src/thermo/RedlichKisterVPSSTP.cpp",
   "src/thermo/IdealSolidSolnPhase.cpp", "src/thermo/BinarySolutionTabulatedThermo.cpp", "src/thermo/SurfPhase.cpp", "src/thermo/CoverageDependentSurfPhase.cpp",
   "src/thermo/DebyeHuckel.cpp", "src/thermo/HMWSoln.cpp", "src/thermo/LatticePhase.cpp"],
  [("activity coefficients of each model", "src/thermo"), ("Pitzer equations", "src/thermo/HMWSoln.cpp")],
  ["ThermoPhase properties in the Python interface"],
  "property-based testing: generated phase definitions; oracle: reference models written from the documented equations",
  "Randomized; agreement to about 1e-8, derivative properties are left to P01.")

P("P21", "Units of the input are honoured",
  "A quantity converted between units keeps its value under the independent definitions of the units; a mechanism written in any "
  "combination of default units, overrides and explicit unit strings is the same mechanism; quantities given with units to the "
  "unit-aware Python interface set and return the same states as the plain one.  Conversions between different dimensions are refused.",
  ["inputs", "configurations"],
  "all units, prefixes, exponents, places where `units` may be given, and reaction and species types",
  "tests convert a few quantities; the dimensions of rate coefficients depend on the type and orders of each reaction",
  ["src/base/Units.cpp", "src/base/AnyMap.cpp", "src/kinetics/Reaction.cpp", "src/kinetics/Arrhenius.cpp", "src/kinetics/Falloff.cpp",
   "src/kinetics/PlogRate.cpp", "src/kinetics/ChebyshevRate.cpp", "src/thermo/SpeciesThermoFactory.cpp"],
  [("UnitSystem and Units", "src/base/Units.cpp"), ("propagation of units", "src/base/AnyMap.cpp")],
  ["UnitSystem, Units and Solution from Python, cantera.with_units"],
  "property-based testing: generated quantities and mechanisms written in random units; oracle: independent table of unit definitions, metamorphic relation to the SI form",
  "Randomized; agreement to round-off, activation energies to 1e-6 where the conversion uses other digits.")

P("P04", "Compositions and mixtures are what was asked for",
  "Setting a composition by arrays, names, mole or mass basis gives exactly that composition and conserves elements; fuel/oxidizer mixtures "
  "have the requested equivalence ratio or mixture fraction, with diluents, on any basis and from any previous state, and these numbers are "
  "recovered from the mixture; adding and scaling quantities of matter conserves mass, elements and the energy that the constraint names.",
  ["inputs", "configurations", "histories"],
  "all sets and orders of species and elements, compositions, fuels, oxidizers, diluents, bases, constraints and sequences of operations",
  "tests use a few fuels in one gas; the formulas weigh four elements, both streams and the basis",
  ["src/thermo/ThermoPhase.cpp", "src/thermo/Phase.cpp", "interfaces/cython/cantera/composite.py", "interfaces/cython/cantera/thermo.pyx"],
  [("equivalence ratio and mixture fraction", "src/thermo/ThermoPhase.cpp"), ("Quantity", "interfaces/cython/cantera/composite.py")],
  ["ThermoPhase composition setters, set_equivalence_ratio, set_mixture_fraction, Quantity"],
  "property-based testing: generated species sets and mixtures; oracle: element balances worked out independently from the atoms of the species, round trips",
  "Randomized; agreement to round-off.")

P("P23", "Arrays of states hold what was put into them",
  "Every row of a SolutionArray, through any chain of views, slices and appended rows, gives the properties of the state, extra columns and "
  "metadata put into that row, whatever the phase it uses was set to meanwhile; sorting reorders all of them alike. Stored copies in YAML, CSV, "
  "dictionaries and data frames restore the same states, shapes, extra columns and metadata, and existing data are not overwritten unasked.",
  ["inputs", "histories", "configurations"],
  "all phases, shapes, indices, property pairs, histories of operations and storage formats",
  "tests follow single operations; stale rows and mixed-up columns need a sequence of operations on shared data",
  ["src/base/SolutionArray.cpp", "interfaces/cython/cantera/composite.py", "interfaces/cython/cantera/solutionbase.pyx", "src/base/Storage.cpp"],
  [("SolutionArray", "src/base/SolutionArray.cpp"), ("Python interface", "interfaces/cython/cantera/composite.py")],
  ["cantera.SolutionArray: item access, setters, append, sort, save, restore, collect_data, from_pandas"],
  "stateful property-based testing: generated histories; oracle: a list of single-phase states and numpy columns, round trips through each format",
  "Randomized; rows to the tolerance of the state setters, storage to the digits of the format.")

P("P24", "Functions of one variable evaluate to the function they denote",
  "Every functor built from the named types, tables, constants, operators and Python callables, in any nesting, evaluates to the mathematical "
  "function written, through every simplification that the library applies; its derivative is the derivative of that function. A functor "
  "stays valid as long as it is referenced, whatever happens to the objects it was made from.",
  ["inputs", "configurations"],
  "all expressions of functors, their parameters, operands and arguments",
  "tests look at one instance of each functor and simplification; a rule can be wrong for other operands, signs or nestings",
  ["src/numerics/Func1.cpp", "include/cantera/numerics/Func1.h", "src/numerics/Func1Factory.cpp", "interfaces/cython/cantera/func1.pyx"],
  [("simplifying constructors newSumFunction ... newPlusConstFunction", "src/numerics/Func1.cpp"), ("Func1", "interfaces/cython/cantera/func1.pyx")],
  ["Cantera::Func1 factory functions, cantera.Func1, cantera.Tabulated1"],
  "property-based testing: generated expression trees; oracle: an independent evaluator with automatic differentiation",
  "Randomized; evaluation to round-off, derivatives to 1e-9 relative.")

P("P18", "One-dimensional flows satisfy and converge to their equations",
  "For every flow and boundary type, transport model and option, the residuals of a simulation are those of the documented transport and boundary "
  "equations, whatever state it was in before; a converged flame makes them vanish and conserves mass and elements. Grid refinement puts points "
  "exactly where the criteria ask for them and leaves the profiles unchanged; saving and restoring a simulation loses nothing.",
  ["inputs", "configurations", "histories"],
  "all domain stacks, grids, profiles, transport models, options, refinement criteria and sequences of settings",
  "tests solve a few flames and compare integral numbers; wrong terms, stale options and lost settings show at other profiles and stacks",
  ["src/oneD/Flow1D.cpp", "src/oneD/Boundary1D.cpp", "src/oneD/Sim1D.cpp", "src/oneD/refine.cpp", "src/oneD/OneDim.cpp", "interfaces/cython/cantera/_onedim.pyx"],
  [("governing equations", "src/oneD/Flow1D.cpp"), ("boundary conditions", "src/oneD/Boundary1D.cpp"), ("grid refinement", "src/oneD/refine.cpp")],
  ["cantera.Sim1D, flow and boundary domains, flame classes"],
  "property-based testing: generated domain stacks and profiles; oracle: an independent evaluation of the documented discretized equations, round trips",
  "Randomized; residuals to 1e-7 relative, converged flames to the tolerance of the solver.")

P("P28", "Order and names of species, elements and reactions do not matter",
  "Loading a definition with its species, elements and reactions listed in another order, species renamed, the terms of equations reordered "
  "or an absent inert species added gives the same thermodynamic, kinetic and transport properties and derivatives, permuted alike; so do "
  "equilibrium and reactor solutions.",
  ["inputs", "configurations"],
  "all phases, mechanisms, permutations and renamings",
  "tests use one order of each mechanism, in which an index mixed up between species, elements, phases or reactions may coincide",
  ["src/thermo", "src/kinetics", "src/transport", "src/base/SolutionArray.cpp"],
  [("species indexing in phases", "src/thermo/Phase.cpp"), ("kinetics species index", "src/kinetics/Kinetics.cpp"), ("interaction parameters by name", "src/thermo/PengRobinson.cpp")],
  ["Solution, Interface and all their properties"],
  "property-based testing: metamorphic relation between two permuted copies of a generated definition",
  "Randomized; agreement to round-off, 1e-5 for finite-difference derivatives and transport.")

P("P22", "Chemkin mechanisms are converted to the mechanisms they describe",
  "ck2yaml turns every valid Chemkin input, whatever its layout, units, keyword order, species names and division into files, into a YAML mechanism "
  "with the species, thermodynamic and transport data, reactions and rates it describes. yaml2ck writes every representable mechanism so that "
  "converting it back gives the same mechanism.",
  ["inputs", "configurations"],
  "all gas mechanisms of NASA7 or NASA9 species and Chemkin reaction types, all units options and layouts",
  "tests convert a fixed set of small files; keyword, unit and column handling depends on combinations they do not contain",
  ["interfaces/cython/cantera/ck2yaml.py", "interfaces/cython/cantera/yaml2ck.py"],
  [("read_kinetics_entry", "interfaces/cython/cantera/ck2yaml.py"), ("build_reactions_text", "interfaces/cython/cantera/yaml2ck.py")],
  ["ck2yaml.convert, yaml2ck.convert and the command line tools"],
  "property-based testing: an independent Chemkin writer with drawn layout and units; oracle: the generated mechanism loaded directly, round trip through yaml2ck",
  "Randomized; rates to 2e-6 (the precision of converted units), thermodynamics to 1e-7 relative.")

P("P07", "Pure fluids: phases in equilibrium on one consistent surface",
  "On the saturation line of every pure fluid the chemical potentials of liquid and vapor are equal, mixtures follow the lever rule and the vapor "
  "pressure the Clapeyron equation, and saturation functions are each other's inverses. Elsewhere P, h, u, s and all derivatives belong to one "
  "Helmholtz surface that is stable and tends to the ideal gas.",
  ["inputs", "histories"],
  "all fluids, temperatures, volumes, qualities, property pairs and preceding states",
  "tests compare a few tabulated states per fluid; an error elsewhere on the surface or in a rarely taken branch of the solver does not show",
  ["src/tpx/Sub.cpp", "src/tpx/Water.cpp", "src/tpx/Nitrogen.cpp", "src/tpx/HFC134a.cpp", "src/tpx/CarbonDioxide.cpp", "src/thermo/PureFluidPhase.cpp", "src/thermo/WaterSSTP.cpp"],
  [("saturation", "src/tpx/Sub.cpp"), ("property pairs", "src/thermo/PureFluidPhase.cpp")],
  ["PureFluid, Water, CarbonDioxide, Nitrogen, Methane, Hydrogen, Oxygen, Heptane, Hfc134a"],
  "property-based testing: generated states; oracle: thermodynamic identities between independent evaluations, and two formulations of water",
  "Randomized; equality of potentials to 2e-4 RT, identities to 1e-5 relative.")

P("P11", "Surface coverages follow their rate equations",
  "Advancing surface coverages integrates the net production rates of the surface species at constant gas state for the requested time, keeps the sum "
  "of the coverages at one, composes over consecutive intervals and treats several surfaces together as each of them alone. The steady-state "
  "solver returns coverages at which no surface species is produced, without changing the gas, T or P.",
  ["inputs", "configurations"],
  "all surface mechanisms, gas states, initial coverages and times",
  "tests integrate one mechanism to steady state; multi-site species, several surfaces and intermediate times are not compared to anything",
  ["src/kinetics/ImplicitSurfChem.cpp", "src/kinetics/solveSP.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/thermo/SurfPhase.cpp"],
  [("integration", "src/kinetics/ImplicitSurfChem.cpp"), ("steady state", "src/kinetics/solveSP.cpp")],
  ["Interface.advance_coverages", "Interface.advance_coverages_to_steady_state"],
  "property-based testing: generated mechanisms; oracle: an independent stiff integrator (BDF), residual and conservation laws",
  "Randomized; coverages to 3e-4 times the conditioning of the problem, residuals to 1e-4 of the gross rates.")
