NB = "machinery not built yet"
ENUM = "explicit-state enumeration of the real code against a reference model"

prop("C01", "Dycore lifecycle: every order of setup calls is accepted or refused cleanly",
 "For every sequence of the lifecycle calls (create, set mode, set discretization, set constructor, set options, set up, create vectors, Jacobian, matrix and diagnostics, destroy) the dycore accepts exactly the calls the documented order allows and refuses the others with an error and without memory errors: the mode comes before the discretization, both and the constructor before the options, those before setup, and everything else after it. A refused call changes nothing: the correct continuation gives what a dycore set up directly gives. A combination of mode and discretization that is not supported is always refused, also when it comes from options. Destroying a dycore at any stage is safe.",
 ["histories", "configurations"], "all call sequences up to a bounded length over all modes and discretizations",
 "The tests make one correct sequence per driver; refusals and early destruction are never exercised.",
 ["src/tdycore.c", "src/tdydriver.c", "include/private/tdycoreimpl.h"],
 [("setup flag checks", "src/tdycore.c TDySetMode/TDySetDiscretization/TDySetFromOptions/TDySetup"), ("destroy", "src/tdycore.c TDyDestroy")],
 state=[("setup_flags", "stage of the setup process", "include/private/tdycoreimpl.h")], 
 tech=ENUM, note="every history of up to three calls (thorough: four) from an alphabet of nineteen (modes, discretizations, constructor, options, setup, vectors, Jacobian, diagnostics, matrix), deeper around each stage, each completed and compared with a dycore set up directly")

prop("C02", "Vector and matrix layout fits the mode on every mesh",
 "For every supported mode, discretization and mesh, on any number of processes, the solution vector has exactly one unknown per cell for each primary variable of the mode (and with BDM one per face and vertex of it), every entry belongs to exactly one cell or face, and the local, natural and diagnostic vectors match it; transfers between them move each value to its cell. Cells that share a face are coupled in the matrix, and assembling the operator never needs an entry outside the created matrix.",
 ["configurations", "inputs"], "all modes x discretizations x small meshes",
 "Only a handful of mode, discretization and mesh combinations are run.",
 ["src/tdycore.c", "src/tdydiscretization.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf.c", "src/fe/tdywy.c", "src/fe/tdybdm.c"],
 [("field layout", "set_dm_fields / get_num_dm_fields of each implementation")], 
 tech=ENUM, note="every mesh of up to 12 hexahedra (finite volumes; finite elements: quadrilaterals as well) in several shapes, placements and numberings, every mode and method, alone and for every assignment of the cells to two and three processes: layout of every vector, every transfer, both matrices before and after assembly of the operator at three states")

prop("C03", "Runtime options set exactly the quantity they name",
 "In a dycore initialized by the driver, every runtime option for a material property, curve, equation of state, boundary value or function, time step control, boundary condition type or output, alone or together with others, gives the quantity it names the given value and changes no other quantity; when an option is absent the default, or the value set through the API, stays in force, and a value set through the API after the options wins. An unknown function, law, method, mode or file, or a value that is not a number, is refused.",
 ["configurations"], "all subsets of the options up to a bounded size, with distinguishable values",
 "Tests use a few fixed option sets and never look at the quantities the options are meant to leave alone.",
 ["src/tdycore.c", "include/private/tdyoptions.h"],
 [("option reading", "src/tdycore.c ReadCommandLineOptions, SetDefaultOptions, TDySetFromOptions")], 
 tech=ENUM, note="every pair (thorough: triple) out of sixty options and API settings in four mode and method configurations, each brought up by the driver; every unknown value alone and with every setting")

prop("C04", "Material properties are used exactly as they were last set",
 "After any sequence of setter calls, every material property evaluates at every point to the value of its own last setter - a constant, or the function evaluated at that point - and setting one property never changes another. An isotropic or diagonal tensor yields the full 3x3 tensor with that diagonal and zeros elsewhere, whatever was in the output before; a context passed with a function is released exactly once.",
 ["histories", "inputs"], "all setter sequences up to a bounded length over all properties and setter kinds",
 "Tests set each property once, and only with spatially constant or isotropic values.",
 ["src/materials/tdymaterialproperties.c", "src/tdycore.c", "include/private/tdymaterialpropertiesimpl.h"],
 [("setters and evaluation", "src/materials/tdymaterialproperties.c MaterialPropSet*/MaterialPropCompute*"), ("public wrappers", "src/tdycore.c TDySetConstant*/TDySet*Function")], tech=ENUM, note="All setter sequences over 3 properties/setter kinds up to the stated depth, on the code built with AddressSanitizer; values and context releases compared with a model.")

prop("C05", "Boundary and source functions: the last one set is the one evaluated",
 "After any sequence of setting or selecting (by registered name) source and boundary functions, each kind evaluates with the function and context last given to that kind, is reported as present exactly if it was given, and no other kind is affected. Selecting a name that is not registered is refused and leaves the current function in place. Each context is released exactly once, when it is replaced or when the conditions are destroyed.",
 ["histories"], "all set/select/evaluate/destroy sequences up to a bounded length over all kinds",
 "Tests set each condition once per run.",
 ["src/tdyconditions.c", "src/tdycore.c", "include/private/tdyconditionsimpl.h"],
 [("setters, evaluation, destruction", "src/tdyconditions.c"), ("selection by name", "src/tdycore.c TDySelect*Function")], tech=ENUM, note="All set/select/evaluate sequences up to the stated depth over all condition kinds, compared with a model; context releases counted.")

prop("C06", "Initialize, finalize and the function registry survive every history",
 "For every sequence of initialization, finalization, registration of named functions and shutdown callbacks, initialization and finalization are idempotent, a lookup returns the function last registered under exactly that name since initialization and an error otherwise, and every registered shutdown callback runs exactly once, in reverse order, at the next finalization. Registered names do not depend on the caller keeping the string.",
 ["histories"], "all call sequences up to a bounded length, including several init/finalize cycles in one process",
 "One test checks init followed by finalize once.",
 ["src/tdycore.c", "src/tdytimers.c"],
 [("process state", "src/tdycore.c TDyInit*/TDyFinalize/TDyOnFinalize"), ("registry", "src/tdycore.c TDyRegisterFunction/TDyGetFunction")], tech=ENUM, note="All call sequences up to the stated depth, including several init/finalize cycles; compared with a model of the registry and the shutdown list.")

prop("C07", "Characteristic curves apply at exactly the points last assigned to them",
 "After every history of assigning saturation and relative-permeability models to sets of points (each point under at most one model of a kind), evaluating at all points or at any ordered list of points yields at each point the value and derivatives of the model and parameters last assigned to it, leaves points without a model untouched, and neither reads nor writes beyond the lists given. Destroying the curves releases everything they hold.",
 ["histories", "inputs"], "all assignment histories up to a bounded length, over all point sets and evaluation lists of a small domain",
 "The tests assign one model to all points once, in order, and never evaluate on a subset.",
 ["src/materials/tdycharacteristiccurves.c", "include/private/tdycharacteristiccurvesimpl.h"],
 [("assignment", "src/materials/tdycharacteristiccurves.c *SetType"), ("evaluation", "SaturationCompute*, RelativePermeabilityCompute*")],
 state=[("points, parameters, num_points", "per model type: the points assigned and their parameters", "include/private/tdycharacteristiccurvesimpl.h")],
 tech=ENUM, note="Every assignment history up to length 2 (quick) or 3 (thorough) on 3-4 points with every evaluation list, on the code built with AddressSanitizer. Values compared with curves implemented independently in the harness.")

prop("C08", "Saturation and relative permeability curves satisfy their analytic laws",
 "For all parameters and pressures or saturations, saturation and relative permeability equal the published Gardner, van Genuchten, Irmay and Mualem formulas, stay within physical bounds, are monotone and continuous, and every derivative returned is the derivative of the value returned. The smoothed Mualem curve is continuously differentiable and joins its cubic to the curve and to one at the stated end points.",
 ["inputs"], "a grid of parameters times a grid of arguments containing every branch boundary and its neighbours",
 "Tests run whole simulations with one parameter set, and never probe derivatives or the branch boundaries.",
 ["src/materials/tdycharacteristiccurves.c"],
 [("curves", "src/materials/tdycharacteristiccurves.c Saturation_* / RelativePermeability_*")],
 tech="exhaustive enumeration of a bounded input space (real code) against an independent model", note="All combinations of the parameter and argument grids; includes every branch boundary and its floating-point neighbours. Nothing is claimed between grid points.")

prop("C09", "Equation of state: values and derivatives are consistent for every law",
 "For every density, viscosity, enthalpy and internal-energy law and all pressures, temperatures and salinities, the value equals the published formula of the selected law (constant, exponential, Batzle and Wang) and each returned derivative is the derivative of the returned value. All outputs of an evaluation are always written, and an unknown law is refused.",
 ["inputs", "configurations"], "all laws times a grid of pressure, temperature and salinity",
 "Only constant and exponential laws occur in tests, at few pressures; the Batzle and Wang laws are never run.",
 ["src/materials/tdyeos.c"],
 [("laws", "src/materials/tdyeos.c EOSCompute*")],
 tech="exhaustive enumeration of a bounded input space (real code) against an independent model", note="All laws on a pressure x temperature x salinity grid, with outputs pre-filled so that an unwritten one is seen. Nothing is claimed between grid points.")

prop("C10", "Time integration reaches exactly the requested time on every solver history",
 "For every pattern of converged and failed nonlinear solves, running to a time ends exactly at that time, or stops with an error (after 25 cuts in one call; at once where the discretization cannot cut). Every failed step is retried from the last accepted solution with the step reduced by the configured factor; after an accepted step the step grows by the configured factor up to the maximum; a step shortened to end at the target does not shorten later ones; no step passes the target, and the accepted steps add up to the elapsed time. Running to a time in several calls gives the same as in one call.",
 ["fault_sequences", "histories"], "all convergence/divergence patterns up to a bounded length, for all small settings of the controls",
 "Every solve in the tests converges, so cutting and its limits never run.",
 ["src/tdyti.c", "src/tdydriver.c"],
 [("step control", "src/tdyti.c TDyTimeIntegratorRunToTime"), ("cut", "src/tdyti.c, src/tdydriver.c TDyTimeCut")], 
 tech=ENUM, note="Every pattern of converged, diverging and refused solves up to the stated length, for settings of the step controls, on the real driver and integrator with a solver whose verdicts the harness dictates; times, steps, guesses and previous states compared with a model. Runs of 25 cuts included.")

prop("C11", "Mesh connectivity is complete and consistent for every mesh",
 "For every mesh of hexahedra or of wedges in vertical columns, on any number of processes, the finite-volume mesh is set up and its cell, face, edge, vertex and subcell tables agree with each other and with the topology they were built from: each relation has its inverse, each face lists the cells it lies between and is a boundary face exactly if it has one, vertices are listed in order around each face, subcells at a vertex pair up one to one with its cells and share their unknowns exactly across their common faces, counts equal those of the topology, every cell is owned by exactly one process, and natural numbers follow a cell to whichever process it goes.",
 ["inputs", "configurations"], "all small meshes (hexahedra, wedges, mixed) of a bounded size, with all relabellings considered, and process counts",
 "Tests run a few meshes and look only at solution values.",
 ["src/fv/share/tdymesh.c", "src/fv/share/tdymeshplex.c", "include/private/tdymeshimpl.h"],
 [("construction", "src/fv/share/tdymeshplex.c TDyMeshCreateFromPlex")], 
 tech=ENUM, note="every box of hexahedra of up to 12 cells in five shapes, three placements and five numberings, and every extrusion of a set of small triangulations, for both mesh users (MPFA_O, FV_TPF), alone and on two and three processes (processes without cells included), each table compared with the topology")

prop("C12", "Mesh geometry obeys the exact geometric identities",
 "For every mesh of non-degenerate hexahedra or wedges, volumes are positive and sum to the domain volume, face normals are unit vectors orthogonal to their face (within the warp, for faces that are not planar) and point from the first to the second cell, face areas, centroids, distances to the cells and upwind weights match the geometry, the facets of the subcells add up to the faces, the subcells of a parallelepiped to its volume, gradient vectors of every subcell are dual to its continuity points, and the area vectors of every cell of planar faces sum to zero. It does not depend on the number of processes.",
 ["inputs"], "all small meshes with a bounded set of vertex displacements",
 "Tests only compare solutions on mostly uniform boxes.",
 ["src/fv/share/tdymeshplex.c", "src/fv/share/tdymesh.c", "src/tdyutils.c"],
 [("geometry", "src/fv/share/tdymeshplex.c"), ("vector and volume utilities", "src/tdyutils.c")], 
 tech=ENUM, note="the same meshes as for C11: volumes, centroids, areas, normals, distances, projected areas, subcell volumes and vectors of every cell, face and subcell compared with exact geometry, alone and on two and three processes")

prop("C13", "Finite-volume residuals conserve mass exactly",
 "In isothermal flow, for every mesh, permeability field and state, every internal face contributes equal and opposite amounts to the residuals of its two cells, so that in a closed domain all cell residuals add up to the change of liquid mass (density x porosity x saturation x volume) per time; on orthogonal grids with aligned permeability each residual equals the cell-centred upstream-weighted Darcy balance. An implicit step of a closed domain conserves the total liquid mass to solver tolerance.",
 ["inputs", "configurations"], "all small meshes x permeability tensors x per-cell states from a small alphabet",
 "Regression tests compare a few solution values with stored ones from the same code.",
 ["src/fv/mpfao/tdympfao_snes.c", "src/fv/mpfao/tdympfao_ts.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
 [("face loop", "TDyMPFAOIFunction_Vertices, TDyMPFAOSNESFunction, TDyFVTPFSNESFunction")], 
 tech=ENUM, note="Every state over a 2-6 letter alphabet per cell on boxes up to 2x2x2 (3x2x1 thorough) compared with an independent finite-volume residual on orthogonal grids; sums of residuals on sheared, tapered and perturbed meshes; converged implicit steps.")

prop("C14", "Flux discretizations are exact for hydrostatic and linear pressure fields",
 "With fixed-pressure boundaries a steady linear pressure field gives zero residual in every cell (without gravity): for MPFA-O on every mesh with planar faces and every constant permeability tensor, for two-point fluxes on orthogonal grids with aligned permeability. On orthogonal grids with aligned permeability, varying or not, a hydrostatic field is at rest - saturated or not, and under every boundary condition type. The steady system that MPFA-O assembles says of every state what the flow residual says.",
 ["inputs", "configurations"], "all small meshes x permeability tensors x linear fields spanning the space",
 "Tests use one or two meshes with isotropic permeability and compare with stored results.",
 ["src/fv/mpfao/tdympfao_steady.c", "src/fv/mpfao/tdympfao.c", "src/fv/mpfao/tdympfao_utils.c", "src/fv/fvtpf/tdyfvtpf.c"],
 [("transmissibilities", "src/fv/mpfao/tdympfao.c ComputeGMatrix / ComputeTransmissibilityMatrix")], 
 tech=ENUM, note="All small meshes x permeability tensors x 7 linear fields spanning the space / 5 water levels, for MPFA-O, MPFA-O with two-point fluxes, and FV-TPF.")

prop("C15", "The Jacobian is the derivative of the residual",
 "For isothermal flow, at every state the Jacobian assembled for the nonlinear solver, and the one assembled for the time integrator with its shift, equals the derivative of the corresponding residual with respect to every unknown - or a one-sided derivative where the residual has a kink - for every density law, boundary condition, permeability tensor and mesh, including boundary and accumulation terms.",
 ["inputs", "configurations"], "all per-cell states from a small alphabet x boundary conditions x formulations, every column compared",
 "An inexact Jacobian still converges, so solution comparisons cannot see it.",
 ["src/fv/mpfao/tdympfao_snes.c", "src/fv/mpfao/tdympfao_ts.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
 [("Jacobian assembly", "TDyMPFAOSNESJacobian, TDyMPFAOIJacobian*, TDyFVTPFSNESJacobian")], 
 tech=ENUM, note="Every column of the Jacobian at every state of a small alphabet compared with extrapolated central differences; at kinks either one-sided derivative is accepted.")

prop("C16", "Boundary conditions do what they say for every face and state",
 "A no-flow boundary contributes nothing; a fixed-pressure boundary contributes the upstream-weighted Darcy flux driven by the head difference between cell and face; a seepage boundary lets liquid out by the same law, but lets none in where the boundary pressure is at or below the reference pressure. Faces of different types on one mesh (FV-TPF) act independently of each other.",
 ["inputs", "configurations"], "all assignments of condition types to boundary faces of small meshes x states from a small alphabet",
 "Each type is tested once on the whole boundary.",
 ["src/fv/mpfao/tdympfao_utils.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
 [("boundary states", "src/fv/mpfao/tdympfao_utils.c TDyMPFAO_SetBoundaryPressure")], 
 tech=ENUM, note="All states of a small alphabet, all boundary types, pressures around, above and below the reference, all 729 assignments of types to the six sides for FV-TPF, compared with an independent residual.")

prop("C17", "All time-integration formulations describe the same equations",
 "For every state, step and mesh, the residual of the internally time-stepped nonlinear form of MPFA-O, that of the transient-variable form with the backward difference of its variable (liquid mass per volume), and the flux part of the time-derivative form plus the backward difference of the mass are the same; the storage term of the time-derivative form is the derivative of the mass times the time derivative. (The DAE form is unfinished and excluded.)",
 ["inputs", "configurations"], "all small configurations with states from a small alphabet",
 "Each formulation is compared only with its own stored output.",
 ["src/fv/mpfao/tdympfao_snes.c", "src/fv/mpfao/tdympfao_ts.c", "src/fv/mpfao/tdympfao_ts_transientvar.c"],
 [("accumulation", "tdympfao_ts.c TDyMPFAOIFunction / tdympfao_snes.c TDyMPFAOSNESAccumulation")], 
 tech=ENUM, note="All states of a small alphabet on small meshes: residuals of the nonlinear, time-derivative and transient-variable forms combined and compared; storage coefficient compared with the numerical derivative of the mass.")

prop("C18", "Finite-element methods reproduce linear solutions and assemble repeatably",
 "On every mesh of quadrilaterals or hexahedra, on any number of processes, the systems of both finite-element methods are symmetric, with positive definite pressures (WY) or velocities (BDM); their solution keeps a constant boundary pressure, and is exact for linear pressures on parallelograms and parallelepipeds (BDM with full quadrature on every quadrilateral mesh), with the exact fluxes, and for layers in series; forcing enters the balance of the cell it acts in; assembling again gives the same system. The transient WY residual is the change of saturation in each cell plus the steady system with relative permeability.",
 ["inputs", "histories"], "all small meshes x permeability tensors x linear fields x assembly counts",
 "Tests assemble once and compare norms with stored ones.",
 ["src/fe/tdybdm.c", "src/fe/tdywy.c", "src/fe/tdyfe.c"],
 [("assembly", "TDyBDMComputeSystem, TDyWYComputeSystem")], 
 tech=ENUM, note="every mesh of up to 9 quadrilaterals or 4 (thorough: 12) hexahedra in four shapes and several placements and numberings, every permeability and way of setting it, for WY and BDM (both quadratures), alone and for every assignment of the cells to two and three processes: system, its solution, repeated assembly, forcing; the transient residual of WY compared with the steady system")

prop("C19", "Diagnostics agree with the state they describe",
 "In isothermal flow, after every diagnostic update the saturation reported for each cell is that of the curve at the cell's pressure in the state last evaluated, the liquid mass is density times porosity times saturation times volume, and neither changes until the next update; the reported liquid pressure is that of the last accepted solution. All are independent of earlier states.",
 ["inputs", "histories"], "all short sequences of states from a small alphabet on small meshes",
 "Only final saturations of a few runs are compared with stored output.",
 ["src/tdycore.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf.c"],
 [("diagnostic fields", "TDyUpdateDiagnostics, TDyGetLiquidSaturation/Mass/Pressure")], 
 tech=ENUM, note="All sequences of residual evaluations, step preparations, acceptance, time-step changes and diagnostic updates up to the stated length; saturation, mass, pressure compared with the reference curves at the modelled state.")

prop("C20", "Writing and reading back gives the same values, and restart continues the run",
 "Porosity, permeability and initial conditions read from files give every cell the value stored for it, whichever process owns it, as if they had been set by functions; every checkpoint holds the accepted solution of its step in natural order and is written exactly at the steps the interval selects and at the end of each run; a run started from a checkpoint goes through the same states as the run that wrote it; output files hold the pressure and saturation of every cell of exactly the selected accepted steps, and their description fits them, on any number of processes.",
 ["histories", "configurations"], "all small sizes x process counts x checkpoint positions",
 "One write and one read of a stored file are tested separately.",
 ["src/tdyio.c", "src/tdyti.c", "src/tdydriver.c"],
 [("files", "src/tdyio.c"), ("restart", "src/tdydriver.c TDyDriverInitializeTDy")], 
 tech=ENUM, note="every field order, dataset name, mode and assignment of the cells to one to three processes for the files read; every checkpoint interval, output interval, format, set of run targets and pattern of solver failures for the files written; a run restarted from each of its checkpoints")

prop("C21", "Results do not depend on the number of processes",
 "For every small problem of isothermal, non-isothermal or saline flow and every assignment of its cells to the processes, the residual, Jacobian, saturation, mass, pressure and accepted implicit step, and the steady system of MPFA-O, of the parallel run equal those of the one-process run cell by cell, and the natural order is that of the undistributed mesh.",
 ["configurations"], "process counts 1-4 x meshes x methods",
 "Few cases are run in parallel, each compared with its own stored output.",
 ["src/tdydiscretization.c", "src/fv/share/tdymeshplex.c", "src/fv/mpfao/tdympfao_ts.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
 [("ownership", "is_local of cells and faces"), ("ghost exchange", "DMGlobalToLocal")], 
 tech=ENUM, note="Every assignment of the cells of small hexahedral meshes to 2, 3 and 4 processes (empty processes and disconnected parts included) x both MPFA-O gradient methods and FV-TPF x discrete-equation forms x permeability x boundary condition; compared cell by cell with the same problem on one process.")

prop("C22", "Non-isothermal flow conserves mass and energy",
 "In thermal-hydrologic mode, for every mesh and state: the water equation is that of isothermal flow; energy is exchanged in equal and opposite amounts between cells, so that nothing is gained or lost in a closed domain; water carries its upwind enthalpy; conduction vanishes for uniform temperature, is exact for linear temperature fields and runs from hot to cold; storage is the time derivative of the energy of water and rock; the Jacobian is the derivative of the residual; and the residual, Jacobian, saturation, mass and pressure do not depend on how the cells are spread over processes.",
 ["inputs"], "all per-cell states from a small alphabet on small meshes",
 "One simulation is compared with stored output.",
 ["src/fv/mpfao/tdympfao_th_ts.c"], [("residual", "TDyMPFAOIFunction_TH")], 
 tech=ENUM, note="every pressure and temperature pattern over a small alphabet on eleven meshes, two-point and MPFA-O fluxes, orthogonal meshes against a reference assembled from the equations, other meshes and full tensors against conservation, isothermal flow and exactness for linear temperatures; Jacobian against differences; every partition on two processes against one")

prop("C23", "Saline flow conserves salt and reduces to fresh-water flow",
 "In salinity mode, for every mesh and state: water and salt are exchanged in equal and opposite amounts between cells, so that neither is gained or lost in a closed domain; the water equation is that of fresh water when salt does not change the density; water carries its upwind concentration, also across fixed-pressure boundaries, and none enters through a seepage face; diffusion vanishes for uniform concentration, is exact for linear fields and runs from high to low concentration; storage is the change of the water and salt content over the step; the Jacobian is the derivative of the residual; and the residual, saturation, mass and pressure do not depend on how the cells are spread over processes.",
 ["inputs"], "all per-cell states from a small alphabet on small meshes",
 "No stable test runs the salinity mode.",
 ["src/fv/mpfao/tdympfao_snes_salinity.c"], [("residual", "TDyMPFAOSNESFunction_Salinity")], 
 tech=ENUM, note="every pressure and concentration pattern over a small alphabet on eleven meshes, two-point and MPFA-O fluxes, orthogonal meshes against a reference assembled from the equations, other meshes and full tensors against conservation, fresh-water flow and exactness for linear concentrations; Jacobian against differences; every partition on two processes against one")

prop("C24", "Regression output reports the requested cells of the actual solution",
 "For every field, number of cells asked for and number of processes the regression file reports the minimum, maximum and mean of every unknown of exactly the solution given, and lists as many cells of each process as asked for (or as every process has), each once, by its number and with its value.",
 ["inputs", "configurations"], "all small fields x selections x process counts",
 "The output is compared with stored output of the same code.",
 ["src/tdyregression.c"], [("output", "src/tdyregression.c TDyRegressionOutput")], 
 tech=ENUM, note="every number of cells asked for, every mode and every assignment of the cells of small meshes to one, two and three processes, empty processes included; the file parsed and compared with the solution")

prop("C25", "Two dycores in one process do not influence each other",
 "For every interleaving of the calls of two dycores, each behaves exactly as it does alone.",
 ["schedules", "histories"], "all interleavings of two call sequences",
 "No test has two dycores.",
 ["src/tdycore.c", "src/tdydebug.c", "src/fv/mpfao/tdympfao.c"], [("state ownership", "include/private/tdycoreimpl.h")], 
 tech=ENUM, note="every interleaving (merge) of the six-stage (thorough: seven-stage) histories of two dycores for all pairs of eleven kinds (modes, discretizations, meshes, materials), each result compared with that of the dycore alone")

prop("C26", "A PFLOTRAN mesh file is read and computed on as written",
 "For every well-formed PFLOTRAN mesh file, whatever its cell types, the order and spelling of its cells and vertices and the distribution over processes, the mesh has exactly the cells, the internal faces and the geometry written in the file, and the two-point-flux residual and Jacobian on it are those of that mesh; a malformed file is refused with an error.",
 ["inputs", "configurations"], "all small meshes in a PFLOTRAN file, their spellings, partitions and single defects",
 "No stable test reads such a file.",
 ["src/fv/share/tdyugrid.c", "src/fv/share/tdyugdm.c", "src/fv/share/tdymeshcustom.c", "src/fv/share/tdydm.c"], [("reader", "src/fv/share/tdyugrid.c")], 
 tech=ENUM, note="all meshes of seven families (hexahedra, wedges, pyramids, tetrahedra, mixtures) over the grid sizes, four geometries, four permeability kinds; every respelling of every cell, transpositions of cell and vertex numbers; every assignment of the cells of small meshes to two and three processes; all single defects of a cell entry in small files. Cells, faces, distances, residual and derivatives compared with a reference computed from the numbers in the file alone.")

prop("C27", "Physics does not depend on how the mesh is numbered or oriented",
 "Renumbering the cells, faces or vertices of the mesh, or creating it with its axes permuted and reversed, permutes the residuals correspondingly and changes no value, for every discretization, permeability and boundary condition.",
 ["inputs", "configurations"], "all symmetries and a bounded set of renumberings of small problems",
 "Tests have one numbering.",
 ["src/fv/share/tdymeshplex.c", "src/fv/mpfao/tdympfao.c", "src/fv/fvtpf/tdyfvtpf.c"], [("subcell numbering", "src/fv/share/tdymeshplex.c")], 
 tech=ENUM, note="23 rotations/relabellings of the box grid, all transpositions and reversals of cell, face and vertex numbers on small boxes, at states of a small alphabet.")

prop("C28", "Evaluating the model has no memory",
 "The residual and Jacobian at a state depend only on that state, the previous accepted solution and the time step: evaluating other states, Jacobians or diagnostics before, preparing other steps, in any order and number, changes nothing.",
 ["histories"], "all evaluation sequences up to a bounded length over a small set of states",
 "Tests see only the order the solver uses.",
 ["src/fv/mpfao/tdympfao.c", "src/fv/mpfao/tdympfao_snes.c", "src/fv/fvtpf/tdyfvtpf_snes.c"], [("cached state", "TDyUpdateState")], 
 tech=ENUM, note="All sequences of residual, Jacobian, step preparation, diagnostic and time-step calls up to length 4 (5 thorough); bitwise comparison with a fresh dycore.")
