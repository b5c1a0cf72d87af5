NOT_APPLICABLE = []
TABLE = []


def T(id, title, statement, over, forall, tests, files, mech, observe, tech, note):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech,
                      observe=observe, tech=tech, note=note))


T("P01", "Data persisted to HDF5 reads back bit-identical",
  "Any integer, real, boolean, string or component/variable tag, and any array, vector, dense matrix, tensor, sparse matrix, block matrix, "
  "block collection or quadrature-sample list that the library writes into an HDF5 file or group reads back with the same shape and the same "
  "bits. This holds whatever the target held before, in whatever order objects are read, after the file was closed and reopened, and writing "
  "one object never alters another. No read or write leaves an HDF5 object open.",
  ["inputs", "histories"], "every supported data kind, shape (non-empty; arrays and sample lists also empty) and value including non-finite ones, every write/reopen/read order",
  "test_hdf5 samples one or two fixed shapes per kind with ordinary values and fresh targets; nothing checks sparse, block or sample data.",
  ["src/hdf5_utils.cpp", "include/hdf5_utils.hpp"], [("typed dataset/attribute readers and writers", "hdf5_utils.cpp, hdf5_utils.hpp")],
  ["values returned by the readers"], "ASan/UBSan build + online round-trip monitor against an in-memory model of the file",
  "held on the generated files only; empty dense/2-D data are outside the library's contract (it asserts on them)")

T("P02", "A reloaded ROM operator library gives every component its own operators",
  "Component, boundary and port reduced operators saved to a library file are found again by component and port name: loading them into a "
  "system that uses the same or another subset of components, in another order, gives each component, boundary attribute and port exactly "
  "the matrices saved for it, bit for bit. A library that lacks something the system needs, or has a different number of boundaries or "
  "variables, stops the program instead of being silently accepted.",
  ["inputs", "histories"], "every library of components, boundaries and ports, every loading system that uses a subset of them in any order",
  "The tests save and load one fixed library into the very system that wrote it.",
  ["src/rom_element_collection.cpp", "include/rom_element_collection.hpp", "src/hdf5_utils.cpp"],
  [("save/load of component, boundary and port elements", "rom_element_collection.cpp")],
  ["operators held by the element collection after load"], "ASan/UBSan build + online save/load monitor against an in-memory model, fault injection for missing parts",
  "held on the generated libraries only")

T("P03", "Configuration lookups return what the file and overrides say",
  "A configuration lookup returns the value at the requested path of the file as modified by the command-line overrides and later "
  "insertions, the given default when the path is absent, and stops the program when a required entry is absent. Overrides change exactly the "
  "named entries, name-keyed tables select the first matching row, and reading never changes what later lookups return.",
  ["inputs", "histories"], "every configuration tree, override list and sequence of lookups and insertions, with and without MPI",
  "test_input_parser checks a few fixed files and keys.",
  ["src/input_parser.cpp", "include/input_parser.hpp"], [("lookup, override, table search", "input_parser.cpp/.hpp")],
  ["values returned by lookups"], "ASan/UBSan build + online comparison of lookup/override histories with a reference model",
  "held on the generated trees and histories only; single MPI rank")

T("P04", "Parameter sweeps hit the documented sample points and stay in range",
  "A real, integer or file-name sweep parameter sampled at a given index writes the value its range, scale and size prescribe (both ends "
  "included for real sweeps, equal steps in the value or its logarithm) into exactly its own configuration key, and a random sample lies "
  "inside the range. The value depends only on the index, not on what was sampled before.",
  ["inputs", "histories"], "every range, scale, size, index and sampling history",
  "Unit tests cover a couple of ranges and never random draws over the whole range.",
  ["src/parameter.cpp", "include/parameter.hpp"], [("sampling of sweep parameters", "parameter.cpp")],
  ["configuration entry after each sample"], "ASan/UBSan build + online monitor of every sampled value against a reference formula",
  "held on the generated sweeps only; integer sweeps follow the code's truncated spacing")

T("P05", "Problem data follow exactly the parameters that were set",
  "For every built-in parameterized problem, setting a parameter by name, by index or from the configuration changes exactly that parameter; "
  "all others keep their value, a newly built problem starts from its documented defaults whatever ran before, and an unknown parameter or "
  "problem name stops the program. Boundary attributes and types (including the inflow/outflow switch with flow direction) and all source, "
  "boundary, initial and material functions return the prescribed formula of position, time and current parameters, in the dimension of the mesh, "
  "the same value on every call.",
  ["inputs", "histories"], "every problem, parameter value, order of settings, evaluation point in 2D and 3D, and problems built one after another",
  "The tests run a few problems with one parameter set each and look only at solver errors.",
  ["src/parameterized_problem.cpp", "include/parameterized_problem.hpp"], [("parameter map, defaults and boundary switch", "parameterized_problem.cpp"), ("problem functions", "parameterized_problem.cpp namespace function_factory")],
  ["function values, boundary attributes and types after each setting"], "ASan/UBSan build + online model of the parameter state, oracle table of formulas evaluated at random points, poisoned outputs",
  "held on the sampled histories and points only")

T("P07", "Decomposing a mesh loses nothing and finds each interface exactly once",
  "Decomposing a mesh by its domain attributes puts every element into exactly the subdomain its attribute names with unchanged geometry, and "
  "pairs every face between two subdomains exactly once, in one port per adjacent pair with its own unused boundary attribute. Outer boundary "
  "faces keep their attribute, each subdomain lists exactly the attributes it uses, and fields on the subdomains transfer back to the "
  "undivided mesh unchanged.",
  ["inputs", "configurations"], "every 2D/3D mesh of quadrilaterals, triangles, hexahedra or tetrahedra, numbering, geometry order and partition (connected or not), with or without decomposition and refinement",
  "test_topol uses two or three fixed meshes with regular numbering and tidy partitions.",
  ["src/topology_handler.cpp", "include/topology_handler.hpp"], [("submesh construction, interface and port building, boundary attributes", "topology_handler.cpp SubMeshTopologyHandler")],
  ["subdomain meshes, ports, interface pairs, transferred fields"], "ASan/UBSan build + online conservation/exactly-once monitor against the parent mesh on shuffled, warped random partitions",
  "held on the generated meshes and partitions only; 3D parents carry one high boundary attribute because of the installed MFEM's attribute numbering")

T("P08", "A component-wise domain is exactly the described placement of its components",
  "Building a domain from component meshes and a global description places each copy by its translation and rotation, gives every boundary side "
  "the described global attribute, and pairs port faces exactly once with the coinciding faces of the described neighbour, whether ports come from "
  "the input file, the global file or both. Descriptions that name a missing component or port, an attribute that does not exist, or sides that do "
  "not coincide stop the program.",
  ["inputs", "configurations", "fault_sequences"], "every set of component meshes, placement, port set and boundary map, and broken descriptions",
  "Tests use one or two axis-aligned grids with regular numbering.",
  ["src/component_topology_handler.cpp", "include/component_topology_handler.hpp"], [("placement, port pairing, boundary attributes", "component_topology_handler.cpp")],
  ["meshes, ports and interface pairs of the built domain"], "ASan/UBSan build + online comparison of the built domain with the generator's own geometry; injected broken descriptions in forked children",
  "held on the generated systems only; rotations as the code defines them (2D: third angle; 3D: translation)")

T("P09", "Port files written by one domain are interchangeable with rebuilding the ports",
  "Port data written to files and read back, one file per port or shared, in any order and among foreign ports, give the same interface pairs "
  "as building the ports from the description. Reading and writing leave no file open, so that the files can be rewritten.",
  ["inputs", "histories"], "every component system, port file layout and read order",
  "Tests read one fixed set of port files.",
  ["src/component_topology_handler.cpp"], [("port file reading and writing", "component_topology_handler.cpp ReadPortDatasFromFile / WritePortDataToFile")],
  ["interface pairs, open HDF5 objects"], "ASan/UBSan build + online comparison of both construction paths + HDF5 open-object monitor",
  "held on the generated systems only")

T("P10", "Both sides of every interface see the same points, normals and measures",
  "At every quadrature point of every interface, and of every reference port, the traces from the two sides are taken at the same physical "
  "point of the two neighbouring meshes (up to the placement of the copies), and the normal and surface measure used are those of the "
  "interface at that very point, pointing out of the first side.",
  ["inputs", "configurations"], "every decomposed or component-wise mesh, straight or curved, in any numbering and orientation",
  "Tests use straight, regularly numbered meshes on which mirrored points and normals coincide.",
  ["src/topology_handler.cpp", "src/component_topology_handler.cpp", "include/topology_handler.hpp"],
  [("interface orientation data", "topology_handler.cpp FindParentInterfaceInfo, component_topology_handler.cpp"), ("two-sided transformations", "topology_handler.cpp GetInterfaceTransformations")],
  ["physical coordinates, Jacobians and normals at the mapped points"], "ASan/UBSan build + online geometric monitor of every mapped quadrature point",
  "held on the generated meshes only; tolerance 1e-9 relative")

T("P11", "Linear interface terms couple subdomains exactly as the DG formula says",
  "The matrix blocks assembled for diffusion, tensor diffusion, vector diffusion, elasticity and normal-flux coupling across an interface are "
  "the integral of the documented discontinuous Galerkin jump/average formula with the given coefficients and penalty, in the block of the "
  "right pair of subdomains and nowhere else. This holds per interface and per reference port, for any order of the spaces on either side, "
  "and summing several terms gives the sum of their matrices.",
  ["inputs", "configurations"], "every interface geometry, numbering and orientation, coefficient, penalty, space order on either side and set of terms",
  "Tests compare against a monolithic solve on regular meshes with constant coefficients (and need libROM); none runs the interface matrices here.",
  ["src/interface_form.cpp", "src/interfaceinteg.cpp", "include/interfaceinteg.hpp"],
  [("interface loops and block placement", "interface_form.cpp"), ("linear interface integrators", "interfaceinteg.cpp Interface*Integrator")],
  ["assembled block matrices"], "ASan/UBSan build + online comparison of every assembled block with an independent quadrature of the formula",
  "held on the generated cases only; tolerance 1e-9 relative; reference-port matrices compared for unrotated copies only")

T("P12", "Nonlinear interface fluxes and their gradients are consistent and conservative",
  "The residual added across an interface by the Temam and Lax-Friedrichs fluxes is the documented flux evaluated from both sides' states at the "
  "quadrature points of the chosen rule, added to what the output held, and the gradient is its exact derivative with respect to both sides, "
  "finite also where the flow is at rest. The Lax-Friedrichs flux takes from one side what it gives to the other, and the state is not modified.",
  ["inputs", "configurations"], "every interface, state (rest, one side at rest, uniform, random, any magnitude), space order on either side and combination of fluxes",
  "The one test checks one random state on one mesh by finite differences with a loose tolerance.",
  ["src/interface_form.cpp", "src/interfaceinteg.cpp", "include/interfaceinteg.hpp"],
  [("nonlinear interface loops", "interface_form.cpp InterfaceAddMult / InterfaceGetGradient"), ("fluxes", "interfaceinteg.cpp")],
  ["residual vector and gradient blocks"], "ASan/UBSan build + online comparison with an independent quadrature and exact forward differentiation, conservation monitor",
  "held on the generated states only; at kinks of the Lax-Friedrichs speed the gradient is not compared")

T("P13", "Nonlinear element and face terms equal their integrals and exact derivatives",
  "The convection (also by a prescribed field), Temam and inviscid-flux element terms and the Temam and Lax-Friedrichs terms on interior and "
  "boundary faces give the documented integral under the chosen or default quadrature rule, and their gradients are the exact derivative of "
  "that residual. The result depends only on the element, face and state asked for: not on what the same object computed before, nor on what "
  "the output held, and the state is left unmodified.",
  ["inputs", "histories"], "every mesh, element, face, space order on either side, state of any magnitude (also rest), rule, and order of calls on one object",
  "Tests check single random states by finite differences with loose tolerance, each on a fresh object and one mesh.",
  ["src/nonlinear_integ.cpp", "src/interfaceinteg.cpp", "src/hyperreduction_integ.cpp"],
  [("domain terms", "nonlinear_integ.cpp, hyperreduction_integ.cpp"), ("face fluxes", "interfaceinteg.cpp AssembleFaceVector / AssembleFaceGrad")],
  ["element and face vectors and matrices"], "ASan/UBSan build + online comparison with independent quadrature and forward differentiation over call histories",
  "held on the generated cases only; at kinks of the Lax-Friedrichs speed only finiteness of the gradient is checked")

T("P15", "Sampled quadrature evaluation equals the full term at that point",
  "Evaluating a nonlinear term at one sampled quadrature point, by the direct or by the precomputed (projected) kernel, gives the weight times "
  "the integrand of the full term at that point, projected on the given bases, and its gradient is the exact derivative; results are added to "
  "what the output held. Sampled points with their weights save, reload, replace and combine without change or duplication.",
  ["inputs", "histories"], "every element, boundary, interior and interface face, point, weight, basis, state and order of operations",
  "The tests for reduced evaluation need libROM and do not build here; they use one mesh and one sample set.",
  ["src/hyperreduction_integ.cpp", "include/hyperreduction_integ.hpp", "src/interfaceinteg.cpp", "src/nonlinear_integ.cpp"],
  [("point and fast kernels", "hyperreduction_integ.cpp AssembleQuadrature* / AddAssemble*_Fast"), ("sample lists", "hyperreduction_integ.cpp, hdf5_utils.cpp")],
  ["kernel outputs, sample lists"], "ASan/UBSan build + online comparison with an independent integrand and its derivative over call histories",
  "held on the generated cases only")

T("P17", "DG bilinear and boundary-data terms equal their formulas on the right faces",
  "The vector-diffusion face term, the weak Dirichlet, normal, normal-stress and Temam boundary data terms and the mixed normal-flux form equal "
  "their documented integrals for every coefficient and penalty. A mixed form applies each term exactly to the elements, interior faces and "
  "marked boundary faces it was added for, sums all terms, and can share terms with another form.",
  ["inputs", "configurations"], "every mesh, pair of spaces, coefficient, penalty, boundary marker and combination of terms",
  "Tests compare convergence rates on one unit square (most need libROM), where wrong faces or signs can cancel.",
  ["src/dg_bilinear.cpp", "src/dg_linear.cpp", "src/dg_mixed_bilin.cpp"],
  [("face terms", "dg_bilinear.cpp"), ("boundary data", "dg_linear.cpp"), ("mixed form assembly", "dg_mixed_bilin.cpp")],
  ["element matrices, vectors and assembled forms"], "ASan/UBSan build + online comparison with independent quadrature and assembly",
  "held on the generated cases only")

T("P18", "Dense, sparse, block and tensor helpers compute what they define",
  "Projections onto bases (dense, sparse, added with a weight, restricted to selected rows), products with selected rows, tensor contractions along "
  "each axis, orthonormalisation, summation into block matrices and block copies give the value of their definition, also for repeated or unsorted "
  "rows, empty blocks, one-row or one-column data, matrices of the libROM library and outputs holding other data. Inputs come out unchanged, and text and sparse-matrix "
  "files hold the values written.",
  ["inputs"], "every shape, magnitude, set of rows, operator kind, sparsity pattern and former content of the output",
  "Three tests sample one shape each of three helpers; the tensor, sparse, block and file helpers are not tested.",
  ["src/linalg_utils.cpp", "include/linalg_utils.hpp"], [("helpers", "linalg_utils.cpp")],
  ["returned values, input bits"], "ASan/UBSan build + online comparison with an extended-precision evaluation of each definition",
  "held on the generated inputs only; tolerance relative to the sum of absolute terms")

T("P19", "Block smoothers perform their documented sweeps for the operator they hold",
  "Block Gauss-Seidel (symmetric, forward, backward, any number of sweeps, from zero or from the given guess) and block Jacobi give exactly the "
  "iterate of the documented sweep for the operator they were last given, whatever its blocks, and leave the right-hand side alone. Unsupported "
  "modes and operators stop the program.",
  ["inputs", "histories"], "every block matrix with invertible diagonal blocks (also with missing blocks), type, sweep count, guess mode and change of operator",
  "Tests apply one fresh smoother once to one full block matrix.",
  ["src/block_smoother.cpp", "include/block_smoother.hpp"], [("sweeps", "block_smoother.cpp")],
  ["iterates after each application"], "ASan/UBSan build + online comparison with an extended-precision sweep over histories of operator changes",
  "held on the generated matrices only")

T("P20", "The nonlinear least-squares minimiser never worsens and never misreports",
  "Minimising the residual of an operator never leaves a larger residual than it started with nor non-finite values, reports convergence only if "
  "the residual left meets a tolerance, and does so for well-conditioned systems within the iterations allowed. This holds from any start, also the "
  "exact solution, and when one minimiser is used for several systems.",
  ["inputs", "histories"], "every linear or mildly nonlinear, square or overdetermined consistent system, start, tolerance, iteration limit and re-use",
  "No test runs the minimiser.",
  ["src/linalg_utils.cpp", "include/linalg_utils.hpp"], [("conjugate gradient minimiser and line search", "linalg_utils.cpp CGOptimizer")],
  ["residual before/after, convergence flag"], "ASan/UBSan build + online monitor of the residual and of the claims over re-use",
  "held on the generated well-conditioned systems only")

T("P21", "Repeated work releases what it takes: memory, files and HDF5 objects",
  "Building, using and destroying the same meshes, topologies, forms, integrators, sample lists, operator libraries, problems and file records "
  "again and again in one process leaves nothing behind: every block of memory the library allocates is released exactly once by the time its "
  "owner is gone, whatever the owner did in between, and every file and HDF5 object it opens is closed again. Long sweeps thus run in bounded "
  "memory and never exhaust handles.",
  ["inputs", "histories"], "every workload of the other properties up to the assembly of forms and reduced forms, repeated any number of times in one process",
  "Tests run each operation once per process and do not watch memory or handles; a leak or an unclosed object fails none of them.",
  ["src/interface_form.cpp", "src/component_topology_handler.cpp", "src/hdf5_utils.cpp", "src/hyperreduction_integ.cpp", "src/rom_element_collection.cpp"],
  [("owned pointers", "DeletePointers and destructors"), ("HDF5 objects", "hdf5_utils.cpp, component_topology_handler.cpp, rom_element_collection.cpp"), ("temporaries", "interface_form.cpp, nonlinear_integ.cpp")],
  ["allocations, releases, open descriptors and HDF5 identifiers"], "ASan allocation hooks: every block followed over four equal runs in one process; handle counts",
  "held on the workloads repeated only; solver classes (one per run of the program) are outside the property, they keep some objects to the end")

T("P22", "Mesh programs write the box, line or converted mesh that was asked for",
  "The rectangle, cube and line mesh programs write a readable mesh that fills exactly the box asked for with the elements, geometry order, "
  "refinement and periodic connections asked for, whose element attributes number the subdomain grid x first. The converter keeps "
  "the geometry, space, attributes and order of its input. Unusable requests end with an error and no partial result.",
  ["inputs", "configurations"], "every option set: sizes, element counts, subdomain grids, element kinds, orders, refinements, periodic directions, file names, inputs",
  "No test runs the programs.",
  ["utils/rectangle_mesh.cpp", "utils/cubic_mesh.cpp", "utils/1d_mesh.cpp", "utils/gmsh2mfem.cpp"], [("mesh programs", "utils/*.cpp")],
  ["exit codes, files written, meshes read back"], "ASan/UBSan build of the programs + offline check of the meshes they write",
  "held on the generated option sets only")

T("P23", "Processes of a run share one configuration, division of work and time report",
  "With several MPI processes every process ends with the configuration of the file the first one read with the same overrides applied; samples "
  "are divided into contiguous, complete, balanced parts that all processes agree on; and a time report adds up times and calls over the processes "
  "of its communicator, once, however often it is printed.",
  ["inputs", "schedules"], "every number of processes, communicator split, configuration, timing pattern, sample count and process order",
  "Tests run on one process.",
  ["src/input_parser.cpp", "include/etc.hpp", "src/sample_generator.cpp"],
  [("configuration broadcast", "input_parser.cpp InputParser"), ("time report", "etc.hpp TimeProfiler"), ("division", "sample_generator.cpp DistributeSamples")],
  ["records of every process, printed reports"], "ASan/UBSan build run under mpirun + offline check over the records of all processes",
  "held on the process counts (1-5) and schedules run; times are compared with the process's own measurements with slack")

T("P25", "Sampling visits every point of the parameter grid once, on one process",
  "Every sample number and parameter index tuple correspond one to one, last parameter fastest; setting a sample writes exactly its values "
  "into the configuration, leaving other keys alone and independent of the samples set before; every sample has its own file path (with the "
  "offset); and the samples are divided completely over any number of processes, each to one process.",
  ["inputs", "histories"], "every number, kind, range, size and scale of parameters, grid or random sampling, file options, order of samples, processes",
  "The sampling code needs libROM and is not built or tested here.",
  ["src/sample_generator.cpp", "src/random_sample_generator.cpp", "src/parameter.cpp"],
  [("grid", "sample_generator.cpp GetSampleIndex / SetSampleParams / DistributeSamples"), ("random", "random_sample_generator.cpp"), ("values", "parameter.cpp")],
  ["index maps, configuration, paths"], "ASan/UBSan build (libROM stand-in) + online comparison with an independent enumeration",
  "held on the generated sweeps only; libROM's file layer is replaced by a stand-in")

T("P26", "Snapshots and their port pairs come back complete and in order",
  "Training reads back exactly the snapshots that sampling runs saved, each under its component (and variable) and in the order saved, whether "
  "they are collected by basis, by port or by default and from one or many files; the snapshot pairs of each port point at the two sides of the same "
  "interface of the same run. Spectra are written in full.",
  ["inputs", "histories"], "every system of components and ports, number of runs, samples, variables, file naming and way of collecting",
  "The sampling code needs libROM and is not built or tested here.",
  ["src/sample_generator.cpp", "src/main_workflow.cpp", "src/hdf5_utils.cpp"],
  [("saving", "sample_generator.cpp SaveSnapshot / SaveSnapshotPorts / WriteSnapshotPorts"), ("collecting", "sample_generator.cpp CollectSnapshots*, main_workflow.cpp")],
  ["snapshot matrices and port pairs"], "ASan/UBSan build (libROM stand-in) + offline check of what is collected against what was saved",
  "held on the generated runs only; libROM's file layer is replaced by a stand-in")

T("P27", "Decomposed full-order solutions satisfy the whole equations",
  "For every decomposition - blocks of one mesh, or components joined at their ports - the computed solution, block by block, satisfies "
  "the discretised equations written on the undecomposed domain: Poisson, elasticity, Stokes, steady and unsteady Navier-Stokes and "
  "advection-diffusion, with interior penalty coupling between blocks and with natural, given, zero or unspecified boundary conditions, set "
  "directly or through a parameterised problem. Incompressible flow with velocity given everywhere is balanced to zero net flux first. Advection may be by a "
  "given flow, by one the Stokes solver computes for another problem on the same blocks (kept in a file when asked), or by one read from a file.",
  ["inputs"], "every mesh, partition, component system, order, discontinuous or continuous blocks, penalty, boundary data, right side, direct or iterative solver",
  "The solver tests need libROM and are not built or tested here; they sample a handful of manufactured solutions.",
  ["src/poisson_solver.cpp", "src/linelast_solver.cpp", "src/stokes_solver.cpp", "src/steady_ns_solver.cpp", "src/unsteady_ns_solver.cpp",
   "src/advdiff_solver.cpp", "src/multiblock_solver.cpp"],
  [("assembly and solve", "*_solver.cpp BuildOperators / SetupBCOperators / Assemble / Solve"), ("problem setup", "*_solver.cpp SetParameterizedProblem"),
   ("flux balance", "stokes_solver.cpp SetComplementaryFlux"), ("computed flow", "advdiff_solver.cpp GetFlowField")],
  ["solution grid functions of every block"], "ASan/UBSan build (libROM stand-in) + online residual of the independently assembled undecomposed equations",
  "held on the generated problems only; libROM and the direct solver are replaced by stand-ins; Navier-Stokes on one cell shape")

T("P28", "Reduced models give the Galerkin solution of the whole equations",
  "Sampling, training, building and running a reduced model of Poisson, advection-diffusion (flow computed by the Stokes solver), elasticity or Stokes problems gives, at any parameters, the Galerkin "
  "solution of the discretised equations on the undecomposed domain in the span of the trained bases, and reproduces the full-order solution when "
  "that lies in the span. This does not depend on where operators are kept (not saved, global, or per component), on one basis or one per variable, "
  "on the ordering of unknowns, or on the solver. Bases are orthonormal and hold the supremizers of their pressure modes; the reported relative error "
  "is that of each variable over all subdomains. A reduced system written for analysis is the projected matrix, right-hand side and solution.",
  ["inputs", "histories"], "every parametrised problem, decomposition (component-level operators: instances placed by translation), sample grid, number of modes, operator level, basis split, ordering, linear solver and preconditioner",
  "The ROM tests need libROM and are not built here; they reproduce a handful of fixed problems.",
  ["src/main_workflow.cpp", "src/rom_handler.cpp", "src/multiblock_solver.cpp", "src/rom_element_collection.cpp", "src/poisson_solver.cpp", "src/linelast_solver.cpp",
   "src/stokes_solver.cpp", "src/interface_form.cpp", "src/linalg_utils.cpp", "src/block_smoother.cpp", "src/hdf5_utils.cpp"],
  [("workflow", "main_workflow.cpp GenerateSamples / TrainROM / BuildROM / SingleRun"), ("projection and reduced solve", "rom_handler.cpp ProjectToRefBasis / ProjectToDomainBasis / Solve"),
   ("component-wise operators", "*_solver.cpp Build*ROMLinElems; multiblock_solver.cpp AssembleROMMat"), ("supremizers", "stokes_solver.cpp EnrichSupremizer")],
  ["saved solutions", "basis files", "reported errors"], "ASan/UBSan build (libROM stand-in) + online Galerkin oracle from the independently assembled undecomposed equations",
  "held on the generated problems only; libROM and the direct solver are replaced by stand-ins; rotated instances with component-level operators are a known finding")

T("P29", "Hyper-reduced forms are the weighted sum of their sampled points",
  "A hyper-reduced domain, face or interface form gives the projected residual and gradient summed over its sampled points with their weights: with all "
  "points and the rule's own weights that is the projection of the full form. Precomputed evaluation equals direct evaluation, a form that shares another's "
  "samples or refers to a part of the basis agrees with it, and samples saved and reloaded give the same operator. Training selects existing points "
  "with positive weights and reproduces the training residuals within the requested tolerance (two-norm or maximum norm). Misuse stops the program.",
  ["inputs", "histories"], "every mesh, decomposition, basis, integrator, quadrature order, set of sampled points, training set, tolerance and sequence of sampling, precomputing, saving and loading",
  "The tests of these forms need libROM and are not built here; they check one mesh and one sample set.",
  ["src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp", "src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp", "src/linalg_utils.cpp", "src/hdf5_utils.cpp"],
  [("hyper-reduced forms", "rom_nonlinearform.cpp, rom_interfaceform.cpp Mult / GetGradient / PrecomputeCoefficients"),
   ("training", "rom_nonlinearform.cpp, rom_interfaceform.cpp TrainEQP"), ("sample-wise integrators", "hyperreduction_integ.cpp, interfaceinteg.cpp"),
   ("saving", "Save/LoadEQPForIntegrator")],
  ["residuals, gradients, sample points and weights"], "ASan/UBSan build (libROM stand-in) + online comparison with the projected full forms, an independent weighted sum, and re-runs after reload",
  "held on the generated forms only; libROM's non-negative least squares is replaced by a stand-in")

T("P30", "Reduced Navier-Stokes models solve the Galerkin equations of the whole domain",
  "Sampling, training, building and running a reduced steady Navier-Stokes model gives, at any parameters, a state in the span of the trained bases that "
  "satisfies the discretised nonlinear equations of the undecomposed domain tested with those bases - with precomputed tensors (operators not saved, global or "
  "per component), and with hyper-reduction when every point is sampled - and reproduces the full-order solution when it lies in the span, also with points "
  "trained to a tight tolerance. Basis split, ordering, convective form (base or Lax-Friedrichs), precomputation and starting state do not change this. Training "
  "aims at the full quadrature sums. A reduced unsteady model (split bases, hyper-reduced) takes, from the projected initial state or a restart file, the time "
  "steps of the undecomposed domain tested with its bases, and its samples are one snapshot per subdomain, parameter point and chosen time step.",
  ["inputs", "histories"], "every parametrised problem, decomposition (component-level operators: instances placed by translation), sample grid, number of modes, nonlinear handling, operator level, basis split, ordering, convective form and boundary data",
  "The Navier-Stokes ROM tests need libROM and are not built here; they reproduce one or two fixed problems.",
  ["src/unsteady_ns_solver.cpp", "src/steady_ns_solver.cpp", "src/stokes_solver.cpp", "src/main_workflow.cpp", "src/rom_handler.cpp", "src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp", "src/sample_generator.cpp", "src/hyperreduction_integ.cpp"],
  [("reduced operators", "steady_ns_solver.cpp SteadyNSTensorROM / SteadyNSEQPROM"), ("tensors and hyper-reduced elements", "steady_ns_solver.cpp *ROMTensorElems, *ROMEQPElems, AssembleROM*Oper"),
   ("reduced Newton solve", "rom_handler.cpp NonlinearSolve"), ("snapshots by port", "sample_generator.cpp CollectSnapshotsByPort"),
   ("reduced time steps", "unsteady_ns_solver.cpp SolveROM, AssembleROMMat")],
  ["saved solutions", "training systems", "reported errors"], "ASan/UBSan build (libROM stand-in) + online residual of the reduced equations from the independently assembled undecomposed problem",
  "held on the generated problems only; libROM, its least squares and the direct solver are replaced by stand-ins")

T("P31", "Saved solutions and restart files resume the computation exactly",
  "A saved solution file holds the solution (bit for bit) with its step and time, and loads back into any solver of the same problem; a missing file or one of another "
  "problem stops the program; with saving disabled nothing is written. Restart files appear at every interval, each equal to the end of the same run stopped there, and a run restarted "
  "from one ends where the whole run does. Converting between the orderings of unknowns (by subdomain, by variable, one variable) moves every value to its "
  "place. Exactly the selected subdomains are visualised.",
  ["inputs", "crash_points", "histories"], "every equation type, decomposition, order, saving option, restart interval, step at which the run stops and continues, and ordering",
  "The solver tests need libROM and are not built here; they do not restart a run.",
  ["src/multiblock_solver.cpp", "src/unsteady_ns_solver.cpp", "src/steady_ns_solver.cpp", "src/hdf5_utils.cpp", "src/main_workflow.cpp"],
  [("saving and loading", "multiblock_solver.cpp SaveSolution / LoadSolution / LoadSolutionWithTime"), ("time stepping", "unsteady_ns_solver.cpp Solve"),
   ("orderings", "multiblock_solver.cpp Sort*/CopySolution")],
  ["solution files", "solution vectors", "written collections"], "ASan/UBSan build (libROM stand-in) + offline comparison of the files with the memory and with re-run prefixes",
  "held on the generated runs only; the direct solver is replaced by a stand-in")


T("P32", "Configuration scripts describe exactly the domain that was asked for",
  "A global configuration file written by the scripts in utils/python places every component asked for once, where it was asked for, under its own name. Two sides of "
  "instances that meet (across a periodic direction too, where asked for; in a chain, consecutive instances only) are listed as one interface, whose port names the "
  "same components and sides and the displacement from the first to the second; every other side is on the boundary once, under the global attribute of its side of the "
  "domain (inlet 4 and outlet 2 of a chain with walls 1 and 3; the free inner sides of a lattice 5, variants turned by quarter turns), as is the hole of a component "
  "that has one. Enumerations contain every assignment or chain once. The component topology loads the file as that domain. Meshes with turned boundary attributes differ in "
  "those only, and the statistics over result files are the median, least, largest and 2.5/97.5 % values of each quantity.",
  ["inputs", "histories"], "every size, component set, order of placement, periodicity, drawn or enumerated configuration, chain, lattice size and bar widths, boundary variant, number of result files",
  "No test runs the scripts; shipped examples fix one size each.",
  ["utils/python/config.py", "utils/python/box_channel_config.py", "utils/python/channel_config.py", "utils/python/box_comp_config.py", "utils/python/linelast_comp_base.py", "utils/python/linelast_comp.py",
   "utils/python/linelast_cwtrain.py", "utils/python/sample_comp.py", "utils/python/read_output.py", "src/component_topology_handler.cpp"],
  [("boxes", "box_channel_config.py addMesh / interfaceForPair / GenerateAllConfigs"), ("chains", "channel_config.py addMesh / DetermineGlobalAttr"), ("ports and files", "config.py appendInterface / save"),
   ("lattices", "linelast_comp_base.py cw_generate_nu_mxn / cw_generate_nu_1x1")],
  ["written configuration files", "loaded meshes and interfaces", "written meshes and tables"], "offline geometric oracle over the recorded files + ASan/UBSan build of the component topology loading them",
  "held on the generated requests only; h5py is replaced by a stand-in over the same HDF5 library; three-dimensional and hand-made grids are fixed examples")