PROPS = {}


def P(pid, driver, rule, **kw):
    PROPS[pid] = dict(driver=driver, rule=rule, **kw)


P("P01", "p01_hdf5",
  "Each case writes a random mix of 3-14 objects (scalars, strings, tags, arrays, matrices, tensors, sparse, block and block-collection "
  "matrices, sample lists) with hostile values and shapes into random groups of one file, reopening it in between, then reads them back in "
  "another order into fresh or dirty targets; a situation is (kind, shape class, target dirty, group depth).",
  min_eval=2000, min_sigs=60)
P("P03", "p03_config",
  "Each case writes a random configuration tree (maps, scalars, lists, lists of maps), applies random command-line overrides, then a random "
  "sequence of lookups, table look-ups, overrides and insertions, compared with a reference model after each step; half the cases before "
  "MPI start-up, half after. A situation is (operation, kinds involved, depth, with/without MPI).", min_eval=20000, min_sigs=60)
P("P04", "p04_param",
  "Each case builds a real, integer or file-name sweep with random range, scale, size and target key, walks every index and draws random "
  "samples; a situation is (kind, scale, size, range class, key).", min_eval=50000, min_sigs=100)
P("P02", "p02_romlib",
  "Each case saves a random library of component, mass, boundary and port operators, then loads it into systems using a random subset of the "
  "components and ports in another order, into fresh or already filled targets; a situation is (library size, subset, order, port counts, "
  "variable split, dirty target).", min_eval=5000, min_sigs=100)
P("P05", "p05_problem",
  "Each case builds 1-3 problems one after the other, then sets parameters by name, by index list, from the configuration or with an unknown "
  "name, evaluating every boundary, source, initial and material function, every boundary attribute and type after each step against a table "
  "of formulas; a situation is (problem, way of setting, parameter).", min_eval=50000, min_sigs=100)
P("P07", "p07_submesh",
  "Each case generates a 2D or 3D mesh of quadrilaterals, triangles, hexahedra or tetrahedra (vertex, element and local orders shuffled, warped, "
  "linear or curved), partitions it in stripes, blocks or at random and decomposes it; a situation is (dimension, shapes, partition, number of "
  "subdomains, geometry order, refinement, decomposition mode, ports).", min_eval=100000, min_sigs=150)
P("P08", "p08_component",
  "Each case generates 1-3 components (mixed shapes in 2D, shuffled numbering, warped, linear or curved) and a grid of up to 9 of them, in 2D "
  "turned by quarter turns, with ports described in the input or the global file; broken variants must stop. A situation is (dimension, shapes, "
  "resolution, geometry order, rotation, components, meshes, ports, way of description).", min_eval=50000, min_sigs=150)
P("P09", "p09_portfile",
  "Each case writes the port data of a generated component system to files, reads them back from one file per port or from a shared file in "
  "another order with foreign ports, compares, and counts open HDF5 objects; a situation is (system shape, file layout).", min_eval=50000, min_sigs=100)
P("P10", "p10_interface",
  "Each case decomposes a generated mesh or builds a generated component system and maps quadrature points of every interface (and of every "
  "reference port) to physical space from both sides; a situation is (topology kind, dimension, shapes, geometry order, numbering, partition or "
  "rotation, number of ports).", min_eval=100000, min_sigs=150)
P("P11", "p11_iface_linear",
  "Each case takes a decomposed mesh or component system (as for P10), finite element spaces of equal or different order per block, and one or "
  "two of the diffusion, tensor diffusion, vector diffusion, elasticity and normal-flux interface terms with position- and block-dependent "
  "coefficients; every block and reference-port matrix is compared with a plain quadrature of the formula. A situation is (topology, terms, spaces).",
  min_eval=2000, min_sigs=200)
P("P12", "p12_iface_nonlinear",
  "Each case takes a decomposed mesh or component system, velocity spaces of equal or different order per block and the Temam and/or "
  "Lax-Friedrichs interface flux; the residual added for random, resting, partly resting, uniform and smooth states of various sizes and the "
  "gradient are compared with plain quadrature and forward differentiation. A situation is (topology, fluxes, spaces, state).",
  min_eval=2000, min_sigs=200)
P("P13", "p13_nonlinear",
  "Each case keeps one set of convection, Temam and inviscid-flux integrators (with, without coefficient, with prescribed field) and Temam and "
  "Lax-Friedrichs face fluxes alive over a random history of element, interior-face and boundary-face operations on two generated meshes and "
  "spaces of mixed order, with default or given rules and outputs of any former size. A situation is (mesh, term, rule given, state).",
  min_eval=20000, min_sigs=500)
P("P15", "p15_hyper",
  "Each case runs a random history of single-point and projected (fast) residual and gradient evaluations of the convection, inviscid-flux and "
  "Lax-Friedrichs kernels on elements, boundary, interior and interface faces of a generated multi-block mesh, with arbitrary weights, bases and "
  "outputs that already hold data, all on the same integrator objects, then saves, reloads and sums samples. A situation is (mesh, space, kernel, "
  "variant).", min_eval=8000, min_sigs=500)
P("P17", "p17_dgforms",
  "Each case evaluates, on a generated mesh with spaces of mixed order, a random history of vector-diffusion face terms, Dirichlet, normal, "
  "normal-stress and Temam boundary data terms (through the element or the boundary element), then assembles a mixed normal-flux form with "
  "domain, interior and marked boundary terms and a second form sharing them. A situation is (mesh, term, space, penalty class, markers).",
  min_eval=5000, min_sigs=300)
P("P18", "p18_linalg",
  "Each case runs 30 random operations out of the projection, row-projection, row-product, tensor, orthonormalisation, block-addition, text-output "
  "and sparse-file helpers on random shapes (including 1 x 1, rectangular, duplicated rows, zero blocks, aliased bases) and magnitudes, with "
  "outputs that already hold other data; a situation is (operation form, shape class).", min_eval=50000, min_sigs=500)
P("P19", "p19_smoother",
  "Each case keeps up to three block Gauss-Seidel / Jacobi smoothers alive on three generated block matrices (1-5 blocks, zero blocks, triangular, "
  "symmetric or not, any scale), switching their operator, initial-guess mode, type and number of sweeps between applications, then uses one as "
  "a Krylov preconditioner and tries unsupported uses; a situation is (operation, matrix class, sweeps, mode).", min_eval=8000, min_sigs=200)
P("P20", "p20_optimizer",
  "Each case minimises the residual of 1-4 generated linear or cubic, square or overdetermined systems with the same optimiser from a zero, random, "
  "exact or near-exact start, with various tolerances and iteration limits; a situation is (size, shape, nonlinearity, start, tolerances, limit, scale).",
  min_eval=3000, min_sigs=300)
P("P22", "p22_meshtools",
  "Each case runs one of the mesh programs with random options (short and long forms, any order, defaults, default file name, unusable requests) "
  "in a scratch directory and reads back what it wrote; a situation is (program, subdomain grid, periodic directions, geometry order, refinement, "
  "shapes, file name given or not, kind of unusable request).", utils=["rectangle_mesh", "cubic_mesh", "1d_mesh", "gmsh2mfem"], min_eval=10000, min_sigs=80)
P("P23", "p23_parallel",
  "Each case starts an MPI job of 1-5 processes in which only the first can read the configuration file, all (or the parts of a split "
  "communicator) time functions with differing numbers and lengths of calls and print reports once or repeatedly, and all divide sample sets; "
  "a situation is (activity, number of processes, role, size class).", rom=True, shards=4, min_eval=200, min_sigs=30)
P("P25", "p25_sampling",
  "Each case builds a grid or random sample generator over 1-4 real, integer or file-name parameters with random sizes and file options, walks every "
  "sample in both directions between index and tuple, sets it (sometimes after another one) and divides the samples over up to total+3 processes; a "
  "situation is (kind, number of parameters, total, processes).", rom=True, min_eval=50000, min_sigs=25)
P("P26", "p26_snapshots",
  "Each case generates a component system, performs 1-4 sampling runs of 1-5 random states with one or several variables per subdomain, writes their "
  "snapshot and port files, then collects a random subset in random order (by name list, name format, both or default) by port or by basis; a situation "
  "is (way of collecting, runs, files used, variables, components, ports, naming).", rom=True, min_eval=20000, min_sigs=100)
P("P27", "p27_solve",
  "Each case generates a boundary value problem (Poisson, advection-diffusion, elasticity, Stokes, steady or unsteady Navier-Stokes) with random data, "
  "boundary conditions, order, penalty, space and solver on a generated decomposed mesh or component system, solves it through the public solver "
  "interface and tests the solution against the equations assembled on the whole mesh (advection also by a flow the Stokes solver computes, saves or "
  "loads); a situation is (equations, topology, shapes, order, space, solver).", rom=True, min_eval=600, min_sigs=100)
P("P28", "p28_rom",
  "Each case generates a parametrised Poisson, elasticity, Stokes or (every eighth case, by a computed flow) advection-diffusion problem on a decomposed mesh or component system, samples it over a parameter grid, "
  "trains bases of full or partial rank (unified or split by variable, with supremizers), builds reduced models at two levels / solver choices and runs "
  "them at new parameters; a situation is (equations, topology, space, level, basis split and ordering, solver, system type, preconditioner, rank).",
  rom=True, min_eval=600, min_sigs=60, ld="-Wl,--wrap=_Z24InitParameterizedProblemv")
P("P29", "p29_romforms",
  "Each case keeps a hyper-reduced form (domain, interior-face, boundary-face terms on a generated mesh, or interface terms on a decomposed mesh or component "
  "system) through rounds of sampling (all points, arbitrary, empty or trained), direct and precomputed evaluation, evaluation through forms that share the "
  "samples, and saving and reloading; a situation is (topology, space, kind of samples, number of terms, sharing, basis offset, criterion).",
  rom=True, min_eval=3000, min_sigs=200)
P("P31", "p31_restart",
  "Half the cases save the (random or computed) solution of a generated problem of any of the six equation types, load it into a second solver, offer files that "
  "do not fit, and convert between the orderings of the solution vector; the other half run time-dependent flow with restart files at a random interval, "
  "compare every file with the same run stopped there, restart from one of them and compare where both runs end; a situation is (activity, equations, "
  "topology, dimension, space, interval, step restarted from).", rom=True, min_eval=3000, min_sigs=80)
P("P30", "p30_nsrom",
  "Each case generates a parametrised steady Navier-Stokes problem (base or Lax-Friedrichs form) on a decomposed mesh or component system, samples it, trains "
  "bases (unified or split, with supremizers) and, for hyper-reduction, sampled points (all, or as trained), builds the reduced model and runs it at new or "
  "training parameters; a situation is (tensor or hyper-reduced, topology, space, level, basis split and ordering, rank, form, training, dimension). Every fifth case "
  "does the same with time-dependent flow: snapshots at an interval after a start step, and reduced runs from the projected initial state or a restart file.",
  rom=True, min_eval=1500, min_sigs=40, ld="-Wl,--wrap=_Z24InitParameterizedProblemv")
P("P32", "p32_configs",
  "Each case runs the configuration scripts of utils/python (with a stand-in for h5py that writes real HDF5 files) for a random request: boxes of components "
  "placed one by one, drawn, or enumerated, with periodic directions; chains chosen, drawn or enumerated; lattices of any size and bar widths with their "
  "boundary variants; the grids and lattice programs; statistics over result files. Every file is read with the C library, judged against the geometry "
  "asked for, and loaded by the component topology; a situation is (request, size class, periodicity, number of components or variant).",
  min_eval=100000, min_sigs=150)
P("P21", None,
  "The first cases of the workloads of P01-P05, P07-P13, P15, P17-P20, P22, P25, P26 and P29 are each run four times in one process, with every "
  "block of memory followed from allocation to release, and the open files and HDF5 objects counted after each run; what the second and the "
  "third run leave behind is a leak. A situation is a situation of the workload concerned.",
  subs=["P01", "P02", "P03", "P04", "P05", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P17", "P18", "P19", "P20", "P22", "P25", "P26", "P29"],
  mode=["--leaks"], cases=dict(quick=32, thorough=160), min_eval=2000000, min_sigs=300)
