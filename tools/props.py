# The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from this file.
def P(id, title, statement, over, quant, why, files, mech, technique, note, claimed=True, reason=""):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                technique=technique, note=note, claimed=claimed, reason=reason)

PROPS = []
def add(*a, **k):
    PROPS.append(P(*a, **k))

add("C01", "Loading a mesh database preserves the mesh, whatever the process count",
    "For every valid VTK legacy, EnSight Gold, Ansys CDB or Netgen database with 3D elements, the distributed mesh obtained by loading it with any number of MPI processes, any number of threads and any decomposition contains every element of the file exactly once, with its type, its material/body and its nodes in the file's order at the file's coordinates, and no other element or node. "
    "Every named element, face and node region of the file holds exactly the items the file assigns to it. "
    "Rigid transformations and duplications requested in the configuration (translation, rotation, instances) are applied exactly as requested, and only to the region they name.",
    ["inputs", "configurations", "schedules"],
    "all meshes mixing the supported 3D element types (linear and quadratic) with arbitrary regions, bodies and materials; file formats; 1..7 processes; 1..3 threads; decomposers and decomposition options",
    "The stable tests only use the built-in generator; no test loads a database, and a handful of files could not cover block boundaries falling at arbitrary bytes of a file read in parallel.",
    ["src/input/", "src/mesh/", "src/basis/io/", "src/basis/containers/"],
    [("parallel readers and format parsers", "src/input/parsers/*, src/basis/io/inputfile.*"), ("mesh builder: clusterization, duplicate merging, region assembling", "src/input/builders/*"),
     ("public mesh API", "include/mesio.h, src/wrappers/mesio/w.mesio.cpp")],
    "offline trace checker over per-rank dumps of the loaded mesh (public mesh API), compared with the generated database; random meshes, ranks, threads, decomposers",
    "held on every execution explored; meshes of up to a few thousand elements")

add("C02", "Distributed mesh structures are globally consistent",
    "After loading any supported mesh with any number of processes and threads, the per-process views agree with each other: global node and element identifiers are unique and contiguous, every node is listed with exactly the processes that use it and has identical coordinates on all of them, each element belongs to exactly one process and one domain, and domains partition each process' elements. "
    "Element-to-element neighbours are symmetric and correspond exactly to shared faces, node-to-element links correspond exactly to the connectivity, and every boundary element has a parent element containing its nodes. "
    "These facts hold for every decomposer and every decomposition option (forced continuity, separation of regions/materials/element types).",
    ["inputs", "configurations", "schedules"],
    "all meshes mixing supported element types; 1..7 processes; 1..3 threads; decomposers and their options",
    "Tests compare a few monitored values; a wrong rank list, neighbour or identifier on an uncommon partition never shows up there.",
    ["src/mesh/preprocessing/", "src/mesh/store/", "src/wrappers/mesio/w.mesio.cpp"],
    [("linking of nodes/elements, neighbours, domains", "src/mesh/preprocessing/*"), ("decomposition and exchange", "src/mesh/preprocessing/meshpreprocessing.decomposition.cpp")],
    "offline checker of cross-rank invariants over per-rank dumps of the loaded mesh; random meshes, ranks, threads, decomposers",
    "held on every execution explored")

add("C07", "Steady linear heat transfer returns the finite element solution",
    "For every steady linear heat transfer problem, the stored temperature is the Galerkin finite element solution of the configured problem on the given mesh: prescribed temperatures hold exactly at their nodes, and conduction, heat sources, heat fluxes and heat flows balance everywhere else; the stored gradient and flux of each element are the means over the element of the temperature gradient and of the conductivity times the gradient (as configured material axes dictate). "
    "This holds for every mix of 3D element types, and for 2D meshes of unit thickness, for isotropic, diagonal and symmetric conductivities in Cartesian-rotated or cylindrical coordinate systems, per-region materials, and values given as numbers or as expressions of coordinates. "
    "It holds for any number of processes, threads and subdomains, total and hybrid FETI and any preconditioner.",
    ["inputs", "configurations", "schedules"],
    "all meshes, materials, coefficient expressions, boundary conditions, process/thread/domain layouts and FETI variants named in the statement",
    "Tests monitor averages of a few regular generated grids with fixed data; irregular mixed meshes, odd interval sizes, rotated tensors and expression-valued data on many regions are unbounded.",
    ["src/analysis/assembler/", "src/analysis/math/", "src/analysis/linearsystem/", "src/feti/", "src/analysis/pattern/"],
    [("element kernels", "src/analysis/assembler/kernel/heattransfer/*, src/analysis/assembler/general/*"), ("assembler drivers", "src/analysis/assembler/heattransfer.cpp"),
     ("FETI system and solver", "src/analysis/linearsystem/fetisolver.*, src/feti/*"), ("material and load expressions", "src/basis/expression/*, src/config/holders/expression.*")],
    "runtime differential monitor: each run's stored fields are compared with an independent NumPy/SciPy finite element oracle on the same random problem",
    "held on every execution explored; relative tolerance 1e-5")

add("C08", "Steady linear elasticity returns the finite element solution",
    "For every steady linear elasticity problem with isotropic Kirchhoff materials, the stored displacement is the Galerkin finite element solution of the configured problem: prescribed displacement components hold at their nodes and the configured loads (acceleration, angular velocity, directional and normal pressure on boundary regions, forces at the nodes of any region in runs with one process; the stored FORCE field is exactly these loads) are balanced by internal forces everywhere else; the stored component, principal and von Mises stresses and strains of each element follow from that displacement. "
    "This holds for every mix of 3D element types on external meshes, for all generator element types in 3D, plane strain and plane stress of unit thickness and (displacement only) axisymmetric problems, per-region materials, and values given as numbers or expressions of coordinates. "
    "It holds for any number of processes, threads and subdomains, total and hybrid FETI, lumped and Dirichlet preconditioners.",
    ["inputs", "configurations", "schedules"],
    "all meshes, materials, load expressions, boundary regions, process/thread/domain layouts and FETI variants named in the statement",
    "Tests monitor averages on a few regular generated grids with one load each; irregular mixed meshes, regions cut by process borders and combined expression-valued loads are unbounded.",
    ["src/analysis/assembler/", "src/analysis/linearsystem/", "src/feti/", "src/analysis/pattern/", "src/input/parsers/meshgenerator/"],
    [("element and boundary kernels", "src/analysis/assembler/structuralmechanics/*"), ("assembler driver", "src/analysis/assembler/structuralmechanics.cpp"),
     ("regularization and kernels of domains", "src/analysis/linearsystem/regularization/*"), ("generated boundary regions", "src/input/parsers/meshgenerator/*")],
    "runtime differential monitor: each run's stored fields are compared with an independent NumPy/SciPy finite element oracle on the same random problem",
    "held on every execution explored; relative tolerance 1e-5")

add("C11", "Every FETI variant returns the solution of the same problem",
    "For every steady linear heat transfer or elasticity problem, each supported combination of FETI options that finishes returns the Galerkin finite element solution of the problem, independently of the combination: total or hybrid FETI; dual operators IMPLICIT, EXPLICIT (total FETI), EXPLICIT_GENERALSCHUR_CPU and IMPLICIT_GENERALSPARSESOLVER_CPU with each of their implementations and storage orders; orthogonal projector with every optimisation; analytic, algebraic and SVD (total FETI) regularization; every CPU preconditioner; PCG and orthogonalPCG. "
    "None of these combinations refuses a solvable problem (apart from a rare non-convergence report with the lumped preconditioner) or crashes, with any number of processes, threads and subdomains, including domains without interior unknowns and processes without own multipliers.",
    ["inputs", "configurations", "schedules"],
    "all problems of C07/C08 combined with all listed FETI options, process, thread and domain layouts",
    "Tests run each option on one or two fixed grids with one layout; the interactions of options, layouts, empty interiors and empty dual blocks are combinatorial.",
    ["src/feti/", "src/math/", "src/wrappers/mkl/", "src/wrappers/suitesparse/", "src/analysis/linearsystem/"],
    [("dual operators", "src/feti/dualoperator/*"), ("projectors", "src/feti/projector/*"), ("preconditioners", "src/feti/preconditioner/*"), ("iterative solvers", "src/feti/iterativesolver/*"),
     ("Schur complements and sparse solvers", "src/math/operations/*, src/wrappers/mkl/operations/*")],
    "runtime differential monitor: random FETI variants on random problems, stored fields compared with an independent NumPy/SciPy finite element oracle",
    "held on every execution explored; relative tolerance 1e-5")

add("C03", "Converting a mesh database stores the same mesh",
    "For every valid VTK legacy, EnSight Gold, Ansys CDB or Netgen database with 3D elements, the database written by mesio (VTK legacy, EnSight Gold, and Netgen for meshes of tetrahedra) is readable and describes the loaded mesh: each named element, face and node region is stored once, with exactly its items, each with its type, its nodes in their order (boundary faces up to rotation or orientation) and coordinates equal within the printed precision; each region stores exactly the nodes its items use. "
    "Elements in no named region are stored in a nameless one, the outer surface (if stored) has exactly the outer faces, and no other region appears. "
    "This holds for every number of processes and threads, every decomposition, either MPI writer, and every stripe size and count.",
    ["inputs", "configurations", "schedules"],
    "all 3D meshes, regions and source formats; output formats; 1..7 processes; 1..3 threads; decomposers; writers; stripe settings",
    "No stable test reads a stored database back; wrong offsets between processes, intervals or regions show up only on irregular partitions of irregular meshes.",
    ["src/output/", "src/input/", "src/mesh/", "src/app/mesio.cpp"],
    [("writers", "src/output/visualization/*, src/wrappers/mpi/*"), ("boundary regions, surfaces and their distribution", "src/mesh/preprocessing/*, src/mesh/store/*")],
    "offline checker: stored databases are read by independent parsers and compared with the generated mesh; random meshes, formats, ranks, threads, decomposers, writers",
    "held on every execution explored; meshes of up to a few thousand elements")

add("C09", "Transient heat transfer and elastodynamics follow the time scheme",
    "For every sequence of steady and transient linear load steps, each stored substep is the solution that the configured one-step scheme produces from the previous one: for heat transfer the theta scheme with the ALPHA of CRANK_NICOLSON, GALERKIN, BACKWARD_DIFF or USER, for elastodynamics the Newmark scheme in which ALPHA weights the accelerations in the velocity and DELTA in the displacement; the initial rates are zero in each heat load step, and initial velocities hold as configured. "
    "Initial values, the state handed over between load steps, boundary conditions, loads and material values depending on TIME (evaluated at the end of the substep), and the default heat capacity of 1 are respected; the number of stored substeps and their times follow DURATION_TIME and TIME_STEP. "
    "This holds for every mesh, process, thread and subdomain layout and total or hybrid FETI or MKLPDSS (one process).",
    ["inputs", "configurations", "histories"],
    "all sequences of load steps, schemes, step lengths, TIME-dependent data, meshes and layouts named in the statement",
    "Tests run one load step with one scheme and constant data; the state carried across load steps and updates of only the changed matrices are histories that they do not sample.",
    ["src/analysis/physics/", "src/analysis/assembler/", "src/analysis/linearsystem/", "src/feti/"],
    [("time integration", "src/analysis/physics/heat.transient.linear.cpp, src/analysis/physics/structuralmechanics.transient.linear.cpp"), ("what is reassembled", "src/analysis/assembler/*.cpp"),
     ("load step loop and time", "src/analysis/physics/physics.h, src/esinfo/stepinfo.*")],
    "runtime differential monitor: every stored substep is compared with an independent NumPy/SciPy time integration of the same random problem",
    "held on every execution explored; relative tolerance 2e-5")

add("C10", "Nonlinear solvers converge to the solution of the nonlinear problem",
    "When a nonlinear run finishes, what it stores solves the nonlinear problem: for steady heat transfer with temperature-dependent conductivities the stored temperature, gradient and flux are those of the fixed point, and for finite-strain elasticity (Kirchhoff and compressible neo-Hookean materials, steady with a direct solver and transient with generalized-alpha Newmark) each stored substep is the displacement that satisfies the discrete equilibrium with the configured loads and boundary conditions. "
    "In transient runs the predictor, the damping coefficients and the weights ALPHA, DELTA, ALPHAM, ALPHAF enter as in the generalized-alpha method. "
    "This holds for every mix of element types of 3D meshes and for 2D plane problems of heat transfer, per-region materials, and (transient elasticity, heat transfer) any process, thread and subdomain layout; solvable problems are not refused.",
    ["inputs", "configurations", "histories"],
    "all meshes, materials, loads, step lengths and layouts named in the statement",
    "Tests run one regular grid per material with loads along one axis, where wrong off-diagonal terms vanish, and one time step.",
    ["src/analysis/physics/", "src/analysis/assembler/", "src/analysis/linearsystem/"],
    [("Newton-Raphson and generalized-alpha loops", "src/analysis/physics/*nonlinear.cpp"), ("finite-strain kernels", "src/analysis/assembler/structuralmechanics/op.material.h, op.matrix.largedisplacement.h"),
     ("temperature-dependent coefficients", "src/analysis/assembler/heattransfer/*")],
    "runtime differential monitor: stored substeps are compared with an independent NumPy/SciPy Newton/Picard solver on the same random problem",
    "held on every execution explored; relative tolerance 2e-5")

add("C19", "No run reads or writes memory it does not own or left uninitialised",
    "No run of espreso or mesio reads or writes memory outside of live objects, frees memory twice or with the wrong function, or lets its control flow, addresses or stored results depend on uninitialised memory in espreso's own code. "
    "This holds for loading and converting databases of every supported format and for steady, transient and nonlinear heat transfer and elasticity with every FETI option of C11, with any number of processes, threads and subdomains. "
    "It includes buffers handed by espreso to MPI and the math libraries being large enough for what those write into them.",
    ["inputs", "configurations", "schedules"],
    "all runs that C03 and C07..C11 quantify over",
    "Tests run without any sanitizer; an overrun of a few bytes on an odd interval, an empty domain or a partly initialised buffer changes no tested value.",
    ["src/"],
    [("buffers of parsers and communication", "src/input/, src/basis/, src/wrappers/mpi/"), ("SIMD-padded element data", "src/analysis/assembler/"), ("dense/sparse containers and their windows into library calls", "src/math/, src/feti/, src/wrappers/")],
    "valgrind memcheck on every process of random runs of the production binary; error records are classified by the owner of the accessing frame",
    "held on every execution explored; errors whose access happens inside MPI or math libraries are only judged for writes into espreso's blocks")
