NOT_APPLICABLE = {}
CHECKS = {
 "C05": dict(level="model_checking", parts=[dict(harness="c_tree.cpp")],
   technique="explicit-state BFS over all trees, every transition executed on the real code, geometric oracle",
   note="Exhaustive within the stated size bounds; positions are dyadic so comparisons are exact. Trusts the geometric oracle in h/c_tree.cpp.",
   bounds="every tree reachable by refine/unrefine: 1D <=15 splits depth 4; 2D <=4 (thorough 6) splits depth 3; 3D <=3 (4) splits depth 2 (3)",
   assumptions=["dyadic root size and origin, so positions are exact in floating point"]),
 "C06": dict(level="model_checking", parts=[dict(harness="c_adapt.cpp")],
   technique="explicit-state BFS over adaptation histories executed on the real mesher, checked against a reference model and a geometric oracle",
   note="Exhaustive over the stated choice sets and bounds; row size 2 (adaptation does not depend on it).",
   bounds="histories of updates from one root cell; state = leaf set; 1D depth<=4, 2D depth<=3 (first 400 states quick, 6000 thorough, breadth first), 3D depth<=2 (3); at each state every assignment of {nothing,refine,unrefine,both} while <=4 (6) elements, otherwise a fixed structured set of single, sibling-group, locked, mixed and half-domain requests"),
 "C01": dict(level="model_checking", parts=[dict(harness="c_hil_expr.cpp")],
   technique="exhaustive enumeration of expressions up to a size bound, executed on the real interpreter and compared with a reference evaluator",
   note="Exhaustive over the token sets listed in h/c_hil_expr.cpp; results that overflow a 32-bit integer or round a non-finite number are skipped because the documentation leaves them open.",
   bounds="1 operand with <=3 unary operators; 2 operands x 15 operators x 34 atoms x 7x7 unary prefixes; 3 operands x 225 operator pairs x all groupings; 4 operands x 3375 operator triples; 5 operands x 50625 operator quadruples; assignments inside expressions, macros as operands, statement sequences, missing operands (thorough: larger operand sets and all groupings)"),
 "C02": dict(level="model_checking", parts=[dict(harness="c_hil_robust.cpp", profile="san", sources=["Interpreter","Lock","math","config"], extra=["-fno-sanitize=signed-integer-overflow"]),
   dict(name="c_hil_robust (unsanitized)", harness="c_hil_robust.cpp", env={"VERIF_NESTING_ONLY": "1"})],
   technique="exhaustive enumeration of input texts up to a length bound, executed on the real interpreter under address and undefined-behaviour sanitizers",
   note="Exhaustive over the alphabets listed in h/c_hil_robust.cpp. Signed integer overflow is excluded (the documentation warns of it), as are the commands that act on the system (`shell`).",
   bounds="all texts of <=4 (thorough 5) characters over 27 characters; all sequences of <=3 (4) of 49 tokens; all operator/operand value pairs; 28 units repeated up to 100000 times; all format_double conversions of <=3 characters; each with and without an error handler"),
 "C03": dict(level="model_checking", parts=[dict(harness="c_names.cpp")],
   technique="explicit-state model checking: the complete state space of one name in a graph of four namespaces, every transition executed on the real code",
   note="One variable name over a fixed set of values; the namespace graph (a child, two parents, one grandparent) is fixed.",
   bounds="4 namespaces, 11 (thorough 14) local states each, all 11^4 (14^4) combinations, 5 kinds of operation x 6 values x 4 spaces in each, plus reads through interpreters"),
 "C04": dict(level="model_checking", parts=[dict(harness="c_hil_flow.cpp")],
   technique="exhaustive enumeration of programs and interactive sessions up to a size bound, executed on the real interpreter and compared with a structural reference interpreter",
   note="Errors inside parentheses followed by `;` are excluded (recovery there is undocumented), except for the recorded finding.",
   bounds="all programs of <=4 (thorough 5) nodes of 11 kinds, nesting <=4, in 4 layouts; all container chains up to depth 5 (6); all splits of strings up to 5 (6) characters; all REPL sessions of <=4 (5) of 14 lines"),
 "C23": dict(level="model_checking", parts=[dict(harness="c_basis.cpp", profile="row8")],
   technique="exhaustive enumeration of bases, row sizes, dimensions, directions and a basis of every operator's (linear) domain, on the real code against independent oracles",
   note="The operators are linear, so agreement on a basis of their domain decides them for every input up to roundoff. Trusts the oracles in h/c_basis.cpp.",
   bounds="row sizes 2-8, dimensions 1-3, all monomials of the basis degree (quadrature: of the exactness degree), all unit vectors for tensor products of r x c matrices with r<=4, 2<=c<=4 (thorough 6)"),
 "C10": dict(level="model_checking", parts=[dict(harness="c_faces.cpp")],
   technique="exhaustive enumeration of face pairings, stretch patterns and orders on the real connection classes, against the geometry of the glued cells",
   note="Orientation is fixed by the direction (the unique proper rotation that fixes the uninvolved axis), so all legal pairings are covered. Row sizes up to 4 (quick and thorough); the permutation depends on the row size only through loop bounds.",
   bounds="dimensions 1-3, row sizes 2-4, all 44 legal face pairs, conforming and hanging, every stretch subset, both orders, straight and warped geometry"),
 "C11": dict(level="model_checking", parts=[dict(harness="c_mortar.cpp", profile="row8")],
   technique="exhaustive enumeration of dimensions, row sizes, stretch subsets and flags, with a basis of the (linear) operators' domain, on the real kernels",
   note="Linear operators: agreement on a basis decides them for every input up to roundoff.",
   bounds="dimensions 1-3, row sizes 2-8 (quick: 2-6 in 3D), all stretch subsets, scaling and offset flags, all monomials and all unit data"),
 "C08": dict(level="model_checking", parts=[dict(harness="c_flow.cpp", env={"VERIF_PROP": "C08"})],
   technique="exhaustive enumeration of adaptation histories, face pairings, hanging-node patterns and body placements up to stated bounds; the real solver executes every one of them from a uniform state and the residual and two updates are checked",
   note="Curved 3D elements and 3D deformed elements of row size 2 are excluded: the discrete metric identity does not hold there by design (deformed 3D meshes are freestream-preserving only for straight-sided elements with row size at least 3). Tolerance 1e-9 relative to the flux scale.",
   bounds="all masks of one refinement of the 2^n_dim level-1 cells (+ one further cell, + unrefinement), all 44 legal face pairs conforming and hanging with every stretch pattern, straight and warped, extruded layers, 36 discs and 3 balls at different positions; row sizes 2-4; 6 combinations of boundary condition, viscosity, artificial viscosity and filter; states at rest, subsonic and supersonic"),
 "C09": dict(level="model_checking", parts=[dict(harness="c_flow.cpp", env={"VERIF_PROP": "C09"})],
   technique="exhaustive enumeration of adaptation histories, face pairings, hanging-node patterns and body placements up to stated bounds; the real solver executes every one of them from a state that is discontinuous everywhere and the balance of every conserved variable is checked",
   note="The conserved totals are summed with the quadrature rule from the element state and Jacobian; the boundary flux is recorded by a boundary condition of the harness. The repair of inadmissible states is excluded: it uses local time steps and is not conservative by design.",
   bounds="the meshes of C08 (including curved 3D ones), row sizes 2-4; inviscid, viscous, artificial viscosity, filter, walls; residual and one two-stage update"),
 "C16": dict(level="model_checking", parts=[dict(harness="c_ptrs.cpp", profile="san", sources=["Vertex","Lock","math","config"])],
   technique="explicit-state model checking: complete state spaces of small numbers of pointers and handles, every transition executed on real objects under address and undefined-behaviour sanitizers and compared with a reference model",
   note="Self-move of a mutual pointer is excluded (its result is unspecified). States are abstracted from positions and records, which are compared along one shortest history per state.",
   bounds="mutual pointers: 2+3 (thorough 3+3) slots of two types, 4 (5) of one type, 2 data each, complete state spaces; vertices: 3 handles + 2 observers and 4 (5) handles + 1 observer with mobility, edges and merging, complete (thorough: first 2000000 states)"),
 "C18": dict(level="model_checking", parts=[dict(harness="c_geom.cpp", sources=["Simplex_geom","Surface_geom","Tree","math","config","Stopwatch","Stopwatch_tree"])],
   technique="exhaustive enumeration of small sets of lattice simplices, scales, query points, lines and distance limits on the real code against a brute-force oracle in extended precision",
   note="Lines parallel to a simplex within 1e-4 and intersections within 3e-6 outside a simplex are optional, since the code extends simplices to close gaps.",
   bounds="2D: all sets of 1 and a third (thorough all) of the sets of 2 of the 45 segments of a 3x3 lattice; 3D: all single and 5% (50%) of the pairs of the 120 triangles of the cube's corners, degenerate ones included; ellipses, walls and ellipsoids of up to 700 simplices; 3 scales, 2 offsets, alone and compound; 81-289 (125-343) query points x 5 limits, all lattice lines with directions up to 2 (1); spheres in 1-3 dimensions"),
 "C17": dict(level="model_checking", parts=[dict(harness="c_hist.cpp", timeout=800)],
   technique="exhaustive enumeration of bounded sample, update and start/stop histories on the real classes (with a virtual clock) against independent reference models",
   note="Extrema that lasted less than one sampling interval (the window divided by the number of samples) may be missed, as documented. Resetting a running stopwatch is outside the contract.",
   bounds="history monitor: 4 windows x 5 buffer sizes x 4 starting iterations x 27 stride patterns x all binary histories of 10 (12) samples, all single pulses in 60 samples; status: all pairs of fields x 11 values; solver: every 7th mesh of C08, all histories of 3 (4) updates over 5 settings; two stopwatches: all 9^6 (9^7) operation sequences; report trees up to depth 4"),
 "C12": dict(level="model_checking", parts=[dict(harness="c_sched.cpp", profile="acc", timeout=850)],
   technique="stateless model checking of the real library under a controlled OpenMP runtime: every iteration of every parallel loop is a logical thread, all memory accesses are recorded (compiler instrumentation), data races are decided byte-exactly over all of them, and schedules (team sizes, orders, reversals of dependent synchronised operations) are enumerated and the results compared",
   note="If no two iterations access the same byte unsynchronised, one of them writing, then executions differ only by the order of synchronised operations, which is then permuted. The mapping to one logical thread per iteration is stronger than any schedule clause of the code. Results are compared up to roundoff. Libraries outside the repository (HDF5, Eigen's templates are included, the C++ library's templates are included, libstdc++.so is not) are not instrumented.",
   bounds="~70 (thorough ~1000) scenarios: meshing with bodies, layers, adaptation; every solver computation on a sample of C08's meshes; output, implicit scheme, repair of inadmissible states; runs through the driver with HIL criteria; teams of 1-512 logical threads in 4 orders; up to 24 (20000) reversals of dependent pairs per scenario"),
 "C24": dict(level="model_checking", parts=[dict(harness="c_alg.cpp", sources=["iterative","Linear_equation","Layer_sequence","Element","Deformed_element","Vertex","Lock","math","config","Basis","Gauss_legendre"], timeout=800)],
   technique="exhaustive enumeration of small linear systems and of bounded operation histories on the real classes, against dense linear algebra and reference models",
   note="BiCGStab's finite termination is only required for symmetric positive definite matrices (it may break down otherwise, and must then not destroy the estimate).",
   bounds="all nonsingular matrices with entries of 6, 5, 3 and 2 values in 1, 2, 3 and (every 7th; thorough all) 4 dimensions, all right hand sides over 4, 3, 2, 2 values, 3 initial guesses, GMRES with restart 1..n+2 and 1-2 cycles, BiCGStab with 1..n+6 iterations; 3465 SPD matrices; erase_if on up to 11 (14) items, all masks; views: all 6^6 (6^8) histories; containers: all 6^5 (6^7) histories; 160 wall spacings x 12 layer counts; all rows up to row size 8"),
 "C22": dict(level="model_checking", parts=[dict(harness="c_table.cpp", sources=["read_csv","standard_atmosphere","math","config"], timeout=800)],
   technique="exhaustive enumeration of texts over a small alphabet, of table shapes and spellings, and of altitudes around every layer boundary, on the real functions against an independent grammar and an integration of the hydrostatic equation",
   note="A table followed by empty lines, overflow and subnormal numbers may be accepted or rejected. The atmosphere is checked on a grid of altitudes and around every layer boundary.",
   bounds="all texts of up to 6 (thorough 7) of 10 characters; all 3x3 shapes x position x 25 spellings x 5 paddings x 3 endings; all row length combinations up to 4 rows of 0-4 entries; 2000 (16000) altitudes + 112 around the layer boundaries x 5 temperature offsets"),
 "C20": dict(level="model_checking", parts=[dict(harness="c_spec.cpp", timeout=800)],
   technique="exhaustive enumeration of the subsets of the specification variables and of the other enumerated inputs, each executed by the real case driver and compared with gas dynamics formulas",
   note="A complete set of conserved variables takes precedence over other specifications (this is how a case is restarted with the same flow), so its combination with them is not regarded as ambiguous. Which of several thermal wall conditions wins is not documented and not checked.",
   bounds="1-3 dimensions x 16 subsets of density/pressure/temperature/altitude x 8 subsets of velocity/speed/Mach number x 3 ways to give the direction x 4 (19) flows, and the same flows as conserved variables with each component missing; dimensions, row sizes, extents, transport models, 10 boundary condition names x 6 faces, 32 thermal conditions, geometry files"),
 "C19": dict(level="model_checking", parts=[dict(harness="c_bc.cpp", profile="row8", timeout=800)],
   technique="exhaustive enumeration of states, normals, faces and conditions on the real classes against independent gas dynamics; enumeration of small meshes on which the real solver is compared with the mirrored problem and with exact wall balances; enumeration of the case inputs",
   note="The characteristic condition's limiting of extreme ghost states is only required to keep them admissible. As in the unit tests, the ghost flux of outgoing characteristics is required to vanish. A prescribed wall energy is required to be a fixed point about which the energy is reflected, in whatever way.",
   bounds="1-3 dimensions, every face, row sizes 2-4 (6) pointwise: 6 normal Mach numbers x 2 densities x 2 pressures x 26 directions x 3 magnitudes, 3 freestreams, 9 thermal conditions x 3 coercions; walls and mirrors: row sizes 2-5, 3D 2-3 (2-8), Cartesian, affine and curved, inviscid, viscous, artificial viscosity, 5 outer conditions, residual and two updates; inputs: 6 conditions on every face in 18 arrangements x 8 thermal specifications x 2 coercions"),
 "C14": dict(level="model_checking", parts=[dict(harness="c_restart.cpp", timeout=800)],
   technique="exhaustive enumeration of meshes, of short runs with a restart after every subset of their iterations and of mesh adaptation histories with a restart at every point; everything is executed by the real code and compared with the uninterrupted execution",
   note="Restarts of mesh histories are between complete operations (adaptation and smoothing). Smoothness-based artificial viscosity is compared only where its pseudo-time state is not carried across the restart. Solutions are compared up to roundoff, since the order of elements may change.",
   bounds="round trips of all meshes of C08 (3D trees: every 9th; thorough all); runs of 3 (4) updates, all subsets of restart points, 6 flow settings on every 2nd to 53rd mesh; all adaptation histories of length 3 (4) over up to 10 operations in 2D and 2 (3) in 3D, one restart at each point"),
 "C15": dict(level="model_checking", parts=[dict(harness="c_poly.cpp", timeout=800)],
   technique="exhaustive enumeration of meshes and adaptation histories; the exported files of each are parsed and checked as a polyhedral complex and compared with the mesh in memory",
   note="The upper-triangular ordering of faces preferred by OpenFOAM is not claimed. Cells inverted in the mesh itself may be inverted in the export: volumes are compared with those of the elements.",
   bounds="all 3D meshes of C08 and samples of the 1D and 2D ones (which must be rejected); all adaptation histories of length 4 (thorough 5) from a box and around a sphere with at most one body insertion"),
 "C21": dict(level="model_checking", parts=[dict(harness="c_observe.cpp", timeout=850)],
   technique="exhaustive enumeration of interleavings of observer operations with updates on the real solver and the real driver; each is compared bitwise with the run without observers",
   note="Observers are taken in the order solver state is documented to allow (a report needs a prior update).",
   bounds="every observer at every point of runs of up to 3 updates, pairs of observers (a quarter of them; thorough all), all observers together, on every 2nd to 53rd mesh of C08, 8 flow settings; driver runs with every single output option, all together and a sample (thorough all up to 4) of combinations, 2 output frequencies"),
 "C25": dict(level="model_checking", parts=[dict(harness="c_crash.cpp", timeout=850)],
   technique="exhaustive crash-point enumeration on the real driver: system calls are interposed and the process is killed before, in the middle of and near the end of each of them, or the disk becomes full from it on; the files left behind are read back by the real code and the run is restarted in the same directory",
   note="A crash is the death of the process: what a completed system call has written stays written (no power failure). Runs in a scratch directory.",
   bounds="11 histories of output, restart and cleaning up (up to 11 steps) in 1-3 dimensions and with a body; crash before every system call that changes a file of every output step (visualization and export: every 3rd; thorough all), torn and failing writes at every 4th (thorough every) one; a restart with repeated output after every 3rd (thorough every) crash"),
 "C07": dict(level="model_checking", parts=[dict(harness="c_body.cpp", timeout=850)],
   technique="exhaustive enumeration of placements of bodies and of adaptation histories on the real mesher; every mesh is compared with the geometry of its cells and with the distance from the body computed independently",
   note="Inverted cells are not claimed to be impossible (under-resolved bodies). A region cut off from the start by coarsening may stay. Layers are split at most once in a history (splitting again after local adaptation makes degenerate elements).",
   bounds="6 kinds of bodies at 6 (45) positions in 2D, 4 kinds at 6 (40) in 3D, different radii, gaps and angles, 2 domains; levels 2-4 (2-5) in 2D, 2-3 in 3D; all histories over 9 operations of length 3 (4) in 2D (2 at most positions) and 2 (3) in 3D; the warping at row sizes 4 and 3"),
}
