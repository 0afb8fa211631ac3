import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","HIL expressions evaluate as the language grammar says",
 "Every well-formed HIL expression evaluates to the value and type given by the documented grammar: operator precedence, left-to-right evaluation within a precedence level, integer/float/string typing and promotion, parentheses, unary operators, string literals and concatenation, comparison and logic. An expression whose operand types an operator does not accept raises a HIL error and never silently yields a value.",
 ["programs"],"all token sequences of an expression alphabet (literals of each type, every unary and binary operator, parentheses, variables) up to a length bound",
 "test_Interpreter evaluates a few dozen hand-picked expressions; precedence/type interactions are a product over operators and operand types that the samples touch once each.",
 ["src/Interpreter.cpp","include/Interpreter.hpp","doc/hil.dox"],[("precedence-climbing evaluator and operator tables","src/Interpreter.cpp: Interpreter::_eval, constructor"),("typed dynamic values","include/Interpreter.hpp: _Dynamic_value, _arithmetic_op, _comparison_op, _mod, _general_add, _general_eq")])
p("C02","No HIL input crashes or hangs the interpreter, and errors are recoverable",
 "Executing any text as HIL either completes or raises a HIL error: it never crashes, never reads or writes memory out of bounds, and never hangs unless the program itself loops. After a caught or reported error the interpreter still executes subsequent commands correctly, with variables assigned before the error intact.",
 ["inputs","programs"],"all texts over a character/token alphabet up to a length bound, each executed on a fresh interpreter under address and undefined-behaviour sanitizers and followed by a probe command",
 "The tests run well-formed programs and a handful of specific malformed ones; truncated and ill-typed inputs at every position are never executed.",
 ["src/Interpreter.cpp","include/Interpreter.hpp","include/Namespace.hpp"],[("lookahead and end-of-text handling","src/Interpreter.cpp: _more, _pop, _char_is"),("error reporting via the `throw`/`except` variables","src/Interpreter.cpp: _raise, _assert, exec")])
p("C03","HIL variables keep their type, value and scope through any history",
 "After any sequence of assignments, lookups, default assignments and read-only or computed variables across a namespace and its parents, each lookup returns exactly the most recent value visible by the scoping rules, a variable never changes type once created (an integer may be stored in a float variable), and a rejected assignment leaves everything unchanged.",
 ["histories"],"all sequences of namespace operations up to a depth bound over a small set of names, values and scopes, explored breadth-first with state hashing against a reference map",
 "test_Namespace checks one history.",
 ["include/Namespace.hpp","src/Interpreter.cpp"],[("typed variable store with supernamespaces","include/Namespace.hpp: assign, assign_default, lookup, exists, exists_recursive"),("read-only computed variables","include/Namespace.hpp: Heisenberg")])
p("C04","HIL control flow and standard macros behave as documented",
 "Conditionals, loops, `quit`, string substitution, string evaluation, error handling, and the standard library of HIL macros have the documented effect however they are nested: loop bodies execute exactly the documented number of times with the right counter, conditionals run exactly the selected branch, and execution resumes at the right place afterwards.",
 ["programs"],"all programs generated by nesting the control macros around effectful leaves up to a depth bound, with every combination of loop counts and condition values in a small range",
 "test_builtin.hil runs each macro once or twice and does not nest them.",
 ["include/builtin.hil","src/Interpreter.cpp"],[("control macros written in HIL","include/builtin.hil"),("macro substitution","src/Interpreter.cpp: _substitute")])
p("C05","The bin/quad/octree answers every geometric query correctly after any history",
 "After any sequence of refinements and unrefinements, the tree's cells tile the root exactly, parents, children, levels, positions and counts are consistent, point and coordinate lookups return the leaf that contains the point, neighbour queries return exactly the adjacent leaves in the documented order, and flood fill marks exactly the face-connected unprocessed region of the starting leaf.",
 ["histories"],"all trees reachable by refine/unrefine sequences within a size bound in 1, 2 and 3 dimensions, all query arguments on a lattice, all flood-fill barrier sets for small trees",
 "test_Tree checks a few trees by hand.",
 ["src/Tree.cpp","include/Tree.hpp"],[("leaf lookup","src/Tree.cpp: Tree::find_leaf"),("neighbour lookup","src/Tree.cpp: Tree::find_neighbor, find_neighbors, add_extremal_leves"),("flood fill","src/Tree.cpp: Tree::flood_fill")])
p("C06","Any mesh adaptation history leaves a watertight, 2:1-balanced mesh",
 "After any sequence of refinement and unrefinement requests on a block mesh (with mirrored or open boundaries), the elements tile the domain without gap or overlap, face neighbours differ by at most one refinement level, every face of every element belongs to exactly one connection, boundary or refined face, connected faces coincide geometrically, and the update reports truthfully whether anything changed. Elements asked to refine are refined; elements are only coarsened when all their siblings ask for it.",
 ["histories","configurations"],"all sequences of mesh updates up to a depth bound in 1-3 dimensions, where each update chooses any subset of elements (all subsets when few, all singletons and pairs otherwise) to refine or unrefine",
 "test_Accessible_mesh adapts a handful of meshes with one refinement predicate each.",
 ["src/Accessible_mesh.cpp","include/Accessible_mesh.hpp","include/Mesh_by_type.hpp","src/connection.cpp"],[("refinement, balancing and reconnection","src/Accessible_mesh.cpp: Accessible_mesh::update, refine_by_record, needs_refine, connect_new"),("mesh validity","src/Accessible_mesh.cpp: Accessible_mesh::valid")])
p("C07","Body-fitted meshing is valid for any placement of the surface geometry",
 "For any placement of a surface geometry and any later history of adaptation, relaxation and splitting of the layers, no cell of the mesh intersects the surface or lies on the wrong side of it (set_surface keeps a region connected to the flood fill start), exactly the faces exposed towards the surface are extruded, once each, and all faces are connected or have the boundary condition they should. Connected faces share their vertices, hanging vertices lie on the coarse face, Cartesian elements keep their nominal position, and the outermost vertices lie on the surface (except at the ends of the domain and where they hang). After calc_jacobian the warped faces of connected elements coincide, also at hanging nodes, except next to vertices at the end of the domain that are off the surface.",
 ["configurations","histories"],"all placements of a family of surfaces on a lattice, all histories of adaptation, relaxation and layer splitting up to a depth bound, in 2 and 3 dimensions",
 "The tests mesh a few geometries at one position each and mostly count elements.",
 ["src/Accessible_mesh.cpp","src/Solver_snap_faces.cpp"],[("flood fill, deletion and extrusion","src/Accessible_mesh.cpp: set_surface, update, delete_bad_extrusions, deform, extrude, connect_rest"),("vertex snapping and relaxation","src/Accessible_mesh.cpp: snap_vertices, relax, match_hanging"),("face warping","src/Solver_snap_faces.cpp: Solver::snap_faces; src/Boundary_condition.cpp: Geom_mbc::snap_node_adj")])
p("C08","A uniform flow stays uniform on every mesh",
 "A spatially uniform flow state is, up to roundoff, an exact steady state of the inviscid, viscous and artificially viscous updates on every mesh of Cartesian and deformed elements: any adaptation history, deformed faces in any relative orientation, hanging nodes, any polynomial degree. In three dimensions this holds for deformed elements with straight edges and row size at least 3 (the discrete metric identity is not exact for curved ones).",
 ["configurations","histories"],"all adapted meshes from bounded refinement histories, all face-pair orientations between deformed elements, all hanging-node configurations, all supported small row sizes and dimensions",
 "test_Solver verifies a few meshes in each category; the orientation x refinement x dimension product is sampled.",
 ["src/Solver.cpp","include/Spatial.hpp","src/connection.cpp","include/Face_permutation.hpp"],[("face exchange, mortar projection, orientation matching and metric terms","include/Spatial.hpp: Neighbor, Local, Write_face"),("Jacobian calculation","src/Solver.cpp: calc_jacobian; src/Deformed_element.cpp: set_jacobian")])
p("C09","The updates conserve mass, momentum and energy on every mesh",
 "For an arbitrary flow state, the time derivative of the domain integral of each conserved quantity equals the net flux through the domain boundary: the interior face fluxes cancel exactly on every mesh, including hanging nodes and deformed elements in any relative orientation.",
 ["configurations","inputs"],"all small meshes of the families of C06/C08, with a state that differs at every quadrature point",
 "test_Solver integrates one or two states on a few meshes.",
 ["include/Spatial.hpp","src/Solver.cpp"],[("single-valued numerical flux and conservative restriction","include/Spatial.hpp: Neighbor, Restrict_refined, Local")])
p("C10","Connected faces exchange data between coincident points for every face pairing",
 "For every pair of faces of two deformed elements (every dimension, side, and relative orientation), the connection identifies coincident vertices and matches every quadrature point on one face with the coincident point on the other, for full-size and hanging-node connections, and restoring the face data is the exact inverse of matching it.",
 ["configurations"],"all face-dimension/side pairs in 2 and 3 dimensions, all row sizes up to the bound, all refined-face stretch/reversal combinations, with a distinct value at each point",
 "test_Face_permutation and test_connection check selected pairings.",
 ["include/Face_permutation.hpp","src/connection.cpp","include/connection.hpp"],[("face matching","include/Face_permutation.hpp"),("vertex matching","src/connection.cpp: vertex_inds, face_vertex_inds")])
p("C11","Mortar projections at hanging nodes are exact and conservative",
 "Transferring face data from a coarse face to its fine mortar faces reproduces any polynomial of the basis degree exactly, transferring it back is the exact inverse on such data and preserves the integral of arbitrary data, for every subset of stretched dimensions and every row size.",
 ["configurations","inputs"],"all row sizes, dimensions, stretch combinations; a complete basis of face data (linearity makes this exhaustive over inputs)",
 "The existing tests use a few polynomials and row sizes.",
 ["include/Spatial.hpp","include/Refined_face.hpp","src/Basis.cpp"],[("Prolong_refined/Restrict_refined","include/Spatial.hpp"),("prolong/restrict matrices","generated Gauss_legendre.cpp/Gauss_lobatto.cpp")])
p("C12","Results do not depend on the number of threads or the thread schedule",
 "Meshing, time integration and post-processing give the same result for every number of threads and every interleaving of the parallel loops, up to roundoff in floating-point reductions; no two iterations of a parallel loop access the same memory with at least one write unless protected by a lock or an atomic operation.",
 ["schedules"],"all interleavings of the iterations of each parallel region executed by a set of solver and mesher scenarios: one logical thread per iteration, all memory accesses recorded, dependent pairs explored",
 "The tests run with whatever schedule the machine happens to produce.",
 ["src/Solver.cpp","src/Accessible_mesh.cpp","include/Spatial.hpp","src/Lock.cpp","include/Vertex.hpp"],[("OpenMP parallel loops over elements, connections and vertices","#pragma omp parallel for in src/ and include/"),("locks on shared data","src/Lock.cpp")])
p("C14","Checkpoint and restart are lossless",
 "Writing the mesh and flow state to file and reading them back yields a mesh with the same elements, connectivity, boundary conditions and geometry and the same flow state, and continuing from the restart gives the same solution history as continuing without interruption, for any mesh the mesher can produce and at any time of the run. Flow time, iteration count and the auxiliary pseudo-time state of smoothness-based artificial viscosity are not part of the files.",
 ["histories","configurations","crash_points"],"all bounded histories of adapt/advance/checkpoint operations, with a restart inserted at every point",
 "One mesh is written and re-read by the tests; no solution is continued after a restart.",
 ["src/Accessible_mesh.cpp","src/Solver.cpp"],[("mesh IO","src/Accessible_mesh.cpp: write, read_file constructor"),("state IO","src/Solver.cpp: write_state, read_state")])
p("C15","Exported polyhedral meshes are valid",
 "The exported polyhedral mesh describes exactly the volume of the internal mesh: every cell is closed, every internal face is shared by exactly two cells with owner index below neighbour index and its normal pointing from owner to neighbour, boundary faces are grouped by boundary condition with outward normals, and file headers agree with their contents. Meshes that cannot be represented (not 3-dimensional) are rejected.",
 ["configurations","histories"],"all meshes of bounded adaptation histories in 3 dimensions",
 "One mesh is exported by the tests and only the existence of the output is checked.",
 ["src/Accessible_mesh.cpp"],[("export","src/Accessible_mesh.cpp: export_polymesh")])
p("C16","Mutual pointers and shared vertices stay consistent through any history",
 "After any sequence of creating, pairing, merging, copying, moving and destroying, mutual pointers are either both unpaired or point at each other and never dangle; vertices merged together act as one vertex at the average position of their constituents, are destroyed only with their last handle, and each handle refers to its current vertex.",
 ["histories"],"all operation sequences up to a depth bound over a small pool of objects, with canonical state hashing, against a reference model and under address sanitizer",
 "test_Vertex and test_Mutual_ptr check single histories.",
 ["include/Mutual_ptr.hpp","include/Vertex.hpp","src/Vertex.cpp"],[("mutual pointers","include/Mutual_ptr.hpp"),("vertex sharing","src/Vertex.cpp: Vertex::eat, Transferable_ptr, Non_transferable_ptr")])
p("C17","Run histories are summarised and monitored correctly",
 "For any sequence of iterations and sampled values, the history monitor reports bounds that contain every sample of the window and are attained by a sample the window has held, iteration counters and reports reflect exactly the iterations performed, and stopwatches report exactly the time accumulated between starts and stops and reject invalid transitions.",
 ["histories"],"all sample sequences up to a length bound over small value/iteration alphabets, window sizes and buffer sizes; all start/stop/reset sequences",
 "test_History_monitor runs one smooth signal.",
 ["src/History_monitor.cpp","src/Stopwatch.cpp","src/Stopwatch_tree.cpp","src/Iteration_status.cpp"],[("windowed sampling","src/History_monitor.cpp: add_sample"),("stopwatch state machine","src/Stopwatch.cpp")])
p("C18","Surface geometry queries agree with brute force",
 "Nearest-point and line-intersection queries on simplicial, compound and analytic surfaces return the globally nearest point and the complete set of intersections, for any surface, any query point and any distance limits, independent of internal acceleration structures.",
 ["inputs","configurations"],"all simplices and simplex sets with vertices on a small lattice, all query points and lines on a lattice, all distance guesses",
 "test_Simplex_geom queries a few shapes of unit size.",
 ["src/Simplex_geom.cpp","include/Simplex_geom.hpp","src/Surface_geom.cpp","include/Nearest_point.hpp"],[("bounding-volume tree","src/Simplex_geom.cpp"),("merging of nearest points","include/Nearest_point.hpp")])
p("C19","Boundary conditions impose exactly the physics they name",
 "Every boundary condition produces, for any admissible interior state and any face orientation, the ghost state and flux its documentation names: no mass flux through walls, prescribed temperature or heat flux and zero velocity at no-slip walls, the specified pressure at subsonic outflow, freestream for supersonic inflow and interior state for supersonic outflow, incoming waves from the freestream and outgoing ones from the inside otherwise. A slip wall is equivalent to mirroring the domain, and the case inputs select the named condition with the given parameters on each face.",
 ["inputs","configurations"],"all boundary conditions x dimensions x face directions x a lattice of interior states and normals covering every sub/supersonic inflow/outflow regime",
 "test_Boundary_condition checks one state and one face per condition.",
 ["src/Boundary_condition.cpp","include/Boundary_condition.hpp","include/pde.hpp"],[("ghost states","src/Boundary_condition.cpp: apply_state, apply_flux, flux_cache")])
p("C20","Every way of specifying the case leads to the same flow and rejects ambiguity",
 "Equivalent ways of specifying the freestream (conserved variables, velocity vector, speed or Mach number with angles, density/pressure/temperature pairs, standard-atmosphere altitude) produce the same freestream state, and define every freestream variable consistently, whichever way was used. Over- or under-specified combinations of them are rejected with an error instead of running with an arbitrary state (a complete set of conserved variables takes precedence over the others).",
 ["configurations","programs"],"all subsets of the freestream-specifying input variables in 1-3 dimensions",
 "No test runs the case driver.",
 ["src/Case.cpp","include/Case.hil","include/standard_atmosphere.hpp"],[("freestream initialisation","src/Case.cpp: create_solver; include/Case.hil")])
p("C21","Observing the solution does not change it",
 "Sampling, integrating, visualising, writing files and computing derived diagnostic quantities at any point of a run leave the subsequent evolution of the solution exactly as if the observation had not been made (a documented exception is that some observations invalidate the most recently computed residual until the next update).",
 ["histories"],"all interleavings of observer operations with time-advancing operations up to a depth bound, on Cartesian, hanging-node and deformed meshes",
 "The tests never compare a run with and without observations.",
 ["src/Solver.cpp","src/Vis_data.cpp","src/Case.cpp"],[("observer functions","src/Solver.cpp: sample, integral_field, integral_surface, visualize_*, bounds_field, set_uncert_surface_rep")])
p("C22","Tabulated data and the standard atmosphere are read and interpolated faithfully",
 "Reading a rectangular table of numbers from text yields exactly those numbers at their positions, malformed tables are rejected rather than misread, and the atmosphere model satisfies the gas law and hydrostatic balance and is continuous over its entire altitude range, rejecting altitudes outside it.",
 ["inputs"],"all small tables over a cell/separator alphabet; a lattice of altitudes including every layer boundary from both sides",
 "test_read_csv reads one file; the atmosphere test checks a few altitudes.",
 ["src/read_csv.cpp","src/standard_atmosphere.cpp","src/Layer_sequence.cpp"],[("table reader","src/read_csv.cpp"),("atmosphere layers","src/standard_atmosphere.cpp")])
p("C23","Polynomial bases integrate, interpolate and differentiate exactly",
 "For every supported row size, each basis integrates, differentiates, interpolates to arbitrary points and boundaries, and filters every polynomial of its degree exactly, its nodes and weights are symmetric and within the unit interval, and the tensor-product kernels built on it agree with the one-dimensional operators in every dimension.",
 ["configurations","inputs"],"all bases and row sizes, all monomials of the space (linearity makes this exhaustive over polynomials), all dimensions",
 "test_Basis checks a few polynomials per basis.",
 ["src/Basis.cpp","src/Equidistant.cpp","include/Derivative.hpp","include/math.hpp","src/math.cpp"],[("generated quadrature tables","script/auto_generate.py"),("tensor-product matrix-vector products","include/math.hpp: hypercube_matvec, dimension_matvec")])
p("C24","Iterative linear solvers and vector sequences compute what they claim",
 "For every small nonsingular system, the iterative solver converges to the true solution within the number of iterations its theory guarantees, container views present exactly the underlying items in order, and erasing by predicate removes exactly the matching items while preserving the rest.",
 ["inputs","histories"],"all small systems with entries from a small set; all small containers and predicates",
 "The tests solve one or two systems.",
 ["src/iterative.cpp","src/Linear_equation.cpp","include/erase_if.hpp","include/Sequence.hpp"],[("GMRES/BiCGSTAB","src/iterative.cpp"),("views","include/Sequence.hpp, include/Sequences.hpp")])
p("C25","A crash while writing output never destroys the previous checkpoint",
 "At whatever point a run is interrupted while it writes periodic output, the `latest` links identify an intact checkpoint (the new one or the previous one), once there is one, and repeating output after a restart in the same directory succeeds. The same holds if the disk becomes full.",
 ["crash_points","fault_sequences"],"every system call boundary of the output routine as a crash point, followed by restart and a repeated output",
 "No test interrupts or repeats output.",
 ["src/Case.cpp"],[("output of mesh, state and `latest` links","src/Case.cpp: force_symlink, write_mesh/write_state commands")])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    jsonschema.validate(q,s)
print(len(P))
