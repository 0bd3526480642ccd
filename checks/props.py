"""Single source of the property catalogue: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py)."""
NUM = "include/ftk/numeric/"
GVN = "gated value numbering of LLVM IR (path-insensitive dataflow, algebraic normal forms)"
GVN_NOTE = ("Static: the current source is lowered to IR, one forward pass computes a gated normal form for every returned/stored value and compares it with the normal form of the definition; nothing is executed, "
            "no path is handed to a solver. Sound for exact real (or unbounded integer) arithmetic on the double instantiation; floating-point rounding, overflow, NaN inputs and inputs for which the code divides by zero are outside.")
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=GVN, note=GVN_NOTE, kind="gvn", thorough=False, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, technique=technique, note=note, kind=kind, thorough=thorough, **kw))


def m(name, where):
    return dict(name=name, where=where)


P("N01", "Determinant, inverse, adjugate and trace kernels equal their definitions",
  "For every matrix, the 2x2, 3x3 and 4x4 determinant kernels return the determinant, the inverse kernels return the determinant and (when it is non-zero) a matrix whose product with the input on either side is the identity, the adjugate kernels return a matrix whose product with the input is the determinant times the identity, and the trace kernels return the sum of the diagonal. This holds identically in exact arithmetic, not just for sampled matrices.",
  ["inputs"], "all real matrix entries (inverse: non-singular matrices)", "Tests multiply a few random matrices by their inverse with a tolerance; an identity in 4..16 variables, and special values of entries, are not settled by samples.",
  [NUM + f for f in ("det.hh", "matrix_inverse.hh", "adjugate.hh", "trace.hh")],
  [m("cofactor expansions", NUM + "det.hh det2/det3/det4"), m("closed-form inverses", NUM + "matrix_inverse.hh matrix_inverse2x2/3x3/4"), m("adjugates", NUM + "adjugate.hh"), m("traces", NUM + "trace.hh")])

P("N02", "Small linear and least-squares solvers solve the stated system",
  "For every input with a non-singular (normal) matrix, the 2x2 and 3x3 linear solvers return the determinant of the matrix and a vector that satisfies the system, and the over-determined solvers (2x1, 3x1, 3x2, 4x3) return the minimiser of the residual: the residual is orthogonal to every column.",
  ["inputs"], "all real coefficients and right-hand sides", "Tests solve a handful of random systems; the identity must hold for every system, and least-squares solvers have no direct test.",
  [NUM + f for f in ("linear_solver.hh", "linear_solver1.hh", "matrix_multiplication.hh", "transpose.hh", "matrix_inverse.hh")],
  [m("linear solvers", NUM + "linear_solver.hh solve_linear2x2/3x3"), m("normal-equation solvers", NUM + "linear_solver.hh solve_least_square3x2, 3x2_2, 4x3_3; linear_solver1.hh")])

P("N03", "Characteristic polynomials and low-degree root solvers match their definitions",
  "For every matrix (pair) the 2x2 and 3x3 characteristic polynomials are the coefficients of det(A - tI) (det(A - tB)); the linear and quadratic solvers return the right number of roots, every root they report satisfies Vieta's relations and every reported slot is written; the complex quadratic solver returns both roots and the discriminant; symmetric 2x2 eigenvalues have the matrix' trace and determinant and are ordered by magnitude; the cubic discriminant is the discriminant.",
  ["inputs"], "all real coefficients; the solvers' documented near-zero threshold is part of the case split", "Tests draw random polynomials with generic coefficients; degenerate coefficients (vanishing leading or constant terms, double roots) have probability zero in such samples.",
  [NUM + f for f in ("characteristic_polynomial.hh", "quadratic_solver.hh", "eigen_solver2.hh", "cubic_solver.hh")],
  [m("characteristic polynomials", NUM + "characteristic_polynomial.hh"), m("root case split", NUM + "quadratic_solver.hh solve_linear_real/solve_quadratic_real/solve_quadratic"), m("symmetric eigenvalues", NUM + "eigen_solver2.hh solve_eigenvalues_symmetric2x2"), m("discriminant", NUM + "cubic_solver.hh cubic_discriminant")])

P("N04", "Interpolation kernels, their inverses and barycentric clamping are exact",
  "For every input, linear (barycentric), bilinear and trilinear interpolation return the weighted combination of the vertex values; inverse linear interpolation returns barycentric coordinates that sum to one and reproduce the zero (or, when over-determined, leave a residual orthogonal to the simplex), and accepts exactly the coordinates inside the unit range up to its tolerance; clamping confines a value to its range and normalises clamped barycentric coordinates.",
  ["inputs"], "all real vertex values, coordinates and tolerances, non-degenerate simplices", "Tests check a few random simplices with a tolerance, and several kernels have no test; boundary acceptance and every component of every kernel need the identity.",
  [NUM + f for f in ("linear_interpolation.hh", "bilinear_interpolation.hh", "trilinear_interpolation.hh", "inverse_linear_interpolation_solver.hh", "clamp.hh")],
  [m("interpolation kernels", NUM + "linear_interpolation.hh, bilinear_interpolation.hh, trilinear_interpolation.hh"), m("inverse interpolation", NUM + "inverse_linear_interpolation_solver.hh"), m("clamping", NUM + "clamp.hh clamp, clamp_barycentric")])

P("N05", "Simplex gradients and Jacobians are exact for every affine field",
  "For every non-degenerate triangle (tetrahedron) and every assignment of values to its vertices, the gradient of a scalar and the Jacobian of a vector field computed on the simplex reproduce the difference of the vertex values along every edge, that is, they are the derivative of the affine interpolant.",
  ["inputs"], "all vertex positions of non-degenerate simplices and all vertex values", "No existing test exercises the simplex gradients directly; exactness for affine fields quantifies over 9 to 24 reals.",
  [NUM + "gradient.hh", NUM + "linear_solver.hh"], [m("edge-difference least squares", NUM + "gradient.hh gradient_2dsimplex2, jacobian_2dsimplex2, jacobian_3dsimplex")])

P("N06", "Small matrix and vector algebra kernels equal their definitions",
  "For every input the fixed-size products, transposes, sums, differences, scalings, dot and cross products, vector and matrix norms, distances, normalisations, weighted vector assignments and symmetric/antisymmetric parts return exactly the quantity they are named after, in every component.",
  ["inputs"], "all real entries", "Most of these kernels are only exercised indirectly on smooth fields, where a wrong component can hide; the identities range over all entries.",
  [NUM + f for f in ("matrix_multiplication.hh", "transpose.hh", "matrix_addition.hh", "cross_product.hh", "inner_product.hh", "vector_dot_product.hh", "vector_norm.hh", "vector_normalization.hh", "vector_assignment.hh", "matrix_decomposition.hh", "symmetric_matrix.hh", "matrix_norm.hh")],
  [m("kernels", NUM + "(files above)")])

P("N07", "Critical point types follow the Jacobian's eigenvalue signs",
  "For every 2x2 Jacobian the reported type is saddle iff the determinant is negative, repelling/minimum (attracting/maximum) iff both real eigenvalues are positive (negative), a focus or centre by the sign of the trace iff the eigenvalues are complex, and degenerate otherwise; symmetric 2x2 and 3x3 Hessians are classified by the signs of their real eigenvalues.",
  ["inputs"], "all real Jacobian entries, including degenerate and borderline ones", "Tests compare types on a few synthetic fields; borderline combinations (zero eigenvalue, double roots, zero trace) never occur there.",
  [NUM + f for f in ("critical_point_type.hh", "eigen_solver2.hh", "eigen_solver3.hh", "characteristic_polynomial.hh", "quadratic_solver.hh")],
  [m("classification", NUM + "critical_point_type.hh critical_point_type_2d/3d"), m("eigenvalues", NUM + "eigen_solver2.hh, eigen_solver3.hh")])

P("N08", "Orientation predicates implement one consistent symbolic perturbation",
  "For every set of distinct global vertex indices and every (possibly degenerate) integer point configuration in 1, 2 and 3 dimensions, the orientation predicate returns the sign of the orientation determinant under the simulation-of-simplicity perturbation ordered by global index: never zero, independent of the order in which vertices are passed except for the parity of that order.",
  ["inputs"], "all point coordinates including every degenerate configuration, all index orders", "Degenerate determinants select one of up to 15 tie-breaking minors; tests reach only a few of them and cannot check consistency across index orders.",
  [NUM + "sign_det.hh", NUM + "det.hh", NUM + "sign.hh"],
  [m("tie-breaking minor sequence", NUM + "sign_det.hh robust_sign_det2/3/4"), m("index sort and parity", NUM + "sign_det.hh positive1/2/3, nswaps_bubble_sort")])

P("N09", "Robust simplex containment is exact, degenerate cases included",
  "For every simplex in 1, 2 and 3 dimensions with distinct global indices, the robust containment test accepts a point exactly when replacing each vertex by the point leaves the perturbed orientation unchanged, and the robust zero test accepts a simplex exactly when it contains the origin in that sense; hence every zero in a mesh is claimed by exactly one cell even when it lies on shared faces, edges or vertices.",
  ["inputs"], "all vertex values including degenerate ones, all relative orders of the global indices", "Zeros exactly on faces/vertices and each order of the global indices are separate cases; tests use generic data.",
  [NUM + "sign_det.hh", NUM + "critical_point_test.hh"],
  [m("face-substitution test", NUM + "sign_det.hh robust_point_in_simplex1/2/3"), m("zero point with the lowest index", NUM + "critical_point_test.hh")], thorough=True)

P("N10", "Polynomial, quadratic, rotation and polygon kernels equal their definitions",
  "For every pair of coefficient lists (degrees up to 4) sums, differences, products, derivatives, multiples and values are those of the polynomials, whichever degree is larger; quadratic interpolation reproduces all six nodes, and its value, gradients and Hessian are those of the form. The quaternion product and the rotation about an axis, angle conversion and angle reduction return exactly the quantity they are named after. The polygon test accepts exactly the points on the inner side of every edge plane, and the polygon weights are the normalised products of the areas that define them.",
  ["inputs"], "all real coefficients and coordinates; degrees 0 to 5, polygons of 3 to 6 (weights: 3 to 5) corners", "The tests draw a few polynomials of equal degree and one triangle; a wrong term for other degree pairs or one component of one kernel stays unseen.",
  [NUM + f for f in ("polynomial.hh", "quadratic_interpolation.hh", "quaternion.hh", "fmod.hh", "rad.hh", "mpas.hh", "wachspress_interpolation.hh")],
  [m("polynomials", NUM + "polynomial.hh"), m("quadratic interpolation", NUM + "quadratic_interpolation.hh"), m("rotation and angles", NUM + "quaternion.hh, fmod.hh, rad.hh"), m("polygons", NUM + "mpas.hh point_in_mpas_cell, wachspress_interpolation.hh wachspress_weights")])

CE_NOTE = ("Static: the mesh header is re-emitted from its syntax tree with every function marked constexpr, and the property is a set of static_asserts over the tables, so a violating header fails to compile (compile-fail witness). "
           "Exhaustive for the mesh dimension because the tables depend on nothing else; global indices far from the int range are assumed. Constructs the constant evaluator cannot evaluate end in an analysis error, not in a pass.")

P("M01", "Regular-mesh simplex tables form a conforming subdivision with dual relations",
  "In 2, 3 and 4 dimensions the regular mesh's simplex types enumerate every simplex of the Kuhn/Freudenthal subdivision exactly once per lattice cell: types have k+1 distinct vertices of the unit cube, no two (type, corner) pairs denote the same simplex, and top-dimensional types have volume 1/n!. In 2 and 3 dimensions sides() lists exactly the k+1 distinct facets of an element, side_of() is its inverse (an (n-1)-simplex separates exactly two n-simplices of the unbounded mesh), vertices() is the corner plus the type's unit vertices, and ordinal types are exactly those whose vertices share one time value, with ordinal and interval types partitioning all types.",
  ["inputs"], "all dimensions 2..4, all simplex dimensions, all types; corners by translation invariance", "Tests count simplices or look at a few elements; a wrong neighbour for one of hundreds of type pairs breaks connectivity of features only where a feature crosses it.",
  ["include/ftk/mesh/simplicial_regular_mesh.hh", "include/ftk/mesh/lattice.hh"],
  [m("enumeration of unit simplices", "include/ftk/mesh/simplicial_regular_mesh.hh enumerate_unit_simplices"), m("side and coboundary tables", "include/ftk/mesh/simplicial_regular_mesh.hh enumerate_unit_simplex_sides/enumerate_unit_simplex_side_of, derive_unit_simplex_*"),
   m("element relations", "include/ftk/mesh/simplicial_regular_mesh.hh simplicial_regular_mesh_element::sides/side_of/vertices"), m("ordinal and interval types", "include/ftk/mesh/simplicial_regular_mesh.hh derive_ordinal_and_interval_simplices")],
  technique="compile-fail witnesses: static_assert over the constant-evaluated mesh tables", note=CE_NOTE, kind="ctab", thorough=True)

IDX_NOTE = ("Static: the current headers are lowered to IR with the containers they really use; one forward pass per kernel computes gated normal forms of every returned and stored value for symbolic extents, bounds, coordinates and indices, and compares them with the definition. "
            "Mesh dimension and number of simplex types are fixed (types: three, as symbolic residues); integers are unbounded except that 32-bit products of run-time extents or indices are reported as such; nothing is executed and no path is handed to a solver.")
MESH = "include/ftk/mesh/"

P("M02", "Lattice indexing is a bijection between coordinates and linear ids",
  "For every lattice in 1 to 4 dimensions, built by any constructor or reshape, with any start and size, to_integer is the row-major linear index relative to the start, from_integer is its inverse in both directions, n() is the product of the sizes, the bounds are start and start+size-1, and contains() accepts exactly the coordinates inside. No intermediate product of extents is computed in 32 bits.",
  ["inputs"], "all starts, sizes, coordinates and ids", "Tests use one or two small lattices starting at zero; sub-domains with offsets, the last dimension and lattices beyond 2^31 points are not sampled.",
  [MESH + "lattice.hh"], [m("strides", MESH + "lattice.hh lattice::reshape, prod_"), m("conversions", MESH + "lattice.hh lattice::to_integer/from_integer/contains")], note=IDX_NOTE, kind="idxk")

P("M03", "Regular-mesh element ids and work indices identify elements uniquely",
  "For every regular mesh (2 to 4 dimensions, any bounds) to_integer and from_integer of an element are mutually inverse and equal the row-major corner index times the number of types plus the type; work indices decode to the corner in the given sub-lattice and to the scope's type table; valid() accepts exactly elements of an existing type with every vertex inside the bounds; the comparison operators order by corner, then type. No intermediate product of extents is computed in 32 bits.",
  ["inputs"], "all mesh bounds, corners, types and ids", "Element ids decide feature identity across ranks and time; a truncated or colliding id needs a large mesh or an offset sub-domain, which unit tests never build.",
  [MESH + "simplicial_regular_mesh.hh"], [m("element ids", MESH + "simplicial_regular_mesh.hh to_integer/from_integer, dimprod_, set_lb_ub"), m("work indices", MESH + "simplicial_regular_mesh.hh from_work_index"), m("validity and order", MESH + "simplicial_regular_mesh.hh valid, operator<, operator==")],
  note=IDX_NOTE, kind="idxk")

P("M04", "Element iteration visits every element of its scope exactly once",
  "For every mesh, sub-lattice and time step, element_for, element_for_ordinal and element_for_interval start one parallel loop whose task count is the number of lattice points of the iterated slab times the number of types of the scope, and task i is the element with the i-th (corner, type) pair of that slab, so every element is visited exactly once. Task counts and indices never go through 32 bits.",
  ["inputs"], "all sub-lattices, time steps, task numbers; all, ordinal and interval scopes; 3- and 4-dimensional (space-time) meshes", "A missed or repeated element loses or duplicates a feature only if the feature lies there; large task counts cannot be run.",
  [MESH + "simplicial_regular_mesh.hh", "include/ftk/object.hh"], [m("iteration", MESH + "simplicial_regular_mesh.hh element_for, element_for_ordinal, element_for_interval"), m("task loop", "include/ftk/object.hh object::parallel_for")], note=IDX_NOTE, kind="idxk")

TRK_NOTE = ("Static: the real tracker class is instantiated from the current headers, its per-cell function is lowered to IR and one forward pass computes gated normal forms of every value it passes to its numeric kernels, of the returned flag and of every field it stores, compared with the definition for symbolic fields, extents, element corners, time steps and options (element types enumerated as named). "
            "The numeric kernels, element ids, validity and the robust test are uninterpreted here and decided by N03-N09 and M03; field values are real numbers, NaN and infinities appear as explicit gates; rounding is outside.")
FLT = "include/ftk/filters/"
P("T01", "2D critical points are extracted exactly where and as what they are",
  "For every element of the 2D space-time mesh, every field and every option, the 2D critical point tracker reports a point exactly when the element is valid, its vector values are finite and the robust zero test with the vertices' global indices accepts the quantised values; otherwise it reports nothing. The reported position, time, scalar values, element tag, timestep and ordinal flag are the barycentric interpolation of the element's own vertices (regular, bounding-box or explicit coordinates), and the type is the classification of the interpolated Jacobian.",
  ["inputs"], "all vector/scalar/Jacobian fields, element corners, time steps, mesh bounds; coordinate modes, 2- and 1-degree options, each element type analysed", "Tests compare a few synthetic data sets by counts of trajectories; a wrong vertex, slice, index order or option changes single points, and NaN handling, offsets and explicit coordinates are never sampled.",
  [FLT + "critical_point_tracker_2d_regular.hh", FLT + "critical_point_tracker_regular.hh"],
  [m("per-element extraction", FLT + "critical_point_tracker_2d_regular.hh check_simplex"), m("vertex values and coordinates", FLT + "critical_point_tracker_2d_regular.hh simplex_vectors/simplex_scalars/simplex_jacobians/simplex_coordinates")], note=TRK_NOTE, kind="trkk")
P("T02", "3D critical points are extracted exactly where and as what they are",
  "For every element of the 3D space-time mesh, every field and every option, the 3D critical point tracker reports a point exactly when the element is valid, its vector values are finite and the robust zero test with the vertices' global indices accepts the quantised values; otherwise it reports nothing. The reported position, time, scalar values, element tag, timestep and ordinal flag are the barycentric interpolation of the element's own vertices (regular, bounding-box or explicit coordinates), and the type is the classification of the interpolated Jacobian.",
  ["inputs"], "all vector/scalar/Jacobian fields, element corners, time steps, mesh bounds; coordinate modes; representative element types (all in each kind of scope for the code paths)", "Tests compare a few synthetic data sets by counts of trajectories; a wrong vertex, slice, index order or option changes single points, and missing Jacobians, offsets and explicit coordinates are never sampled.",
  [FLT + "critical_point_tracker_3d_regular.hh", FLT + "critical_point_tracker_regular.hh"],
  [m("per-element extraction", FLT + "critical_point_tracker_3d_regular.hh check_simplex"), m("vertex values and coordinates", FLT + "critical_point_tracker_3d_regular.hh simplex_vectors/simplex_scalars/simplex_jacobians/simplex_coordinates")], note=TRK_NOTE, kind="trkk")
P("T03", "Isosurface points are the interpolated crossings of the threshold on edges",
  "For every edge of the space-time mesh, every finite scalar field and threshold, the 2D and 3D contour trackers report an intersection exactly when the edge is valid and the robust test with the vertices' global indices accepts the quantised values relative to the threshold. Position and time interpolate the edge's own vertices, tag, timestep and ordinal flag are the element's, and in 3D the normal is the interpolated gradient at those vertices and the scalar is the threshold crossing value.",
  ["inputs"], "all scalar fields, thresholds, edge corners, time steps, array offsets; representative edge types (axis, time, diagonal)", "The existing tests only count surface pieces on small synthetic fields whose arrays start at zero; a shifted array, wrong slice or wrong vertex moves single points.",
  [FLT + "contour_tracker_2d_regular.hh", FLT + "contour_tracker_3d_regular.hh"],
  [m("edge test", FLT + "contour_tracker_2d_regular.hh check_simplex; contour_tracker_3d_regular.hh check_simplex"), m("vertex values", FLT + "contour_tracker_2d_regular.hh simplex_scalars; contour_tracker_3d_regular.hh simplex_values")], note=TRK_NOTE, kind="trkk")
P("T04", "Critical line points and their attributes are interpolated on their own triangle",
  "For every triangle of the 4D space-time mesh and every finite pair of fields, the critical line trackers (plain, Sujudi-Haimes, Levy-Degani-Seginer, ridge/valley) report an intersection exactly when the triangle is valid and the robust zero test with the vertices' global indices accepts the quantised values. Position, time, tag, timestep and ordinal flag are those of the triangle, and the attributes (residue, discriminant of the interpolated Jacobian's characteristic polynomial, vorticity magnitude, scalar) are computed from the values interpolated with the same barycentric coordinates.",
  ["inputs"], "all fields, triangle corners, time steps, array offsets; representative triangle types", "No existing test looks at the attributes; a wrong channel, stride, slice or a missing component changes numbers that nothing compares.",
  [FLT + f for f in ("critical_line_tracker_3d_regular.hh", "sujudi_haimes_tracker_3d_regular.hh", "levy_degani_seginer_tracker_3d_regular.hh", "ridge_valley_tracker_3d_regular.hh")],
  [m("triangle test", FLT + "critical_line_tracker_3d_regular.hh check_simplex, simplex_values"), m("attributes", FLT + "sujudi_haimes_tracker_3d_regular.hh, levy_degani_seginer_tracker_3d_regular.hh, ridge_valley_tracker_3d_regular.hh check_simplex")], note=TRK_NOTE, kind="trkk")
P("T05", "Unstructured critical points are extracted exactly where and as what they are",
  "For every simplex of the extruded 2D and 3D unstructured meshes, every field and option, the unstructured critical point trackers report a point exactly when the vector values are finite, the robust zero test with the vertices' ids accepts the quantised values and barycentric coordinates exist; coordinates out of range are clamped so that they stay normalised. Position, time, scalar components, tag, timestep and ordinal flag are those of the simplex' own vertices at their own time, and the type is the classification of the given (interpolated) or derived Jacobian.",
  ["inputs"], "all fields, vertex ids, coordinates and times; scalar/vector/Jacobian inputs and degrees option enumerated", "Tests use one or two meshes with generic fields; the clamping branch, non-finite input and the 3D scalar and Jacobian paths are not exercised.",
  [FLT + "critical_point_tracker_2d_unstructured.hh", FLT + "critical_point_tracker_3d_unstructured.hh"],
  [m("per-element extraction", FLT + "critical_point_tracker_2d_unstructured.hh check_simplex; critical_point_tracker_3d_unstructured.hh check_simplex"), m("vertex values", FLT + "critical_point_tracker_2d_unstructured.hh simplex_values; critical_point_tracker_3d_unstructured.hh simplex_values")], note=TRK_NOTE, kind="trkk")
P("T06", "Superconductor vortices are located where the gauge-invariant phase winds",
  "For every triangle of the space-time mesh and every order parameter field and metadata, the vortex tracker reports an intersection exactly when the triangle is valid and the gauge-invariant phase differences along its edges (phase difference minus the line integral of the averaged magnetic potential, wrapped to (-pi, pi]) sum to at least half a turn. The position is the zero of the gauge-transformed order parameter interpolated on the triangle's physical coordinates; tag, timestep and ordinal flag are the triangle's.",
  ["inputs"], "all fields, cell lengths, origins, magnetic fields, triangle corners, array offsets; representative triangle types", "No existing test covers this tracker; the wrapping, gauge and per-slice metadata only matter for general fields.",
  [FLT + "tdgl_vortex_tracker_3d_regular.hh"],
  [m("contour integral", FLT + "tdgl_vortex_tracker_3d_regular.hh check_simplex, line_integral, magnetic_potential"), m("vertex values", FLT + "tdgl_vortex_tracker_3d_regular.hh simplex_values")], note=TRK_NOTE, kind="trkk")

SRC_NOTE = "Static: the type-checked AST of every function instantiated by the command-line tool and the library headers is exported from the current tree and analysed; nothing is executed. "
P("C01", "Parallel loop bodies are free of data races",
  "In every loop body run by the thread pool, any location shared between tasks that a task writes is either the element indexed by the task itself, or every access to it in that loop holds one common mutex that all tasks share. A shared location is never updated from a value read from it in an earlier critical section, so no update is lost.",
  ["schedules"], "all interleavings of the tasks of every parallel loop started by the library, any number of threads", "A race needs two tasks to touch the same container at the same instant; the tests run small inputs, mostly on one thread, and a race that does not fire leaves no trace.",
  ["include/ftk/filters/", "include/ftk/basic/duf.hh", "include/ftk/object.hh"],
  [m("parallel runners", "include/ftk/object.hh parallel_for, parallel_for_container; mesh element_for*"), m("bodies", FLT + "*.hh update_timestep, build_*, trace_*"), m("concurrent union-find", "include/ftk/basic/duf.hh")],
  technique="interprocedural lockset analysis of parallel loop bodies over the type-checked AST", kind="races.run",
  expl="For every call of a parallel runner the analysis enters the body and everything it calls, tracks which shared location each access denotes and which mutexes are held, and reports any conflicting pair of accesses by two tasks without a common mutex, and any write whose operands were read in an earlier critical section.",
  note=SRC_NOTE + "Every parallel body and all functions it may call (virtual calls: every override) are analysed. An index that depends on the task is taken to be distinct per task; calls into third-party libraries are taken to write only non-const objects and arguments; file-scope and static state is included.")

P("C03", "The thread pool runs every task exactly once and joins every thread",
  "For every number of tasks and threads (including fewer tasks than threads, no task, and no or one thread), with or without affinity and on every threading back end, parallel_for calls the body exactly once for every task index below the number of tasks, the container variants once for every element. Every started thread is joined before the call returns, and its closure shares nothing that the spawning loop goes on changing.",
  ["schedules", "inputs"], "all task and thread counts, all interleavings of started threads; pthread, OpenMP (pragma ignored) and TBB back ends", "The tests run with one thread or with many more tasks than threads on one machine; a task run twice or skipped at another ratio, or a closure that reads a changing counter, shows only there.",
  ["include/ftk/object.hh"], [m("task distribution", "include/ftk/object.hh parallel_for, parallel_for_container")],
  note="Static: LLVM IR of the pool compiled from the current header with std::thread and std::vector replaced by recording stand-ins; one symbolic iteration per loop gives which task each thread runs under which condition. Facts used: counts are non-negative and do not overflow; tbb::parallel_for partitions its range; OpenMP's work sharing is trusted.", kind="objk")

ARR_NOTE = ("Static: the array templates are instantiated from the current headers, lowered to IR and evaluated in one forward pass to gated normal forms of every element read and written, with symbolic extents, contents and indices; a loop is decided from one symbolic iteration (ranges, strides and carried values as obligations). "
            "Element values are real numbers with NaN and infinities as explicit gates; rounding is outside, and extents are assumed to be positive with an element count that fits size_t.")
P("D01", "Arrays address, shape, combine and reduce exactly the elements they hold",
  "For every number of dimensions, extents and contents, every accessor finds the element of a multi-index at the sum of each index times the product of the preceding extents, and every way of shaping it yields these extents, strides and element count without truncation. Element-wise arithmetic, clamping, filling, copying, slicing, transposing, stacking and concatenating give every result element, once, the value its definition names. Minimum, maximum, largest magnitude, resolution and multilinear interpolation take all elements concerned into account.",
  ["inputs"], "all extents and element values; up to seven dimensions for addressing and shape, four for transposes and interpolation, three combined arrays", "Tests use one or two small arrays; stride mix-ups between equal extents, truncated sizes beyond 2^31 and reductions over all-negative data stay invisible.",
  ["include/ftk/ndarray.hh", "include/ftk/ndarray/ndarray_base.hh"],
  [m("addressing and shape", "include/ftk/ndarray.hh at, operator(), index, get, reshape, nelem, swap, reset"), m("bulk operations", "include/ftk/ndarray.hh operator+ += * *= /=, clamp, fill, from_array, from_vector, slice, slice_time, concat, stack, get_transpose"), m("reductions", "include/ftk/ndarray.hh min_max, maxabs, resolution, mlerp")],
  note=ARR_NOTE, kind="fldk")
P("D02", "Derived fields hold the discrete derivative of their own cell, everywhere",
  "For every field and extent, gradient, Jacobian, vorticity, cross product and Jacobian-vector product fields contain at every cell of their domain, and in every component, the central difference (clamped at the border for the 2D operators, up to the operator's fixed factor) or product of the input values at that very cell and time step. Cells outside the domain stay zero and no element outside the input or the result is accessed.",
  ["inputs"], "all fields, all extents, all cells, components and time steps", "The tests use the derived fields on small cubes with smooth data; an index, component, time step or border mistake changes only some cells and is lost in the counts the tests compare.",
  ["include/ftk/ndarray/grad.hh"],
  [m("gradients", "include/ftk/ndarray/grad.hh gradient2D, gradient2Dt, gradient3D, gradient3Dt"), m("Jacobians", "include/ftk/ndarray/grad.hh jacobian2D, jacobian2Dt, jacobian3D, jacobian3Dt"), m("products", "include/ftk/ndarray/grad.hh vorticity3D, cross_product3D, Jv_dot_v, JvT_dot_v")], note=ARR_NOTE, kind="fldk")

MSH_NOTE = "Static: LLVM IR compiled from the current headers; the base mesh is replaced by uninterpreted answers about one base cell, std::set by a list that keeps insertion order. Facts used: vertices of a base simplex come in ascending order, ids are in range, 32-bit ids do not overflow. "
P("M05", "Extruded 2D meshes number the prism subdivision consistently",
  "For every triangle mesh, every element id of any non-negative time step (and interval elements of the step before), get_simplex, simplex_type, is_ordinal, sides, side_of and find_simplex of the implicit extruded mesh agree with the subdivision of each triangular prism into three tetrahedra: element counts, vertices with their time, the faces of a tetrahedron, the tetrahedra around a triangle and the inverse lookup, locally and globally numbered. Element loops visit every ordinal or interval element of the step exactly by its id.",
  ["inputs"], "all base meshes, all element ids, all time steps; every element type, position of the base simplex in its cell, global and partitioned numbering", "Tests track one or two meshes and compare counts; a wrong vertex, face or offset for one element type or the partitioned numbering changes connectivity of a few cells only.",
  ["include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh", "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh"],
  [m("numbering", "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh n, n_interval, simplex_type, get_simplex, find_simplex"), m("incidence", "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh sides, side_of"), m("element loops", "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh element_for*")], note=MSH_NOTE, kind="meshk")
P("M06", "Extruded 3D meshes number the prism subdivision consistently",
  "For every tetrahedral mesh, every element id of any non-negative time step (and interval elements of the step before), get_simplex, simplex_type, is_ordinal (below dimension 4), sides and side_of of the extruded mesh agree with the subdivision of each tetrahedral prism into four pentachora: element counts, vertices with their time, the faces of pentachora and tetrahedra, and all tetrahedra and pentachora around a triangle or tetrahedron. Element loops below dimension 4 visit every ordinal or interval element of the step exactly by its id.",
  ["inputs"], "all base meshes, all element ids, all time steps; every element type and every position of the base simplex in its cell", "No existing test looks at the four-dimensional incidence; a wrong vertex, face, coface or offset for one element type breaks a few connections only.",
  ["include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh"],
  [m("numbering", "include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh n, n_interval, simplex_type, get_simplex"), m("incidence", "include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh sides, side_of"), m("element loops", "include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh element_for*")], note=MSH_NOTE, kind="meshk")

P("F01", "Saving and loading features, arrays and meshes restores every member",
  "For every object of every type with a binary or JSON serialiser (points, curves, curve sets, surfaces, arrays, mesh elements, unstructured meshes), loading what was saved visits the same members in the same order with the same type, and restores every data member, element and label. Every hand-written copy constructor and assignment copies every member from the member of the same name.",
  ["inputs"], "all objects of all serialisable types; members that describe the process (communicator, partition) or are rebuilt on request are listed and excluded", "The existing round trips compare a few numbers of simple curves; a member lost in a file, in a message between processes or in a copy keeps a default that no test looks at.",
  ["include/ftk/features/", "include/ftk/mesh/", "include/ftk/ndarray.hh", "include/ftk/utils/serialization.hh"],
  [m("binary form", "include/ftk/features/*.hh, include/ftk/ndarray.hh, include/ftk/mesh/*.hh Serialization::save, load"), m("JSON form", "include/ftk/features/*.hh adl_serializer::to_json, from_json"), m("copies", "include/ftk/features/feature_point.hh, feature_curve.hh; include/ftk/mesh/simplicial_regular_mesh.hh")],
  technique="effect analysis of serialiser and copy functions over the type-checked AST", kind="serial.run",
  expl="For every pair of serialiser functions the analysis derives the sequence of members (paths from the object, with loops over elements, through helper functions and local copies) that is written and read, compares the two and subtracts them from the data members of the class; copy functions must assign each member from its namesake.",
  note=SRC_NOTE + "Serialisation of standard containers and scalars by the bundled DIY library and nlohmann::json is trusted. Types whose from_json is empty are not readable and left out.")

PATH_NOTE = SRC_NOTE + "Paths are split on canonical literals of the source; loops are summarised by the paths of one pass. "
P("S01", "Every step of a tracker sweeps the elements of its timestep exactly once",
  "For every tracker of critical points, contours, critical lines and vortices, every number of held snapshots and every branch, one step visits all elements of its dimension fixed in the current timestep exactly once, and all elements reaching to the next timestep exactly once iff two snapshots are held, without moving the clock. Every visited element that passes the test (and the type and degeneracy filter) has its own point recorded under its own key, with all valid cells around it where isovolumes are built, and no other element is recorded. Advancing sweeps first, then drops one snapshot, moves the clock by one and reports whether snapshots remain.",
  ["schedules", "inputs"], "all CPU trackers on regular and unstructured meshes; all branches of update_timestep, advance_timestep, pop_field_data_snapshot and the element functions", "A test follows one tracker through one full series; a sweep lost or doubled for one number of snapshots, filter or mesh kind changes only the features born there.",
  ["include/ftk/filters/*_tracker*.hh"],
  [m("sweeps", "include/ftk/filters/*_regular.hh, *_unstructured.hh update_timestep"), m("recording", "element functions in update_timestep"), m("advance", "include/ftk/filters/{critical_point,contour,critical_line,tdgl_vortex}_tracker.hh advance_timestep, pop_field_data_snapshot")],
  technique="path-sensitive typestate analysis over the type-checked AST", kind="proto.s01",
  expl="All paths through update_timestep and advance_timestep of every concrete tracker are enumerated (virtual methods resolved per class, helpers and lambdas inlined, accelerator branches excluded), with the literals they assume; each must contain exactly the required sweeps, and each path of the element function must record its point iff the literals say the element passed.",
  note=PATH_NOTE + "CPU path only (no accelerator). What the sweep visits and what the test decides are other properties (M05, M06, T01-T06).")
P("S02", "Drivers hand every snapshot to the tracker in step order",
  "In every program and interface that feeds a tracker from a stream (JSON interface, command line), for every number of time steps, each step hands exactly one snapshot to the tracker, then advances it unless it is the first step, then runs the final sweep iff it is the last step. The tracker is initialised before the stream starts, the stream is started and finished, and the tracker is finalised only after that.",
  ["schedules", "histories"], "all step functions of src/cli/ftk.cpp and json_interface.hh, all step numbers including a single step", "The tests run a few drivers on a few steps; a dropped last sweep or an early advance in another driver loses the features of one timestep without failing.",
  ["src/cli/ftk.cpp", "include/ftk/filters/json_interface.hh"],
  [m("JSON interface", "include/ftk/filters/json_interface.hh consume_*"), m("command line", "src/cli/ftk.cpp execute_*, initialize_*")],
  technique="path-sensitive typestate analysis over the type-checked AST", kind="proto.s02",
  expl="Every step function is enumerated path by path; the pushes, advances and final sweeps on each path are compared with what its literals say about the step (first, last); the enclosing function must initialise, start, finish and finalise in that order.",
  note=PATH_NOTE + "How a stream calls the step function is not part of this property.")

P("K01", "What a caller configures is what the tracker and the streams run with",
  "Every configuration setter of every tracker, stream, mesh and array class stores the value it is given in the member of its name, and every getter returns that member. Every option of the JSON interface (root process, threads, accelerator, blocks, type filter, robust detection, streaming, degrees, discarding) reaches its own setter with its own value, and every name of the type filter selects its own bit.",
  ["inputs"], "all setters and getters outside the bundled third-party code, all option values", "The tests use a handful of options with their defaults; a setter that ignores its argument is invisible until someone needs the other value.",
  ["include/ftk/filters/tracker.hh", "include/ftk/filters/json_interface.hh", "include/ftk/filters/critical_point_tracker.hh", "include/ftk/ndarray/stream.hh"],
  [m("setters and getters", "include/ftk set_*, get_*, use_*"), m("JSON options", "include/ftk/filters/json_interface.hh json_interface::configure_tracker_general")],
  technique="path-sensitive def-use analysis over the type-checked AST", kind="config.run",
  expl="Every setter is enumerated path by path and the value left in the member of its name is compared with its parameter; every option site of the JSON interface is matched with the option its guard and argument read.",
  note=PATH_NOTE + "A setter whose member has another type than its parameter is only required to use the parameter.")

P("K02", "A name selects what it names: formats, trackers, data sets and outputs",
  "For every file name (any prefix, upper or lower case extension), every reader and writer dispatch (arrays, meshes, surfaces, polydata, JSON interface outputs and meshes, stream inputs) selects the format of that extension, also when one extension is a suffix of another. Every tracker name, synthetic data set name and output type selects the tracker, generator and writer of that name, reading undoes the choice made by writing, and only the root process writes or reads the results of a point tracker.",
  ["inputs"], "all documented extensions, format names, tracker names, data set names and output types", "The tests read and write a few names; a shadowed suffix or a crossed branch affects one extension only.",
  ["include/ftk/io/util.hh", "include/ftk/filters/json_interface.hh", "include/ftk/ndarray/stream.hh", "include/ftk/filters/critical_point_tracker.hh", "include/ftk/features/feature_surface.hh", "src/cli/ftk.cpp"],
  [m("file_extension", "include/ftk/io/util.hh file_extension"), m("arrays and streams", "include/ftk/ndarray.hh read_file; include/ftk/ndarray/stream.hh request_timestep_*, set_input_source_json"), m("outputs", "json_interface::write*, critical_point_tracker::write_*, read_*"), m("names", "tracker::str2tracker, src/cli/ftk.cpp main")],
  technique="path-sensitive dispatch-table analysis over the type-checked AST", kind="formats.run",
  expl="All paths of a dispatcher are enumerated with their literals; for every name, the paths consistent with it must call exactly the reader, writer or generator of that name (file_extension is evaluated from its own paths).",
  note=PATH_NOTE + "Names outside the documented tables are covered by one representative of the default branch.")

P("C02", "All processes enter the same collective operations with matching data",
  "For every run on several processes, whatever the share of data each process holds, all processes of a communicator enter the same collective operations in the same order, so that finalisation, tracing, input broadcast and output terminate. The result on the root after a gather is its own data together with the data of every other process, each once; a broadcast leaves every process with the object of the root; a redistribution delivers each entry to exactly one process chosen by its key.",
  ["inputs", "schedules"], "all functions of the library and the command line that enter a collective operation, any number of processes and any distribution of the data", "The tests run one or two processes with data on all of them; a collective skipped by a process without data hangs or corrupts only such runs.",
  ["include/ftk/utils/gather.hh", "include/ftk/utils/bcast.hh", "include/ftk/utils/redistribution.hh", "include/ftk/filters/critical_point_tracker.hh", "include/ftk/filters/json_interface.hh", "include/ftk/ndarray/stream.hh", "include/ftk/geometry/write_polydata.hh", "src/cli/ftk.cpp"],
  [m("matching", "every call of a collective in include/ftk and src, through the call graph"), m("transport", "diy::mpi::gather, allgather, all2all, scatterv, bcastv, bcastj, redistribute")],
  technique="interprocedural control-dependence and taint analysis of collective calls; path analysis of the transport protocols", kind="coll.c02",
  expl="The trace of collectives that follows each branch is computed through to the end of the function, with called functions that enter collectives as symbols; a branch whose continuations differ must not depend on the rank, on containers of results or on values derived from them (unless broadcast since). Each transport is interpreted abstractly for representative numbers of processes, ranks and roots with symbolic lengths and contents, and the contents, counts, offsets, buffer sizes, types, roots and unpacking given to MPI are compared with the protocol.",
  note=PATH_NOTE + "Files read by several processes are assumed to have the same content for all of them; MPI itself is trusted. Calls given MPI_COMM_SELF are not collective.")

P("S03", "The parts of the processes tile the domain and every sweep covers its own part",
  "For every regular domain, every number of processes for which a partition exists, and every given number of cuts, cutting a lattice replaces each part by pieces that follow each other and end where the part ends, the factors used multiply to the number of processes, and every part becomes one core whose extended part adds the ghost widths as far as the enclosing lattice allows. Every process sweeps exactly its own core, one timestep long, in the requested scope, on a mesh bounded by the domain and the time range, and keeps an array that covers its core with at least two ghost layers.",
  ["inputs", "schedules"], "all domains, all numbers of processes, all cuts and ghost widths", "The tests run on one or a few processes and small domains; a piece too short or a wrong scope loses or repeats elements only for other counts.",
  ["include/ftk/filters/regular_tracker.hh", "include/ftk/mesh/lattice_partitioner.hh"],
  [m("own part and mesh", "include/ftk/filters/regular_tracker.hh regular_tracker::initialize, element_for"), m("partitioner", "include/ftk/mesh/lattice_partitioner.hh partition, add_ghost, prime_factorization")],
  technique="path-sensitive symbolic dataflow over the type-checked AST (loop induction on one pass)", kind="part.s03",
  expl="Every path of the partitioner and of the sweep is enumerated with canonical linear values; each loop pass is checked as an induction step (next start = this start + size, listed factor divides and is divided out, the rest ends at the end of the part).",
  note=PATH_NOTE + "Whether a partition exists (parts at least as long as their cuts) is a precondition: the partitioner returns no parts otherwise. Unsigned differences in add_ghost are taken as exact, as the part lies inside the lattice.")

P("T07", "Tracing joins exactly neighbouring features and turns each piece into one curve",
  "For every mesh and every set of extracted points without branching, the neighbours of an element used for tracing are exactly the faces of the cells around it, all extracted points enter the tracing and two are joined exactly when one is a neighbour of the other, and the components are the sets of elements with a common root. Every linear piece of every component becomes exactly one curve that holds the extracted point of each of its nodes in order, is marked a loop when its ends are neighbours, and is added to the result once. Streaming tracing continues every unfinished curve at both ends by extracted neighbours, removes these points from the rest, completes a curve exactly when nothing continued it, and builds new curves from what is left.",
  ["inputs", "histories"], "all tracing functions of the point, line and surface trackers, any mesh, any set of extracted points, any history of streaming steps", "The tests trace a few smooth fields; a lost neighbour relation, a reversed end or a dropped loop flag changes only curves of certain shapes.",
  ["include/ftk/filters/critical_point_tracker.hh", "include/ftk/filters/critical_point_tracker_2d_regular.hh", "include/ftk/filters/critical_point_tracker_3d_regular.hh", "include/ftk/filters/critical_point_tracker_2d_unstructured.hh", "include/ftk/filters/critical_point_tracker_3d_unstructured.hh", "include/ftk/filters/critical_line_tracker_3d_regular.hh", "include/ftk/filters/critical_line_tracker_3d_unstructured.hh", "include/ftk/features/feature_line.hh", "include/ftk/features/feature_surface.hh", "include/ftk/geometry/cc2curves.hh", "include/ftk/algorithms/cca.hh", "include/ftk/basic/union_find.hh", "include/ftk/basic/simple_union_find.hh"],
  [m("offline and streaming tracing", "critical_point_tracker::trace_critical_points_offline, trace_critical_points_online"), m("neighbours and curves", "*_regular and *_unstructured finalize, build_vortex_lines, feature_line_t::to_curve_set, feature_surface_t::slice_time"), m("components", "include/ftk/geometry/cc2curves.hh, include/ftk/algorithms/cca.hh, include/ftk/basic/union_find.hh, simple_union_find.hh")],
  technique="comprehension extraction and dataflow analysis over the type-checked AST", kind="trace.run",
  expl="Each tracing function is read as a set of comprehensions (operation, operands, generators, guards), which is compared with the relation the property states: neighbour set, join condition, roots, pieces, ends, completion.",
  note=PATH_NOTE + "Branching nodes (more than two neighbours) end curves by design and are outside the claim. The distributed union-find and the redistribution are C02's subject.")
