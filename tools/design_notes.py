# Per property: (space explored, oracle, what is left open)
NOTES = {
"C01": ("Explicit-state search to a fixpoint over every reachable (size, capacity, head position, contents-renaming) state of one deque, and over pairs of deques for copies/moves/assignments, for inline capacities 0-4; plus every operation sequence of a fixed length for tracked, int, string, move-only and reference-like element types.",
        "std::deque model; instrumented element type that counts constructions/destructions and detects use outside its lifetime; address stability below capacity; ASan.",
        "Element types that throw."),
"C02": ("As C01 for SmallStorage: fixpoint over (size, capacity, inline/heap) states of one and of two containers, inline capacities 0-4, plus every operation sequence of a fixed length per element type.", "std::vector model, lifetime-tracking elements, ASan.", "Element types that throw."),
"C03": ("Fixpoint search over histories of construct/copy/move/assign/write/destroy on three handles for each storage class (unique, shared, wrapped, sized; static and dynamic), plus every history of depth 4.", "Model heap of blocks with owners; lifetime-tracking elements; element counts; ASan/leak check.", "Concurrent use of shared handles (the library promises none)."),
"C04": ("Fixpoint search over all trees up to (4 nodes, 3 items), (5, 2), (3, 4) under every editing operation at every position (insert child/item, erase, splice, flatten, clear, take, copy, move, swap ...); every operation is applied to every reachable tree by replaying a shortest history on a fresh object.", "Ideal ordered tree (vectors of children and items); all link/size/count invariants and handle validity are re-checked after each operation.", "`adopt` and the ConstSubtree constructor do not compile."),
"C05": ("Every tree reached by C04's search x every node as traversal root x every pre/post/in-order/item/breadth iterator, forwards and backwards, every accept/reject predicate and query.", "Recursive traversal of the ideal tree.", ""),
"C06": ("All boxes with corners in a lattice (sizes -1..5), dimensions 1-4, both orders, two index types, every pair of positions for difference/jump/compare/assign/random access, periodic and bounded use.", "Explicit nested loops.", "region_begin's documentation is ambiguous."),
"C07": ("All 13 matrix kinds (dense static/dynamic/half-dynamic, row/column major, wrapped, diagonal, permutation) x shapes 1x1-4x4 x every element, row/column iterator pair, region, wrapped buffer offset; also a bounds-checked build (GEOMC_MTX_CHECK_BOUNDS).", "Independent element map a(r,c).", "MtxAssignmentProxy is unreachable; copyMatrixRegion does not compile."),
"C08": ("All ordered pairs of 13 kinds x 7-12 shapes x distinguishing contents (all permutations for permutation matrices) x every destination kind, aliasing pattern and element-type mix.", "Exact integer/half-integer arithmetic on plain arrays.", "Element-wise operations promise nothing about partially overlapping transposed views."),
"C09": ("All ordered pairs of kinds x shape triples x contents, matrix x vector both sides, mul_acc, destination windows at every offset 0-9 of the block holding an operand, element-type mixes.", "Exact integer arithmetic on plain arrays.", "mul_acc with diagonal/permutation operands does not compile."),
"C10": ("Exhaustive integer matrices n<=3 over a small alphabet; P*L*U families with every row permutation for n=4,5(,6), diagonal and permutation matrices; double 2-9.", "Exact rational (fraction) determinant and inverse; singularity flag; result times input.", ""),
"C11": ("Exhaustive 1x1-4x3 over small alphabets, 4x4-6x6 structured with all row permutations and rank-deficient copies, 1/2/n+1 right-hand sides, every skip argument; double up to 26x26.", "Exact: P*A=L*U, triangularity, pivot bounds, A*x=b in rationals; singular detection.", "decomp_lup of rank-deficient input beyond its flag."),
"C12": ("Every set of vectors from lattices in dimensions 2-6, every count.", "Exact rank by fraction-free elimination; orthogonality/independence/span.", "orthogonalize() of dependent vectors."),
"C13": ("All symmetric integer matrices n<=3, families n=4,5 with each pivot made negative; both layouts, static and dynamic, in place and out of place.", "Exact leading minors; L*Lt=A.", "Exactly semidefinite boundary."),
"C14": ("State search over pairs of permutations of size 1-6 (static/dynamic) under swaps, setters, transpose, sign, composition in every aliasing, copies, inverse; every history of 2 (3) operations.", "Symmetric group: arrays and parity by cycle count.", ""),
"C15": ("Every operation with a dimension precondition x every combination of shapes 1x1-3x3 of 6 dynamic, 2 half-static and 3 static kinds and vectors.", "Predicate on shapes: must throw exactly when shapes disagree, destination untouched.", ""),
"C16": ("All pairs of vectors from lattices, N=1-6, five element types; all unary/binary/scalar operations, swizzles, colours, polar forms, aliasing of scalars with elements.", "Coordinate-wise long double definitions.", "align/direction_align for nearly opposite vectors."),
"C17": ("All pairs of boxes over 1-3 dimensional corner lattices incl. inverted/empty, all lattice points, three coordinate types.", "Point-set algebra on the lattice; exact interval arithmetic.", "Scaling and rays of empty boxes; 3 recorded findings."),
"C18": ("5.6k shapes (all shape classes, nested wrappers, degenerate parameters; 2-4 D) x 169-343 lattice points.", "Reference solids: closed-form convex distance functions in long double (fam.h/truth.h), points within rounding of the surface left open.", ""),
"C19": ("Same shapes and points; sdf, normal, project, clip.", "Distance to the reference solid: results are judged by membership and true distance, so any of several nearest points passes.", "Degenerate simplexes; Simplex::normal length."),
"C20": ("Same shapes x 1176-1664 rays (axis-parallel, tangent, in-plane, apex, interior origins).", "Interval found by bracketing the convex distance function along the ray.", "Capsule has no ray intersection."),
"C21": ("Same shapes x 15/63/80 directions.", "Closed-form support functions; tightness of bounds() per axis.", ""),
"C22": ("All ordered pairs of ~114 convex shapes in 2-4 D placed apart, overlapping and slid to small gaps/overlaps; GJK, SAT and closed forms.", "Certified distance bounds by convex minimisation in long double (separating direction or common point as witness).", "Exact contact."),
"C23": ("All simplexes with lattice vertices of every vertex count in 2-4 D (5-D measure) x query points and rays; equality and construction histories.", "Brute-force hull geometry (faces, barycentric, Gram determinants).", "Degenerate simplexes' sdf/projection."),
"C24": ("Planes over normals x offsets 2-4 D x points, shapes, hulls, transforms.", "Defining equation; convex support oracle.", "Exact contact."),
"C25": ("Every history of <=3 (4) transforms from 6 generators in four spellings and <=3 (4) dilations applied to every wrappable shape.", "Image of the point set through long double homogeneous matrices.", ""),
"C26": ("All histories of depth 4 (5) over 9 operations, three bin sizes, keys on/off bin borders x 242 boxes and 108 radius queries.", "Linear scan of a multiset.", ""),
"C27": ("All object multisets up to 3 over pools of points/boxes/balls/pointers/pairs, larger strided sets, 50 parameter sets, every split into built and inserted part.", "Linear scan; node bounds/ranges/parents invariants by walking the node list.", "Unfinished node erase/clear/flatten API; copying; 1-D."),
"C28": ("All compositions to depth 3 of generators in 2-4 D x points/vectors/normals/rays, resize, constructors.", "Long double homogeneous matrices.", ""),
"C29": ("All products over the 48-element binary octahedral group, axis-angle lattice, exp/log/pow/slerp lattices.", "Hamilton algebra and Rodrigues formula in long double.", ""),
"C30": ("Origins x directions (incl. zero) x parameters x points in 2-4 D.", "Definition of the line in long double.", "Ray<T,1> does not compile."),
"C31": ("8.3M expression evaluations: every expression of depth <=2 over 39 unary and 19 binary operators and 6 leaves; scalars of 9 types; five discontinuity policies at every tie.", "Five-point stencil of the value function in long double (no derivative rule is modelled) and policy table.", "Nested duals' transcendental functions."),
"C32": ("All grids with small extents (1-3 D in, 1-3 channels) x 4 edge policies x 3 interpolations x lattice positions inside/outside, domains.", "Separable interpolation over an unbounded grid defined by the policy.", ""),
"C33": ("Every cell of a box and sub-lattice of positions incl. borders, 1-4 D, seeds.", "Continuity, zero at lattice points, gradient = derivative of eval, reproducibility.", ""),
"C34": ("All (l,m) to 6 (8) bands x directions, static and dynamic sizes, kernels of other band counts.", "Closed forms in long double and exact quadrature on the sphere.", "ZonalHarmonics::normalize, diffuse of zero coefficients."),
"C35": ("All knot sequences up to 4 over an alphabet x parameters incl. outside.", "Interpolation of knots, end extension, smoothness (no blend formula modelled).", "Huge |t|."),
"C36": ("All pairs of 8-bit integers, border lattices of wider ones, real lattices.", "128-bit integer / long double definitions.", "Negative moduli."),
"C37": ("All pairs of values of 30 hashable types over lattices, 32/64/128-bit digests, nested tuples.", "Equality; digest equality iff values equal on the lattice.", "Digest widths that cannot compile."),
"C38": ("Lengths 0-300 x 8 alignments x keys x contents, all strings up to length 2, both output widths.", "Independent SipHash-2-4 pinned to published vectors.", ""),
"C39": ("All 2^32 outcomes of the bit source for selected bounds, scripted outcomes for the others, every history of depth 5 over generators' operations and seeds.", "Uniform counts, range membership, reference generator recurrences.", ""),
"C40": ("Every combination of draw outcomes from a lattice of each real draw through a scripted source x shape parameters.", "Membership of the sampled shape and exact inverse-transform volumes where defined.", ""),
}
