# One entry per property. gen_meta.py turns this into properties.jsonl and MANIFEST.json.
NOT_APPLICABLE = {}
META = []

HIST = "explicit-state search + exhaustive operation histories on the real object vs a reference model"
LATT = "bounded-exhaustive enumeration of an input lattice on the real code vs a reference model/exact oracle"


def P(id, title, statement, over, quant, why, files, mech, tech=LATT, note=None):
    META.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                     mech=mech, tech=tech,
                     note=note or "Every case of the stated bounded space is executed on the real code (address/undefined sanitizers on) and compared with an independent model; nothing is said outside the bound."))


P("C01", "Deque behaves as a sequence under every operation history",
  "After any sequence of pushes, pops, clears, reserves, copies, moves, assignments and constructions, a deque holds exactly the elements, in exactly the order, that an ideal double-ended sequence would, and indexing wraps modulo the size in both directions. Every element is constructed and destroyed exactly once and never touched outside its lifetime, moved-from deques are empty and reusable, and pushing while below capacity never relocates existing elements.",
  ["histories", "configurations"],
  "All operation histories over one or two deques, for every static capacity and element type.",
  "Tests run a few fixed push/pop orders at one capacity; wrap-around x growth x copy/move combinations are never sampled.",
  ["geomc/Deque.h"],
  [("ring indexing", "Deque::item, push_front/push_back/pop_*"), ("reallocation", "Deque::reserve"), ("value semantics", "copy/move constructors and assignment")], HIST)

P("C02", "Small-buffer vector behaves as a vector under every history",
  "After any sequence of insertions at the end, removals, reserves, clears, copies, moves and assignments, a small-buffer vector holds exactly the elements in exactly the order that an ideal vector would, regardless of whether its contents live inside the object or on the heap. Every element is constructed and destroyed exactly once, never touched outside its lifetime, and iteration covers exactly the live range.",
  ["histories", "configurations"],
  "All operation histories over one or two containers, for every inline capacity and element type.",
  "Tests cover a handful of straight-line histories; the inline/heap transition is crossed in one direction only.",
  ["geomc/SmallStorage.h"],
  [("inline/heap switch", "SmallStorage::_ensure_capacity, reserve"), ("value semantics", "copy/move constructors and assignment")], HIST)

P("C03", "Storage handles keep their ownership contract",
  "Owning storage copies are deep and independent, shared storage copies alias the same live memory until the last handle dies, user-owned storage never frees or copies the caller's memory, and the reported element count always equals the static or requested count. Copying, moving or assigning handles in any order never leaks, double-frees or exposes freed memory.",
  ["histories", "configurations"],
  "All histories of construct/copy/move/assign/write/destroy over a few handles, for static and dynamic sizes and every ownership policy.",
  "No test addresses storage handles directly; lifetime bugs need specific destroy orders.",
  ["geomc/Storage.h"],
  [("ownership policies", "Storage, UnmanagedStorage, SharedStorage and their dynamic variants")], HIST)

P("C04", "Tree structure stays consistent under every editing history",
  "After any history of inserts, erasures, splices, flattening, clears, copies and moves, a tree contains exactly the nodes and items an ideal ordered tree with item lists would, in the same order, with parent/child links, subtree sizes and item counts all consistent. Handles to untouched nodes and items stay valid across edits elsewhere.",
  ["histories"],
  "All editing histories up to a depth, starting from the empty tree and from every small tree shape.",
  "The repository's tree test does not even compile; the boundary bookkeeping depends on which siblings are empty.",
  ["geomc/Tree.h"],
  [("contiguous item list with per-node ranges", "Tree::Node first/last item references"), ("boundary repair", "update_boundary_items, recalculate_references")], HIST)

P("C05", "Tree traversal and queries visit exactly the right nodes and items",
  "Iterating the items, the nodes or the children below any node visits each of them exactly once in depth-first (or child) order, forwards and backwards. A query yields exactly the items or subtrees accepted by the caller's tests, in order, and skips every rejected branch.",
  ["inputs", "histories"],
  "All ordered tree shapes up to a node bound with all small item distributions, every node as root of the traversal, every accept/reject predicate.",
  "Traversal bugs need particular arrangements of empty nodes and last children.",
  ["geomc/Tree.h"],
  [("traversal", "Subtree iterators, QueryIterator, node/item successor")])

P("C06", "Grid traversal visits every lattice point exactly once in order",
  "Iterating the integer points of a box visits every point inside exactly once, in the requested axis order, from first to last. Stepping forward, backward, jumping by any offset, comparing and measuring distances agree with the positions in that order.",
  ["inputs"],
  "All boxes with corners in a small lattice, in 1 to 5 dimensions, both orders, every start position and every jump.",
  "Tests iterate only inside other features; random access and reverse stepping are never exercised.",
  ["geomc/shape/GridIterator.h"],
  [("carry propagation", "GridIterator::operator++/--"), ("random access", "GridIterator::operator+=, operator-")])

P("C07", "Every view of a matrix agrees on which element is where",
  "For every matrix kind and memory layout, element access, whole-matrix, row, column and region iteration, transposition and copying all present the same element at the same row and column, writes through one are visible through the others, and the flat order follows the layout. Special kinds (diagonal, permutation, wrapped user memory, static and dynamic size) expose exactly the dense matrix they stand for. Views work as standard iterator ranges, printing shows the same elements, and a bounds-checked build refuses exactly the coordinates outside the matrix.",
  ["inputs", "configurations"],
  "All shapes up to a bound, static and dynamic, row- and column-major, owned and wrapped memory, every region.",
  "Tests check one shape per feature; layout mix-ups cancel for square or symmetric samples.",
  ["geomc/linalg/mtxtypes", "geomc/linalg/mtxdetail/MatrixLayout.h", "geomc/linalg/mtxdetail/MatrixIterator.h", "geomc/linalg/mtxdetail/MatrixCopy.h"],
  [("layout mapping", "FlatMatrixLayout"), ("generic iteration", "MtxColIterator, MtxRegionIterator")])

P("C08", "Elementwise matrix arithmetic matches the textbook definition",
  "Adding, subtracting, scaling, comparing, transposing and copying matrices of any kinds, layouts and compatible sizes gives the element-by-element result of the dense definition. When the destination is itself one of the operands the result is as if the operands had been copied first, and operands are never modified otherwise.",
  ["inputs", "configurations"],
  "All ordered pairs of matrix kinds, all shapes up to a bound, distinguishing integer contents, all full aliasing patterns.",
  "Tests use a few square shapes with one kind on each side and never alias.",
  ["geomc/linalg/Matrix.h", "geomc/linalg/mtxdetail/MatrixArithmetic.h", "geomc/linalg/mtxdetail/MatrixCopy.h"],
  [("per-kind specialisations", "_ImplMatrixAdd/Scale/Txpose"), ("alias detection", "mtx_aliases_storage")])

P("C09", "Matrix and matrix-vector products match the textbook definition",
  "Multiplying matrices, or a matrix with a row or column vector, in any combination of kinds, layouts and compatible sizes gives exactly the dense product. When the destination is one of the operands, or overlaps an operand's memory, the result is as if the operands had been copied first.",
  ["inputs", "configurations"],
  "All ordered pairs of matrix kinds, all shapes up to a bound, distinguishing integer contents, destination aliasing either operand or overlapping it at any offset.",
  "Tests multiply a few dense samples; the specialised kernels for diagonal and permutation operands are not compared with each other.",
  ["geomc/linalg/mtxdetail/MatrixMult.h", "geomc/linalg/Matrix.h"],
  [("per-kind product kernels", "_ImplMtxMul specialisations"), ("alias guard", "mul() into-destination overloads")])

P("C10", "Determinants and inverses are exact on invertible input",
  "The determinant equals the Leibniz sum for every size and matrix kind. Inversion succeeds exactly when the matrix is nonsingular and the result multiplies with the input to the identity on both sides, also when written over its own input; on a singular matrix it reports failure (exactly, for scalars with exact arithmetic).",
  ["inputs", "configurations"],
  "All small-integer matrices of size 1-3 and exhaustive structured families of size 4-6, dense, diagonal and permutation, both layouts, static and dynamic.",
  "Tests invert random well-conditioned matrices; zero pivots and exact singularity have measure zero.",
  ["geomc/linalg/mtxdetail/MatrixDet.h", "geomc/linalg/mtxdetail/MatrixInv.h", "geomc/linalg/Matrix.h"],
  [("closed forms", "det2x2..det4x4, inv2x2..inv4x4"), ("elimination", "detNxN, invNxN")])

P("C11", "LU decomposition and linear solving are correct incl. singular input",
  "For every matrix the row-pivoting LU decomposition's factors, unit lower and upper triangular, multiply back to the row-permuted input, the column-pivoting one does the same for the column-permuted input whenever it reports no degenerate column, and the reported permutation parity is right. Solving a square system reports singularity exactly when the matrix is singular (up to rounding of the scalar type) and otherwise returns the solution for every right-hand side.",
  ["inputs", "configurations"],
  "All small-integer matrices of bounded size (square, tall and wide), all right-hand sides from a lattice, both layouts, static and dynamic storage.",
  "Tests solve random systems, which are never singular and rarely need pivoting.",
  ["geomc/linalg/LUDecomp.h"],
  [("pivoting", "decomp_plu/decomp_lup"), ("substitution", "backsolve, linear_solve")])

P("C12", "Orthogonal complements, nullspaces and Gram-Schmidt are correct",
  "The vector orthogonal to a set of independent vectors is nonzero and perpendicular to each, a nullspace basis is perpendicular to every input and spans the whole complement, and orthogonalising a basis keeps every leading span while making the vectors mutually perpendicular. Results are always finite.",
  ["inputs"],
  "All sets of vectors from a small integer lattice in dimensions 2-8.",
  "Tests use random bases, for which no pivot is ever zero.",
  ["geomc/linalg/Orthogonal.h"],
  [("elimination with pivoting", "orthogonal, nullspace"), ("Gram-Schmidt", "orthogonalize, orthonormalize")])

P("C13", "Cholesky factorisation accepts exactly positive definite matrices",
  "For a symmetric positive definite matrix the factor is lower triangular with positive diagonal and multiplied by its transpose gives back the input, in every layout. For a symmetric matrix that is not positive definite the factorisation reports failure.",
  ["inputs"],
  "All symmetric small-integer matrices up to size 3 and structured families up to 5, both layouts, static and dynamic.",
  "Tests factor random positive definite matrices only, never rejects.",
  ["geomc/linalg/Cholesky.h"],
  [("in-place factorisation", "cholesky")])

P("C14", "Permutation matrices act as the symmetric group",
  "A permutation matrix built by any history of row swaps, column swaps, transposition, composition and assignment equals the product of the corresponding dense permutations, its element access, vector action, inverse, row and column maps and sign all agree with that dense matrix.",
  ["histories", "configurations"],
  "All operation histories up to a depth, all permutations up to size 6, static and dynamic.",
  "Tests touch one or two permutations; the cached sign depends on history.",
  ["geomc/linalg/mtxtypes/PermutationMatrix.h"],
  [("paired forward/backward maps", "PermutationMatrix"), ("cached parity", "PermutationMatrix::sign, swap_rows, swap_cols")], HIST)

P("C15", "Mismatched matrix dimensions are always rejected",
  "Any matrix operation on run-time sized operands whose dimensions are incompatible raises the documented dimension error, and leaves its operands and destination unmodified; compatible dimensions are always accepted.",
  ["inputs", "configurations"],
  "All combinations of operand shapes up to a bound for every operation with a dimension precondition.",
  "Tests only multiply compatible shapes.",
  ["geomc/linalg/Matrix.h", "geomc/GeomException.h"],
  [("dimension checks", "mul/add/sub/transpose/copy entry points")])

P("C16", "Vector operations match their coordinate definitions",
  "Arithmetic, dot and cross products, norms, projections, reflections, reductions, comparisons, coordinate swizzles and conversions of vectors in every dimension and element type equal their coordinate-wise definitions, and the specialised low-dimensional versions agree with the generic one.",
  ["inputs", "configurations"],
  "All pairs of vectors from a small lattice in dimensions 1-6, integer and floating element types.",
  "Tests hardly touch vectors directly.",
  ["geomc/linalg/Vec.h", "geomc/linalg/vecdetail"],
  [("generic and specialised bases", "VecBase, Vec2, Vec3, Vec4")])

P("C17", "Boxes form the expected set algebra",
  "Union, intersection, containment, overlap, difference, Minkowski and clamping operations on axis-aligned boxes agree with the same operation on the point sets they denote, including empty, degenerate and touching boxes, in every dimension and for integer and real coordinates.",
  ["inputs"],
  "All pairs of boxes (including empty ones) with corners in a small lattice, dimensions 1-4, integer and real coordinates, all lattice points.",
  "Tests sample random generic boxes; empty and touching cases have measure zero.",
  ["geomc/shape/Rect.h"],
  [("interval arithmetic", "Rect operators &, |, contains, intersects, dilated, clamp")])

P("C18", "Every shape contains exactly the points of its definition",
  "For spheres, capsules, cylinders, boxes, rounded (dilated) shapes, extrusions, frusta and their affine images, in every dimension, a point is reported as contained exactly when it lies in the interior or on the surface of the solid named by the shape's parameters.",
  ["inputs", "configurations"],
  "A lattice of shape parameters (axis-aligned, skewed, degenerate, nested wrappers) x a lattice of query points, dimensions 2-5, both real types.",
  "Tests draw random points on generic shapes and only check self-consistency; surface points, caps and special positions are never hit.",
  ["geomc/shape"],
  [("membership", "contains() of Sphere, Capsule, Cylinder, Frustum, Extruded, Dilated, Rect, Oriented")])

P("C19", "Signed distance, projection, clipping and normals are geometrically exact",
  "The signed distance of a point equals its true Euclidean distance to the shape's boundary (negative inside), projecting a point gives a nearest boundary point, clipping leaves interior points fixed and moves others to the nearest point of the shape, and the reported normal is the unit outward direction of increasing distance, also for points on the surface, at the center or on the axis of the shape.",
  ["inputs", "configurations"],
  "The same parameter and point lattices; results are judged by their true distance to the reference solid, so any of several equally near points is accepted.",
  "Tests compare the shape's own functions with one another, not with the true distance.",
  ["geomc/shape"],
  [("projection", "sdf(), project(), clip(), normal() of Sphere, Capsule, Cylinder, Rect, Extruded, Dilated")])

P("C20", "Ray intersection reports exactly the parameters inside the shape",
  "Tracing a ray against a box, sphere, cylinder, extrusion, frustum or an affine image of one yields exactly the interval of ray parameters whose points lie in the shape, and an empty interval when the ray misses it, whatever the position and direction of the ray.",
  ["inputs", "configurations"],
  "Lattices of shapes x ray origins x ray directions including axis-parallel, in-plane, tangent, interior and apex-crossing rays; the true interval is found by bracketing the convex distance function along the ray.",
  "Tests trace random rays, never parallel or special ones.",
  ["geomc/shape"],
  [("slab/quadratic/projective tests", "intersect(Ray) of Rect, Sphere, Cylinder, Extruded, Frustum, Oriented")])

P("C21", "Support points and bounding boxes are tight",
  "The support point of a convex shape lies in the shape and no point of the shape lies farther along the query direction. The bounding box contains the whole shape and every face of it is touched. Both hold for every bounded convex shape kind and its wrappers.",
  ["inputs", "configurations"],
  "Lattice of shape parameters x lattice of directions including axis-parallel and face-normal ones, against closed-form support functions.",
  "Tests use random directions only.",
  ["geomc/shape"],
  [("support functions", "convex_support(), bounds()")])

P("C22", "Convex overlap tests agree with exact geometry",
  "Two convex shapes are reported as intersecting exactly when they share a point, by every available algorithm (separating axes, GJK, closed forms), independent of argument order, of translation and of earlier tests made with the same test object; when they do not, the reported separating axis separates them.",
  ["inputs"],
  "All ordered pairs of boxes, oriented boxes, simplexes of every vertex count, balls, ellipsoids, capsules, cylinders, rounded boxes and simplexes, extrusions and frustums from small lattices in 2 to 5 dimensions, placed apart, overlapping, and slid to within small gaps and overlaps; with a fresh test object, one reused along a history of tests, the free function and the shapes' own members. Exact contact is left open.",
  "Tests check that two algorithms agree on random pairs, not that either is right.",
  ["geomc/shape/Intersect.h", "geomc/shape/shapedetail"],
  [("GJK", "Intersector"), ("SAT", "SeparatingAxis")])

P("C23", "Simplex measure, membership, projection and tracing are exact",
  "For simplexes of any vertex count in any dimension, point membership, nearest point and signed distance, support points, volume and measure, bounding boxes, simplex insertion and exclusion, and ray hits agree with the exact geometry of the convex hull of the vertices (projection and distance are promised for affinely independent vertices).",
  ["inputs"],
  "All simplices with vertices in a small integer lattice in 2 to 5 dimensions x lattice of query points and rays.",
  "Tests sample random well-shaped simplices.",
  ["geomc/shape/Simplex.h", "geomc/shape/shapedetail/SimplexProject.h"],
  [("sub-simplex search", "SimplexProjection"), ("tracing", "trace_simplex")])

P("C24", "Planes separate space exactly",
  "A plane's normal, signed distance, projection, half-space tests (of points and whole shapes) and crossing tests against spheres, convex shapes and point hulls agree with its defining equation, however it was constructed (normal and point, spanning basis, simplex), dilated, and after any invertible affine transformation or its inverse.",
  ["inputs"],
  "Lattice of planes, points, shapes, point hulls and affine transforms in 2 to 5 dimensions; exact contact with a shape (within rounding) is left open.",
  "Tests do not cover planes.",
  ["geomc/shape/Plane.h"],
  [("plane equation", "Plane")])

P("C25", "Transformed shapes equal the image of the point set",
  "After any history of affine transforms applied to a shape - forward with `*`, backward with `/`, in place or not - the result contains exactly the images of the original's points, its support function and bounds are those of the image, a transformed ray meets it at the same parameters, its oriented bounds are the image of the original's bounds and their volume scales by the determinant; simplexes move vertex by vertex. After any history of dilations a shape is exactly the points within the accumulated distance (clamped where it would become negative), and dilating a transformed shape thickens its image.",
  ["histories", "configurations"],
  "Boxes, balls, capsules, cylinders, rounded boxes, extrusions, frustums and simplexes in 2 to 5 dimensions, float and double x all histories of up to 3 (thorough: 4) transforms (rotations, shears, reflections, unequal scales, translations; four spellings) x all histories of up to 3 (thorough: 4) dilations x lattices of query points, directions and rays.",
  "Tests use one orientation at a time.",
  ["geomc/shape/Oriented.h", "geomc/shape/Dilated.h", "geomc/shape/Simplex.h", "geomc/linalg/AffineTransform.h"],
  [("wrappers", "Oriented, Dilated, Simplex; operators *, /, *=, /= of AffineTransform on shapes")], HIST)

P("C26", "Spatial bins return exactly the stored entries",
  "After any history of insertions, removals, copies and clears, a binned spatial partition iterates over exactly the stored entries, and a region or radius query returns, once each, exactly the entries lying in the bins the (closed) region touches - so every entry within the region, and nothing for an empty one - in one, two or three dimensions.",
  ["histories"],
  "All histories of insertion, removal (by iterator and by query), copying and clearing up to depth 4 (thorough: 5) over keys on and off bin boundaries, bins of three sizes x all boxes and radius queries of a lattice.",
  "No test covers the partition.",
  ["geomc/shape/BinLatticePartition.h"],
  [("cell hashing", "BinLatticePartition")], HIST)

P("C27", "KD-tree nearest-neighbour search equals linear scan",
  "A KD-tree built from any multiset of points, boxes or bounded shapes (or pairs or pointers to them), with any splitting parameters, by construction, rebalancing and any sequence of insertions, contains exactly those objects, divides each inner node's objects among its children and bounds them, and returns an object exactly as near to any query point as a linear scan finds. (Node deletion and copying are unfinished in the library and not covered.)",
  ["inputs", "histories", "configurations"],
  "All object multisets up to a size over a lattice, and larger strided sets x all axis, pivot, insertion and arity parameters x every split of the sequence into built and inserted part x lattice of query points.",
  "No test covers the KD-tree.",
  ["geomc/shape/KDTree.h"],
  [("branch and bound", "KDTree")])

P("C28", "Affine transforms compose, invert and act consistently",
  "Every transform built by any composition of translations, rotations, scales, shears and bases maps points, directions and normals as the corresponding matrix product does, its stored inverse undoes it exactly, and composition is associative with the documented order.",
  ["histories", "inputs"],
  "All compositions up to a depth from a generating set of transforms, in dimensions 2-5, x lattice of points, vectors and normals.",
  "No test composes more than one transform.",
  ["geomc/linalg/AffineTransform.h"],
  [("paired matrices", "AffineTransform mat/inv")], HIST)

P("C29", "Quaternions represent rotations faithfully",
  "Quaternion products, conjugation, inversion, exponential, logarithm, powers and interpolation satisfy the quaternion algebra, and rotating a vector by a unit quaternion equals rotating by the axis and angle it was built from.",
  ["inputs", "histories"],
  "All products over the 48-element binary octahedral group and a lattice of axis-angles, all lattice vectors.",
  "No test covers quaternions.",
  ["geomc/linalg/Quaternion.h"],
  [("Hamilton product", "Quat")], HIST)

P("C30", "Rays parametrise lines exactly",
  "A ray's point at any parameter, its distances to points, its nearest parameter and its behaviour under transformation and arithmetic agree with the line it denotes.",
  ["inputs"],
  "Lattice of origins, directions, parameters and points in dimensions 2-5.",
  "No test covers rays directly.",
  ["geomc/linalg/Ray.h"],
  [("ray arithmetic", "Ray")])

P("C31", "Dual numbers carry exact derivatives",
  "Evaluating any expression over dual numbers gives the expression's value together with its true derivative, for every arithmetic operator and elementary function, in every operand order.",
  ["programs", "inputs"],
  "All expression trees up to a depth over the full operator set, evaluated on a lattice of inputs.",
  "No test differentiates more than polynomial expressions.",
  ["geomc/function/Dual.h", "geomc/function/functiondetail/DualFunctions.h", "geomc/function/functiondetail/DualImpl.h"],
  [("chain rule", "Dual operators and functions")])

P("C32", "Raster sampling honours grid values, interpolation and edge policy",
  "Sampling a raster at a grid point returns the stored value for every interpolation, between grid points it returns the interpolant of that order, and outside the domain it returns what the edge policy prescribes. Setting a cell affects that cell only.",
  ["inputs", "configurations"],
  "All small grids with distinguishing contents, all edge policies and interpolations, a lattice of sample positions inside and outside.",
  "No test covers rasters.",
  ["geomc/function/Raster.h", "geomc/function/functiondetail/RasterDetail.h"],
  [("edge policy", "_ImplEdge"), ("interpolation", "Raster::sample")])

P("C33", "Gradient noise is smooth, reproducible and self-consistent",
  "Gradient noise vanishes at lattice points, is continuous and smooth across cell boundaries, stays between the planes emanating from the corners of its cell, varies with every coordinate, its reported gradient is the derivative of its value, and the same seed always gives the same field.",
  ["inputs"],
  "All cells of a bounded box x sub-lattice of positions, several seeds, dimensions 1-5.",
  "Tests compare against finite differences at random points only.",
  ["geomc/function/PerlinNoise.h", "geomc/function/functiondetail/PerlinDetail.h"],
  [("gradient lattice", "PerlinNoise")])

P("C34", "Spherical and orthogonal function bases are exact",
  "Legendre, Chebyshev and spherical-harmonic evaluations equal their closed forms, the basis is orthonormal over the sphere, projecting samples recovers coefficients, and sums, scalings, inner products, convolutions and conversions of coefficient sets act as the same operations on the functions they represent.",
  ["inputs"],
  "All orders up to a bound x exact quadrature lattice on the sphere.",
  "No test covers these bases.",
  ["geomc/function/SphericalHarmonics.h", "geomc/function/Basis.h"],
  [("recurrences", "SphericalHarmonics, legendre, chebyshev")])

P("C35", "Piecewise paths interpolate their knots",
  "A path evaluates to its knots at integer parameters, varies continuously and smoothly between neighbouring knots, reproduces straight evenly spaced knots exactly, and continues in a straight line along the end tangents beyond its first and last knots.",
  ["inputs"],
  "All knot sequences up to a length over a small alphabet x lattice of parameters.",
  "No test covers paths.",
  ["geomc/function/Path.h"],
  [("segment lookup", "Path")])

P("C36", "Scalar helper functions satisfy their arithmetic contracts",
  "Floor/ceiling division, positive modulus, clamping, mixing, quadratic solving, angle wrapping and accurate products return the mathematically specified value for every sign and magnitude of their inputs.",
  ["inputs"],
  "Exhaustive over all pairs of 8-bit integers (and a wide integer lattice), lattice of floating values.",
  "No test covers negative operands.",
  ["geomc/function/Utils.h", "geomc/function/functiondetail/UtilDetail.h"],
  [("integer division helpers", "floor_div, ceil_div, positive_mod"), ("quadratic", "quadratic_solve")])

P("C37", "Equal values hash equally and distinct values are told apart",
  "Any two values that compare equal have equal digests whatever their history or storage, and digests depend on every component of a value and on its position.",
  ["inputs", "configurations"],
  "All values of every hashable type over a small lattice, all pairs.",
  "No test covers hashing.",
  ["geomc/Hash.h"],
  [("digest combination", "geom::hash, Digest specialisations")])

P("C38", "The keyed byte hash equals its published algorithm",
  "Hashing any byte string gives the value of the published algorithm for the documented key, independent of alignment and of how the string is laid out in memory.",
  ["inputs"],
  "All lengths 0-300 at all alignments with several contents and exhaustive short strings.",
  "No test covers the byte hash.",
  ["geomc/function/functiondetail/SipHash.cpp", "geomc/Hash.h"],
  [("block loop and tail", "SipHash")])

P("C39", "Random numbers respect their ranges and seeds",
  "Every bounded draw lies in the requested range and every value of the range is reachable, for every integer and real type and every outcome of the underlying bit source; all values (and all permutations) are equally likely when the bits are. Equal seeds, also after reseeding, give equal streams, drawing from one generator never affects another, and each generator follows its published recurrence.",
  ["inputs", "histories"],
  "Enumerated outputs of a scripted bit source x all small ranges; all seeds of a lattice.",
  "Tests only look at statistics of one seed.",
  ["geomc/random"],
  [("bit source to range", "Random::rand"), ("generators", "MTRand, LCRand, XoshiroRand")])

P("C40", "Samplers only produce points of the sampled shape",
  "Every point drawn by a sampler from a box, ball, sphere, shell, disk, arc or cap lies in that shape, for every outcome of the underlying bit source, and equal parts of the shape are drawn equally often when all outcomes are equally likely.",
  ["inputs"],
  "Enumerated outcomes of a scripted bit source x lattice of shape parameters.",
  "No test covers the samplers.",
  ["geomc/random/RandomTools.h"],
  [("rejection and warping", "Sampler")])
