IN, HI, CF = "inputs", "histories", "configurations"
U = "util/src/lib.rs"; MI = "alg/src/lin_alg/matrix_impl.rs"; LA = "alg/src/lin_alg.rs"
SP = "alg/src/lin_alg/sparse_matrix_impl.rs"; CM = "alg/src/lin_alg/const_matrix_impl.rs"
CO = "alg/src/commutative.rs"; RA = "alg/src/commutative/rational_impl.rs"
PE = "alg/src/non_commutative/permutation.rs"; NC = "alg/src/non_commutative.rs"
GR = "topo_spaces/src/graph.rs"; CU = "topo_spaces/src/cubical.rs"
GE = "geom/src/lib.rs"; AN = "analysis/src/lib.rs"
TL = "topo_spaces/src/lib.rs"; SI = "topo_spaces/src/simplicial/mod_impl.rs"; SM = "topo_spaces/src/simplicial/mod.rs"

prop("U01", "Fixed-universe sets behave like mathematical sets",
 "A set over a fixed universe of indices or labels, after any sequence of insertions, removals, fills, resizes, unions and intersections, contains, counts and iterates (in increasing order) exactly the elements a mathematical set would. Subset, fullness and equality tests agree with that set, for every universe size including those around multiples of the machine word. Indices and labels outside the universe, and operations on sets over different universes, are rejected and change nothing.",
 [HI, IN], "every history of set operations on every universe size and every pair of sets over the same universe",
 "the tests run a few fixed histories on two sizes; word boundaries, leftover bits and long mixed histories are not sampled",
 [U], [("bit-vector set", U+": BinaryPool"), ("labelled set", U+": LabeledSet"), ("population count", U+": bitwise::count_ones")],
 ("comparison with an ordered-set model after every operation", "Universes up to 5000."))

prop("U02", "Iterating over k-element selections visits each exactly once",
 "Iterating over the k-element tuples of a slice yields every selection of k positions exactly once, in increasing lexicographic order of positions, and then ends.",
 [IN], "every slice (duplicate values included) and every k >= 1, k larger than the slice included",
 "the tests check a handful of (n,k) pairs",
 [U], [("tuple iterator", U+": TupleIterator::next")],
 ("differential check against a recursive enumeration, exhaustive for n, k up to 11", "Slices up to 18 elements, up to 140 for small or nearly complete selections."))

prop("A01", "Rational numbers are an exact ordered field in lowest terms",
 "Arithmetic on rational numbers (construction, sum, product, quotient, negation, their assigning forms and iterated sums and products) gives the exact fraction, stored in lowest terms with a positive denominator. Equality, order, hashing-relevant identity and conversion to decimals agree with the exact value.",
 [IN, "programs"], "every expression over fractions whose exact intermediate components fit the machine word, zero and negative values included",
 "the tests evaluate a few fixed fractions; sign, zero and normalisation combinations are unbounded",
 [RA, CO], [("normalisation", RA+": Rational::new, reduce"), ("operators", RA+": Add/Mul/Div/PartialOrd")],
 ("differential check of expression trees against i128 fractions", "Operand components below 2^31 for whole expressions, below 2^63 for pairs with large common factors."))

prop("A02", "Division, gcd and Bezout identities are exact",
 "For integers and field elements, the reported greatest common divisor divides both arguments, equals the combination of them by the reported coefficients, and is divisible by every common divisor; divisibility tests agree with the remainder being zero. Primality tests and prime-factor counts agree with trial division.",
 [IN], "every pair of integers of every supported width (zero, negative, equal, dividing) and every argument of the primality tests",
 "the tests check a few pairs of small positive numbers",
 [CO], [("extended Euclid", CO+": bezout_identity"), ("PID instances", CO+": PID macros"), ("primality", CO+": is_prime / n_prime_factors")],
 ("checking the defining identities on i128, exhaustive for small pairs", "Operands whose coefficients fit the type."))

prop("A03", "Matrix views alias exactly the selected entries",
 "Reading or writing through any rectangular view of a matrix (nested, transposed, single row or column, any range form) touches exactly the selected entries of the underlying matrix and no others. Out-of-range access and ragged input are rejected; no operation reads uninitialised or freed entries, and clones are independent.",
 [HI, IN], "every history of element writes, row/column operations, swaps and block writes through every nesting of views, for every matrix shape and element type",
 "the tests look at a few ranges on fixed matrices; the pointer arithmetic of offsets and strides composes over unbounded histories",
 [MI, LA], [("views as fat references with packed offsets", MI+": slice_from_sub_matrix, Index impls"), ("transposition flag", MI+": SubMatrix::transpose"), ("ownership", MI+": Drop/Clone for Matrix")],
 ("model-based histories against a 2-d array, with an element type that detects uninitialised or double use", "Mostly up to 7x7, some up to 40x40 and with a side beyond 2^16."))

prop("A04", "Matrix arithmetic agrees with the definitions",
 "Sums, differences, products, scalar multiples and quotients, dot products, equality and basis change of matrices and views equal their entrywise definitions for every combination of owned, borrowed, transposed and strided operands. Operands of incompatible shape are rejected rather than giving a wrong or undefined result.",
 [IN, "programs"], "every expression over matrices and views of compatible and incompatible shapes and every element type",
 "the tests evaluate a few fixed small matrices, mostly untransposed and contiguous",
 [MI, LA], [("operator implementations", MI+": ops::Add/Sub/Mul/Div and assigning forms"), ("equality", MI+": PartialEq"), ("matrix times basis", MI+": Mul<Vec<Basis>>")],
 ("differential check of expressions against naive array arithmetic over four element types", "Mostly up to 5x5, some up to 30x30, small entries."))

prop("A05", "Smith normal form is a valid diagonalisation by invertible operations",
 "For every matrix over the integers or a field, the Smith normal form returns a diagonal matrix whose non-zero entries come first and divide one another, equal up to sign to the invariant factors of the input. The returned row and column operations and their reported inverses are inverse to each other and transform the input into that diagonal matrix.",
 [IN], "every integer or rational matrix of every shape whose elimination fits the machine word",
 "the tests check a few fixed matrices; pivoting, divisibility repair and the bookkeeping of four operation matrices depend on the entries",
 [MI], [("elimination with bookkeeping", MI+": smith_normal_form")],
 ("checking all defining identities, plus an independent computation of the invariant factors, exhaustive for tiny matrices", "Up to 7x7 with small entries; 64-bit overflow reports are accepted only for larger entries."))

prop("A06", "Rank over a field equals the number of independent columns",
 "The rank reported for a matrix over a field equals its exact rank, for every position of zero and non-zero entries, and computing it does not change the matrix.",
 [IN], "every matrix of every shape over exact fractions, and float matrices whose elimination is exact",
 "the tests check three fixed matrices; pivot search depends on the zero pattern",
 [MI], [("elimination with pivoting", MI+": rank_as_linear_map")],
 ("differential check against fraction-free elimination, exhaustive for tiny matrices", "Mostly up to 8x8, some larger."))

prop("A07", "Sparse matrices agree with the dense matrices they represent",
 "Size, row and column iteration, equality with dense matrices, transposition, products with sparse and dense matrices on either side, and printing of a sparse matrix agree with the dense matrix having the same entries.",
 [IN], "every sparse matrix, explicit zeros, empty rows or columns and repeated transposition included",
 "the tests multiply a few fixed matrices",
 [SP], [("row lists", SP+": SparseMatrix"), ("iterators", SP+": row_iter / col_iter"), ("products", SP+": Mul impls")],
 ("differential check against dense arrays", "Mostly up to 9x9, some up to 48x48."))

prop("A08", "Fixed-size vectors and matrices follow array arithmetic",
 "Every operator, dot product, norm, zero, identity and conversion of fixed-size vectors and matrices equals the entrywise definition.",
 [IN], "every value of every size and element type",
 "the tests cover a few fixed values of one or two sizes",
 [CM, LA], [("operator implementations", CM)],
 ("differential check against array arithmetic for sizes 1 to 65 over three element types", "Twelve vector sizes up to 65, 18 matrix shapes up to 12x12."))

prop("A09", "Formal sums are a free module over their basis",
 "Formal sums of basis elements add, subtract, negate and scale coefficient by coefficient: equal basis elements are merged, zero coefficients disappear, and two sums are equal exactly when all coefficients agree, whatever the order in which they were built. Iteration and printing show each basis element once, in order.",
 [IN, "programs"], "every expression of sums, differences, scalings and iterated sums over every ordered basis",
 "the tests evaluate a few fixed sums with at most one cancellation",
 [LA], [("merge of sorted terms", LA+": Add/Sub/Sum for Vector"), ("scaling", LA+": Mul/Div/Neg for Vector")],
 ("differential check of expressions against a coefficient map", "Coefficients far below 2^63."))

prop("A10", "Finitely generated modules print and compare by isomorphism type",
 "A module given by a free rank and divisors with multiplicities is zero, prints and compares equal exactly according to its isomorphism type: unit divisors are ignored.",
 [IN], "every free rank and chain of divisors with multiplicities",
 "the tests print six fixed modules",
 [LA], [("printing", LA+": Display for Module"), ("normalisation", LA+": Module::new")],
 ("comparison with an independent printer and isomorphism test", "Divisors are given as a chain in increasing order."))

prop("A11", "Permutations form a group acting on indices",
 "Permutations built from disjoint cycles, ranges or block exchanges map each index as specified; products, inverses, integer powers (negative included) and decompositions into transpositions agree with composition of maps. Equality, iteration over moved indices and printing depend only on the map; overlapping cycles are rejected.",
 [IN, "programs"], "every permutation and every expression of products, inverses and powers",
 "the tests check fixed products of a few cycles",
 [PE, NC], [("cycle product", PE+": Mul for Permutation"), ("block exchange", PE+": Permutation::swap"), ("powers and inverses", NC)],
 ("differential check against image arrays, exhaustive on S4", "Up to 40 points."))

prop("A12", "Array permutations form a group of maps",
 "Permutations stored as arrays of fixed or growable length multiply, invert and evaluate like maps (shorter ones extended by the identity), and the reported order is the least positive power that is the identity.",
 [IN], "every permutation and pair of permutations, different lengths included",
 "the tests check fixed products and one order",
 [PE], [("array products", PE+": ConstPermutation / VecPermutation Mul"), ("order", PE+": order")],
 ("differential check against image arrays, exhaustive on S5", "Up to 65 points."))

prop("A13", "LU factors, determinants, linear solutions and norms are correct",
 "The triangular factorisation of a matrix with non-zero leading minors multiplies back to it, the determinant equals the exact determinant for every square matrix, and solving a non-singular linear system returns the solution. The one, two, infinity and Frobenius norms equal their definitions.",
 [IN], "every square matrix (zero or permuted pivots, singular, views of larger matrices) and every right-hand side",
 "the tests use random well-behaved matrices, and the numerical test is skipped as unreliable",
 [MI], [("elimination", MI+": lu, det, solve"), ("norms", MI+": one_norm .. frobenius_norm")],
 ("planted solutions and factors, exact elimination for determinants", "Small integer data, relative tolerance 1e-6."))

prop("A14", "Orthogonal reductions preserve the matrix up to orthogonal similarity",
 "Gram-Schmidt returns orthonormal (or orthogonal) columns spanning the same subspaces; reflections and rotations are orthogonal and eliminate what they should; Hessenberg, tridiagonal and shifted QR steps have the required zero pattern and are orthogonally similar to the input, through the reported factor where one is returned. The whole QR iteration ends with blocks of size at most two and the same spectrum, real or complex.",
 [IN], "every well-conditioned matrix, and every vector for reflections and rotations (zero tails, negative heads, extreme scales)",
 "the tests use random generic matrices, which never hit the degenerate directions, and the numerical test is skipped as unreliable",
 [MI], [("reflections", MI+": householder_vec"), ("rotations", MI+": givens_rotation"), ("reductions", MI+": hessenberg_form, tridiagonalize, francis_step, qr_with_op")],
 ("checking orthogonality, zero patterns and similarity invariants", "Tolerance 1e-7 relative."))

prop("A15", "Spectra and eigenvectors of real matrices are correct",
 "The reported spectrum of a symmetric matrix, or of a matrix with real well-separated eigenvalues, or of a two by two matrix with real eigenvalues, is its eigenvalues in order with multiplicity, and the computation ends. Reported eigenvectors and invariant spaces are orthonormal where promised and satisfy the eigenvector equation.",
 [IN], "every symmetric matrix (repeated eigenvalues, already split blocks, sizes one and two included) and every diagonalisable matrix with separated real eigenvalues",
 "the tests use a few random matrices and are skipped as unreliable; deflation and shifts depend on the entries",
 [MI], [("QR iterations", MI+": qr, qr_with_op, symmetric_qr"), ("spectra", MI+": spectrum*")],
 ("differential check against a Jacobi reference and planted spectra", "Tolerance 1e-6 relative."))

prop("A16", "Lattice reduction returns a reduced basis of the same lattice",
 "The reduced basis spans exactly the same lattice as the input, is size-reduced, and satisfies the exchange condition for the requested parameter.",
 [IN], "every linearly independent integer basis and every parameter in (1/4, 1)",
 "the tests reduce one fixed basis",
 [MI], [("reduction loop", MI+": lll_lattice_reduce")],
 ("exact check of lattice equality and of the reduction conditions", "Mostly up to 5 vectors, some up to 10, entries of a few hundred, slack 1e-6."))

prop("A17", "Random matrices have the structure their constructor promises",
 "Matrices of random numbers have the requested shape and entries in [0, 1), random symmetric and sparse symmetric ones are symmetric, random orthogonal ones have orthonormal columns, random unit vectors have length one, and successive draws differ.",
 [IN], "every size and every draw",
 "the test draws one orthogonal matrix and is skipped as unreliable",
 [MI], [("draws", MI+": random, random_symmetric, random_sparse_symmetric"), ("orthogonal matrices and unit vectors", MI+": random_orthogonal, random_unit_vec")],
 ("checking the promised structure over repeated draws at every size", "Sizes up to 40; the draws are the library's own, so a replay repeats the request and not the draw."))

prop("A18", "Printed matrices show every entry in place",
 "Printing a matrix or any view of it, transposed or nested, shows one bracketed line per row with the entries in order, rounded to the requested number of decimals (three unless given); the debug form shows the same entries unrounded.",
 [IN], "every matrix and view over every printable element type and every requested precision",
 "no test looks at printed matrices",
 [MI], [("printing", MI+": Display for SubMatrix and Matrix"), ("debug form", MI+": Debug for SubMatrix and Matrix")],
 ("comparison with a printer working on the array model, over three element types", "Sides up to 30, precision up to 9."))

prop("A19", "Matrices own their storage",
 "Whatever sequence of operations is performed on matrices of numbers, failing ones included: results never depend on memory that was not written, nothing is written outside a matrix's storage or after its release, every block is released exactly once with the layout it was obtained with, and nothing stays allocated when all values are gone.",
 [IN], "every program of matrix operations, over every number type, including operations that are refused",
 "tests neither watch the allocator nor vary what fresh memory contains, so reads of unwritten entries, leaks and releases with a wrong layout go unseen",
 [MI], [("storage", MI+": alloc, Drop, Clone"), ("views", MI+": sub-matrix indexing and slice_from_sub_matrix"), ("fresh storage", MI+": as_matrix, write")],
 ("random programs run under a guarding allocator with red zones, layout checks and poisoned quarantine; each is run with two fill patterns, whose results must agree, and repeated, with the blocks left over compared", "Programs of up to 30 operations on matrices with sides up to about 8."))

prop("T01", "Integral homology of any chain complex is computed correctly",
 "For every chain complex of free modules, and every simplicial complex, the reported integral homology in each degree is the isomorphism type of cycles modulo boundaries, printed in canonical form without trailing zero degrees and truncated at the requested degree. The reported cycles generate exactly the kernel of the boundary map and the reported boundaries exactly the image, in each degree.",
 [IN], "every chain complex with entries of moderate size, every simplicial complex, every truncation degree",
 "the tests compute a few well-known spaces, and the simplicial ones are switched off; torsion, signs and bookkeeping between degrees depend on the complex",
 [TL, MI], [("homology from Smith forms", TL+": IntegralHomology::new"), ("descriptions", TL+": get_description_of_cycles/boundaries"), ("printing", TL+": Display for IntegralHomology")],
 ("planted complexes with known homology and lattice equality of cycles and boundaries", "Up to 4 degrees and rank 8 per degree."))

prop("T02", "Betti numbers over a field are computed correctly",
 "For every chain complex of vector spaces, the reported dimension in each degree equals the dimension of the kernel minus the rank of the incoming map; a complex without maps has none.",
 [IN], "every chain complex over exact fractions, and over floats with exact elimination",
 "the tests contain no complex with field coefficients of more than a few cells",
 [TL, MI], [("ranks", TL+": HomologyWithFieldCoefficients::homology")],
 ("planted complexes with known ranks", "Up to 5 degrees."))

prop("T03", "A simplicial complex is the closure of the attached simplices",
 "After any sequence of attaching simplices, the complex has exactly the vertices, dimension, number of cells in each dimension and connectedness of the set of all faces of the attached simplices, whatever the order of attachment, repetition or containment between them, and for any number of vertices.",
 [HI], "every history of attachments over every set of labels, more than 64 vertices included",
 "the tests build a few fixed complexes with fewer than ten vertices",
 [SI, SM], [("maximal cells", SI+": SimplicialCplx::attach"), ("bit-set cells", SI+": SimplicialCell::contains/join/intersection"), ("counting", SI+": n_cells_of_dim")],
 ("comparison with the explicit face set after every step of a history", "At most 8 maximal cells when counting cells."))

prop("T04", "Simplicial boundary maps are a chain complex on all faces",
 "The boundary maps of a simplicial complex list each face of each dimension exactly once, have coefficients plus or minus one exactly at the facets of each simplex, and compose to zero.",
 [IN, HI], "every simplicial complex and every order of attachment, more than 64 vertices included",
 "the tests compare two fixed matrices",
 [SI], [("cell order", SI+": Ord for SimplicialCell"), ("faces", SI+": get_face, get_i_cells"), ("signs", SI+": boundary_map")],
 ("structural check of bases, coefficients and composition against the explicit face set", "Simplices of dimension at most 4."))

prop("G01", "Graph construction and subdivision follow the edge list",
 "A graph built from an edge list (parallel edges and repeated loops included) has the vertices, joined pairs and loops of that list, whatever the names and order. Subdividing it for n marked points replaces every edge by a path long enough for n points, keeps the graph homeomorphic to the original, and labels and positions every new vertex consistently with the edge it lies on.",
 [IN], "every connected multigraph with named vertices, and every number of marked points",
 "the tests build a few fixed graphs without repeated loops",
 [GR], [("edge-list macro and counts", GR+": graph!, Graph::from"), ("subdivision", GR+": SimpleGraph::subdivided_graph_from"), ("embedding of vertices", GR+": modify_embedding, SimpleVertex")],
 ("comparison with the edge list and with an independent walk along the subdivided paths", "Up to 6 vertices, 9 edges, 6 marked points."))

prop("G02", "The maximal tree and vertex order are consistent",
 "The vertex order of a subdivided graph is a depth-first preorder of a spanning tree whose root has tree degree one, and every other edge joins an ancestor and a descendant. Everything derived from the order (parents, flow towards the base point, tests on vertices and edges, iterators over vertices and edges) agrees with that tree.",
 [IN], "every connected multigraph with a usable base point and every number of marked points",
 "the tests inspect one graph",
 [GR, CU], [("order and tree", GR+": maximal_tree_contains, vertex reordering"), ("factors", GR+": CubeFactor predicates"), ("base point", GR+": choose_base_point")],
 ("structural validation of the order and recomputation of every derived notion from the tree alone", "Graphs the code accepts (it refuses, with a message, graphs without a good base point)."))

prop("G03", "Simple graphs behave like sets of unordered pairs",
 "After any history of adding and removing edges, exchanging two vertices and permuting the vertices, adjacency, degrees, edge lists, connectedness, printing and equality of a simple graph are those of the corresponding set of unordered pairs, and acting by permutations is a group action.",
 [HI], "every history on graphs of any size, and every pair of permutations",
 "the tests run one fixed history",
 [GR], [("adjacency matrix", GR+": RawSimpleGraph"), ("edge iterator", GR+": edge_iter"), ("exchange", GR+": swap")],
 ("model-based histories against a set of pairs", "Mostly up to 12 vertices, some larger."))

prop("G04", "Weighted graphs have the right weights and Laplacian",
 "A weighted graph built from any edge list lists its vertices, has a symmetric weight matrix with exactly the given weights, and its Laplacian is the degree matrix minus the weight matrix.",
 [IN], "every weighted simple graph, with edges in any order and orientation, over integers and fractions",
 "the tests have one example",
 [GR], [("weights", GR+": WeightedSimpleGraph"), ("Laplacian", GR+": laplacian")],
 ("differential check against the definition", "Mostly up to 8 vertices, some larger."))

prop("C01", "The cube complex lists all configurations exactly once",
 "The cells of the cube complex of a graph with n marked points are exactly the sets of n pairwise disjoint closed vertices and edges of the subdivided graph, each listed once in the dimension given by its number of edges.",
 [IN], "every connected multigraph with a usable base point and every number of marked points",
 "the tests count the cells of one or two graphs",
 [CU], [("recursive enumeration", CU+": CubicalCplx::udc"), ("cells", CU+": Cube")],
 ("differential check of the whole list against brute force over subsets", "At most 12000 cells."))

prop("C02", "Cube boundaries form a chain complex with the right homology",
 "The boundary of a cube is the alternating sum of its front and back faces. The boundary maps of the cube complex are those sums in the listed bases and compose to zero, and its integral homology is that of the configuration space.",
 [IN], "every cube and every cube complex of a graph with marked points",
 "the tests compute one homology",
 [CU, TL], [("boundary of a cube", CU+": Cube::get_boundary, get_ends"), ("boundary maps", CU+": CubicalCplx boundary map"), ("homology", TL+": IntegralHomology")],
 ("definition of the cubical boundary, and homology of an independently enumerated and reduced complex", "At most 1500 cells for boundary maps, 9000 for some, 400 for homology."))

prop("C03", "The Morse complex lists exactly the critical cells",
 "The discrete Morse complex of a graph with marked points lists exactly the critical cells of the cube complex (no vertex can move towards the base point unobstructed, and no edge is order-respecting), each once, per dimension, up to the requested dimension.",
 [IN], "every connected multigraph with a usable base point, every number of marked points and every dimension limit",
 "the tests count critical cells of a few graphs",
 [CU, GR], [("direct enumeration", CU+": UdnMorseCplx::new, expand"), ("disrespect", GR+": is_disrespected_by")],
 ("differential check against brute-force classification of all cells", "At most 20000 cells in the cube complex."))

prop("C04", "The Morse complex computes homology of the configuration space",
 "The boundary maps of the discrete Morse complex compose to zero, and its integral homology (torsion included) equals that of the full cube complex in every degree.",
 [IN], "every connected multigraph with a usable base point and every number of marked points",
 "the tests compare the homology of a few graphs with tables",
 [CU, TL], [("Morse boundary", CU+": UdnMorseCplx boundary map"), ("flow", CU+": Cube::flow"), ("homology", TL+": IntegralHomology")],
 ("differential check against homology of the independently enumerated cube complex", "At most 12000 cells; an overflow report from elimination of matrices with more than 15 rows and columns counts as no answer."))

prop("C05", "The discrete flow sends chains to invariant chains",
 "Pushing a cell along the discrete gradient until nothing changes gives the chain of critical cells the definition prescribes: the flow of a critical cell is the cell, of a collapsible cell zero, and the flow of boundaries is the boundary of flows.",
 [IN], "every cell of every configuration complex",
 "the tests flow a few cells of one graph",
 [CU], [("flow", CU+": Cube::flow"), ("factors", GR+": is_blocked, is_order_respecting, flow")],
 ("differential check against plain iteration of the gradient, plus the chain-map identity", "At most 20000 cells."))

prop("C06", "Edge paths of configurations are valid reduced motions",
 "The edge path of a critical 1-cell is a loop at the base configuration crossing that cell, and moves one point along one edge at a time to the stated place. Products, inverses, induced permutations and reductions of edge paths agree with simulating the points and keep the homotopy class; reduction is idempotent, cancels all detours, and does not depend on the order of independent moves.",
 [IN, HI], "every word in edge paths and inverses, and every legal motion of the points",
 "the tests look at a few paths of one graph",
 [CU, GR], [("edge paths", GR+": get_edge_path, get_edge_path_to_from_base_pt"), ("reduction", CU+": EdgePath::reduce_to_geodesic"), ("permutations", CU+": EdgePath::evaluate_permutation")],
 ("simulation of the tokens and an independent normal form of partially commutative words", "Paths of at most a few hundred moves."))

prop("T05", "Laplacian spectra detect homology and connectedness",
 "The combinatorial Laplacian of a simplicial complex in each degree, built from its boundary maps with matrix operations, has a real sorted non-negative spectrum with as many zero eigenvalues as the Betti number, and non-zero eigenvalues are shared between neighbouring degrees. The Laplacian of a weighted graph has as many zero eigenvalues as the graph has components.",
 [IN], "every simplicial complex and every weighted graph with positive weights",
 "the examples only draw the spectrum of one torus; nothing is asserted",
 [TL, SI, MI, GR], [("boundary maps", SI+": boundary_map"), ("matrix products of transposed views", MI+": transpose, Mul"), ("spectra", MI+": spectrum, spectrum_symmetric")],
 ("exact ranks and component counts against the computed spectrum", "At most 24 cells per degree, 9 graph vertices; zero means below 1e-6."))

prop("D01", "Delaunay triangulation is correct for every point set",
 "The circumcircle test tells exactly whether a point lies strictly inside the circle through the corners of a triangle. The triangulation of a set of points consists of non-overlapping non-degenerate triangles on those points with empty circumcircles, covers exactly their convex hull, and lists matching coordinates and indices; without ties it is the set of all Delaunay triangles.",
 [IN], "every finite set of points, few points, duplicates, collinear and cocircular points included",
 "the test draws 100 random points and counts points in circumcircles; completeness, hull and ties are not looked at",
 [GE], [("circumcircle test", GE+": Triangle::circum_circle_contains"), ("incremental insertion", GE+": delaunay_triangulation")],
 ("exact integer in-circle determinants and exact hull area", "Mostly up to 12 points, some up to 30 (ties: 40), integer coordinates up to 10^6 (ties: up to 8, shifted by up to 2^24) times a power of two from 2^-60 to 2^45; ties within 1e-9 relative are not judged."))

prop("F01", "Symbolic functions evaluate like the expression they were built from",
 "A function built from coordinates, constants, sums, differences, products, quotients, negation, scaling, powers, sine and cosine evaluates at every point where the expression is defined to the value of that expression, whichever operator forms were used. Sums commute, zero and one are neutral, division leaves no remainder, and the printed text denotes the same function.",
 [IN, "programs"], "every expression and every point of its domain",
 "the tests build three functions; the simplifications applied while building depend on the shape of both operands",
 [AN], [("simplifying constructors", AN+": Add/Sub/Mul/Div, Sum, Product"), ("evaluation", AN+": Function for AtomicSmoothFn"), ("powers", AN+": powi, powf")],
 ("differential check of random expression trees against direct evaluation with error bounds", "Depth up to 7, 10 coordinates; undefined or ill-conditioned points are not judged."))

prop("F02", "Symbolic derivatives are the true derivatives",
 "The partial derivative of a function by a coordinate evaluates to the derivative of the function at every point where it is defined, for repeated differentiation too, and mixed derivatives do not depend on the order.",
 [IN, "programs"], "every expression, coordinate and point of its domain",
 "the tests differentiate two expressions",
 [AN], [("rules", AN+": AtomicSmoothFn::partial_derivative")],
 ("differential check against hyper-dual numbers", "Depth up to 6, first and second derivatives; undefined or ill-conditioned points are not judged."))

prop("F03", "Jacobians and matrices of functions evaluate entrywise",
 "The Jacobian of a vector-valued function, which prints component by component, has one row per component and one column per coordinate and holds the partial derivatives; evaluating dense or sparse matrices of functions, their sums and products gives the matrices of values.",
 [IN, "programs"], "every vector-valued function and every matrix of functions",
 "the tests have one function with a single component",
 [AN, SP], [("Jacobian", AN+": MultiVarFn::jacobian"), ("evaluation of matrices", AN+": Function for Matrix / SparseMatrix")],
 ("differential check of every entry against hyper-dual numbers", "Up to 10 components and 10 coordinates."))

NOT_APPLICABLE = []
