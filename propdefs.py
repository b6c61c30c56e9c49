FIXES = [
 ("P05","a271bdf","is_prime and n_prime_factors of the integers tested the quotient instead of the remainder (4.is_prime() was true)"),
 ("P07","7f8fe48","the negative of the rational zero was a second, unequal zero"),
 ("P08","87f2f4a","comparing two zero rationals divided by zero"),
 ("P07","26078a7","the product of rationals started from zero"),
 ("P07","1420b43","Rational::new(i64::MIN, d) overflowed"),
 ("P09","b6eae3c","Permutation::swap with an empty range returned a malformed permutation, and adjacent ranges were accepted in one order only"),
 ("P09","d95d9e6","a negative power of a permutation was not the power of the inverse"),
 ("P11","348af56","the inverse of ConstPermutation and VecPermutation was the zero map"),
 ("P11","8ed7022","VecPermutation::order did not terminate"),
 ("P09","717dd25","Cycle::from of the empty list panicked or gave a second representation of the identity"),
 ("P17","fb56794","merge_by (Merge::next) lost the order, so sums of four and more vectors had repeated basis elements"),
 ("P17","20605b5","Vector::from of a list with repetitions kept the repeated basis elements"),
 ("P13","9ac904d","Matrix::from_array accepted rows of different lengths and read uninitialised entries"),
 ("P14","76f2393","SubMatrix == Matrix recursed until the stack overflowed"),
 ("P13","6b9ca28","the slice behind a submatrix was longer than its allocation and underflowed for an empty one"),
 ("P13","485e4b9","sizes of 65536 and more were truncated in the packed metadata"),
 ("P15","a87b375","smith_normal_form returned an inverse column operation that was not the inverse"),
 ("P16","284eec4","rank_as_linear_map missed pivots"),
 ("P18","7d8d92d","row and column iterators of an empty SparseMatrix panicked"),
 ("P19","dcbed03","a simplicial cell with more words was never contained in one with fewer, so attach kept faces of existing simplices"),
 ("P19","f3ce308","joining a longer cell skipped its first additional word, so is_connected was wrong from 64 vertices on"),
 ("P19","61a1695","SimplicialCplx::new_from_zero_skeleton panicked for three and more vertices"),
 ("P19","e5206ed","n_cells_of_dim overflowed for simplices of dimension 20 and more"),
 ("P21","ce39dc3","negative elementary divisors made the integral homology wrong"),
 ("P22","ea43d51","RawSimpleGraph::new(0) underflowed"),
 ("P22","036d586","edge_iter yielded the edge (0, 1) even if the graph does not contain it"),
 ("P23","e02be34","two loops at a vertex were counted as parallel non-loop edges"),
 ("P23","6dbce13","the middle of an edge subdivided for two marked points was placed at its end"),
 ("P24","b0149c6","the last branch at a vertex was taken to reach to the end of the graph"),
 ("P25","e339bb7","the boundary maps of CubicalCplx came with empty bases"),
 ("P28","9e0bdb2","reducing a path panicked after the first moves canceled"),
 ("P27","0d1f001","edges of the maximal tree were taken as critical for vertices that do not flow to them"),
 ("P27","a8ea10d","the first factor of a critical cell was chosen without regard to the upper dimension and to the number of points"),
 ("P27","3141bbf","vertices next to a leaf of the maximal tree were taken as blocked"),
]
KNOWN = []
NA = []
DEFS = [
dict(id="P01", title="BinaryPool is a finite set of indices",
 statement="After any sequence of new, from, add, remove, union, intersection, fill and resize, a BinaryPool of length len is exactly the mathematical set of indices below len those operations describe: contains, iter (increasing, each member once), n_elements, is_full, is_subset_of and == all agree with that set, and resize to a larger length keeps the members. An index at or beyond len, or two pools of different lengths in a binary operation, are rejected by a panic and never alter or alias another element.",
 over=["histories","inputs"],
 qtext="every length up to the address space, every index, every finite sequence of operations",
 why="The representation packs 64 indices per word and caches the element count; an error that shows at one word boundary, one length or one order of operations is missed by a handful of ten-element examples.",
 files=["util/src/lib.rs"], mech=[("word/bit addressing and cached count","BinaryPool::add/remove/contains"),("word-wise set algebra","BinaryPool::union/intersection/is_subset_of"),("enumeration","BinaryPoolIter::next")],
 state=[("data","bit i%64 of word i/64 tells whether i is a member; bits at or beyond len are zero","BinaryPool.data"),("n_elements","number of members","BinaryPool.n_elements")],
 observe=["BinaryPool's public methods"],
 note="Every method body (and count_ones) carries a contract over the whole view and is proved for all lengths and indices; the panics on misuse and derived Clone/== are exercised by the bounded harness."),
dict(id="P02", title="LabeledSet is a finite set of its registered labels",
 statement="After any sequence of add and remove on a LabeledSet over pairwise distinct labels, iter yields exactly the labels added and not since removed, each once and in the order of registration; n_elements is their number and == compares label lists and membership. A label that was not registered is rejected by a panic and leaves the set unchanged.",
 over=["histories","inputs"], qtext="every list of distinct labels, every finite sequence of add/remove of registered labels",
 why="Membership depends on the position of the label and on the packed pool underneath; tests use three labels.",
 files=["util/src/lib.rs"], mech=[("label lookup","LabeledSet::add/remove"),("iteration","LabeledSetIter::next")],
 state=[("set","pool of the positions of the members","LabeledSet.set"),("labels","the registered labels","LabeledSet.labels")], observe=["LabeledSet's public methods","Display"],
 note="new/add/remove/n_elements/iter/next proved over BinaryPool's contracts with labels modelled as u64; rejection of unknown labels and Display are exercised by the bounded harness."),
dict(id="P03", title="tuple_iter enumerates all k-element combinations in lexicographic order",
 statement="For every slice and every size k ≥ 1, tuple_iter(k) yields references to the elements at every strictly increasing k-tuple of positions exactly once, in lexicographic order of positions, and then None forever; when k exceeds the slice length it yields nothing. It never indexes out of bounds or underflows.",
 over=["inputs","histories"], qtext="every n, every k ≥ 1, every step of the iteration",
 why="The successor step walks back over an exhausted block of positions of arbitrary length; tests look at one (n,k) in full and count another.",
 files=["util/src/lib.rs"], mech=[("successor step","TupleIterator::next"),("end-of-run test","TupleIterator::is_blocked"),("initial state","TupleIterator::new")],
 state=[("indeces","positions of the tuple that comes next","TupleIterator.indeces"),("is_done","no tuple is left","TupleIterator.is_done")], observe=["TupleIterable::tuple_iter"],
 note="new/is_blocked/next proved: each step yields the current combination and moves to its immediate lexicographic successor (lemmas: first is least, nothing is skipped, last is greatest), hence the full enumeration; all n, k."),
dict(id="P04", title="Integer Euclidean division, divisibility and unit normalisation",
 statement="For every signed integer type, n.euclid_div(d) with d not zero gives the unique pair (q, r) with n = q*d + r and 0 <= r < |d|; d.divides(n) holds exactly when d divides n; simplify(n) gives the unit +1 or -1 and |n| with unit*n = |n|. This holds for every operand for which the machine quotient exists (all but the least value divided by minus one, and simplify of the least value).",
 over=["inputs"], qtext="all pairs of values of isize, i8, i16, i32, i64, i128",
 why="Sign combinations and the ends of each type; the tests divide a few small i32 values through other functions.",
 files=["alg/src/commutative.rs"], mech=[("floor-type correction of the machine quotient","pid_impl!::euclid_div"),("divisibility","PID::divides"),("associate","pid_impl!::simplify")], state=[], observe=["PID::euclid_div","PID::divides","PID::simplify","Zero::zero","One::one"],
 note="the macro body is extracted once per integer type and proved for all values; nothing is assumed beyond the machine semantics of / and %."),
dict(id="P05", title="Primality and the number of prime factors of integers",
 statement="For every n >= 0, n.is_prime() holds exactly when n >= 2 and no d with 2 <= d < n divides n. For every n >= 1, n_prime_factors(n) is the number of primes in its factorisation, counted with multiplicity (0 for n = 1).",
 over=["inputs"], qtext="all n >= 0 (n >= 1) of isize, i8, i16, i32, i64, i128", why="No existing test calls either function; a wrong bound or a wrong divisibility test shows only for particular composites such as prime squares.",
 files=["alg/src/commutative.rs"], mech=[("trial division","pid_impl!::is_prime"),("multiplicity loop","pid_impl!::n_prime_factors")], state=[], observe=["PID::is_prime","PID::n_prime_factors"],
 note="proved for all values of every type, termination included; the count is the sum over primes of the multiplicity."),
dict(id="P06", title="bezout_identity gives the gcd and its coefficients",
 statement="bezout_identity(a, b) = (g, x, y) with g the non-negative greatest common divisor of a and b (zero only for a = b = 0) and x*a + y*b = g. A result that the integer type cannot represent is rejected by a panic, never returned wrapped.",
 over=["inputs"], qtext="all pairs of integers", why="The recursion depth and the growth of the coefficients depend on the operands; the random test only checks pairs below 10000 with a weaker equation.",
 files=["alg/src/commutative.rs"], mech=[("Euclid's recursion with coefficients","bezout_identity_rec"),("Euclid's recursion","gcd")], state=[], observe=["bezout_identity"],
 note="generic code proved at T = i64 with every machine operation exact or panicking (overflow checks on); divisibility by every common divisor follows from the coefficients. That no overflow occurs for operands of moderate size is exercised by the bounded harness."),
dict(id="P07", title="Rational arithmetic is exact and canonical",
 statement="Every rational the library produces is in lowest terms with positive denominator and a single representation of zero, so == holds exactly when the values are equal, and construction, +, -, *, /, negation, abs, sum, product and the assigning operators return the exact value. Zero denominators and division by zero are rejected by a panic; a result whose intermediate terms do not fit in 64 bits is rejected, never returned wrong.",
 over=["inputs","histories"], qtext="all rationals representable by the type, all finite sequences of operations", why="Cancellation, mixed signs and zero results reach different branches; the tests compute about ten values.",
 files=["alg/src/commutative/rational_impl.rs","alg/src/commutative.rs"], mech=[("reduction","Rational::optimize"),("signed addition of magnitudes","Add::add"),("field operations","Mul::mul, Div::div, Neg::neg, Sub::sub"),("folds","Sum::sum, Product::product")],
 state=[("numerator, denominator, sign","lowest terms, denominator > 0, zero is +0/1","Rational")], observe=["Rational's constructors, operators, ==, Display"],
 note="every operation proved to return a canonical representation of the exact value for all operands (machine operations exact or panicking); uniqueness of lowest terms is a proved lemma. Assumed: num::integer::gcd returns the greatest common divisor. The assigning operators and Display are exercised by the bounded harness."),
dict(id="P08", title="Rational order is the total order of the values",
 statement="cmp and partial_cmp of two rationals give the order of their values, so the comparison operators form a total order that agrees with ==. Operands whose reduced cross products exceed 64 bits are rejected by a panic, never misordered.",
 over=["inputs"], qtext="all pairs of rationals", why="Sign and magnitude are compared separately and common factors are cancelled first; one comparison is tested.",
 files=["alg/src/commutative/rational_impl.rs"], mech=[("comparison of reduced cross products","Ord::cmp")], state=[], observe=["Ord, PartialOrd and == of Rational"],
 note="cmp/partial_cmp proved for all canonical operands; totality, antisymmetry with == and transitivity are lemmas over that contract. Assumed: num::integer::gcd."),
dict(id="P09", title="Permutations form a group of maps in canonical cycle form",
 statement="A Permutation built by from_disjoint_cycles, permutation!, from_cycle, cyclic_from, swap or identity is the bijection of the naturals its disjoint cycles describe: map sends each entry of a cycle to the next and fixes everything else. (p*q).map(n) = p.map(q.map(n)); inverse is the two-sided inverse; p^k is the k-fold composition for k >= 0 and of the inverse for k < 0; product composes with the last factor applied last; in_terms_of_gens gives transpositions whose product is p; swap(r1, r2) exchanges two disjoint index ranges keeping the order inside and between them (and is the identity when one is empty). Every result is stored canonically (non-trivial disjoint cycles, each from its least entry, sorted by it, or one empty cycle), so == is equality of the maps. Cycles with a repeated entry or overlapping cycles or ranges are rejected by a panic.",
 over=["inputs","histories"], qtext="all permutations of the naturals with finite support, all powers, all pairs of ranges", why="Products depend on how the cycles of the two factors interleave; swap recurses on unequal lengths; the tests multiply a few fixed permutations.",
 files=["alg/src/non_commutative/permutation.rs","alg/src/non_commutative.rs"],
 mech=[("cycle normalisation","Cycle::from, bring_smallest_first"),("validation and sorting","Permutation::from_disjoint_cycles"),("composition by tracing orbits","Mul::mul"),("reversed generators","Group::inverse"),("recursive exchange of ranges","Permutation::swap"),("power by repeated product","BitXor::bitxor")],
 state=[("cycles","disjoint non-trivial cycles, least entry first, sorted","Permutation.cycles")], observe=["Permutation::map, unfixed_indeces_iter, operators, =="],
 note="every method named is proved for all inputs over the map semantics (the product loop, the inverse through reversed generators, positive and negative powers, the recursion of swap). That two canonical forms with the same map are equal is exercised by the bounded harness."),
dict(id="P10", title="Permutations act on vectors by moving entry i to position p(i)",
 statement="For a vector v and a permutation p that moves only indices below its length, v << p (and <<=, action_by) is the rearrangement w with w[p(i)] = v[i] for every i; in particular (v << p) << q = v << (q*p), the identity leaves v unchanged and acting with swap(r1, r2) exchanges the two blocks.",
 over=["inputs"], qtext="all vectors and all permutations of their indices", why="The action is carried out as a sequence of transpositions in the order in_terms_of_gens lists them, so a wrong order or a wrong pivot still passes for short cycles.",
 files=["alg/src/non_commutative/permutation.rs","alg/src/non_commutative.rs"], mech=[("transpositions","Permutation::in_terms_of_gens"),("one exchange","Gset::gen_action_by"),("sequence of exchanges","Gset::action_by, Shl, ShlAssign")], state=[], observe=["Vec << Permutation, <<=, action_by"],
 note="action_by, shl and shl_assign proved for all vectors (of i64) and permutations over the contracts of in_terms_of_gens and gen_action_by."),
dict(id="P11", title="Table permutations are groups",
 statement="ConstPermutation<N> and VecPermutation built from a bijective table evaluate to that table, with indices beyond the table fixed; *, *=, product, inverse (two-sided), inverse_of_gen and identity are the group operations of the maps, for VecPermutation also between tables of different length; order returns the least k >= 1 with p^k the identity and terminates.",
 over=["inputs"], qtext="all bijective tables of every length", why="Tables of different length are padded in place and order loops until the identity appears; no existing test covers inverse or order of these types.",
 files=["alg/src/non_commutative/permutation.rs"], mech=[("table composition","permutation_mul_impl"),("padding","VecPermutation::mul, mul_assign"),("table inversion","inverse"),("search for the order","order")], state=[], observe=["ConstPermutation, VecPermutation operators, eval, order"],
 note="all operations proved over the maps for all table lengths; order: proved that a returned value is the least positive exponent (termination of its loop is exercised by the harness, not proved)."),
dict(id="P12", title="Fixed-size vectors and matrices compute entry-wise linear algebra",
 statement="ConstVector<N> and ConstMatrix<R,C>: +, - and scalar * (and their assigning forms), negation, dot, the product of matrices (mul_const and, for square ones, *), identity, zero and indexing give exactly the entries linear algebra prescribes, for all sizes and entries that do not overflow; conversions from arrays keep every entry in place.",
 over=["inputs"], qtext="all sizes and all entries without overflow",
 why="Rows and columns are traversed by flattened iterators zipped in step; a transposed index or a shifted zip is invisible on symmetric or 2x2 examples.",
 files=["alg/src/lin_alg/const_matrix_impl.rs"], mech=[("entry-wise updates over zipped iterators","ConstVector::add_assign, sub_assign, mul_assign; ConstMatrix::add_assign, sub_assign, mul_assign"),("matrix product","ConstMatrix::mul_const"),("scalar product","ConstVector::dot")],
 state=[], observe=["ConstVector and ConstMatrix operators"],
 note="Every operation proved for all sizes (const generics N, R, C) at i64 with overflow-checked arithmetic; Display and other element types by the harness."),
dict(id="P13", title="Every view of a matrix addresses exactly the cells it names",
 statement="Indexing a Matrix or SubMatrix by (i, j) reads and writes the cell in row i and column j and no other; indexing by any pair of index kinds (usize, .., a..b, a.., ..b, a..=b, ..=b), nested to any depth, gives the submatrix of exactly those rows and columns, whose size() is their numbers; transposing exchanges rows and columns without moving data; writing through a mutable view (=, +=, write, write_and_move, swap_rows, swap_cols, row_operation, col_operation) changes exactly the named cells. Indices and ranges outside the matrix, rows of unequal length and sizes the representation cannot hold are rejected by a panic, never served.",
 over=["inputs","histories"], qtext="all sizes up to 65535 in each direction, all ranges, all nestings, both storage orders",
 why="A view is a fat pointer whose length field packs four 16-bit sizes and strides, dereferenced in unsafe code; errors show only for particular nestings, transposed storage, large dimensions or empty ranges, and corrupt memory instead of failing.",
 files=["alg/src/lin_alg/matrix_impl.rs","alg/src/lin_alg.rs"], mech=[("packing of sizes and strides","compress, extract, submatrix_from_raw_parts"),("bounds","unpack_bounds_for_sub, check_bounds_for_sub, check_bounds_for_index"),("address computation","Index and IndexMut of SubMatrix"),("ownership of the allocation","Matrix::new, deref, transpose, clone")],
 state=[("metadata","rows, columns, row stride, column stride in 16 bits each; the base address is that of cell (0,0)","SubMatrix fat pointer"),("Matrix","every cell address lies in the allocation and no two cells share one","Matrix.size, Matrix.offsets")],
 observe=["Index, IndexMut, size, write and the row/column operations of Matrix and SubMatrix"],
 note="Packing, bounds, cell and range indexing (shared and mutable), transpose, Matrix::new/transpose/deref, write, swap_rows/cols and row/col_operation proved over a memory model (allocation = vector, pointer = index) for all sizes and ranges; raw allocation, pointer arithmetic on real addresses and the fat-pointer casts are trusted and exercised by the bounded harness."),
dict(id="P14", title="Matrix arithmetic is the arithmetic of matrices",
 statement="For matrices and submatrices of compatible sizes, in every combination of owned and borrowed operands and of storage orders, +, -, +=, -=, *, scalar * and *= (and / over a field), dot, ==, is_diagonal, zero, identity, transpose, as_matrix, clone and the change of basis by a vector of basis elements give exactly the matrix the definitions prescribe; == compares sizes and all entries; operands of incompatible sizes are rejected by a panic.",
 over=["inputs"], qtext="all sizes, entries, ownership combinations and storage orders",
 why="Each ownership combination is a separate implementation that forwards to another; some were never called by a test (comparing a SubMatrix to a Matrix did not terminate).",
 files=["alg/src/lin_alg/matrix_impl.rs"], mech=[("entry-wise operations","submatrix_add_sub_impl, submatrix_add_sub_assign_impl, binary_op_impl"),("product","Mul for &SubMatrix, SubMatrix::dot"),("comparison","PartialEq")],
 state=[], observe=["operators of Matrix and SubMatrix"],
 note="+, -, +=, -=, *, scalar *, *= in every owned and borrowed combination (the macro rows are expanded from their invocations), ==, dot, as_matrix, is_diagonal, zero, identity and from_array proved over the views of P13 for all sizes, and the change of basis (unit homol): its i-th formal sum has the entries of row i as coefficients; division is exercised by the bounded harness."),
dict(id="P15", title="Smith normal form: diagonal, divisibility-ordered, with invertible witnesses",
 statement="For every integer matrix A whose computation does not overflow, smith_normal_form returns (R', R, D, C, C') with D = R*A*C, D zero off the diagonal, each diagonal entry dividing the next (zeros last), R*R' and C*C' the identity, so R and C are invertible over the integers; it terminates.",
 over=["inputs"], qtext="all integer matrices of all sizes",
 why="Five matrices are updated in step through a long sequence of row and column operations; a mistake in one of them (an inverse was in fact wrong) leaves the diagonal right, and homology generators are read off the others.",
 files=["alg/src/lin_alg/matrix_impl.rs"], mech=[("elimination","Matrix::smith_normal_form"),("elementary operations","row_operation, col_operation, swap_rows, swap_cols")],
 state=[("loop","D = R*A*C with R, R' and C, C' inverse to each other","smith_normal_form")], observe=["Matrix::smith_normal_form"],
 note="Proved for all integer matrices of all sizes: on return D = R*A*C, R*R' and C*C' are the identity, D is diagonal with exactly the first k entries nonzero, each dividing every later one; every loop terminates and nothing panics except on overflow. The matrix operations the algorithm calls are proved in the unit mat, bezout_identity and the divisions in pid. Independently, exhaustive small and random larger matrices with every clause checked by recomputation."),
dict(id="P16", title="rank_as_linear_map is the rank",
 statement="For every matrix over a field, rank_as_linear_map is the dimension of its image: 0 for a zero matrix, unchanged by transposition, row and column operations, at most min(n, m), and the largest size of a non-vanishing minor.",
 over=["inputs"], qtext="all rational matrices of all sizes",
 why="The elimination searches its pivots column by column; pivots that appear only below or to the right of a zero block were missed.",
 files=["alg/src/lin_alg/matrix_impl.rs"], mech=[("Gaussian elimination","Matrix::rank_as_linear_map"),("row operations through views","row_operation, swap_rows, Index by ranges")],
 state=[], observe=["Matrix::rank_as_linear_map"],
 note="Proved over an arbitrary field: the result is the number of nonzero rows of a row echelon form reached from the matrix by elementary row operations, at most min(n, m); the function terminates and never panics. The views, swaps and row operations it is built from are proved at entries i64 (unit mat). That the pivot count is the dimension of the image is the textbook fact; independently, exhaustive small and random matrices of planted rank are compared with a rank over a finite field."),
dict(id="P17", title="Formal sums form the free module",
 statement="Vectors (formal sums) built from basis elements, lists and arrays of them (with repetitions), and combined by +, -, negation, scalar * and /, sum over any number of vectors and the mixed operators of formal_sum_impl! have exactly the coefficients the free module prescribes; every result lists its basis elements in increasing order, each once and with non-zero coefficient, so == is equality of elements; indexing returns the coefficient of a present basis element, remove takes out the i-th term, and Display shows each term with its coefficient.",
 over=["inputs","histories"], qtext="all finite sums of any number of vectors over any totally ordered basis",
 why="Addition is a k-way merge of sorted term lists that repeatedly re-sorts its heads; with four and more summands the order used to be lost, which no existing test noticed.",
 files=["alg/src/lin_alg.rs"], mech=[("k-way merge","Vector::sum, merge_by, Merge::next"),("collection of repeated elements","Vector::from"),("scalars","Neg, Mul, Div")],
 state=[("Vector","terms strictly increasing in the basis element, no zero coefficient","Vector.0")], observe=["Vector's operators and constructors","Display"],
 note="Proved for all vectors of i64 over an ordered basis: zero, from (element, list with repetitions, array, iterator), negation, scalar product, the k-way merge (Merge::next, merge_by, sum of any number of vectors), +, - (also with basis elements and as defined by formal_sum_impl!), remove, indexing, and that equal coefficients mean equal terms. Division and Display are bounded."),
dict(id="P18", title="A sparse matrix is the matrix of its entries",
 statement="A SparseMatrix built from a size and an entry function has exactly the entries where the function returns a value: row_iter(i) and col_iter(j) list them in increasing order of index (nothing for an empty line), transpose exchanges rows and columns (twice is the identity), == with a Matrix compares all entries, and products with sparse and dense matrices equal those of the dense matrices; incompatible sizes are rejected.",
 over=["inputs"], qtext="all sizes and all patterns of entries",
 why="Entries are nodes threaded on a row list and a column list at once; which list an iterator follows depends on the transposed flag, and an empty matrix needs a placeholder that used to panic.",
 files=["alg/src/lin_alg/sparse_matrix_impl.rs"], mech=[("threading of nodes","SparseMatrix::from"),("line lookup","row_iter, col_iter"),("traversal","Iter::next"),("merge of two lines","Mul")],
 state=[("rows, cols","start nodes sorted by index, each the head of a chain in its direction","SparseMatrix.rows, SparseMatrix.cols"),("transposed","whether rows are threaded through the second pointer","SparseMatrix.transposed")], observe=["SparseMatrix's iterators and operators"],
 note="row_iter, col_iter, Iter::next, transpose and size proved for all well-formed sparse matrices (chains of any length); construction, == and the products are bounded."),
dict(id="P19", title="A simplicial complex is the set of faces of what was attached",
 statement="After any sequence of attach, new_from and new_from_zero_skeleton with simplices of pairwise distinct labels, SimplicialCplx is the family of all non-empty subsets of the attached simplices: labels are kept once, in order of first appearance (get_labeled_zero_skeleton, n_vertices); dim is the largest dimension attached; n_cells_of_dim(d) is the number of d-simplices; and is_connected tells whether any two vertices are joined by a chain of edges, with the empty complex connected. The order of attaching, repetitions and faces of earlier simplices make no difference, for any number of vertices.",
 over=["histories","inputs"], qtext="all sequences of attached simplices over any number of vertices",
 why="Only maximal cells are stored, as bit sets whose length depends on the complex's size when they were attached; comparisons between cells of different lengths went wrong at 64 vertices, beyond the size of every example.",
 files=["topo_spaces/src/simplicial/mod_impl.rs","util/src/lib.rs"], mech=[("cells as bit sets","SimplicialCell::new, cone, contains, join, intersection, is_connected_with"),("maximal cells","SimplicialCplx::attach"),("component growth","SimplicialCplx::is_connected"),("inclusion and exclusion","SimplicialCplx::n_cells_of_dim")],
 state=[("maximal_cells","no cell contains another; every vertex lies in one","SimplicialCplx.maximal_cells"),("dim","number of set bits minus one","SimplicialCell.dim")], observe=["SimplicialCplx's public methods"],
 note="cells, attach, new_from, new_from_zero_skeleton, dim, is_connected, n_vertices proved for all complexes of any size (attach as an equivalence of the family of faces before and after); n_cells_of_dim (inclusion and exclusion) is bounded."),
dict(id="P20", title="The simplicial boundary maps form a chain complex on all simplices",
 statement="For every non-empty SimplicialCplx, boundary_map returns for each dimension n from 0 to dim a matrix and a basis such that the basis lists every n-simplex exactly once, the n-th matrix has one row per (n-1)-simplex and one column per n-simplex of the neighbouring bases, its entry is +1 or -1 exactly when the row's simplex is a face of the column's and 0 otherwise, the product of consecutive matrices is zero, and the matrix of dimension 0 is a single row of zeros.",
 over=["inputs"], qtext="all simplicial complexes",
 why="Faces are enumerated by scanning bit sets, sorted and de-duplicated, and the signs depend on the order in which faces meet the sorted basis; examples check a homology group, not each entry.",
 files=["topo_spaces/src/simplicial/mod_impl.rs","topo_spaces/src/simplicial/mod.rs"], mech=[("faces","SimplicialCell::get_face"),("bases","SimplicialCplx::get_i_cells, get_simplex"),("signs","SimplicialCplx::boundary_map")],
 state=[], observe=["Complex::boundary_map of SimplicialCplx"],
 note="get_face (all faces, each once, in order) and get_simplex (the labels of a cell) proved; the assembly of bases and signs is bounded."),
dict(id="P21", title="Homology is the homology of the complex",
 statement="IntegralHomology of a complex reports in each dimension the free rank and the torsion of ker/im of its boundary maps, as an isomorphism-invariant description; the listed cycles form a basis of the kernel, the listed boundaries a basis of the image of the next map, with elementary divisors dividing in order; max_dim truncates; and HomologyWithFieldCoefficients gives the dimensions of ker/im over the field, with alternating sum the Euler characteristic.",
 over=["inputs"], qtext="all complexes whose computation does not overflow",
 why="Ranks, divisors and generators come from five matrices of a normal form read with shifted indices; signs of divisors and zero blocks are not met in the usual examples (spheres, tori).",
 files=["topo_spaces/src/lib.rs","alg/src/lin_alg/matrix_impl.rs"], mech=[("assembly from the normal form","IntegralHomology::new"),("ranks","HomologyWithFieldCoefficients::homology"),("description","Display for Module and IntegralHomology")],
 state=[], observe=["IntegralHomology","get_description_of_cycles, get_description_of_boundaries","HomologyWithFieldCoefficients::homology"],
 note="Proved (unit homol), for any complex whose consecutive maps fit: there are normal forms with witnesses (the postcondition of smith_normal_form, unit snf) and ranks for all maps such that in each dimension the free rank is nullity minus the rank of the next map, the divisors are the non-unit absolute diagonal entries of the next normal form grouped with multiplicities, the cycles are the columns of the column operation past the rank, the boundaries the first columns of the inverse row operation of the next map times their divisors, max_dim truncates, and only trailing zero groups are dropped; HomologyWithFieldCoefficients::homology is nullity minus the next rank. Bounded: the results compared with an independent integer normal form on complexes with planted free rank and torsion, and Display."),
dict(id="P22", title="RawSimpleGraph is a finite simple graph on numbered vertices",
 statement="After any sequence of new, add_edge, remove_edge, swap and the action of permutations, a RawSimpleGraph on n vertices is exactly the set of unordered pairs those operations describe: contains, n_edges, degree_of, the neighbours of a vertex (increasing, each once), edge_iter, vertex_iter, iter and Display all agree with that set; swap and the action of a permutation relabel the vertices; and is_connected, for two or more vertices, tells whether every vertex is reached from every other.",
 over=["histories","inputs"], qtext="all numbers of vertices, all edge sets, all sequences of operations and all permutations",
 why="Edges live in the triangular bit array of a pool addressed by one index; swaps exchange neighbour lists in place, and connectivity merges components: errors show only for some index pairs or sizes above one word.",
 files=["topo_spaces/src/graph.rs"], mech=[("triangular addressing","RawSimpleGraph::raw_idx/add_edge/remove_edge/contains"),("enumeration","AdjacentVerticesIter::next, EdgeIter::next"),("relabelling","RawSimpleGraph::swap, shl")],
 state=[("data","bit j(j-1)/2+i is set iff the edge i<j is there","RawSimpleGraph.data"),("n_vertices","number of vertices","RawSimpleGraph.n_vertices")], observe=["RawSimpleGraph","CubeFactor"],
 note="Proved for all sizes (unit graph): the triangular addressing, new/add_edge/remove_edge/contains, the neighbour, vertex, edge and factor iterators, degrees, swap, the action of permutations as relabelling, and is_connected as reachability. Display and the derived impls are bounded."),
dict(id="P23", title="Subdivided graphs are subdivisions of the given graph",
 statement="A Graph keeps the listed edges with multiplicity, and its numbers of vertices, edges and loops are those of the list; subdividing it for n marked points (n at least 2) replaces each edge that is not a loop by a path with max(n-2,1) inner vertices and each loop by a cycle with n inner vertices, with distinct labels, and adds nothing else; the simple graph has the subdivision's vertex and edge numbers, its labels and edges correspond, inner vertices carry evenly spaced positions between the ends, and n_essential_vertices is the number of vertices of the given graph.",
 over=["inputs"], qtext="all edge lists (parallel edges, loops, several components of the list) and all numbers of marked points",
 why="Parallel edges and loops are merged under one key with positional labels; the case of several loops at one vertex or n below 2 is not met by the usual examples.",
 files=["topo_spaces/src/graph.rs"], mech=[("edge list to graph","Graph::from"),("subdivision","SimpleGraph::subdivided_graph_from"),("labels","SimpleGraph::index")],
 state=[], observe=["Graph","SimpleGraph","graph positions"],
 note="Proved for all edge lists and numbers of points (unit subdiv): from registers the labels in the order of their first appearance, keeps the multiplicity of each pair and counts loops, other edges and joined pairs; subdivided_graph_from has one run of inner vertices per edge, each edge exactly once, of the prescribed length, joined end to end and to nothing else, with the labels (start, end, direction, position l/(length+1)), all labels different, no vertex left over, all renumbered by one permutation together with the labels. Bounded besides: random multigraphs with parallel edges and loops against an independent subdivision; positions in the plane (hash maps, f64)."),
dict(id="P24", title="The vertices are numbered along a depth-first maximal tree",
 statement="A subdivided graph is renumbered so that its vertex 0 is a leaf or a vertex of degree three or more whose removal leaves the graph connected, the parent of each other vertex in the maximal tree is its largest neighbour with a smaller number, the numbers are assigned depth first (each vertex's descendants follow it without a gap), every edge outside the tree joins a vertex with one of its ancestors, and at each vertex the branches carrying such an edge back above it come after the ones that do not; tree membership, degree in the tree and the flow along the tree agree with this; a connected graph without such a base point is rejected.",
 over=["inputs"], qtext="all connected graphs with an admissible base point and all numbers of marked points",
 why="The numbering is found by repeated in-place swaps; whether a branch returns above a vertex depends on the shape of the whole graph, which a few hand-drawn graphs do not cover.",
 files=["topo_spaces/src/graph.rs"], mech=[("choice of base point and renumbering","RawSimpleGraph::choose_maximal_tree, modify_ordering_of_the_branches"),("tree queries","maximal_tree_contains, degree_in_maximal_tree")],
 state=[], observe=["RawSimpleGraph of a SimpleGraph","maximal_tree_contains, degree_in_maximal_tree"],
 note="Proved for all graphs (unit graph): choose_maximal_tree returns a renumbering after which every clause of the statement holds (base point, depth-first numbering, order of the branches), with lemmas that every edge joins a vertex with an ancestor and that descendants follow without a gap; tree membership, tree degree and flow. That a subdivided graph is handed to it is bounded."),
dict(id="P25", title="CubicalCplx is the cubical complex of unordered configurations",
 statement="CubicalCplx::udc(G,n) has as cells exactly the sets of n pairwise disjoint vertices and closed edges of the simple graph G, each once and in the dimension given by its number of edges; its boundary maps have these cells as bases and send a cell to the alternating sum of terminal minus initial faces, with zero product of consecutive maps; and its printed form lists the cells by dimension.",
 over=["inputs"], qtext="all graphs and all numbers of marked points whose computation does not overflow",
 why="Cells are enumerated by recursion over factors and boundary maps by merging sums; completeness and signs in dimension two and more depend on all factors at once.",
 files=["topo_spaces/src/cubical.rs"], mech=[("enumeration","CubicalCplx::udc"),("boundary maps","CubicalCplx::boundary_map, get_boundaries_of")],
 state=[], observe=["CubicalCplx::n_cells","Complex::boundary_map","Display for CubicalCplx"],
 note="Proved for all graphs and numbers of points (unit cube): udc lists exactly the configurations of the graph, each once, as paths of a tree of factors, with ranks and dimension; expand, dim_of, n_cells, get_index_of, get_cell_from_idx; get_boundaries_of gives the signed faces as cells, and boundary_map gives bases and matrices whose every entry is the signed number of times the row's cell is a face of the column's. Bounded: the subdivision itself, the zero product of consecutive maps and Display."),
dict(id="P26", title="Cubes, their faces and the flow to critical cubes are exact",
 statement="Factors are vertices or edges with their stated ends, order and disjointness, a factor order that is the order of the vertices and undefined for overlapping factors; the boundary of a cube is the alternating sum of its terminal minus its initial faces and vanishes when taken twice; get_ends of a one-dimensional cube are its two end configurations; a vertex is blocked exactly when it is the base point or its parent is occupied; and flowing a cube gives a combination of critical cubes of the same dimension that fixes critical cubes, sends every configuration of points to the base configuration and commutes with the boundary.",
 over=["inputs"], qtext="all graphs, all cubes and all numbers of marked points",
 why="Flow follows a chain of moves with sign bookkeeping and sorting of factors; a wrong sign or a missed blocking shows only for particular occupied neighbours.",
 files=["topo_spaces/src/cubical.rs","topo_spaces/src/graph.rs"], mech=[("predicates of factors","CubeFactor::is_disjoint_from/is_disrespected_by/partial_cmp"),("faces","Cube::get_boundary, Cube::get_ends"),("flow","Cube::flow")],
 state=[], observe=["CubeFactor","Cube"],
 note="Proved: ends, order, disjointness and blocking of factors; get_boundary equals the alternating sum of terminal minus initial faces; get_ends; the flow equals every function satisfying the defining equations of the flow, is a combination of critical cubes of the same dimension, fixes critical cubes and sends a configuration to a single configuration. Bounded: which configuration that is, chain-map property, all cubes of random graphs against independent boundary, blocking and critical tests."),
dict(id="P27", title="UdnMorseCplx computes configuration spaces of graphs",
 statement="UdnMorseCplx::new(G,n,upper_dim) has as cells exactly the critical cubes of the unordered configuration space of n points on the subdivided graph for its maximal tree (each vertex blocked; each edge either outside the tree or disrespected by a vertex of the cube that lies directly below its end), each once and up to upper_dim; its boundary maps have these as bases and zero product, and its homology is that of the unordered configuration space.",
 over=["inputs"], qtext="all connected graphs with an admissible base point, all numbers of marked points and all upper dimensions",
 why="Completeness of the critical cells and the Morse differential are global facts; a missing or additional cell shows only for graphs with several essential vertices or points.",
 files=["topo_spaces/src/cubical.rs","topo_spaces/src/graph.rs"], mech=[("critical cells","UdnMorseCplx::new, expand"),("Morse boundary","UdnMorseCplx::boundary_map, Cube::flow")],
 state=[], observe=["UdnMorseCplx","IntegralHomology of it"],
 note="Proved for all inputs: the cells read off an index list (Cube::from_index), enumeration of the cells of the complex, their dimensions, the lookup of a cell and the list of cells of a dimension, and the flow of every cell (unit flow). Bounded: that these are exactly the critical cells, and the Morse boundary: comparison with independently enumerated critical cubes and with the homology (modulo 2, 3 and a large prime) of the full cubical complex of configurations, on random graphs and on known groups."),
dict(id="P28", title="Edge paths reduce, invert and compose as motions of tokens",
 statement="An EdgePath is a sequence of steps of moves of tokens, the moves of a step being made at the same time; the inverse is the reversed path, composition runs one path after the other, and evaluate_permutation tells where each token of the base configuration ends, homomorphically. reduce_to_geodesic gives the same motion in normal form, with no move that cancels or could be made earlier beside disjoint moves; a path followed by its inverse reduces to the trivial one; and get_edge_path of a critical cell of dimension one or of a configuration to or from the base follows the flow along the maximal tree.",
 over=["histories","inputs"], qtext="all paths of moves, all compositions and all configurations",
 why="Reduction slides moves across commuting ones in both directions and cancels pairs; whether the end result is canonical depends on long interleavings.",
 files=["topo_spaces/src/cubical.rs"], mech=[("reduction","EdgePath::reduce_to_geodesic"),("permutation","EdgePath::evaluate_permutation"),("paths of cells","RawSimpleGraph::get_edge_path, UdnMorseCplx::generate_path")],
 state=[], observe=["EdgePath","get_edge_path"],
 note="Proved for all paths (unit path): reduce_to_geodesic returns a word obtained by exchanging disjoint neighbours and dropping canceling pairs, in layers of disjoint moves each held back by and canceling with none of the layer before; inverse reduces the reversed word; composition concatenates; evaluate_permutation moves the tokens of each step at the same time, which along steps of disjoint moves is the motion of the word. From these contracts: a path and its inverse reduce to the trivial path (by an action in which only the empty normal form is trivial), reducing keeps the permutation, composition is homomorphic. get_edge_path and the generated paths are bounded: simulation of the tokens on random graphs."),
dict(id="P29", title="Weighted graphs and their Laplacians",
 statement="WeightedSimpleGraph::from a list of weighted edges has the vertices of the list in order of appearance and gives each edge its weight; its Laplacian is the symmetric matrix whose entry off the diagonal is minus the weight of the edge (zero without one) and whose diagonal entries are the sums of the weights at the vertex, so that all rows and columns sum to zero.",
 over=["inputs"], qtext="all lists of weighted edges whose sums do not overflow",
 why="The matrix is filled by index arithmetic over a symmetric table; an error shows only for asymmetric weights or larger graphs.",
 files=["topo_spaces/src/graph.rs"], mech=[("labels to indices","WeightedSimpleGraph::from"),("Laplacian","WeightedSimpleGraph::laplacian")],
 state=[], observe=["WeightedSimpleGraph","Matrix"],
 note="Proved for all lists over the integers (unit wgraph): from numbers the labels in the order of their first appearance and the entry at (i, j) is the weight listed last for the two labels, zero without one; laplacian has minus that entry off the diagonal and the row sum on it; from these contracts the Laplacian is symmetric and its rows and columns sum to zero. Bounded besides: random weighted graphs over the integers and the rationals."),
]
