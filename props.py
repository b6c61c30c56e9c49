# per property: contract units (with the functions that matter to it; [] = all), harness crate, seconds of concrete search
ASSUME = {"all": [
    "rustc/LLVM and the Rust standard library behave as documented; vstd's specifications of them are trusted",
    "the extraction rewrites (iterator chains to loops, helper inlining, monomorphisation) preserve meaning; they are listed in DESIGN.md and exercised by the concrete harness",
]}
PROPS = {
 "P01": dict(units={"pool": ["BinaryPool", "count_ones"]}, harness="core", secs=6,
    bounded=["Debug/Clone/derived == of BinaryPool", "rejection of out-of-range indices (panics)"]),
 "P02": dict(units={"pool": ["LabeledSet"]}, harness="core", secs=6,
    assume=["labels are modelled as u64 with a lawful ==, pairwise distinct"], bounded=["Display", "rejection of unregistered labels (panics)"]),
 "P03": dict(units={"tuple": []}, harness="core", secs=4, bounded=[]),
 "P04": dict(units={"pid": ["euclid_div","simplify","divides","^Zero","^One"]}, harness="core", secs=4, bounded=[]),
 "P05": dict(units={"pid": ["is_prime","n_prime_factors"]}, harness="core", secs=5, bounded=[]),
 "P06": dict(units={"pid": ["^gcd","bezout"]}, harness="core", secs=5, bounded=["no overflow for operands of moderate size", "types other than i64"],
    assume=["i64 stands for the generic parameter; arithmetic panics on overflow (builds with overflow checks)"]),
 "P07": dict(units={"rational": ["optimize","new","from","abs","get_","zero","one","add","sub","mul","div","neg","sum","product"]}, harness="core", secs=6,
    bounded=["op_assign_impl! (+=, -=, *=, /=)", "Display/Debug", "PID for Rational"], assume=["arithmetic panics on overflow (builds with overflow checks)", "num::integer::gcd returns the gcd"]),
 "P08": dict(units={"rational": ["cmp"]}, harness="core", secs=5, bounded=["sort and the comparison operators core derives from partial_cmp"], assume=["num::integer::gcd returns the gcd"]),
 "P09": dict(units={"perm": ["Cycle","Unfixed","Permutation","from_any","Group::inverse"]}, harness="core", secs=6,
    bounded=["that == of permutations is equality of the maps (uniqueness of the canonical form)", "Display", "the assertion inside in_terms_of_gens"], assume=["slice::sort orders the cycles by Ord::cmp and rearranges them", "derived Clone and == of Cycle and Permutation are structural"]),
 "P10": dict(units={"perm": ["Vec as","Gset::","swap","in_terms_of_gens"]}, harness="core", secs=6,
    bounded=["element types other than i64"], assume=["vectors of i64 stand for Vec<T>", "slice::swap exchanges two entries", "slice::sort orders the cycles by Ord::cmp"]),
 "P11": dict(units={"vperm": []}, harness="core", secs=6,
    bounded=["From<[usize; N]> and From<ConstPermutation> for VecPermutation", "in_terms_of_gens (trait default)"], assume=["derived Clone, Copy and == are structural"]),

 "P12": dict(units={"cmat": []}, harness="core", secs=5, bounded=["Display", "element types other than i64"], assume=["arithmetic panics on overflow (builds with overflow checks)"]),
 "P13": dict(units={"mat": ["compress","extract","bounds","size","offsets","index","transpose","new","deref","write","swap","operation","as_matrix","from_array"]}, harness="core", secs=8, bounded=["nesting of views through the real fat pointers, all 48 Index implementations", "rejection of bad indices, ranges and sizes (panics)", "clone, drop"], assume=["an allocation is modelled as a vector and a pointer as an index into it; alloc, dealloc, ptr::add and the fat-pointer casts are trusted", "a shared view is a snapshot of the allocation, a mutable view borrows it exclusively (as rustc checks)", "entries are i64; arithmetic panics on overflow"]),
 "P14": dict(units={"homol": ["Mul"], "mat": ["mul","add","sub","dot","eq","is_diagonal","zero","identity","as_matrix","from_array"]}, harness="core", secs=8, bounded=["/ and /=", "rejection of incompatible sizes (panics)"], assume=["an allocation is modelled as a vector and a pointer as an index into it; alloc, dealloc, ptr::add and the fat-pointer casts are trusted", "a shared view is a snapshot of the allocation, a mutable view borrows it exclusively (as rustc checks)", "entries are i64; arithmetic panics on overflow"]),
 "P15": dict(units={"mat": ["swap","operation","mul_mat","identity","index","write","mul_scalar","Matrix::add"], "snf": [], "pid": ["bezout","divides_i64","euclid_div"]}, harness="core", secs=8, bounded=[], assume=["the contracts of the matrix operations and of bezout_identity, divides and euclid_div assumed in the unit snf are those proved in the units mat and pid", "an allocation is modelled as a vector and a pointer as an index into it; alloc, dealloc, ptr::add and the fat-pointer casts are trusted", "entries are i64; arithmetic panics on overflow"]),
 "P16": dict(units={"mat": ["swap","operation","index","mul_scalar"], "rank": []}, harness="core", secs=6, bounded=["that the pivot count is also the dimension of the image, the same for the transpose and the largest non-vanishing minor (textbook facts, checked on all generated matrices)"], assume=["the entries form a field whose == is equality (two consequences of the field axioms are assumed: x + (0 - x/p) p = 0 for p != 0, and 0 + c 0 = 0)", "clone, size, element access, swap_rows and row_operation at field entries behave as proved at i64 in the unit mat", "an allocation is modelled as a vector and a pointer as an index into it; alloc, dealloc, ptr::add and the fat-pointer casts are trusted", "entries of the unit mat are i64; arithmetic panics on overflow"]),
 "P17": dict(units={"vect": []}, harness="core", secs=6, bounded=["Display", "division"], assume=["coefficients are i64 and basis elements u64 with their total order", "vec::IntoIter yields the elements in order", "a moved vector is modelled by a copy of its terms", "slice::sort_by sorts by the given order and rearranges", "slice::last_mut returns the last element"]),
 "P18": dict(units={"sparse": []}, harness="core", secs=6, bounded=["construction from an entry function", "==, products, Display"], assume=["binary_search_by finds an element of a sorted slice iff present", "entries are i64"]),
 "P19": dict(units={"simp": []}, harness="topo", secs=8, bounded=["n_cells_of_dim (inclusion and exclusion)", "label types other than u64"], assume=["labels are modelled as u64 with a lawful ==", "sort orders and rearranges a vector", "derived Clone is structural"]),
 "P20": dict(units={"simp": ["get_face","get_simplex","SimplicialCell::new","contains","cone","dim"]}, harness="topo", secs=8, bounded=["get_i_cells and boundary_map: bases, signs, zero products"], assume=["labels are modelled as u64 with a lawful ==", "sort orders and rearranges a vector", "derived Clone is structural"]),
 "P21": dict(units={"homol": [], "mat": ["transpose","mul","index","identity"], "snf": [], "vect": ["mul","add","sum","new"]}, harness="topo", secs=12, bounded=["that the columns read off the witnesses are bases of the kernel and the image (standard linear algebra from the proved normal form)", "Display", "that the coefficients of HomologyWithFieldCoefficients are those of the complex (get_boundary_map)"], assume=["the contracts of the matrix operations and of smith_normal_form assumed in the unit homol are those proved in the units mat and snf, the rank over a field that of unit rank, the formal sums those of unit vect (the sum of several is bounded)", "cells are modelled as u64", "vec::IntoIter yields the elements in order; slice::reverse reverses; slice::last_mut returns the last element", "consecutive boundary maps fit and none is empty (the contract of boundary_map, P20 and P25)", "a given max_dim is below usize::MAX", "entries are i64; arithmetic panics on overflow"]),
 "P22": dict(units={"graph": ["RawSimpleGraph::new","RawSimpleGraph::raw_idx","add_edge","remove_edge","RawSimpleGraph::contains","n_edges","n_vertices","AdjacentVerticesIter","adjacent","degree_of","RawSimpleGraph::swap","is_connected","VertexIter","EdgeIter","FactorIter","edge_iter","vertex_iter","RawSimpleGraph::iter","RawSimpleGraph as","graph_action_by"]}, harness="topo", secs=8, bounded=["Display, Debug, derived Clone and ==", "rejection of loops and of out-of-range vertices (panics)", "is_connected of fewer than two vertices"], assume=["slice sort of a pair orders it", "Range::next yields start and increments it", "slice::sort (inside the permutation code) orders cycles by Ord::cmp"]),
 "P23": dict(units={"subdiv": [], "rational": ["new","add","cmp"]}, harness="topo", secs=8, bounded=["that the values are printed and compared as rationals (Display, VertexVector ==)", "positions in the plane (modify_embedding, f64)", "graphs with an unconnected subdivision (rejected)"], assume=["String labels are u64: only equality and copying are used", "vec![vec![Vec::new(); n]; n] is a table of n by n empty lists; rational!(a; b) is Rational::new(a as i64, b as i64), which has that value (unit rational)", "RawSimpleGraph::new and add_edge behave as proved in the unit graph and reject what is out of range by a panic; choose_maximal_tree renumbers a connected graph (proved in the unit graph); <<= moves the entries of a list (proved for i64 lists in the unit perm)", "fewer than 2^62 marked points", "the generic arithmetic is exercised at i64"]),
 "P24": dict(units={"graph": ["RawSimpleGraph::","AdjacentVerticesIter","CubeFactor::flow","is_blocked","is_in_maximal_tree","RawSimpleGraph as","Permutation"]}, harness="topo", secs=8,
    bounded=["that the graph a SimpleGraph is subdivided into is connected when the given one is (that it is the one renumbered is proved in unit subdiv, P23)"], assume=["derived Clone of Permutation is structural", "slice sort orders the cycles by Ord::cmp", "Range::next yields start and increments it"]),
 "P25": dict(units={"cube": ["CubicalCplx","Branch","FactorIter","CubeFactor","Cube::","Cube as","zero","index","::contains","EdgeIter","VertexIter"]}, harness="topo", secs=10,
    bounded=["the zero product of consecutive maps (a consequence of the proved entries) and Display"],
    assume=["slice::sort of factors with pairwise disjoint ends sorts them by < (partial_cmp, proved in unit graph)", "SimpleGraph::subdivided_graph_from returns a well-formed graph (that it is the subdivision is proved in unit subdiv, P23)", "at least one cell exists (n is at most the number of vertices)"]),
 "P26": dict(units={"graph": ["CubeFactor","FactorIter","EdgeIter","VertexIter"], "flow": []}, harness="topo", secs=10, bounded=["vanishing of the boundary taken twice and commuting of the flow with the boundary", "the flow of every configuration is the base configuration (proved: a single configuration)", "termination of Cube::flow", "Display"], assume=["slice sort of a pair orders it", "Range::next yields start and increments it", "slice::sort (inside the permutation code) orders cycles by Ord::cmp", "formal sums of cubes (Vector at basis Cube: zero, +, -, scaling, coefficient, sum) behave as their contracts say; the same contracts are proved at basis u64 in unit vect, except sums of several, which are bounded", "slice::sort sorts pairwise disjoint factors by their order"]),
 "P27": dict(units={"cube": ["UdnMorse","from_index"], "graph": ["is_blocked","is_in_maximal_tree"], "flow": [], "mat": ["zero","index"]}, harness="topo", secs=20, level="exploration", technique="bounded comparison with an independent oracle; Verus contracts on the functions underneath", bounded=["that new (expand) lists exactly the critical cells", "the Morse boundary map and its zero product (the flow of a cell is proved in unit flow, P26)"], assume=["the generic arithmetic is exercised at i64", "n is at most the number of vertices"]),
 "P28": dict(units={"path": []}, harness="topo", secs=10,
    bounded=["get_edge_path and UdnMorseCplx::generate_path (paths of cells and of configurations along the flow)", "that tokens of a path that is not a legal motion are rejected"], assume=["Vec::append appends and empties (vstd)"]),
 "P29": dict(units={"wgraph": []}, harness="topo", secs=6, bounded=["n_vertices, vertices, data (accessors)", "rational and other non-i64 weights", "rejection of loops (panic)"], assume=["String labels are u64: only equality and copying are used", "the generic arithmetic is verified at i64, exact or panicking"]),
}
