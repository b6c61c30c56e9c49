//@include prelude.inc
//@include chk.inc
verus! {
global size_of usize == 8;
//@file topo_spaces/src/graph.rs
fn main() {}
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
fn l_contains(v: &Vec<u64>, x: &u64) -> (r: bool) ensures r == v@.contains(*x)
{ let mut i = 0; while i < v.len() invariant i <= v.len(), forall|k: int| 0 <= k < i ==> #[trigger] v@[k] != *x, decreases v.len() - i { if v[i] == *x { assert(v@[i as int] == *x); return true; } i += 1; } false }
fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
//@known RawSimpleGraph::new
//@struct Edge T=i64
//@struct Graph T=i64 String=u64 Edge<T>=Edge
//@struct VertexVector String=u64 Rational=Q
//@struct SimpleVertex String=u64
//@struct SimpleGraph
// a rational number (unit rational)
#[verifier::external_body]
pub struct Q { x: i64 }
impl Q { pub uninterp spec fn num(&self) -> int; pub uninterp spec fn den(&self) -> int; pub open spec fn is(&self, a: int, b: int) -> bool { self.den() > 0 && self.num() * b == a * self.den() } }
// rational!(a; b) is Rational::new(a as i64, b as i64)
#[verifier::external_body]
fn q_new(a: i64, b: i64) -> (r: Q) ensures b > 0 ==> r.is(a as int, b as int) { unimplemented!() }
// the simple graph on numbered vertices (unit graph); vertices that do not exist and loops are rejected by a panic
#[verifier::external_body]
pub struct RawSimpleGraph { x: Vec<u64> }
#[verifier::external_body]
pub struct Permutation { x: Vec<u64> }
impl Permutation { pub uninterp spec fn f(&self, i: int) -> int; }
// one to one on the numbers below n
pub open spec fn permutes(p: Permutation, n: int) -> bool { (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p.f(i) < n) && forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] p.f(i) == #[trigger] p.f(j) ==> i == j }
impl RawSimpleGraph {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn edge(&self, i: int, j: int) -> bool;
    pub uninterp spec fn connected(&self) -> bool;
    #[verifier::external_body]
    fn new(n: usize) -> (r: RawSimpleGraph) ensures r.n() == n, n < 0x1_0000_0000, forall|i: int, j: int| !#[trigger] r.edge(i, j) { unimplemented!() }
    #[verifier::external_body]
    fn add_edge(&mut self, i: usize, j: usize)
        ensures i < j < old(self).n(), final(self).n() == old(self).n(), forall|a: int, b: int| #[trigger] final(self).edge(a, b) == (old(self).edge(a, b) || (a == i && b == j) || (a == j && b == i)),
    { unimplemented!() }
    #[verifier::external_body]
    fn choose_maximal_tree(&mut self) -> (p: Permutation) ensures ready(*old(self)) ==> renumbered(*old(self), *final(self), p) { unimplemented!() }
}
// connected with two vertices at least, so that each has an edge
pub open spec fn ready(g: RawSimpleGraph) -> bool { g.n() >= 2 && g.connected() && forall|i: int| 0 <= i < g.n() ==> #[trigger] touched(g, i) }
pub open spec fn touched(g: RawSimpleGraph, i: int) -> bool { exists|j: int| #[trigger] g.edge(i, j) }
pub open spec fn renumbered(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation) -> bool { h.n() == g.n() && permutes(p, g.n()) && forall|a: int, b: int| 0 <= a < g.n() && 0 <= b < g.n() ==> #[trigger] h.edge(p.f(a), p.f(b)) == g.edge(a, b) }
// `<<=` moves the entry at i to p(i)
#[verifier::external_body]
fn list_act(v: &mut Vec<SimpleVertex>, p: Permutation) ensures permutes(p, old(v)@.len() as int) ==> acted(old(v)@, final(v)@, p) { unimplemented!() }
pub open spec fn acted(v: Seq<SimpleVertex>, w: Seq<SimpleVertex>, p: Permutation) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> w[#[trigger] p.f(i)] == v[i] }
impl Edge {
//@fn Edge::new T=i64 Edge<T>=Edge call:i64::one=one_i64
//@.spec
    ensures r.weight == 1,
//@end
}
// `vec![vec![Vec::new(); n]; n]`
#[verifier::external_body]
fn table(n: usize) -> (r: Vec<Vec<Vec<Edge>>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> (#[trigger] r@[i]@[j])@.len() == 0
{ unimplemented!() }
// ------------------------------------------------------------------ what a list of edges means
// the vertices in the order of their first appearance
pub open spec fn reg1(l: Seq<u64>, x: u64) -> Seq<u64> { if l.contains(x) { l } else { l.push(x) } }
pub open spec fn reg(s: Seq<(u64, u64)>, k: int) -> Seq<u64> decreases k { if k <= 0 { Seq::empty() } else { reg1(reg1(reg(s, k - 1), s[k - 1].0), s[k - 1].1) } }
pub open spec fn joins(e: (u64, u64), a: u64, b: u64) -> bool { (e.0 == a && e.1 == b) || (e.0 == b && e.1 == a) }
// how many of the first k edges join a and b
pub open spec fn mult(s: Seq<(u64, u64)>, k: int, a: u64, b: u64) -> int decreases k { if k <= 0 { 0 } else { mult(s, k - 1, a, b) + if joins(s[k - 1], a, b) { 1int } else { 0 } } }
pub open spec fn loops(s: Seq<(u64, u64)>, k: int) -> int decreases k { if k <= 0 { 0 } else { loops(s, k - 1) + if s[k - 1].0 == s[k - 1].1 { 1int } else { 0 } } }
// the pairs of different vertices that are joined
pub open spec fn pairs(s: Seq<(u64, u64)>, k: int) -> int decreases k { if k <= 0 { 0 } else { pairs(s, k - 1) + if s[k - 1].0 != s[k - 1].1 && mult(s, k - 1, s[k - 1].0, s[k - 1].1) == 0 { 1int } else { 0 } } }
proof fn lemma_reg1(l: Seq<u64>, x: u64)
    requires l.no_duplicates(), ensures reg1(l, x).no_duplicates(), reg1(l, x).contains(x), forall|y: u64| l.contains(y) ==> reg1(l, x).contains(y),
{
    if !l.contains(x) {
        let p = l.push(x);
        assert(p[p.len() - 1] == x);
        assert forall|y: u64| l.contains(y) implies p.contains(y) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(p[i] == y); }
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < l.len() && j < l.len() { assert(l[i] != l[j]); } else if i < l.len() { assert(l.contains(l[i])); } else { assert(l.contains(l[j])); } }
    }
}
proof fn lemma_reg(s: Seq<(u64, u64)>, k: int)
    requires 0 <= k <= s.len(),
    ensures reg(s, k).no_duplicates(), forall|m: int| 0 <= m < k ==> reg(s, k).contains((#[trigger] s[m]).0) && reg(s, k).contains(s[m].1),
    decreases k,
{
    if k > 0 {
        lemma_reg(s, k - 1);
        let l0 = reg(s, k - 1); let l1 = reg1(l0, s[k - 1].0); let l2 = reg1(l1, s[k - 1].1);
        lemma_reg1(l0, s[k - 1].0); lemma_reg1(l1, s[k - 1].1);
        assert forall|m: int| 0 <= m < k implies l2.contains((#[trigger] s[m]).0) && l2.contains(s[m].1) by { if m < k - 1 { assert(l0.contains(s[m].0) && l0.contains(s[m].1)); } }
    }
}
pub open spec fn m(d: Seq<Vec<Vec<Edge>>>, i: int, j: int) -> int { d[i]@[j]@.len() as int }
// a square table, filled on and above the diagonal
pub open spec fn square(d: Seq<Vec<Vec<Edge>>>, n: int) -> bool { d.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] d[i])@.len() == n) && forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] m(d, i, j) == 0 }
pub open spec fn filled(d: Seq<Vec<Vec<Edge>>>, l: Seq<u64>, s: Seq<(u64, u64)>, k: int) -> bool { forall|i: int, j: int| 0 <= i <= j < l.len() ==> #[trigger] m(d, i, j) == mult(s, k, l[i], l[j]) }
impl Graph {
    pub open spec fn wf(&self) -> bool { square(self.data@, self.vertices_labeling@.len() as int) && self.vertices_labeling@.no_duplicates() }
//@fn Graph::from T=i64 String=u64 params=edges method:contains=&l_contains expr:vec![vec![Vec::new();n_vertices];n_vertices]=table(n_vertices) maypanic op:+==e_add op:-==e_sub
//@.spec
    ensures r.wf(), r.vertices_labeling@ == reg(edges@, edges@.len() as int), filled(r.data@, r.vertices_labeling@, edges@, edges@.len() as int),
        forall|k: int| 0 <= k < edges@.len() ==> r.vertices_labeling@.contains((#[trigger] edges@[k]).0) && r.vertices_labeling@.contains(edges@[k].1),
        r.n_loops == loops(edges@, edges@.len() as int), r.n_non_loop_edges + r.n_loops == edges@.len(), r.n_non_loop_edges_up_to_multiplicity == pairs(edges@, edges@.len() as int),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __n0 == edges.len(), vertices_labeling@ == reg(edges@, __i0 as int),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost l0 = vertices_labeling@;
//@.loop 0 end
    proof { let e = edges@[__j0 as int]; assert(vertices_labeling@ =~= reg1(reg1(l0, e.0), e.1)); }
//@.loop 1 before
    proof { lemma_reg(edges@, edges@.len() as int); }
//@.loop 1
    invariant 0 <= __i1 <= __n1, __n1 == edges.len(), vertices_labeling@.no_duplicates(), square(data@, vertices_labeling@.len() as int), filled(data@, vertices_labeling@, edges@, __i1 as int),
        forall|k: int| 0 <= k < edges@.len() ==> vertices_labeling@.contains((#[trigger] edges@[k]).0) && vertices_labeling@.contains(edges@[k].1),
        n_loops == loops(edges@, __i1 as int), n_non_loop_edges + n_loops == edges@.len(), n_non_loop_edges_up_to_multiplicity == edges@.len() - __i1 + pairs(edges@, __i1 as int),
    decreases __n1 - __i1,
//@.loop 1 begin
    let ghost d0 = data@; let ghost l = vertices_labeling@;
    proof { assert(l.contains(edges@[__j1 as int].0)); assert(l.contains(edges@[__j1 as int].1)); }
//@.loop 2
    invariant 0 <= __i2 <= __n2, __n2 == vertices_labeling.len(), match __a2 { Some(p) => p < __n2 && vertices_labeling@[p as int] == v, None => forall|q: int| 0 <= q < __i2 ==> #[trigger] vertices_labeling@[q] != v },
    decreases __n2 - __i2,
//@.loop 3
    invariant 0 <= __i3 <= __n3, __n3 == vertices_labeling.len(), match __a3 { Some(p) => p < __n3 && vertices_labeling@[p as int] == w, None => forall|q: int| 0 <= q < __i3 ==> #[trigger] vertices_labeling@[q] != w },
    decreases __n3 - __i3,
//@.loop 1 end
    proof {
        let e = edges@[__j1 as int];
        assert(m(d0, v_idx as int, w_idx as int) == mult(edges@, __j1 as int, l[v_idx as int], l[w_idx as int]));
        assert(joins(e, l[v_idx as int], l[w_idx as int]));
        lemma_mult_sym(edges@, __j1 as int, e.0, e.1);
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] m(data@, i, j) == m(d0, i, j) + if i == v_idx && j == w_idx { 1int } else { 0 } by { }
        assert forall|i: int, j: int| 0 <= i <= j < l.len() implies #[trigger] m(data@, i, j) == mult(edges@, __i1 as int, l[i], l[j]) by { assert(m(d0, i, j) == mult(edges@, __j1 as int, l[i], l[j])); assert(joins(e, l[i], l[j]) <==> (i == v_idx && j == w_idx)); }
        assert forall|i: int, j: int| 0 <= j < i < l.len() implies #[trigger] m(data@, i, j) == 0 by { assert(m(d0, i, j) == 0); }
    }
//@end
//@fn Graph::n_vertices
//@.spec
    ensures r == self.vertices_labeling@.len(),
//@end
//@fn Graph::n_non_loop_edges
//@.spec
    ensures r == self.n_non_loop_edges,
//@end
//@fn Graph::n_non_loop_edges_up_to_multiplicity
//@.spec
    ensures r == self.n_non_loop_edges_up_to_multiplicity,
//@end
//@fn Graph::n_loops
//@.spec
    ensures r == self.n_loops,
//@end
}
proof fn lemma_mult_sym(s: Seq<(u64, u64)>, k: int, a: u64, b: u64) ensures mult(s, k, a, b) == mult(s, k, b, a) decreases k { if k > 0 { lemma_mult_sym(s, k - 1, a, b); } }
// ------------------------------------------------------------------ the subdivision: each edge becomes a run of inner vertices
pub struct Run { pub a: int, pub b: int, pub k: int }
// the number of inner vertices, and the first of them
pub open spec fn inner(n: int, r: Run) -> int { if r.a == r.b { n } else if n - 2 >= 1 { n - 2 } else { 1 } }
pub open spec fn base(n: int, v: int, rs: Seq<Run>, t: int) -> int decreases t { if t <= 0 { v } else { base(n, v, rs, t - 1) + inner(n, rs[t - 1]) } }
// x is joined with y by the run r with q inner vertices from s on
pub open spec fn path(r: Run, s: int, q: int, x: int, y: int) -> bool { (x == r.a && y == s) || (s <= x < s + q - 1 && y == x + 1) }
pub open spec fn step(r: Run, s: int, q: int, x: int, y: int) -> bool { path(r, s, q, x, y) || (x == r.b && y == s + q - 1) }
pub open spec fn linked(n: int, v: int, rs: Seq<Run>, x: int, y: int) -> bool { exists|t: int| 0 <= t < rs.len() && step(#[trigger] rs[t], base(n, v, rs, t), inner(n, rs[t]), x, y) }
// the l-th inner vertex of a run
pub open spec fn named(w: SimpleVertex, lab: Seq<u64>, r: Run, l: int, n: int) -> bool { match w { SimpleVertex::Redundant(z) => z.start == lab[r.a] && z.end == lab[r.b] && z.direction == r.k && z.pos.is(l, inner(n, r) + 1), _ => false } }
#[verifier::opaque]
pub open spec fn edges_are(n: int, v: int, rs: Seq<Run>, g: RawSimpleGraph) -> bool { forall|x: int, y: int| #[trigger] g.edge(x, y) <==> linked(n, v, rs, x, y) || linked(n, v, rs, y, x) }
#[verifier::opaque]
pub open spec fn labels_are(n: int, lab: Seq<u64>, rs: Seq<Run>, l: Seq<SimpleVertex>) -> bool {
    &&& forall|i: int| 0 <= i < lab.len() ==> #[trigger] l[i] == SimpleVertex::Essential(lab[i])
    &&& forall|t: int, q: int| 0 <= t < rs.len() && 1 <= q <= inner(n, rs[t]) ==> named(#[trigger] l[base(n, lab.len() as int, rs, t) + q - 1], lab, #[trigger] rs[t], q, n)
}
pub open spec fn built(n: int, lab: Seq<u64>, rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>) -> bool { l.len() == base(n, lab.len() as int, rs, rs.len() as int) && edges_are(n, lab.len() as int, rs, g) && labels_are(n, lab, rs, l) }
pub open spec fn is_edge(d: Seq<Vec<Vec<Edge>>>, v: int, r: Run) -> bool { 0 <= r.a <= r.b < v && 0 <= r.k < m(d, r.a, r.b) }
// the runs before the k-th edge from i to o, the loops last
pub open spec fn before(v: int, i: int, o: int, k: int, r: Run) -> bool { r.a < i || (r.a == i && (to(v, r) < o || (to(v, r) == o && r.k < k))) }
pub open spec fn to(v: int, r: Run) -> int { if r.a == r.b { v } else { r.b } }
#[verifier::opaque]
pub open spec fn listed(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>, i: int, o: int, k: int) -> bool { rs.no_duplicates() && forall|r: Run| #[trigger] rs.contains(r) <==> is_edge(d, v, r) && before(v, i, o, k, r) }
// each edge has exactly one run
#[verifier::opaque]
pub open spec fn exact(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>) -> bool { rs.no_duplicates() && forall|r: Run| #[trigger] rs.contains(r) <==> is_edge(d, v, r) }
pub open spec fn subdivides(h: Graph, n: int, rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>) -> bool { exact(h.data@, h.vertices_labeling@.len() as int, rs) && built(n, h.vertices_labeling@, rs, g, l) }
proof fn lemma_base_ext(n: int, v: int, a: Seq<Run>, b: Seq<Run>, t: int) requires t <= a.len(), t <= b.len(), forall|i: int| 0 <= i < t ==> #[trigger] a[i] == b[i] ensures base(n, v, a, t) == base(n, v, b, t) decreases t { if t > 0 { lemma_base_ext(n, v, a, b, t - 1); } }
proof fn lemma_base_le(n: int, v: int, rs: Seq<Run>, s: int, t: int) requires 0 <= s <= t <= rs.len(), n >= 0 ensures base(n, v, rs, s) <= base(n, v, rs, t) decreases t { if s < t { lemma_base_le(n, v, rs, s, t - 1); } }
// the run r is added
pub open spec fn ran(r: Run, s: int, q: int, g0: RawSimpleGraph, g1: RawSimpleGraph) -> bool { forall|x: int, y: int| #[trigger] g1.edge(x, y) == (g0.edge(x, y) || path(r, s, q, x, y) || path(r, s, q, y, x)) }
pub open spec fn done(r: Run, s: int, q: int, g0: RawSimpleGraph, g1: RawSimpleGraph) -> bool { forall|x: int, y: int| #[trigger] g1.edge(x, y) == (g0.edge(x, y) || step(r, s, q, x, y) || step(r, s, q, y, x)) }
pub open spec fn grown(n: int, lab: Seq<u64>, r: Run, s: int, q: int, l0: Seq<SimpleVertex>, l1: Seq<SimpleVertex>) -> bool { l0.len() == s && l1.len() == s + q && l1.take(s) =~= l0 && forall|i: int| 1 <= i <= q ==> named(#[trigger] l1[s + i - 1], lab, r, i, n) }
proof fn lemma_run(n: int, lab: Seq<u64>, rs: Seq<Run>, r: Run, g0: RawSimpleGraph, g1: RawSimpleGraph, l0: Seq<SimpleVertex>, l1: Seq<SimpleVertex>)
    requires built(n, lab, rs, g0, l0), n >= 2, done(r, l0.len() as int, inner(n, r), g0, g1), grown(n, lab, r, l0.len() as int, inner(n, r), l0, l1),
    ensures built(n, lab, rs.push(r), g1, l1),
{
    reveal(edges_are); reveal(labels_are);
    let v = lab.len() as int; let e = rs.push(r); let k = rs.len() as int; let s = l0.len() as int;
    lemma_base_ext(n, v, rs, e, k); lemma_base_le(n, v, rs, 0, k);
    assert(base(n, v, e, k + 1) == s + inner(n, r));
    assert forall|x: int, y: int| linked(n, v, e, x, y) <==> linked(n, v, rs, x, y) || step(r, s, inner(n, r), x, y) by {
        if linked(n, v, e, x, y) { let t = choose|t: int| 0 <= t < e.len() && step(#[trigger] e[t], base(n, v, e, t), inner(n, e[t]), x, y); lemma_base_ext(n, v, rs, e, t); if t < k { assert(rs[t] == e[t]); } }
        if linked(n, v, rs, x, y) { let t = choose|t: int| 0 <= t < rs.len() && step(#[trigger] rs[t], base(n, v, rs, t), inner(n, rs[t]), x, y); lemma_base_ext(n, v, rs, e, t); assert(rs[t] == e[t]); }
        if step(r, s, inner(n, r), x, y) { assert(e[k] == r); }
    }
    assert forall|x: int, y: int| #[trigger] g1.edge(x, y) <==> linked(n, v, e, x, y) || linked(n, v, e, y, x) by { assert(g0.edge(x, y) <==> linked(n, v, rs, x, y) || linked(n, v, rs, y, x)); }
    assert forall|i: int| 0 <= i < lab.len() implies #[trigger] l1[i] == SimpleVertex::Essential(lab[i]) by { assert(l1.take(s)[i] == l1[i]); assert(l0[i] == SimpleVertex::Essential(lab[i])); }
    assert forall|t: int, q: int| 0 <= t < e.len() && 1 <= q <= inner(n, e[t]) implies named(#[trigger] l1[base(n, v, e, t) + q - 1], lab, #[trigger] e[t], q, n) by {
        lemma_base_ext(n, v, rs, e, t);
        if t < k { assert(rs[t] == e[t]); let i = base(n, v, rs, t) + q - 1; lemma_base_le(n, v, rs, t + 1, k); lemma_base_le(n, v, rs, 0, t); assert(i < s); assert(l1.take(s)[i] == l1[i]); assert(named(l0[i], lab, rs[t], q, n)); }
    }
}
proof fn lemma_contains(rs: Seq<Run>, x: Run) ensures forall|r: Run| #[trigger] rs.push(x).contains(r) <==> rs.contains(r) || r == x
{
    let e = rs.push(x);
    assert forall|r: Run| #[trigger] e.contains(r) <==> rs.contains(r) || r == x by {
        if rs.contains(r) { let i = choose|i: int| 0 <= i < rs.len() && rs[i] == r; assert(e[i] == r); }
        if r == x { assert(e[rs.len() as int] == r); }
        if e.contains(r) { let i = choose|i: int| 0 <= i < e.len() && e[i] == r; if i < rs.len() { assert(rs[i] == r); } }
    }
}
proof fn lemma_list(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>, i: int, o: int, k: int, x: Run)
    requires listed(d, v, rs, i, o, k), is_edge(d, v, x), x.a == i, to(v, x) == o, x.k == k,
    ensures listed(d, v, rs.push(x), i, o, k + 1),
{
    reveal(listed); lemma_contains(rs, x); let e = rs.push(x);
    assert(!rs.contains(x));
    assert forall|p: int, q: int| 0 <= p < e.len() && 0 <= q < e.len() && p != q implies e[p] != e[q] by { if p < rs.len() && q < rs.len() { assert(rs[p] != rs[q]); } else if p < rs.len() { assert(rs.contains(rs[p])); } else { assert(rs.contains(rs[q])); } }
    assert forall|r: Run| #[trigger] e.contains(r) <==> is_edge(d, v, r) && before(v, i, o, k + 1, r) by { if r != x && is_edge(d, v, r) && before(v, i, o, k + 1, r) && !before(v, i, o, k, r) { assert(r.b == x.b); assert(r == x); } }
}
proof fn lemma_next(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>, i: int, o: int, j: int)
    requires listed(d, v, rs, i, o, m(d, i, j)), 0 <= i <= j < v, o == if j == i { v } else { j },
    ensures listed(d, v, rs, i, o + 1, 0),
{
    reveal(listed);
    assert forall|r: Run| #[trigger] rs.contains(r) <==> is_edge(d, v, r) && before(v, i, o + 1, 0, r) by { if is_edge(d, v, r) && r.a == i && to(v, r) == o { assert(r.b == j); } }
}
proof fn lemma_row(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>, i: int) requires listed(d, v, rs, i, v + 1, 0) ensures listed(d, v, rs, i + 1, i + 2, 0)
{
    reveal(listed);
    assert forall|r: Run| #[trigger] rs.contains(r) <==> is_edge(d, v, r) && before(v, i + 1, i + 2, 0, r) by { if is_edge(d, v, r) { if r.a == i + 1 { assert(to(v, r) >= i + 2); } } }
}
proof fn lemma_start(d: Seq<Vec<Vec<Edge>>>, h: Graph, n: int, g: RawSimpleGraph, l: Seq<SimpleVertex>)
    requires l.len() == h.vertices_labeling@.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == SimpleVertex::Essential(h.vertices_labeling@[i]), forall|x: int, y: int| !#[trigger] g.edge(x, y),
    ensures listed(d, l.len() as int, Seq::empty(), 0, 1, 0), built(n, h.vertices_labeling@, Seq::empty(), g, l),
{
    reveal(listed); reveal(edges_are); reveal(labels_are); let v = l.len() as int;
    assert forall|r: Run| #[trigger] Seq::<Run>::empty().contains(r) <==> is_edge(d, v, r) && before(v, 0, 1, 0, r) by { if is_edge(d, v, r) && r.a == 0 { assert(to(v, r) >= 1); } }
}
proof fn lemma_all(d: Seq<Vec<Vec<Edge>>>, v: int, rs: Seq<Run>) requires listed(d, v, rs, v, v + 1, 0) ensures exact(d, v, rs) { reveal(listed); reveal(exact); assert forall|r: Run| #[trigger] rs.contains(r) <==> is_edge(d, v, r) by { if is_edge(d, v, r) { assert(before(v, v, v + 1, 0, r)); } } }
// the run and the position of an inner vertex
proof fn lemma_find(n: int, v: int, rs: Seq<Run>, t: int, i: int) -> (w: (int, int))
    requires 0 <= t <= rs.len(), v <= i < base(n, v, rs, t), n >= 2,
    ensures 0 <= w.0 < t, 1 <= w.1 <= inner(n, rs[w.0]), i == base(n, v, rs, w.0) + w.1 - 1,
    decreases t,
{ if t > 0 && i < base(n, v, rs, t - 1) { lemma_find(n, v, rs, t - 1, i) } else { (t - 1, i - base(n, v, rs, t - 1) + 1) } }
proof fn lemma_pos(q: Q, a: int, b: int, d: int) requires q.is(a, d), q.is(b, d) ensures a == b { let e = q.den(); assert(a * e == b * e); assert(a == b) by(nonlinear_arith) requires a * e == b * e, e > 0; }
proof fn lemma_distinct(h: Graph, n: int, rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>)
    requires subdivides(h, n, rs, g, l), h.wf(), n >= 2,
    ensures l.no_duplicates(),
{
    reveal(labels_are); reveal(exact);
    let lab = h.vertices_labeling@; let v = lab.len() as int; let k = rs.len() as int;
    lemma_base_le(n, v, rs, 0, k);
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by {
        if i < v && j < v { assert(l[i] == SimpleVertex::Essential(lab[i])); assert(l[j] == SimpleVertex::Essential(lab[j])); assert(lab[i] != lab[j]); }
        else if i < v { let (t, q) = lemma_find(n, v, rs, k, j); assert(named(l[j], lab, rs[t], q, n)); assert(l[i] == SimpleVertex::Essential(lab[i])); }
        else if j < v { let (t, q) = lemma_find(n, v, rs, k, i); assert(named(l[i], lab, rs[t], q, n)); assert(l[j] == SimpleVertex::Essential(lab[j])); }
        else if l[i] == l[j] {
            let (t, q) = lemma_find(n, v, rs, k, i); let (u, w) = lemma_find(n, v, rs, k, j);
            assert(named(l[base(n, v, rs, t) + q - 1], lab, rs[t], q, n)); assert(named(l[base(n, v, rs, u) + w - 1], lab, rs[u], w, n));
            assert(rs.contains(rs[t])); assert(rs.contains(rs[u])); assert(is_edge(h.data@, v, rs[t])); assert(is_edge(h.data@, v, rs[u]));
            assert(lab[rs[t].a] == lab[rs[u].a] && lab[rs[t].b] == lab[rs[u].b]);
            assert(rs[t] == rs[u]); assert(t == u);
            match l[i] { SimpleVertex::Redundant(z) => { lemma_pos(z.pos, q, w, inner(n, rs[t]) + 1); } _ => { } }
        }
    }
}
// no vertex is left over
proof fn lemma_size(h: Graph, n: int, rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>)
    requires subdivides(h, n, rs, g, l), n >= 2, l.len() <= g.n(),
    ensures ready(g) ==> g.n() == l.len(),
{
    if ready(g) {
        reveal(edges_are); reveal(exact);
        let v = h.vertices_labeling@.len() as int; let k = rs.len() as int; let i = g.n() - 1;
        assert(touched(g, i)); let j = choose|j: int| #[trigger] g.edge(i, j);
        let (x, y) = if linked(n, v, rs, i, j) { (i, j) } else { (j, i) };
        assert(linked(n, v, rs, x, y));
        let t = choose|t: int| 0 <= t < rs.len() && step(#[trigger] rs[t], base(n, v, rs, t), inner(n, rs[t]), x, y);
        assert(rs.contains(rs[t])); assert(is_edge(h.data@, v, rs[t])); lemma_base_le(n, v, rs, 0, t); lemma_base_le(n, v, rs, t + 1, k);
        assert(base(n, v, rs, t + 1) == base(n, v, rs, t) + inner(n, rs[t]));
    }
}
impl SimpleGraph {
//@fn SimpleGraph::n_vertices key=sg_n_vertices
//@.spec
    ensures r == self.vertices_list@.len(),
//@end
//@fn SimpleGraph::n_essential_vertices
//@.spec
    ensures r == self.n_essential_vertices,
//@end
//@fn SimpleGraph::subdivided_graph_from String=u64 name=subdivided_graph_from params=graph,n_marked_points Graph<i64>=Graph call:std::cmp::max=usize_max op:<<==~list_act macroexpr:rational=q_new maypanic op:+=e_add op:-=e_sub op:*=e_mul
//@.spec
    requires graph.wf(), n_marked_points < 0x4000_0000_0000_0000,
    ensures r.n_essential_vertices == graph.vertices_labeling@.len(),
        exists|rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>, p: Permutation| #[trigger] subdivides(*graph, points(n_marked_points), rs, g, l) && #[trigger] carried(g, l, r, p),
//@.entry
    let ghost d = graph.data@; let ghost lab = graph.vertices_labeling@; let ghost v = lab.len() as int; let ghost n = points(n_marked_points); let ghost mut rs: Seq<Run> = Seq::empty();
    let ghost mut g0 = arbitrary::<RawSimpleGraph>(); let ghost mut l0: Seq<SimpleVertex> = Seq::empty(); let ghost mut x = Run { a: 0, b: 0, k: 0 };
//@.loop 0
    invariant 0 <= __i0 <= __h0, __h0 == v, __a0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __a0@[i] == SimpleVertex::Essential(lab[i]),
    decreases __h0 - __i0,
//@.loop 1 before
    proof { lemma_start(d, *graph, n, subdivided_graph.data, subdivided_graph.vertices_list@); }
//@.loop 1
    invariant 0 <= __i1 <= __h1, __h1 == v, n_marked_points == n, 2 <= n < 0x4000_0000_0000_0000, d == graph.data@, lab == graph.vertices_labeling@, v == lab.len(), graph.wf(), subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        listed(d, v, rs, __i1 as int, __i1 + 1, 0), built(n, lab, rs, subdivided_graph.data, subdivided_graph.vertices_list@), subdivided_graph.vertices_list@.len() <= subdivided_graph.data.n(),
    decreases __h1 - __i1,
//@.loop 2
    invariant __i1 == __j1 + 1, __j1 < v, __j1 + 1 <= __i2 <= __h2_1, __h2_1 == v, n_marked_points == n, 2 <= n < 0x4000_0000_0000_0000, subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        listed(d, v, rs, __j1 as int, __i2 as int, 0), built(n, lab, rs, subdivided_graph.data, subdivided_graph.vertices_list@), subdivided_graph.vertices_list@.len() <= subdivided_graph.data.n(),
    decreases __h2_1 - __i2,
//@.loop 2 begin
    proof { assert(d[__j1 as int]@.len() == v); assert(m(d, __j1 as int, __j2 as int) == d[__j1 as int]@[__j2 as int]@.len()); }
//@.loop 3
    invariant 0 <= __i3 <= __n3, __n3 == m(d, i as int, j as int), n_mid_vertices == inner(n, Run { a: i as int, b: j as int, k: 0 }), subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        listed(d, v, rs, i as int, j as int, __i3 as int), built(n, lab, rs, subdivided_graph.data, subdivided_graph.vertices_list@), subdivided_graph.vertices_list@.len() <= subdivided_graph.data.n(),
    decreases __n3 - __i3,
//@.loop 3 begin
    proof { g0 = subdivided_graph.data; l0 = subdivided_graph.vertices_list@; x = Run { a: __j1 as int, b: __j2 as int, k: __j3 as int }; assert(v <= l0.len()) by { lemma_base_le(n, v, rs, 0, rs.len() as int); } }
//@.loop 4
    invariant 2 <= __i4 <= __h4 + 1, __h4 == n_mid_vertices, n_mid_vertices == inner(n, x), n_mid_vertices < 0x4000_0000_0000_0000, x == (Run { a: i as int, b: j as int, k: k as int }), subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        ran(x, l0.len() as int, __i4 - 1, g0, subdivided_graph.data), grown(n, lab, x, l0.len() as int, __i4 - 1, l0, subdivided_graph.vertices_list@),
    decreases __h4 + 1 - __i4,
//@.loop 3 end
    proof { lemma_run(n, lab, rs, x, g0, subdivided_graph.data, l0, subdivided_graph.vertices_list@); lemma_list(d, v, rs, i as int, j as int, __j3 as int, x); rs = rs.push(x); }
//@.loop 2 end
    proof { lemma_next(d, v, rs, i as int, j as int, j as int); }
//@.loop 5
    invariant 0 <= __i5 <= __n5, __n5 == m(d, i as int, i as int), n_mid_vertices == n, subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        listed(d, v, rs, i as int, v, __i5 as int), built(n, lab, rs, subdivided_graph.data, subdivided_graph.vertices_list@), subdivided_graph.vertices_list@.len() <= subdivided_graph.data.n(),
    decreases __n5 - __i5,
//@.loop 5 begin
    proof { g0 = subdivided_graph.data; l0 = subdivided_graph.vertices_list@; x = Run { a: __j1 as int, b: __j1 as int, k: __j5 as int }; assert(v <= l0.len()) by { lemma_base_le(n, v, rs, 0, rs.len() as int); } }
//@.loop 6
    invariant 2 <= __i6 <= __h6 + 1, __h6 == n_mid_vertices, n_mid_vertices == inner(n, x), n_mid_vertices == n, x == (Run { a: i as int, b: i as int, k: k as int }), subdivided_graph.n_essential_vertices == v, subdivided_graph.data.n() < 0x1_0000_0000,
        ran(x, l0.len() as int, __i6 - 1, g0, subdivided_graph.data), grown(n, lab, x, l0.len() as int, __i6 - 1, l0, subdivided_graph.vertices_list@),
    decreases __h6 + 1 - __i6,
//@.loop 5 end
    proof { lemma_run(n, lab, rs, x, g0, subdivided_graph.data, l0, subdivided_graph.vertices_list@); lemma_list(d, v, rs, i as int, v, __j5 as int, x); rs = rs.push(x); }
//@.loop 1 end
    proof { lemma_next(d, v, rs, i as int, v, i as int); lemma_row(d, v, rs, i as int); }
//@.loop 1 after
    let ghost ge = subdivided_graph.data; let ghost le = subdivided_graph.vertices_list@;
//@.exit
    proof { lemma_all(d, v, rs); assert(subdivides(*graph, n, rs, ge, le)); lemma_distinct(*graph, n, rs, ge, le); lemma_size(*graph, n, rs, ge, le); assert(carried(ge, le, __ret, p)); }
//@end
//@known SimpleGraph::subdivided_graph_from
//@fn SimpleGraph::from name=sg_from params=graph Graph<i64>=Graph
//@.spec
    requires graph.wf(),
    ensures r.n_essential_vertices == graph.vertices_labeling@.len(),
        exists|rs: Seq<Run>, g: RawSimpleGraph, l: Seq<SimpleVertex>, p: Permutation| #[trigger] subdivides(*graph, 2, rs, g, l) && #[trigger] carried(g, l, r, p),
//@end
//@fn SimpleGraph::vertices_list
//@.spec
    ensures r@ == self.vertices_list@,
//@end
//@fn <SimpleGraph as Index<usize>>::index params=idx rettype=&SimpleVertex maypanic
//@.spec
    requires idx < self.vertices_list@.len(),
    ensures *r == self.vertices_list@[idx as int],
//@end
}
pub open spec fn points(n: usize) -> int { if n < 2 { 2 } else { n as int } }
// what is returned is the graph g with the labels l, renumbered by p (for connected graphs)
pub open spec fn carried(g: RawSimpleGraph, l: Seq<SimpleVertex>, r: SimpleGraph, p: Permutation) -> bool { l.no_duplicates() && (ready(g) ==> g.n() == l.len() && renumbered(g, r.data, p) && acted(l, r.vertices_list@, p)) }
} // verus!
