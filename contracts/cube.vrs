//@include prelude.inc
//@include chk.inc
//@include mat.inc
//@include mzero.inc
//@include pool.inc
//@include graph.inc
verus! {
use std::cmp::Ordering;
fn main() {}
//@file topo_spaces/src/cubical.rs
//@struct Branch
//@struct CubicalCplx SimpleGraph=RawSimpleGraph
//@struct CubicalFactorIter
//@struct Cube
impl Branch {
//@fn Branch::new_parent
//@.spec
    ensures r.parent_idx is None, r.child_indeces@.len() == 0, r.val == val,
//@end
//@fn Branch::new
//@.spec
    ensures r.parent_idx == Some(parent_idx), r.child_indeces@.len() == 0, r.val == val,
//@end
//@fn Branch::get_parent_idx
//@.spec
    ensures r == self.parent_idx,
//@end
}
// ------------------------------------------------------------------ the tree of branches
// the factors from the root to a branch
pub open spec fn path(d: Seq<Branch>, i: int) -> Seq<CubeFactor>
    decreases i,
{ match d[i].parent_idx { Some(p) => if 0 <= p < i { path(d, p as int).push(d[i].val) } else { seq![d[i].val] }, None => seq![d[i].val] } }
pub open spec fn edges(s: Seq<CubeFactor>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { edges(s.drop_last()) + if s.last() is Edge { 1nat } else { 0nat } } }
// parents come first
pub open spec fn tree(d: Seq<Branch>) -> bool { forall|i: int| 0 <= i < d.len() ==> match #[trigger] d[i].parent_idx { Some(p) => p < i, None => true } }
pub proof fn lemma_edges_push(s: Seq<CubeFactor>, f: CubeFactor)
    ensures edges(s.push(f)) == edges(s) + if f is Edge { 1nat } else { 0nat },
{ assert(s.push(f).drop_last() =~= s); }
// ------------------------------------------------------------------ configurations
// factors of the graph, pairwise disjoint, by increasing smaller vertices
pub open spec fn apart(a: CubeFactor, b: CubeFactor) -> bool { a.disjoint(b) && a.low() < b.low() }
#[verifier::opaque]
pub open spec fn conf(g: RawSimpleGraph, s: Seq<CubeFactor>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).of(g)
    &&& forall|k: int, l: int| 0 <= k < l < s.len() ==> apart(#[trigger] s[k], #[trigger] s[l])
}
pub open spec fn nonresp(f: CubeFactor) -> bool { match f { CubeFactor::Edge(e) => e[1] != e[0] + 1, CubeFactor::Vertex(_) => false } }
// f is a possible next factor after p, below the bound
pub open spec fn follows(p: Seq<CubeFactor>, f: CubeFactor) -> bool { forall|k: int| 0 <= k < p.len() ==> apart(#[trigger] p[k], f) }
pub open spec fn below(f: CubeFactor, bv: int) -> bool { nonresp(f) || match f { CubeFactor::Edge(e) => e[1] < bv, CubeFactor::Vertex(v) => v < bv } }
pub open spec fn good(g: RawSimpleGraph, p: Seq<CubeFactor>, f: CubeFactor, bv: int) -> bool { f.of(g) && follows(p, f) && below(f, bv) }
proof fn lemma_conf_push(g: RawSimpleGraph, p: Seq<CubeFactor>, f: CubeFactor)
    requires conf(g, p), f.of(g), follows(p, f),
    ensures conf(g, p.push(f)),
{ reveal(conf); }
// the smaller vertices increase, so a configuration of n factors of a graph of N vertices leaves room above its k-th factor
proof fn lemma_room(g: RawSimpleGraph, s: Seq<CubeFactor>, k: int, l: int)
    requires conf(g, s), 0 <= k < l < s.len(),
    ensures s[l].low() >= s[k].low() + (l - k), s[k] is Edge && !nonresp(s[k]) ==> s[l].low() >= s[k].low() + (l - k) + 1,
    decreases l - k,
{
    reveal(conf);
    if l == k + 1 { assert(apart(s[k], s[l])); assert(s[l].has(s[l].low())); assert(!(s[k].has(s[k].low() + 1) && s[l].has(s[k].low() + 1))); }
    else { lemma_room(g, s, k, l - 1); assert(apart(s[l - 1], s[l])); }
}
proof fn lemma_next_good(g: RawSimpleGraph, p: Seq<CubeFactor>, s: Seq<CubeFactor>, rem: int)
    requires conf(g, s), p.is_prefix_of(s), s.len() == p.len() + rem, rem > 0,
    ensures good(g, p, s[p.len() as int], g.n_vertices - (rem - 1)),
{
    let f = s[p.len() as int]; let m = s.len() - 1;
    assert(f.of(g) && s[m].of(g) && follows(p, f)) by { reveal(conf); assert forall|k: int| 0 <= k < p.len() implies apart(#[trigger] p[k], f) by { assert(p[k] == s[k]); } }
    if p.len() < m { lemma_room(g, s, p.len() as int, m); }
}
// ------------------------------------------------------------------ invariants of the tree
pub open spec fn kids(d: Seq<Branch>) -> bool {
    &&& forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d[i].child_indeces@.len() ==> i < #[trigger] d[i].child_indeces@[k] < d.len() && d[d[i].child_indeces@[k] as int].parent_idx == Some(i as usize)
    &&& forall|j: int| 0 <= j < d.len() ==> match #[trigger] d[j].parent_idx { Some(p) => p < j && d[p as int].child_indeces@.contains(j as usize), None => true }
}
pub open spec fn sibs(d: Seq<Branch>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() && d[i].parent_idx == d[j].parent_idx ==> #[trigger] d[i].val != #[trigger] d[j].val }
pub open spec fn confs(g: RawSimpleGraph, d: Seq<Branch>) -> bool { forall|i: int| 0 <= i < d.len() ==> conf(g, #[trigger] path(d, i)) }
proof fn lemma_kid(d: Seq<Branch>, i: int, k: int) requires kids(d), 0 <= i < d.len(), 0 <= k < d[i].child_indeces@.len(), i <= usize::MAX ensures i < d[i].child_indeces@[k] < d.len(), d[d[i].child_indeces@[k] as int].parent_idx == Some(i as usize) { }
proof fn lemma_confs(g: RawSimpleGraph, d: Seq<Branch>, i: int) requires confs(g, d), 0 <= i < d.len() ensures conf(g, path(d, i)) { }
// e continues d
pub open spec fn keeps(d: Seq<Branch>, e: Seq<Branch>) -> bool { d.len() <= e.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] e[i]).parent_idx == d[i].parent_idx && e[i].val == d[i].val }
proof fn lemma_path_keeps(d: Seq<Branch>, e: Seq<Branch>, i: int)
    requires keeps(d, e), 0 <= i < d.len(),
    ensures path(e, i) == path(d, i),
    decreases i,
{ assert(e[i].parent_idx == d[i].parent_idx); match d[i].parent_idx { Some(p) => if p < i { lemma_path_keeps(d, e, p as int); }, None => {} } }
// the branches listed in fin are the cells so far
pub open spec fn listed(d: Seq<Branch>, fin: Seq<usize>, s: Seq<CubeFactor>) -> bool { exists|k: int| 0 <= k < fin.len() && path(d, #[trigger] fin[k] as int) == s }
// all configurations of n factors that continue p are listed
#[verifier::opaque]
pub open spec fn complete(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, n: int, p: Seq<CubeFactor>) -> bool { forall|s: Seq<CubeFactor>| #[trigger] conf(g, s) && s.len() == n && p.is_prefix_of(s) ==> listed(d, fin, s) }
pub open spec fn cells(d: Seq<Branch>, fin: Seq<usize>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < fin.len() ==> #[trigger] fin[k] < d.len() && path(d, fin[k] as int).len() == n
    &&& forall|k: int, l: int| 0 <= k < l < fin.len() ==> #[trigger] fin[k] != #[trigger] fin[l]
}
proof fn lemma_complete_keeps(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, e: Seq<Branch>, fin2: Seq<usize>, n: int, p: Seq<CubeFactor>)
    requires complete(g, d, fin, n, p), keeps(d, e), fin.is_prefix_of(fin2), cells(d, fin, n),
    ensures complete(g, e, fin2, n, p),
{
    reveal(complete);
    assert forall|s: Seq<CubeFactor>| #[trigger] conf(g, s) && s.len() == n && p.is_prefix_of(s) implies listed(e, fin2, s) by {
        let k = choose|k: int| 0 <= k < fin.len() && path(d, #[trigger] fin[k] as int) == s;
        lemma_path_keeps(d, e, fin[k] as int); assert(fin2[k] == fin[k]);
    }
}
// number of cells of dimension i, and the dimension
pub open spec fn rank(d: Seq<Branch>, fin: Seq<usize>, i: int) -> nat
    decreases fin.len(),
{ if fin.len() == 0 { 0 } else { rank(d, fin.drop_last(), i) + if edges(path(d, fin.last() as int)) == i { 1nat } else { 0nat } } }
pub open spec fn ranks(d: Seq<Branch>, fin: Seq<usize>, r: Seq<usize>) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == rank(d, fin, i) }
pub open spec fn top(d: Seq<Branch>, fin: Seq<usize>, dim: int) -> bool {
    (forall|k: int| 0 <= k < fin.len() ==> edges(path(d, #[trigger] fin[k] as int)) <= dim) && (dim == 0 || exists|k: int| 0 <= k < fin.len() && edges(path(d, #[trigger] fin[k] as int)) == dim)
}
proof fn lemma_rank_keeps(d: Seq<Branch>, e: Seq<Branch>, fin: Seq<usize>, i: int)
    requires keeps(d, e), forall|k: int| 0 <= k < fin.len() ==> #[trigger] fin[k] < d.len(),
    ensures rank(e, fin, i) == rank(d, fin, i),
    decreases fin.len(),
{ if fin.len() > 0 { assert(fin[fin.len() - 1] < d.len()); lemma_path_keeps(d, e, fin.last() as int); lemma_rank_keeps(d, e, fin.drop_last(), i); } }
proof fn lemma_rank_len(d: Seq<Branch>, fin: Seq<usize>, i: int)
    ensures rank(d, fin, i) <= fin.len(),
    decreases fin.len(),
{ if fin.len() > 0 { lemma_rank_len(d, fin.drop_last(), i); } }
proof fn lemma_keeps_all(d: Seq<Branch>, e: Seq<Branch>, fin: Seq<usize>, n: int, r: Seq<usize>, dim: int)
    requires keeps(d, e), cells(d, fin, n), ranks(d, fin, r), top(d, fin, dim),
    ensures cells(e, fin, n), ranks(e, fin, r), top(e, fin, dim),
{
    assert forall|k: int| 0 <= k < fin.len() implies path(e, #[trigger] fin[k] as int) == path(d, fin[k] as int) by { lemma_path_keeps(d, e, fin[k] as int); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == rank(e, fin, i) by { lemma_rank_keeps(d, e, fin, i); }
}
// the cells so far are fewer than the branches
proof fn lemma_fewer(d: Seq<Branch>, fin: Seq<usize>, n: int, b: usize)
    requires cells(d, fin, n), b < d.len(), !fin.contains(b),
    ensures fin.len() < d.len(),
{
    let q = fin.push(b).map(|i: int, x: usize| x as int); let t = vstd::set_lib::set_int_range(0, d.len() as int);
    vstd::set_lib::lemma_int_range(0, d.len() as int);
    assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { let (k, l) = if i < j { (i, j) } else { (j, i) }; if l < fin.len() { assert(fin[k] != fin[l]); } else { assert(fin.contains(fin[k])); } } }
    q.unique_seq_to_set();
    assert(q.to_set().subset_of(t)) by { assert forall|y: int| q.to_set().contains(y) implies t.contains(y) by { let i = q.index_of(y); if i < fin.len() { assert(fin[i] < d.len()); } } }
    vstd::set_lib::lemma_len_subset(q.to_set(), t);
}
// a configuration is the path of at most one branch
proof fn lemma_path_inj(d: Seq<Branch>, i: int, j: int)
    requires tree(d), sibs(d), 0 <= i < d.len(), 0 <= j < d.len(), path(d, i) == path(d, j),
    ensures i == j,
    decreases i + j,
{
    assert(path(d, i).last() == d[i].val && path(d, j).last() == d[j].val);
    let pi = d[i].parent_idx; let pj = d[j].parent_idx;
    assert(match d[i].parent_idx { Some(p) => p < i, None => true }); assert(match d[j].parent_idx { Some(p) => p < j, None => true });
    match pi { Some(p) => { assert(path(d, i).len() == path(d, p as int).len() + 1 && path(d, p as int).len() > 0); match pj { Some(q) => { assert(path(d, i).drop_last() =~= path(d, p as int)); assert(path(d, j).drop_last() =~= path(d, q as int)); lemma_path_inj(d, p as int, q as int); } None => {} } }
        None => { match pj { Some(q) => { assert(path(d, q as int).len() > 0); } None => {} } } }
    if i < j { assert(d[i].val != d[j].val); } else if j < i { assert(d[j].val != d[i].val); }
}
// e is d with a new child of branch b
#[verifier::opaque]
pub open spec fn grown(d: Seq<Branch>, e: Seq<Branch>, b: int, f: CubeFactor) -> bool {
    &&& 0 <= b < d.len() <= usize::MAX && e.len() == d.len() + 1
    &&& e[b].parent_idx == d[b].parent_idx && e[b].val == d[b].val && e[b].child_indeces@ == d[b].child_indeces@.push(d.len() as usize)
    &&& e[d.len() as int].parent_idx == Some(b as usize) && e[d.len() as int].child_indeces@.len() == 0 && e[d.len() as int].val == f
    &&& forall|i: int| 0 <= i < d.len() && i != b ==> #[trigger] e[i] == d[i]
}
proof fn lemma_grown(d: Seq<Branch>, e: Seq<Branch>, b: int, f: CubeFactor)
    requires grown(d, e, b, f), tree(d),
    ensures keeps(d, e), tree(e), path(e, d.len() as int) == path(d, b).push(f), path(e, b) == path(d, b),
{
    reveal(grown);
    assert(keeps(d, e));
    assert forall|i: int| 0 <= i < e.len() implies match #[trigger] e[i].parent_idx { Some(p) => p < i, None => true } by { if i < d.len() { assert(match d[i].parent_idx { Some(p) => p < i, None => true }); } }
    lemma_path_keeps(d, e, b);
}
proof fn lemma_grown_kids(d: Seq<Branch>, e: Seq<Branch>, b: int, f: CubeFactor)
    requires grown(d, e, b, f), kids(d),
    ensures kids(e),
{
    reveal(grown);
    let c = d.len() as int;
    assert forall|i: int, k: int| 0 <= i < e.len() && 0 <= k < e[i].child_indeces@.len() implies i < #[trigger] e[i].child_indeces@[k] < e.len() && e[e[i].child_indeces@[k] as int].parent_idx == Some(i as usize) by {
        if i < c && !(i == b && k == d[b].child_indeces@.len()) { let j = d[i].child_indeces@[k]; assert(e[i].child_indeces@[k] == j); assert(e[j as int].parent_idx == d[j as int].parent_idx); }
    }
    assert forall|j: int| 0 <= j < e.len() implies match #[trigger] e[j].parent_idx { Some(p) => p < j && e[p as int].child_indeces@.contains(j as usize), None => true } by {
        if j < c { assert(e[j].parent_idx == d[j].parent_idx); match d[j].parent_idx { Some(p) => { if p == b { assert(d[b].child_indeces@.contains(j as usize)); let k = d[b].child_indeces@.index_of(j as usize); assert(e[b].child_indeces@[k] == j as usize); } else { assert(e[p as int] == d[p as int]); } } None => {} } }
        else { assert(e[b].child_indeces@[d[b].child_indeces@.len() as int] == j as usize); }
    }
}
proof fn lemma_grown_sibs(d: Seq<Branch>, e: Seq<Branch>, b: int, f: CubeFactor)
    requires grown(d, e, b, f), kids(d), sibs(d), forall|k: int| 0 <= k < d[b].child_indeces@.len() ==> d[#[trigger] d[b].child_indeces@[k] as int].val != f,
    ensures sibs(e),
{
    reveal(grown);
    assert forall|i: int, j: int| 0 <= i < j < e.len() && e[i].parent_idx == e[j].parent_idx implies #[trigger] e[i].val != #[trigger] e[j].val by {
        assert(e[i].parent_idx == d[i].parent_idx && e[i].val == d[i].val);
        if j < d.len() { assert(e[j].parent_idx == d[j].parent_idx && e[j].val == d[j].val); assert(d[i].val != d[j].val); }
        else { assert(d[i].parent_idx == Some(b as usize)); assert(d[b].child_indeces@.contains(i as usize)); let k = d[b].child_indeces@.index_of(i as usize); assert(d[b].child_indeces@[k] == i as usize); }
    }
}
proof fn lemma_child(g: RawSimpleGraph, d: Seq<Branch>, e: Seq<Branch>, b: int, f: CubeFactor)
    requires grown(d, e, b, f), tree(d), kids(d), sibs(d), confs(g, d), f.of(g), follows(path(d, b), f),
        forall|k: int| 0 <= k < d[b].child_indeces@.len() ==> d[#[trigger] d[b].child_indeces@[k] as int].val != f,
    ensures tree(e), kids(e), sibs(e), confs(g, e), keeps(d, e), path(e, d.len() as int) == path(d, b).push(f), path(e, b) == path(d, b),
{
    hide(tree); hide(kids); hide(sibs);
    lemma_grown(d, e, b, f); lemma_grown_kids(d, e, b, f); lemma_grown_sibs(d, e, b, f);
    assert forall|i: int| 0 <= i < e.len() implies conf(g, #[trigger] path(e, i)) by { reveal(grown); if i < d.len() { assert(conf(g, path(d, i))); lemma_path_keeps(d, e, i); } else { assert(conf(g, path(d, b))); lemma_conf_push(g, path(d, b), f); } }
}
// new branches: distinct possible next factors
pub open spec fn inb(nb: Seq<Branch>, f: CubeFactor) -> bool { exists|k: int| 0 <= k < nb.len() && (#[trigger] nb[k]).val == f }
pub open spec fn news(g: RawSimpleGraph, nb: Seq<Branch>, p: Seq<CubeFactor>, bv: int, par: Option<usize>) -> bool {
    &&& forall|k: int| 0 <= k < nb.len() ==> (#[trigger] nb[k]).parent_idx == par && nb[k].child_indeces@.len() == 0 && good(g, p, nb[k].val, bv)
    &&& forall|k: int, l: int| 0 <= k < l < nb.len() ==> #[trigger] nb[k].val != #[trigger] nb[l].val
}
pub open spec fn collected(g: RawSimpleGraph, nb: Seq<Branch>, it: FactorIter, p: Seq<CubeFactor>, bv: int) -> bool {
    &&& forall|k: int| 0 <= k < nb.len() ==> it.seen((#[trigger] nb[k]).val)
    &&& forall|f: CubeFactor| #[trigger] it.seen(f) && good(g, p, f, bv) ==> inb(nb, f)
}
proof fn lemma_inb_push(nb: Seq<Branch>)
    ensures forall|f: CubeFactor, b: Branch| #[trigger] inb(nb.push(b), f) <==> (inb(nb, f) || f == b.val),
{
    assert forall|f: CubeFactor, b: Branch| #[trigger] inb(nb.push(b), f) <==> (inb(nb, f) || f == b.val) by {
        if inb(nb, f) { let k = choose|k: int| 0 <= k < nb.len() && (#[trigger] nb[k]).val == f; assert(nb.push(b)[k].val == f); }
        if f == b.val { assert(nb.push(b)[nb.len() as int].val == f); }
    }
}
proof fn lemma_good(g: RawSimpleGraph, p: Seq<CubeFactor>, f: CubeFactor, bv: usize)
    requires conf(g, p), f.of(g),
    ensures
        below(f, bv as int) == (nonresp(f) || (f.disjoint(CubeFactor::Vertex(bv)) && f.lt_(CubeFactor::Vertex(bv)))),
        p.len() > 0 ==> follows(p, f) == ((forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).disjoint(f)) && p.last().lt_(f)),
{
    let b = CubeFactor::Vertex(bv);
    match f { CubeFactor::Edge(e) => { assert(b.has(e[1] as int) == (e[1] == bv)); assert(b.has(e[0] as int) == (e[0] == bv)); } CubeFactor::Vertex(v) => { assert(b.has(v as int) == (v == bv)); } }
    if p.len() > 0 {
        let l = p[p.len() - 1];
        assert(f.has(f.low())); 
        if follows(p, f) { assert(apart(l, f)); assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).disjoint(f) by { assert(apart(p[k], f)); } }
        if (forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).disjoint(f)) && l.lt_(f) {
            assert forall|k: int| 0 <= k < p.len() implies apart(#[trigger] p[k], f) by { reveal(conf); if k < p.len() - 1 { assert(apart(p[k], l)); } }
        }
    }
}
// if p and the continuations of all possible next factors are complete, so is p
proof fn lemma_children_complete(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, n: int, p: Seq<CubeFactor>, nb: Seq<Branch>)
    requires p.len() < n, forall|k: int| 0 <= k < nb.len() ==> complete(g, d, fin, n, p.push((#[trigger] nb[k]).val)),
        forall|f: CubeFactor| #[trigger] good(g, p, f, g.n_vertices - (n - p.len() - 1)) ==> inb(nb, f),
    ensures complete(g, d, fin, n, p),
{
    reveal(complete);
    assert forall|s: Seq<CubeFactor>| #[trigger] conf(g, s) && s.len() == n && p.is_prefix_of(s) implies listed(d, fin, s) by {
        lemma_next_good(g, p, s, n - p.len());
        let f = s[p.len() as int];
        assert(inb(nb, f));
        let k = choose|k: int| 0 <= k < nb.len() && (#[trigger] nb[k]).val == f;
        assert(complete(g, d, fin, n, p.push(nb[k].val)));
        assert(p.push(f).is_prefix_of(s));
    }
}
// the roots alone
proof fn lemma_init(g: RawSimpleGraph, nb: Seq<Branch>, bv: int)
    requires news(g, nb, Seq::empty(), bv, None),
    ensures tree(nb), kids(nb), sibs(nb), confs(g, nb), forall|k: int| 0 <= k < nb.len() ==> path(nb, k) == #[trigger] Seq::<CubeFactor>::empty().push(nb[k].val),
{
    assert forall|i: int| 0 <= i < nb.len() implies match #[trigger] nb[i].parent_idx { Some(p) => p < i, None => true } by { }
    assert forall|i: int| 0 <= i < nb.len() implies conf(g, #[trigger] path(nb, i)) && path(nb, i) == Seq::<CubeFactor>::empty().push(nb[i].val) by {
        let e = Seq::<CubeFactor>::empty(); assert(good(g, e, nb[i].val, bv)); assert(conf(g, e)) by { reveal(conf); } lemma_conf_push(g, e, nb[i].val); assert(path(nb, i) =~= e.push(nb[i].val));
    }
}
pub trait VLt: Sized + Copy { spec fn lt_(self, o: Self) -> bool; fn vlt(self, o: Self) -> (r: bool) ensures r == self.lt_(o); }
impl VLt for usize { open spec fn lt_(self, o: usize) -> bool { self < o } fn vlt(self, o: usize) -> (r: bool) { self < o } }
// < of the factors (PartialOrd::lt of the standard library over the factors' partial_cmp)
impl VLt for CubeFactor { open spec fn lt_(self, o: CubeFactor) -> bool { self != o && self.disjoint(o) && self.low() < o.low() } fn vlt(self, o: CubeFactor) -> (r: bool) { match factor_partial_cmp(&self, &o) { Some(Ordering::Less) => true, _ => false } } }
fn f_lt<A: VLt>(a: A, b: A) -> (r: bool) ensures r == a.lt_(b) { a.vlt(b) }
fn f_gt<A: VLt>(a: A, b: A) -> (r: bool) ensures r == b.lt_(a) { b.vlt(a) }
// the subdivided graph (SimpleGraph::subdivided_graph_from, unit subdiv)
#[verifier::external_body] pub struct GraphI { }
pub uninterp spec fn subdivided(g: GraphI, n: usize) -> RawSimpleGraph;
#[verifier::external_body]
fn subdivided_graph(g: &GraphI, n: usize) -> (r: RawSimpleGraph) ensures r.wf(), r == subdivided(*g, n) { unimplemented!() }
fn us_copy(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@
{ let mut r = Vec::new(); let mut i = 0; while i < v.len() invariant i <= v.len(), r@ == v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; proof { assert(v@.take(i as int) =~= v@.take(i - 1).push(v@[i - 1])); } } proof { assert(v@.take(i as int) =~= v@); } r }
// the branches without parent
pub open spec fn roots(d: Seq<Branch>, first: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < first.len() ==> #[trigger] first[k] < d.len() && d[first[k] as int].parent_idx is None
    &&& forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).parent_idx is None ==> first.contains(j as usize)
}
fn us_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == v@.contains(*x)
{ let mut i = 0; while i < v.len() invariant i <= v.len(), !v@.take(i as int).contains(*x) decreases v.len() - i { if v[i] == *x { assert(v@[i as int] == *x); return true; } i += 1; proof { assert(v@.take(i as int) =~= v@.take(i - 1).push(v@[i - 1])); lemma_push_contains(v@.take(i - 1), v@[i - 1]); } } proof { assert(v@.take(i as int) =~= v@); } false }
proof fn lemma_push_contains(s: Seq<usize>, x: usize) ensures forall|y: usize| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x) { assert forall|y: usize| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x) by { if s.contains(y) { let k = s.index_of(y); assert(s.push(x)[k] == y); } if y == x { assert(s.push(x)[s.len() as int] == y); } } }
fn cf_copy(v: &Vec<CubeFactor>) -> (r: Vec<CubeFactor>) ensures r@ == v@
{ let mut r = Vec::new(); let mut i = 0; while i < v.len() invariant i <= v.len(), r@ == v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; proof { assert(v@.take(i as int) =~= v@.take(i - 1).push(v@[i - 1])); } } proof { assert(v@.take(i as int) =~= v@); } r }
// b lists the elements of a in some order
pub open spec fn reorder(q: Seq<int>, n: int) -> bool { q.len() == n && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] q[k] < n) && (forall|k: int, l: int| 0 <= k < l < n ==> #[trigger] q[k] != #[trigger] q[l]) }
pub open spec fn permuted(a: Seq<CubeFactor>, b: Seq<CubeFactor>) -> bool { a.len() == b.len() && exists|q: Seq<int>| #[trigger] reorder(q, a.len() as int) && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[q[k]] }
pub open spec fn pairwise(a: Seq<CubeFactor>) -> bool { forall|k: int, l: int| 0 <= k < a.len() && 0 <= l < a.len() && k != l ==> (#[trigger] a[k]).disjoint(#[trigger] a[l]) }
// the sort of the standard library, by < of the factors
#[verifier::external_body]
fn sort_factors(v: &mut Vec<CubeFactor>)
    requires pairwise(old(v)@),
    ensures permuted(old(v)@, final(v)@), forall|k: int, l: int| 0 <= k < l < final(v)@.len() ==> (#[trigger] final(v)@[k]).low() <= (#[trigger] final(v)@[l]).low(),
{ unimplemented!() }
fn cf_reverse(v: &mut Vec<CubeFactor>) ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == old(v)@[old(v)@.len() - 1 - k]
{ let n = v.len(); let mut r = Vec::new(); let mut i = n; while i > 0 invariant n == v.len(), v@ == old(v)@, i <= n, r@.len() == n - i, forall|k: int| 0 <= k < n - i ==> #[trigger] r@[k] == v@[n - 1 - k] decreases i { i -= 1; r.push(v[i]); } *v = r; }
fn fc_copy(x: &(bool, Vec<CubeFactor>)) -> (r: (bool, Vec<CubeFactor>)) ensures r.0 == x.0, r.1@ == x.1@ { (x.0, cf_copy(&x.1)) }
// the ancestor of branch i at depth k
pub open spec fn anc(d: Seq<Branch>, i: int, k: int) -> int
    decreases i,
{ if path(d, i).len() <= k { i } else { match d[i].parent_idx { Some(p) => if 0 <= p < i { anc(d, p as int, k) } else { i }, None => i } } }
proof fn lemma_anc(d: Seq<Branch>, i: int, k: int)
    requires tree(d), 0 <= i < d.len(), 1 <= k <= path(d, i).len(),
    ensures 0 <= anc(d, i, k) < d.len(), path(d, anc(d, i, k)) == path(d, i).take(k), d[anc(d, i, k)].val == path(d, i)[k - 1], k == 1 ==> d[anc(d, i, k)].parent_idx is None,
    decreases i,
{
    assert(match d[i].parent_idx { Some(p) => p < i, None => true });
    if path(d, i).len() > k { match d[i].parent_idx { Some(p) => { lemma_anc(d, p as int, k); assert(path(d, i).take(k) =~= path(d, p as int).take(k)); } None => {} } }
    else { assert(path(d, i).take(k) =~= path(d, i)); match d[i].parent_idx { Some(p) => { lemma_path_len(d, p as int); } None => {} } }
}
proof fn lemma_path_len(d: Seq<Branch>, i: int) requires tree(d), 0 <= i < d.len() ensures path(d, i).len() > 0 { }
proof fn lemma_root(d: Seq<Branch>, fr: Seq<usize>, k: int) requires roots(d, fr), 0 <= k < fr.len() ensures fr[k] < d.len(), d[fr[k] as int].parent_idx is None { }
proof fn lemma_step(d: Seq<Branch>, i: int) requires tree(d), 0 <= i < d.len() ensures match d[i].parent_idx { Some(p) => path(d, i) == path(d, p as int).push(d[i].val), None => path(d, i) == seq![d[i].val] }
{ assert(match d[i].parent_idx { Some(p) => p < i, None => true }); }
proof fn lemma_no_root(d: Seq<Branch>, fr: Seq<usize>, cell: Seq<CubeFactor>)
    requires tree(d), roots(d, fr), cell.len() > 0, d.len() <= usize::MAX, forall|k: int| 0 <= k < fr.len() ==> d[#[trigger] fr[k] as int].val != cell[0],
    ensures forall|i: int| 0 <= i < d.len() ==> #[trigger] path(d, i) != cell,
{ assert forall|i: int| 0 <= i < d.len() implies #[trigger] path(d, i) != cell by { if path(d, i) == cell { lemma_anc(d, i, 1); let r = anc(d, i, 1); assert(fr.contains(r as usize)); let k = fr.index_of(r as usize); assert(d[fr[k] as int].val != cell[0]); } } }
proof fn lemma_no_child(d: Seq<Branch>, b: int, cell: Seq<CubeFactor>, i: int)
    requires tree(d), kids(d), sibs(d), 1 <= i < cell.len(), 0 <= b < d.len() <= usize::MAX, path(d, b) == cell.take(i), forall|k: int| 0 <= k < d[b].child_indeces@.len() ==> d[#[trigger] d[b].child_indeces@[k] as int].val != cell[i],
    ensures forall|j: int| 0 <= j < d.len() ==> #[trigger] path(d, j) != cell,
{
    hide(sibs); hide(kids);
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] path(d, j) != cell by { if path(d, j) == cell {
        lemma_anc(d, j, i + 1); let r = anc(d, j, i + 1); lemma_step(d, r); assert(path(d, r).drop_last() =~= cell.take(i));
        match d[r].parent_idx { Some(q) => { assert(q < r) by { assert(match d[r].parent_idx { Some(p) => p < r, None => true }); } assert(path(d, r).drop_last() =~= path(d, q as int)); lemma_path_inj(d, q as int, b); lemma_in_kids(d, r); let k = d[b].child_indeces@.index_of(r as usize); assert(d[d[b].child_indeces@[k] as int].val != cell[i]); } None => { } }
    } }
}
proof fn lemma_in_kids(d: Seq<Branch>, j: int) requires kids(d), 0 <= j < d.len() ensures match d[j].parent_idx { Some(p) => p < j && d[p as int].child_indeces@.contains(j as usize), None => true }
{ assert(match d[j].parent_idx { Some(p) => p < j && d[p as int].child_indeces@.contains(j as usize), None => true }); }
// the faces of a configuration with their signs, the smaller end of each edge first, before they are sorted
pub open spec fn raw(c: Seq<CubeFactor>, m: int) -> Seq<(bool, Seq<CubeFactor>)>
    decreases m,
{
    if m <= 0 { Seq::empty() } else { match c[m - 1] { CubeFactor::Edge(e) => { let s = edges(c.take(m - 1)) % 2 == 0; raw(c, m - 1).push((s, c.update(m - 1, CubeFactor::Vertex(e[0])))).push((!s, c.update(m - 1, CubeFactor::Vertex(e[1])))) }, CubeFactor::Vertex(_) => raw(c, m - 1) } }
}
pub open spec fn allof(g: RawSimpleGraph, s: Seq<CubeFactor>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).of(g) }
proof fn lemma_raw(g: RawSimpleGraph, c: Seq<CubeFactor>, m: int, k: int)
    requires conf(g, c), 0 <= m <= c.len(), 0 <= k < raw(c, m).len(),
    ensures pairwise(raw(c, m)[k].1), raw(c, m)[k].1.len() == c.len(), allof(g, raw(c, m)[k].1),
    decreases m,
{
    if m > 0 {
        let q = raw(c, m - 1);
        if k < q.len() { lemma_raw(g, c, m - 1, k); } else { match c[m - 1] { CubeFactor::Edge(e) => {
            assert(c[m - 1].of(g)) by { reveal(conf); }
            lemma_face(g, c, m - 1, e[0]); lemma_face(g, c, m - 1, e[1]);
        } _ => {} } }
    }
}
proof fn lemma_face(g: RawSimpleGraph, c: Seq<CubeFactor>, i: int, v: usize)
    requires conf(g, c), 0 <= i < c.len(), c[i] is Edge, c[i].has(v as int),
    ensures pairwise(c.update(i, CubeFactor::Vertex(v))), allof(g, c.update(i, CubeFactor::Vertex(v))),
{
    reveal(conf);
    let s = c.update(i, CubeFactor::Vertex(v));
    assert(c[i].of(g));
    assert forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < s.len() && k != l implies (#[trigger] s[k]).disjoint(#[trigger] s[l]) by {
        if k < l { assert(apart(c[k], c[l])); } else { assert(apart(c[l], c[k])); }
        assert forall|x: int| !(s[k].has(x) && #[trigger] s[l].has(x)) by { assert(s[k].has(x) ==> c[k].has(x)); assert(s[l].has(x) ==> c[l].has(x)); if k < l { assert(!(c[k].has(x) && c[l].has(x))); } else { assert(!(c[l].has(x) && c[k].has(x))); } }
    }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).of(g) by { assert(c[k].of(g)); }
}
proof fn lemma_sorted(g: RawSimpleGraph, a: Seq<CubeFactor>, b: Seq<CubeFactor>)
    requires pairwise(a), allof(g, a), permuted(a, b), forall|k: int, l: int| 0 <= k < l < b.len() ==> (#[trigger] b[k]).low() <= (#[trigger] b[l]).low(),
    ensures conf(g, b), b.len() == a.len(),
{
    reveal(conf);
    let q = choose|q: Seq<int>| #[trigger] reorder(q, a.len() as int) && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[q[k]];
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).of(g) by { assert(b[k] == a[q[k]]); }
    assert forall|k: int, l: int| 0 <= k < l < b.len() implies apart(#[trigger] b[k], #[trigger] b[l]) by {
        assert(q[k] != q[l]); assert(b[k] == a[q[k]] && b[l] == a[q[l]]); assert(a[q[k]].disjoint(a[q[l]])); assert(b[k].has(b[k].low())); assert(b[l].has(b[l].low()));
    }
}
// a configuration is the path of a cell, and of nothing else
proof fn lemma_listed(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, n: int, s: Seq<CubeFactor>)
    requires complete(g, d, fin, n, Seq::empty()), conf(g, s), s.len() == n, cells(d, fin, n), tree(d), sibs(d),
    ensures exists|i: int| 0 <= i < d.len() && #[trigger] path(d, i) == s, forall|i: int| 0 <= i < d.len() && #[trigger] path(d, i) == s ==> fin.contains(i as usize),
{
    assert(listed(d, fin, s)) by { reveal(complete); assert(Seq::<CubeFactor>::empty().is_prefix_of(s)); }
    let k = choose|k: int| 0 <= k < fin.len() && path(d, #[trigger] fin[k] as int) == s;
    assert(fin[k] < d.len() && path(d, fin[k] as int) == s);
    assert forall|i: int| 0 <= i < d.len() && #[trigger] path(d, i) == s implies fin.contains(i as usize) by { lemma_path_inj(d, i, fin[k] as int); }
}
// x is a face with its sign, as the cell of the sorted face
pub open spec fn bound1(cx: CubicalCplx, f: (bool, Seq<CubeFactor>), x: (bool, usize)) -> bool { x.0 == f.0 && x.1 < cx.data@.len() && cx.final_branch_indeces@.contains(x.1) && permuted(f.1, path(cx.data@, x.1 as int)) }
pub open spec fn bounds(cx: CubicalCplx, c: Seq<CubeFactor>, b: Seq<(bool, usize)>) -> bool { b.len() == raw(c, c.len() as int).len() && forall|k: int| 0 <= k < b.len() ==> bound1(cx, raw(c, c.len() as int)[k], #[trigger] b[k]) }
fn br_copy(b: &Branch) -> (r: Branch) requires b.child_indeces@.len() == 0 ensures r.parent_idx == b.parent_idx, r.val == b.val, r.child_indeces@.len() == 0 { Branch { parent_idx: b.parent_idx, child_indeces: Vec::new(), val: b.val } }

impl CubicalCplx {
    // everything but the completeness of the cells, for configurations of n points
    pub open spec fn wf(&self, n: int) -> bool {
        &&& self.factor_pool.wf() && tree(self.data@) && kids(self.data@) && sibs(self.data@) && confs(self.factor_pool, self.data@)
        &&& cells(self.data@, self.final_branch_indeces@, n) && ranks(self.data@, self.final_branch_indeces@, self.ranks_of_chain_cplx@) && top(self.data@, self.final_branch_indeces@, self.dim as int)
        &&& 0 < n <= self.factor_pool.n_vertices && self.ranks_of_chain_cplx@.len() == n + 1
    }
}
impl<'a> CubicalFactorIter<'a> {
    pub open spec fn wf(&self) -> bool { tree(self.cplx.data@) && (!self.is_done ==> self.curr_idx < self.cplx.data@.len()) }
    // the factors still to come, last first
    pub open spec fn rest(&self) -> Seq<CubeFactor> { if self.is_done { Seq::empty() } else { path(self.cplx.data@, self.curr_idx as int) } }
//@fn <CubicalFactorIter as Iterator>::next Self::Item=CubeFactor
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cplx == old(self).cplx,
        match r { Some(f) => old(self).rest().len() > 0 && f == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(), None => old(self).rest().len() == 0 && *final(self) == *old(self) },
//@.exit
    proof { let d = self.cplx.data@; if !old(self).is_done { assert(d[old(self).curr_idx as int].parent_idx == self.cplx.data@[old(self).curr_idx as int].parent_idx);
        match d[old(self).curr_idx as int].parent_idx { Some(p) => { assert(path(d, p as int).push(d[old(self).curr_idx as int].val).drop_last() =~= path(d, p as int)); }, None => { assert(seq![d[old(self).curr_idx as int].val].drop_last() =~= Seq::empty()); } } } }
//@end
}
impl<'a> CubicalCplx {
//@fn CubicalCplx::factor_iter
//@.spec
    ensures r.cplx == self, r.curr_idx == idx, !r.is_done,
//@end
}
impl CubicalCplx {
//@fn CubicalCplx::dim_of
//@.spec
    requires tree(self.data@), branch_idx < self.data@.len(),
    ensures r == edges(path(self.data@, branch_idx as int)), r <= path(self.data@, branch_idx as int).len() <= branch_idx + 1,
    decreases branch_idx,
//@.entry
    proof { let d = self.data@; assert(self.data.len() <= usize::MAX); assert(d[branch_idx as int].parent_idx == self.data@[branch_idx as int].parent_idx); let f = d[branch_idx as int].val;
        match d[branch_idx as int].parent_idx { Some(p) => { lemma_edges_push(path(d, p as int), f); } None => { lemma_edges_push(Seq::<CubeFactor>::empty(), f); assert(Seq::<CubeFactor>::empty().push(f) =~= seq![f]); } } }
//@end
//@fn CubicalCplx::n_cells
//@.spec
    ensures r == self.final_branch_indeces@.len(),
//@end
//@fn CubicalCplx::udc iters=factor_pool.iter op:<=f_lt acc0=Vec<Branch> paramtype:graph=&GraphI call:SimpleGraph::subdivided_graph_from=subdivided_graph maypanic method:clone=&us_copy
//@.spec
    requires n_marked_points > 0, n_marked_points <= subdivided(*graph, n_marked_points).n_vertices,
    ensures r.wf(n_marked_points as int), r.factor_pool == subdivided(*graph, n_marked_points),
        complete(r.factor_pool, r.data@, r.final_branch_indeces@, n_marked_points as int, Seq::empty()),
        roots(r.data@, r.first_branch_indeces@),
//@.entry
    hide(kids); hide(sibs); hide(follows); hide(below); hide(confs); hide(tree);
    let ghost g = subdivided(*graph, n_marked_points); let ghost n = n_marked_points as int; let ghost p = Seq::<CubeFactor>::empty(); let ghost bv = g.n_vertices - (n_marked_points - 1);
    proof { assert(conf(g, p)) by { reveal(conf); } }
//@.loop 0 before
    proof { lemma_tri_small(g.n_vertices as int, g.n_vertices as int); let m = g.n_vertices as int; assert(m >= 2); assert(m < usize::MAX) by(nonlinear_arith) requires m >= 2, m * m <= usize::MAX; assert(n_marked_points <= m); }
//@.loop 0
    invariant n_marked_points <= g.n_vertices < usize::MAX, g == factor_pool, g.wf(), boundary_vertex == CubeFactor::Vertex(bv as usize), 0 <= bv <= usize::MAX, p.len() == 0, conf(g, p),
        __it0.wf(), __it0.e_iter.graph == g, news(g, __a0@, p, bv, None), collected(g, __a0@, __it0, p, bv),
    ensures forall|f: CubeFactor| #[trigger] good(g, p, f, bv) ==> inb(__a0@, f),
    decreases __it0.v_iter.iter.end - __it0.v_iter.iter.start, if __it0.e_iter.is_done { 0int } else { 1int }, g.n_vertices - __it0.e_iter.curr.1, __it0.e_iter.curr.0,
//@.loop 0 begin
    proof { lemma_inb_push(__a0@); lemma_good(g, p, __x0, bv as usize); assert(follows(p, __x0)) by { reveal(follows); } }
//@.loop 1 before
    let ghost nb = data@; let ghost m0 = data@.len();
//@.loop 1
    invariant __h1 == m0, __i1 <= __h1, n_marked_points < usize::MAX, __a1@.len() == __i1, forall|k: int| 0 <= k < __i1 ==> #[trigger] __a1@[k] == k,
    decreases __h1 - __i1,
//@.loop 2 before
    let ghost first = first_branch_indeces@;
    proof {
        let d = cplx.data@; let fin = cplx.final_branch_indeces@;
        assert(d == nb && fin =~= Seq::empty() && cplx.first_branch_indeces@ == first);
        assert forall|k: int| 0 <= k < m0 implies path(d, k) == seq![#[trigger] nb[k].val] by { assert(d[k].parent_idx is None); }
        lemma_init(g, nb, bv);
        assert forall|i: int| 0 <= i < cplx.ranks_of_chain_cplx@.len() implies #[trigger] cplx.ranks_of_chain_cplx@[i] == rank(d, fin, i) by { }
        assert(cplx.wf(n));
    }
//@.loop 2
    invariant g == cplx.factor_pool, cplx.wf(n), n == n_marked_points, __n2 == first.len(), first.len() == m0, __i2 <= __n2, first == first_branch_indeces@, cplx.first_branch_indeces@ == first, nb.len() == m0, m0 <= cplx.data@.len(),
        forall|k: int| 0 <= k < m0 ==> #[trigger] first[k] == k,
        news(g, nb, p, bv, None), forall|f: CubeFactor| #[trigger] good(g, p, f, bv) ==> inb(nb, f), p.len() == 0, bv == g.n_vertices - (n_marked_points - 1),
        keeps(nb, cplx.data@), forall|i: int| __i2 <= i < m0 ==> (#[trigger] cplx.data@[i]).child_indeces@.len() == 0,
        forall|i: int| m0 <= i < cplx.data@.len() ==> #[trigger] cplx.data@[i].parent_idx is Some,
        forall|k: int| 0 <= k < cplx.final_branch_indeces@.len() ==> #[trigger] cplx.final_branch_indeces@[k] >= m0 || cplx.final_branch_indeces@[k] < __i2,
        forall|k: int| 0 <= k < __i2 ==> complete(g, cplx.data@, cplx.final_branch_indeces@, n, p.push((#[trigger] nb[k]).val)),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost d1 = cplx.data@; let ghost f1 = cplx.final_branch_indeces@; let ghost q = p.push(nb[__j2 as int].val);
    proof { lemma_path_keeps(nb, d1, __j2 as int); assert(nb[__j2 as int].parent_idx is None); assert(path(d1, __j2 as int) =~= q); if n == 1 && f1.contains(__j2) { let k = f1.index_of(__j2); assert(f1[k] == __j2); } }
//@.loop 2 end
    proof {
        let d3 = cplx.data@; let f3 = cplx.final_branch_indeces@;
        assert forall|i: int| 0 <= i < nb.len() implies (#[trigger] d3[i]).parent_idx == nb[i].parent_idx && d3[i].val == nb[i].val by { assert(d1[i].parent_idx == nb[i].parent_idx && d1[i].val == nb[i].val); }
        assert forall|i: int| m0 <= i < d3.len() implies #[trigger] d3[i].parent_idx is Some by { if i < d1.len() { assert(d3[i].parent_idx == d1[i].parent_idx); } }
        assert forall|k: int| 0 <= k < __i2 implies complete(g, d3, f3, n, p.push((#[trigger] nb[k]).val)) by { if k < __j2 { lemma_complete_keeps(g, d1, f1, d3, f3, n, p.push(nb[k].val)); } }
        assert forall|k: int| 0 <= k < f3.len() implies #[trigger] f3[k] >= m0 || f3[k] < __i2 by { if k < f1.len() { assert(f3[k] == f1[k]); } }
        assert forall|i: int| __i2 <= i < m0 implies (#[trigger] d3[i]).child_indeces@.len() == 0 by { assert(d3[i] == d1[i]); }
    }
//@.exit
    proof {
        let d = __ret.data@;
        lemma_children_complete(g, d, __ret.final_branch_indeces@, n, p, nb);
        assert forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).parent_idx is None implies first.contains(j as usize) by { if j >= m0 { assert(d[j].parent_idx is Some); } assert(first[j] == j as usize); }
    }
//@end
//@fn CubicalCplx::expand iters=self.factor_pool.iter,factor_iter op:<=f_lt op:>=f_gt own2=br_copy acc0=Vec<Branch>
//@.spec
    requires branch_idx < old(self).data@.len(), old(self).wf((path(old(self).data@, branch_idx as int).len() + n_rem_factors) as int), old(self).data@[branch_idx as int].child_indeces@.len() == 0,
        n_rem_factors == 0 ==> !old(self).final_branch_indeces@.contains(branch_idx),
    ensures final(self).wf((path(old(self).data@, branch_idx as int).len() + n_rem_factors) as int),
        final(self).factor_pool == old(self).factor_pool, final(self).first_branch_indeces == old(self).first_branch_indeces,
        keeps(old(self).data@, final(self).data@), forall|i: int| 0 <= i < old(self).data@.len() && i != branch_idx ==> #[trigger] final(self).data@[i] == old(self).data@[i],
        forall|i: int| old(self).data@.len() <= i < final(self).data@.len() ==> #[trigger] final(self).data@[i].parent_idx is Some,
        old(self).final_branch_indeces@.is_prefix_of(final(self).final_branch_indeces@),
        forall|k: int| old(self).final_branch_indeces@.len() <= k < final(self).final_branch_indeces@.len() ==> #[trigger] final(self).final_branch_indeces@[k] >= old(self).data@.len() || (n_rem_factors == 0 && final(self).final_branch_indeces@[k] == branch_idx),
        complete(old(self).factor_pool, final(self).data@, final(self).final_branch_indeces@, (path(old(self).data@, branch_idx as int).len() + n_rem_factors) as int, path(old(self).data@, branch_idx as int)),
    decreases n_rem_factors,
//@.entry
    hide(kids); hide(sibs); hide(follows); hide(below); hide(confs); hide(tree);
    let ghost me = *self; let ghost g = self.factor_pool; let ghost p = path(self.data@, branch_idx as int); let ghost n = p.len() + n_rem_factors; let ghost bv = g.n_vertices - (n_rem_factors - 1);
    proof {
        lemma_rank_len(self.data@, self.final_branch_indeces@, edges(p) as int); assert(self.final_branch_indeces.len() <= usize::MAX);
        if n_rem_factors == 0 { lemma_fewer(self.data@, self.final_branch_indeces@, n as int, branch_idx); assert(self.data.len() <= usize::MAX); }
    }
//@.ret 0
    proof {
        let d = self.data@; let fin = self.final_branch_indeces@; let f0 = me.final_branch_indeces@;
        assert(fin.drop_last() =~= f0 && fin.last() == branch_idx);
        assert(keeps(me.data@, d));
        assert forall|k: int, l: int| 0 <= k < l < fin.len() implies #[trigger] fin[k] != #[trigger] fin[l] by { if l == f0.len() { assert(fin[k] == f0[k]); assert(f0.contains(fin[k])); } else { assert(f0[k] != f0[l]); } }
        assert forall|k: int| 0 <= k < fin.len() implies #[trigger] fin[k] < d.len() && path(d, fin[k] as int).len() == n by { if k < f0.len() { assert(fin[k] == f0[k]); } }
        assert(fin[f0.len() as int] == branch_idx);
        assert(top(d, fin, self.dim as int)) by {
            assert forall|k: int| 0 <= k < fin.len() implies edges(path(d, #[trigger] fin[k] as int)) <= self.dim by { if k < f0.len() { assert(fin[k] == f0[k]); } }
            if self.dim == me.dim && me.dim != 0 { let k = choose|k: int| 0 <= k < f0.len() && edges(path(d, #[trigger] f0[k] as int)) == me.dim; assert(fin[k] == f0[k]); }
        }
        assert(complete(g, d, fin, n as int, p)) by { reveal(complete);
            assert forall|s: Seq<CubeFactor>| #[trigger] conf(g, s) && s.len() == n && p.is_prefix_of(s) implies listed(d, fin, s) by { assert(s =~= p); assert(path(d, fin[f0.len() as int] as int) == s); } }
    }
//@.at dim_of 0
    proof { assert(self.final_branch_indeces.len() <= usize::MAX); }
//@.loop 0
    invariant *self == me, me.wf(n as int), g == self.factor_pool, p == path(self.data@, branch_idx as int), branch_idx < self.data@.len(), n_rem_factors > 0, boundary_vertex == CubeFactor::Vertex(bv as usize), 0 <= bv <= usize::MAX,
        __it0.wf(), __it0.e_iter.graph == self.factor_pool, news(g, __a0@, p, bv, Some(branch_idx)), collected(g, __a0@, __it0, p, bv),
    ensures forall|f: CubeFactor| #[trigger] good(g, p, f, bv) ==> inb(__a0@, f),
    decreases __it0.v_iter.iter.end - __it0.v_iter.iter.start, if __it0.e_iter.is_done { 0int } else { 1int }, g.n_vertices - __it0.e_iter.curr.1, __it0.e_iter.curr.0,
//@.loop 0 begin
    proof { lemma_inb_push(__a0@); lemma_confs(g, self.data@, branch_idx as int); lemma_good(g, p, __x0, bv as usize); }
//@.loop 1
    invariant __it1.wf(), *__it1.cplx == me, __it1.rest() == p.take(__it1.rest().len() as int), __it1.rest().len() <= p.len(),
        __a1 ==> forall|k: int| __it1.rest().len() <= k < p.len() ==> (#[trigger] p[k]).disjoint(factor),
        !__a1 ==> exists|k: int| 0 <= k < p.len() && !(#[trigger] p[k]).disjoint(factor),
    ensures __a1 ==> forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).disjoint(factor),
    decreases __it1.rest().len(),
//@.loop 2 before
    let ghost nb = new_branches@; let ghost m0 = me.data@.len();
//@.loop 2
    invariant g == self.factor_pool, self.wf(n as int), nb == new_branches@, __n2 == nb.len(), __i2 <= __n2, m0 == me.data@.len(), g == me.factor_pool, n == p.len() + n_rem_factors, n_rem_factors > 0, branch_idx < m0, me.data@ == old(self).data@,
        bv == g.n_vertices - (n_rem_factors - 1), p == path(self.data@, branch_idx as int), p == path(me.data@, branch_idx as int), me == *old(self),
        news(g, nb, p, bv, Some(branch_idx)), forall|f: CubeFactor| #[trigger] good(g, p, f, bv) ==> inb(nb, f),
        self.first_branch_indeces == me.first_branch_indeces, keeps(me.data@, self.data@), forall|i: int| 0 <= i < m0 && i != branch_idx ==> #[trigger] self.data@[i] == me.data@[i],
        forall|i: int| m0 <= i < self.data@.len() ==> #[trigger] self.data@[i].parent_idx is Some,
        me.final_branch_indeces@.is_prefix_of(self.final_branch_indeces@),
        forall|k: int| me.final_branch_indeces@.len() <= k < self.final_branch_indeces@.len() ==> #[trigger] self.final_branch_indeces@[k] >= m0,
        self.data@[branch_idx as int].child_indeces@.len() == __i2,
        forall|k: int| 0 <= k < __i2 ==> self.data@[#[trigger] self.data@[branch_idx as int].child_indeces@[k] as int].val == nb[k].val,
        forall|k: int| 0 <= k < __i2 ==> complete(g, self.data@, self.final_branch_indeces@, n as int, p.push((#[trigger] nb[k]).val)),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost d1 = self.data@; let ghost f1 = self.final_branch_indeces@; let ghost mut d2 = self.data@;
    proof { assert(self.data.len() <= usize::MAX); }
//@.at expand 0
    proof {
        d2 = self.data@; let f = nb[__j2 as int].val; let c = d1.len() as int;
        assert(grown(d1, d2, branch_idx as int, f)) by { reveal(grown); }
        assert forall|k: int| 0 <= k < d1[branch_idx as int].child_indeces@.len() implies d1[#[trigger] d1[branch_idx as int].child_indeces@[k] as int].val != f by { assert(nb[k].val != nb[__j2 as int].val); }
        lemma_child(g, d1, d2, branch_idx as int, f);
        lemma_keeps_all(d1, d2, f1, n as int, self.ranks_of_chain_cplx@, self.dim as int);
        if n_rem_factors == 1 && f1.contains(c as usize) { let k = f1.index_of(c as usize); assert(f1[k] < d1.len()); }
    }
//@.loop 2 end
    proof {
        let d3 = self.data@; let f3 = self.final_branch_indeces@; let c = d1.len() as int; let b = branch_idx as int;
        lemma_path_keeps(d2, d3, b);
        assert(d3[b] == d2[b]);
        assert forall|i: int| 0 <= i < m0 implies (#[trigger] d3[i]).parent_idx == me.data@[i].parent_idx && d3[i].val == me.data@[i].val by { assert(d2[i].parent_idx == d1[i].parent_idx && d2[i].val == d1[i].val); }
        assert forall|i: int| 0 <= i < m0 && i != branch_idx implies #[trigger] d3[i] == me.data@[i] by { assert(d2[i] == d1[i]); }
        assert forall|i: int| m0 <= i < d3.len() implies #[trigger] d3[i].parent_idx is Some by { if i < d2.len() { assert(d3[i].parent_idx == d2[i].parent_idx); if i < c { assert(d2[i].parent_idx == d1[i].parent_idx); } } }
        assert(keeps(d1, d3)) by { assert forall|i: int| 0 <= i < d1.len() implies (#[trigger] d3[i]).parent_idx == d1[i].parent_idx && d3[i].val == d1[i].val by { assert(d2[i].parent_idx == d1[i].parent_idx && d2[i].val == d1[i].val); } }
        assert forall|k: int| 0 <= k < __i2 implies complete(g, d3, f3, n as int, p.push((#[trigger] nb[k]).val)) by { if k < __j2 { lemma_complete_keeps(g, d1, f1, d3, f3, n as int, p.push(nb[k].val)); } }
        assert forall|k: int| 0 <= k < __i2 implies d3[#[trigger] d3[b].child_indeces@[k] as int].val == nb[k].val by { if k < __j2 { assert(d3[b].child_indeces@[k] == d1[b].child_indeces@[k]); let j = d1[b].child_indeces@[k] as int; lemma_kid(d1, b, k); assert(d3[j].val == d1[j].val); } }
        assert forall|k: int| me.final_branch_indeces@.len() <= k < f3.len() implies #[trigger] f3[k] >= m0 by { if k < f1.len() { assert(f3[k] == f1[k]); } }
    }
//@.exit
    proof { lemma_children_complete(g, self.data@, self.final_branch_indeces@, n as int, p, nb); }
//@end
//@fn CubicalCplx::get_cell_from_idx iters=factor_iter method:contains=&us_contains method:reverse=~cf_reverse
//@.spec
    requires tree(self.data@), idx < self.data@.len(),
    ensures r is Some <==> self.final_branch_indeces@.contains(idx), r is Some ==> r->0@ == path(self.data@, idx as int),
//@.loop 0 before
    let ghost p = path(self.data@, idx as int);
//@.loop 0
    invariant __it0.wf(), __it0.cplx == self, __it0.rest() == p.take(__it0.rest().len() as int), __it0.rest().len() + __a0@.len() == p.len(),
        forall|k: int| 0 <= k < __a0@.len() ==> #[trigger] __a0@[k] == p[p.len() - 1 - k], p == path(self.data@, idx as int),
    ensures __it0.rest().len() == 0,
    decreases __it0.rest().len(),
//@.exit
    proof { if __ret is Some { assert(__ret->0@ =~= path(self.data@, idx as int)); } }
//@end
//@fn CubicalCplx::get_index_of op:===f_eq acc0=Option<&usize> acc2=Option<&usize>
//@.spec
    requires tree(self.data@), kids(self.data@), sibs(self.data@), roots(self.data@, self.first_branch_indeces@), cell@.len() > 0,
    ensures match r { Some(i) => i < self.data@.len() && path(self.data@, i as int) == cell@, None => forall|i: int| 0 <= i < self.data@.len() ==> #[trigger] path(self.data@, i) != cell@ },
//@.entry
    hide(tree); hide(kids); hide(sibs); hide(roots); hide(path);
    let ghost d = self.data@; let ghost fr = self.first_branch_indeces@;
    proof { assert(self.data.len() <= usize::MAX); }
//@.loop 0
    invariant d == self.data@, fr == self.first_branch_indeces@, __n0 == fr.len(), __i0 <= __n0, roots(d, fr),
        __a0 is None ==> forall|k: int| 0 <= k < __i0 ==> d[#[trigger] fr[k] as int].val != cell@[0],
        __a0 is Some ==> *__a0->0 < d.len() && d[*__a0->0 as int].parent_idx is None && d[*__a0->0 as int].val == cell@[0],
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { lemma_root(d, fr, __j0 as int); }
//@.ret 0
    proof { lemma_no_root(d, fr, cell@); }
//@.loop 1 before
    proof { lemma_step(d, branch_idx as int); assert(cell@.take(1) =~= seq![cell@[0]]); }
//@.loop 1
    invariant d == self.data@, __h1 == cell@.len(), 1 <= __i1 <= __h1, branch_idx < d.len(), path(d, branch_idx as int) == cell@.take(__i1 as int), tree(d), kids(d), sibs(d),
    decreases __h1 - __i1,
//@.loop 1 begin
    let ghost b = branch_idx as int;
//@.loop 2
    invariant d == self.data@, branch_idx < d.len(), branch_idx == b, __n2 == d[branch_idx as int].child_indeces@.len(), __i2 <= __n2, 1 <= i < cell@.len(), kids(d), tree(d),
        __a2 is None ==> forall|k: int| 0 <= k < __i2 ==> d[#[trigger] d[branch_idx as int].child_indeces@[k] as int].val != cell@[i as int],
        __a2 is Some ==> *__a2->0 < d.len() && d[*__a2->0 as int].parent_idx == Some(branch_idx) && d[*__a2->0 as int].val == cell@[i as int],
    decreases __n2 - __i2,
//@.loop 2 begin
    proof { lemma_kid(d, branch_idx as int, __j2 as int); }
//@.ret 1
    proof { lemma_no_child(d, b, cell@, i as int); }
//@.loop 1 end
    proof { assert(cell@.take(__i1 as int) =~= cell@.take(i as int).push(cell@[i as int])); lemma_step(d, branch_idx as int); }
//@.exit
    proof { assert(cell@.take(cell@.len() as int) =~= cell@); }
//@end
//@fn CubicalCplx::contains
//@.spec
    requires tree(self.data@), kids(self.data@), sibs(self.data@), roots(self.data@, self.first_branch_indeces@), cell@.len() > 0,
    ensures r <==> exists|i: int| 0 <= i < self.data@.len() && #[trigger] path(self.data@, i) == cell@,
//@end
//@fn CubicalCplx::get_boundaries_of method:clone=&cf_copy method:sort=~sort_factors own2=fc_copy let:boundaries=Vec<(bool,Vec<CubeFactor>)> acc2=Vec<(bool,usize)>
//@.spec
    requires branch_idx < self.data@.len(), self.wf(path(self.data@, branch_idx as int).len() as int), roots(self.data@, self.first_branch_indeces@), self.final_branch_indeces@.contains(branch_idx),
        complete(self.factor_pool, self.data@, self.final_branch_indeces@, path(self.data@, branch_idx as int).len() as int, Seq::empty()),
    ensures bounds(*self, path(self.data@, branch_idx as int), r@),
//@.entry
    hide(tree); hide(kids); hide(sibs); hide(roots); hide(path); hide(pairwise); hide(allof); hide(permuted); hide(confs); hide(ranks); hide(top);
    let ghost c = path(self.data@, branch_idx as int); let ghost g = self.factor_pool; let ghost fin = self.final_branch_indeces@; let ghost d = self.data@;
    proof { lemma_confs(g, d, branch_idx as int); lemma_path_len(d, branch_idx as int); }
//@.loop 0
    invariant c == cell@, __n0 == c.len(), __i0 <= __n0, boundaries@.len() == raw(c, __i0 as int).len(), sign == (edges(c.take(__i0 as int)) % 2 == 0),
        forall|k: int| 0 <= k < boundaries@.len() ==> (#[trigger] boundaries@[k]).0 == raw(c, __i0 as int)[k].0 && boundaries@[k].1@ == raw(c, __i0 as int)[k].1,
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { assert(c.take(__i0 as int) =~= c.take(__j0 as int).push(c[__j0 as int])); lemma_edges_push(c.take(__j0 as int), c[__j0 as int]); }
//@.loop 1 before
    let ghost rw = raw(c, c.len() as int);
    proof { assert forall|k: int| 0 <= k < rw.len() implies #[trigger] pairwise(rw[k].1) && rw[k].1.len() == c.len() && allof(g, rw[k].1) by { lemma_raw(g, c, c.len() as int, k); } }
//@.loop 1
    invariant __n1 == rw.len(), boundaries@.len() == rw.len(), __i1 <= __n1,
        forall|k: int| 0 <= k < rw.len() ==> (#[trigger] boundaries@[k]).0 == rw[k].0,
        forall|k: int| __i1 <= k < rw.len() ==> (#[trigger] boundaries@[k]).1@ == rw[k].1,
        forall|k: int| 0 <= k < __i1 ==> (#[trigger] boundaries@[k]).1@.len() == c.len() && permuted(rw[k].1, boundaries@[k].1@) && conf(g, boundaries@[k].1@),
    decreases __n1 - __i1,
//@.loop 1 begin
    let ghost b0 = boundaries@;
    proof { assert(pairwise(rw[__j1 as int].1)); }
//@.loop 1 end
    proof { lemma_sorted(g, rw[__j1 as int].1, boundaries@[__j1 as int].1@); }
//@.loop 2
    invariant __n2 == rw.len(), boundaries@.len() == rw.len(), __i2 <= __n2, __a2@.len() == __i2,
        forall|k: int| 0 <= k < rw.len() ==> (#[trigger] boundaries@[k]).0 == rw[k].0 && boundaries@[k].1@.len() == c.len() && permuted(rw[k].1, boundaries@[k].1@) && conf(g, boundaries@[k].1@),
        forall|k: int| 0 <= k < __i2 ==> bound1(*self, rw[k], #[trigger] __a2@[k]),
    decreases __n2 - __i2,
//@.loop 2 begin
    proof { lemma_listed(g, d, fin, c.len() as int, boundaries@[__j2 as int].1@); }
//@end
}
// ------------------------------------------------------------------ the boundary matrices
// the k-th cell is number num(k) among the cells of its dimension; bas(q): the cells of dimension q in this order
pub open spec fn edim(d: Seq<Branch>, fin: Seq<usize>, k: int) -> int { edges(path(d, fin[k] as int)) as int }
pub open spec fn num(d: Seq<Branch>, fin: Seq<usize>, k: int) -> int { rank(d, fin.take(k), edim(d, fin, k)) as int }
pub open spec fn bas(d: Seq<Branch>, fin: Seq<usize>, q: int) -> Seq<Seq<CubeFactor>>
    decreases fin.len(),
{ if fin.len() == 0 { Seq::empty() } else if edges(path(d, fin.last() as int)) == q { bas(d, fin.drop_last(), q).push(path(d, fin.last() as int)) } else { bas(d, fin.drop_last(), q) } }
pub open spec fn isbas(v: Seq<Cube>, b: Seq<Seq<CubeFactor>>) -> bool { v.len() == b.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0@ == b[i] }
proof fn lemma_none(d: Seq<Branch>, fin: Seq<usize>) ensures forall|q: int| #[trigger] rank(d, fin.take(0), q) == 0, forall|q: int| #[trigger] bas(d, fin.take(0), q) == Seq::<Seq<CubeFactor>>::empty() { }
proof fn lemma_take(d: Seq<Branch>, fin: Seq<usize>, m: int, q: int)
    requires 0 <= m < fin.len(),
    ensures rank(d, fin.take(m + 1), q) == rank(d, fin.take(m), q) + if edim(d, fin, m) == q { 1nat } else { 0nat },
        bas(d, fin.take(m + 1), q) == (if edim(d, fin, m) == q { bas(d, fin.take(m), q).push(path(d, fin[m] as int)) } else { bas(d, fin.take(m), q) }),
{ let t = fin.take(m + 1); assert(t.drop_last() =~= fin.take(m)); assert(t.last() == fin[m]); }
proof fn lemma_bas_len(d: Seq<Branch>, fin: Seq<usize>, m: int, q: int)
    requires 0 <= m <= fin.len(),
    ensures bas(d, fin.take(m), q).len() == rank(d, fin.take(m), q) <= m,
    decreases m,
{ if m > 0 { lemma_bas_len(d, fin, m - 1, q); lemma_take(d, fin, m - 1, q); } }
proof fn lemma_rank_mono(d: Seq<Branch>, fin: Seq<usize>, k: int, m: int, q: int)
    requires 0 <= k <= m <= fin.len(),
    ensures rank(d, fin.take(k), q) <= rank(d, fin.take(m), q),
    decreases m,
{ if k < m { lemma_rank_mono(d, fin, k, m - 1, q); lemma_take(d, fin, m - 1, q); } }
proof fn lemma_num(d: Seq<Branch>, fin: Seq<usize>, k: int, m: int)
    requires 0 <= k < m <= fin.len(),
    ensures 0 <= num(d, fin, k) < rank(d, fin.take(m), edim(d, fin, k)) == bas(d, fin.take(m), edim(d, fin, k)).len(), bas(d, fin.take(m), edim(d, fin, k))[num(d, fin, k)] == path(d, fin[k] as int),
    decreases m,
{
    let q = edim(d, fin, k);
    lemma_take(d, fin, m - 1, q); lemma_bas_len(d, fin, m - 1, q); lemma_bas_len(d, fin, m, q);
    if k < m - 1 { lemma_num(d, fin, k, m - 1); }
}
proof fn lemma_num_lt(d: Seq<Branch>, fin: Seq<usize>, k: int, l: int)
    requires 0 <= k < l < fin.len(), edim(d, fin, k) == edim(d, fin, l),
    ensures num(d, fin, k) < num(d, fin, l),
{ lemma_num(d, fin, k, l); }
proof fn lemma_num_ne(d: Seq<Branch>, fin: Seq<usize>, k: int, l: int)
    requires 0 <= k < fin.len(), 0 <= l < fin.len(), k != l, edim(d, fin, k) == edim(d, fin, l),
    ensures num(d, fin, k) != num(d, fin, l),
{ if k < l { lemma_num_lt(d, fin, k, l); } else { lemma_num_lt(d, fin, l, k); } }
proof fn lemma_onto(d: Seq<Branch>, fin: Seq<usize>, m: int, q: int, i: int) -> (k: int)
    requires 0 <= m <= fin.len(), 0 <= i < rank(d, fin.take(m), q),
    ensures 0 <= k < m, edim(d, fin, k) == q, num(d, fin, k) == i,
    decreases m,
{ if m == 0 { assert(fin.take(0) =~= Seq::empty()); 0 } else { lemma_take(d, fin, m - 1, q); if i < rank(d, fin.take(m - 1), q) { lemma_onto(d, fin, m - 1, q, i) } else { m - 1 } } }
// the coefficient of the cell b in the boundary of a cell with the faces r, from the first t of them
pub open spec fn incid(r: Seq<(bool, Seq<CubeFactor>)>, b: Seq<CubeFactor>, t: int) -> int
    decreases t,
{ if t <= 0 { 0 } else { incid(r, b, t - 1) + if permuted(r[t - 1].1, b) { if r[t - 1].0 { 1int } else { -1 } } else { 0 } } }
proof fn lemma_incid(r: Seq<(bool, Seq<CubeFactor>)>, b: Seq<CubeFactor>, t: int)
    requires t >= 0,
    ensures -t <= incid(r, b, t) <= t,
    decreases t,
{ if t > 0 { lemma_incid(r, b, t - 1); } }
proof fn lemma_raw_len(c: Seq<CubeFactor>, m: int)
    ensures raw(c, m).len() <= if m <= 0 { 0 } else { 2 * m },
    decreases m,
{ if m > 0 { lemma_raw_len(c, m - 1); } }
pub open spec fn e1(f: CubeFactor) -> int { if f is Edge { 1 } else { 0 } }
proof fn lemma_edges_update(c: Seq<CubeFactor>, i: int, f: CubeFactor)
    requires 0 <= i < c.len(),
    ensures edges(c.update(i, f)) == edges(c) - e1(c[i]) + e1(f),
    decreases c.len(),
{
    let u = c.update(i, f);
    if i == c.len() - 1 { assert(u.drop_last() =~= c.drop_last()); } else { lemma_edges_update(c.drop_last(), i, f); assert(u.drop_last() =~= c.drop_last().update(i, f)); }
}
proof fn lemma_edges_remove(c: Seq<CubeFactor>, i: int)
    requires 0 <= i < c.len(),
    ensures edges(c.remove(i)) == edges(c) - e1(c[i]),
    decreases c.len(),
{
    let u = c.remove(i);
    if i == c.len() - 1 { assert(u =~= c.drop_last()); } else { lemma_edges_remove(c.drop_last(), i); assert(u.drop_last() =~= c.drop_last().remove(i)); assert(u.last() == c.last()); }
}
// edges_perm: a permutation keeps the number of edges
proof fn lemma_edges_perm(a: Seq<CubeFactor>, b: Seq<CubeFactor>, q: Seq<int>)
    requires a.len() == b.len(), reorder(q, a.len() as int), forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[q[k]],
    ensures edges(a) == edges(b),
    decreases a.len(),
{
    let n = a.len() as int;
    if n > 0 {
        let i = q[n - 1];
        let a2 = a.remove(i); let b2 = b.drop_last();
        let q2 = Seq::new((n - 1) as nat, |k: int| if q[k] < i { q[k] } else { q[k] - 1 });
        assert forall|k: int| 0 <= k < n - 1 implies 0 <= #[trigger] q2[k] < n - 1 && b2[k] == a2[q2[k]] by { assert(0 <= q[k] < n); assert(q[k] != q[n - 1]); assert(b[k] == a[q[k]]); }
        assert forall|k: int, l: int| 0 <= k < l < n - 1 implies #[trigger] q2[k] != #[trigger] q2[l] by { assert(q[k] != q[l]); assert(q[k] != q[n - 1]); assert(q[l] != q[n - 1]); }
        lemma_edges_perm(a2, b2, q2); lemma_edges_remove(a, i); assert(b[n - 1] == a[q[n - 1]]);
    }
}
proof fn lemma_edges_permuted(a: Seq<CubeFactor>, b: Seq<CubeFactor>)
    requires permuted(a, b),
    ensures edges(a) == edges(b),
{ let q = choose|q: Seq<int>| #[trigger] reorder(q, a.len() as int) && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[q[k]]; lemma_edges_perm(a, b, q); }
proof fn lemma_raw_edges(c: Seq<CubeFactor>, m: int, k: int)
    requires 0 <= m <= c.len(), 0 <= k < raw(c, m).len(),
    ensures edges(raw(c, m)[k].1) == edges(c) - 1,
    decreases m,
{
    if m > 0 { let q = raw(c, m - 1); if k < q.len() { lemma_raw_edges(c, m - 1, k); } else { match c[m - 1] { CubeFactor::Edge(e) => { lemma_edges_update(c, m - 1, CubeFactor::Vertex(e[0])); lemma_edges_update(c, m - 1, CubeFactor::Vertex(e[1])); } _ => {} } } }
}
// a permutation has an inverse
proof fn lemma_reorder_onto(q: Seq<int>, n: int, x: int) -> (k: int)
    requires reorder(q, n), 0 <= x < n,
    ensures 0 <= k < n, q[k] == x,
{
    let s = q.to_set(); let t = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(q[i] != q[j]); } else { assert(q[j] != q[i]); } } }
    q.unique_seq_to_set();
    assert(s.subset_of(t)) by { assert forall|y: int| s.contains(y) implies t.contains(y) by { let i = q.index_of(y); assert(q[i] == y); } }
    vstd::set_lib::lemma_subset_equality(s, t);
    assert(t.contains(x)); assert(q.contains(x));
    q.index_of(x)
}
proof fn lemma_perm_has(a: Seq<CubeFactor>, b: Seq<CubeFactor>, c: Seq<CubeFactor>, k: int) -> (l: int)
    requires permuted(a, b), permuted(a, c), 0 <= k < a.len(),
    ensures 0 <= l < a.len(), c[l] == b[k],
{
    let n = a.len() as int;
    let p = choose|q: Seq<int>| #[trigger] reorder(q, a.len() as int) && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[q[k]];
    let q = choose|q: Seq<int>| #[trigger] reorder(q, a.len() as int) && forall|k: int| 0 <= k < a.len() ==> #[trigger] c[k] == a[q[k]];
    assert(b[k] == a[p[k]]);
    let l = lemma_reorder_onto(q, n, p[k]);
    assert(c[l] == a[q[l]]);
    l
}
// the factors of a configuration come in one order only
proof fn lemma_perm_once(g: RawSimpleGraph, a: Seq<CubeFactor>, b: Seq<CubeFactor>, c: Seq<CubeFactor>, m: int)
    requires permuted(a, b), permuted(a, c), conf(g, b), conf(g, c), 0 <= m <= a.len(),
    ensures b.take(m) == c.take(m),
    decreases m,
{
    if m > 0 {
        lemma_perm_once(g, a, b, c, m - 1);
        let k = m - 1;
        let l = lemma_perm_has(a, b, c, k); let r = lemma_perm_has(a, c, b, k);
        assert(l >= k) by { if l < k { assert(b.take(k)[l] == c.take(k)[l]); assert(b[l] == b[k]); lemma_low(g, b, l, k); } }
        assert(r >= k) by { if r < k { assert(b.take(k)[r] == c.take(k)[r]); assert(c[r] == c[k]); lemma_low(g, c, r, k); } }
        if l > k { lemma_low(g, c, k, l); if r > k { lemma_low(g, b, k, r); } assert(false); }
        assert(b.take(m) =~= b.take(k).push(b[k])); assert(c.take(m) =~= c.take(k).push(c[k]));
    }
}
proof fn lemma_low(g: RawSimpleGraph, b: Seq<CubeFactor>, k: int, l: int) requires conf(g, b), 0 <= k < l < b.len() ensures b[k].low() < b[l].low() { reveal(conf); assert(apart(b[k], b[l])); }
// the smaller end of an edge is a face, and needs no sorting
proof fn lemma_small_face(g: RawSimpleGraph, c: Seq<CubeFactor>, i: int)
    requires conf(g, c), 0 <= i < c.len(), c[i] is Edge,
    ensures conf(g, c.update(i, CubeFactor::Vertex(c[i]->Edge_0[0]))), edges(c.update(i, CubeFactor::Vertex(c[i]->Edge_0[0]))) == edges(c) - 1,
{
    let v = c[i]->Edge_0[0]; let s = c.update(i, CubeFactor::Vertex(v));
    assert(c[i].of(g)) by { reveal(conf); }
    lemma_face(g, c, i, v); lemma_edges_update(c, i, CubeFactor::Vertex(v));
    reveal(conf);
    assert forall|k: int, l: int| 0 <= k < l < s.len() implies apart(#[trigger] s[k], #[trigger] s[l]) by { assert(s[k].disjoint(s[l])); assert(apart(c[k], c[l])); }
}
proof fn lemma_has_edge(c: Seq<CubeFactor>) -> (i: int)
    requires edges(c) > 0,
    ensures 0 <= i < c.len(), c[i] is Edge,
    decreases c.len(),
{ if c.last() is Edge { c.len() - 1 } else { lemma_has_edge(c.drop_last()) } }
proof fn lemma_rank_pos(d: Seq<Branch>, fin: Seq<usize>, k: int)
    requires 0 <= k < fin.len(),
    ensures rank(d, fin, edim(d, fin, k)) > 0,
{ lemma_num(d, fin, k, fin.len() as int); assert(fin.take(fin.len() as int) =~= fin); }
// there are cells of every dimension up to the top one
proof fn lemma_down(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, n: int, k: int, q: int)
    requires complete(g, d, fin, n, Seq::empty()), confs(g, d), cells(d, fin, n), 0 <= k < fin.len(), 0 <= q <= edim(d, fin, k),
    ensures rank(d, fin, q) > 0,
    decreases edim(d, fin, k),
{
    if q == edim(d, fin, k) { lemma_rank_pos(d, fin, k); } else {
        let c = path(d, fin[k] as int);
        assert(fin[k] < d.len() && c.len() == n);
        lemma_confs(g, d, fin[k] as int);
        let i = lemma_has_edge(c);
        lemma_small_face(g, c, i);
        let s = c.update(i, CubeFactor::Vertex(c[i]->Edge_0[0]));
        assert(listed(d, fin, s)) by { reveal(complete); assert(Seq::<CubeFactor>::empty().is_prefix_of(s)); }
        let l = choose|l: int| 0 <= l < fin.len() && path(d, #[trigger] fin[l] as int) == s;
        lemma_down(g, d, fin, n, l, q);
    }
}
proof fn lemma_ranks_pos(cx: CubicalCplx, n: int, q: int)
    requires cx.wf(n), complete(cx.factor_pool, cx.data@, cx.final_branch_indeces@, n, Seq::empty()), 0 <= q <= cx.dim,
    ensures rank(cx.data@, cx.final_branch_indeces@, q) > 0, cx.dim <= n,
{
    let g = cx.factor_pool; let d = cx.data@; let fin = cx.final_branch_indeces@;
    if cx.dim == 0 {
        let s = Seq::new(n as nat, |k: int| CubeFactor::Vertex(k as usize));
        assert(conf(g, s)) by { reveal(conf); assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).of(g) by { } assert forall|k: int, l: int| 0 <= k < l < s.len() implies apart(#[trigger] s[k], #[trigger] s[l]) by { } }
        assert(listed(d, fin, s)) by { reveal(complete); assert(Seq::<CubeFactor>::empty().is_prefix_of(s)); }
        let l = choose|l: int| 0 <= l < fin.len() && path(d, #[trigger] fin[l] as int) == s;
        lemma_down(g, d, fin, n, l, 0);
    } else {
        let k = choose|k: int| 0 <= k < fin.len() && edges(path(d, #[trigger] fin[k] as int)) == cx.dim;
        lemma_down(g, d, fin, n, k, q);
        assert(path(d, fin[k] as int).len() == n); lemma_edges_le(path(d, fin[k] as int));
    }
}
proof fn lemma_edges_le(s: Seq<CubeFactor>) ensures edges(s) <= s.len() decreases s.len() { if s.len() > 0 { lemma_edges_le(s.drop_last()); } }
// the matrix of dimension q, after the cells before `done` and t faces of that one
pub open spec fn coef(d: Seq<Branch>, fin: Seq<usize>, l: int, k: int, done: int, t: int) -> int {
    let c = path(d, fin[k] as int); let r = raw(c, c.len() as int);
    incid(r, path(d, fin[l] as int), if k < done { r.len() as int } else if k == done { t } else { 0 })
}
#[verifier::opaque]
pub open spec fn filled(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int, done: int, t: int) -> bool {
    forall|l: int, k: int| 0 <= l < fin.len() && 0 <= k < fin.len() && edim(d, fin, k) == q && edim(d, fin, l) == q - 1 ==> m.v(#[trigger] num(d, fin, l), #[trigger] num(d, fin, k)) == coef(d, fin, l, k, done, t)
}
pub open spec fn shaped(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int) -> bool { m.wf() && m.nr() == (if q == 0 { 1 } else { rank(d, fin, q - 1) as int }) && m.nc() == rank(d, fin, q) }
pub open spec fn zeros(m: Mat) -> bool { forall|i: int, j: int| m.has(i, j) ==> #[trigger] m.v(i, j) == 0 }
proof fn lemma_in(d: Seq<Branch>, fin: Seq<usize>, k: int) requires 0 <= k < fin.len() ensures 0 <= num(d, fin, k) < rank(d, fin, edim(d, fin, k)), bas(d, fin, edim(d, fin, k))[num(d, fin, k)] == path(d, fin[k] as int), bas(d, fin, edim(d, fin, k)).len() == rank(d, fin, edim(d, fin, k)) { lemma_num(d, fin, k, fin.len() as int); assert(fin.take(fin.len() as int) =~= fin); }
proof fn lemma_fill_zero(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int)
    requires shaped(d, fin, m, q), q > 0, zeros(m),
    ensures filled(d, fin, m, q, 0, 0),
{
    reveal(filled);
    assert forall|l: int, k: int| 0 <= l < fin.len() && 0 <= k < fin.len() && edim(d, fin, k) == q && edim(d, fin, l) == q - 1 implies m.v(#[trigger] num(d, fin, l), #[trigger] num(d, fin, k)) == coef(d, fin, l, k, 0, 0) by { lemma_in(d, fin, l); lemma_in(d, fin, k); assert(m.has(num(d, fin, l), num(d, fin, k))); }
}
proof fn lemma_fill_next(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int, done: int, t: int)
    requires filled(d, fin, m, q, done, t), 0 <= done < fin.len(), edim(d, fin, done) == q ==> t == raw(path(d, fin[done] as int), path(d, fin[done] as int).len() as int).len(),
    ensures filled(d, fin, m, q, done + 1, 0),
{ reveal(filled);
    assert forall|l: int, k: int| 0 <= l < fin.len() && 0 <= k < fin.len() && edim(d, fin, k) == q && edim(d, fin, l) == q - 1 implies m.v(#[trigger] num(d, fin, l), #[trigger] num(d, fin, k)) == coef(d, fin, l, k, done + 1, 0) by { assert(m.v(num(d, fin, l), num(d, fin, k)) == coef(d, fin, l, k, done, t)); } }
proof fn lemma_fill_step(g: RawSimpleGraph, d: Seq<Branch>, fin: Seq<usize>, n: int, m: Mat, m2: Mat, q: int, done: int, t: int, l0: int)
    requires filled(d, fin, m, q, done, t), 0 <= done < fin.len(), edim(d, fin, done) == q, 0 <= l0 < fin.len(), edim(d, fin, l0) == q - 1, tree(d), sibs(d), confs(g, d), cells(d, fin, n), q > 0,
        shaped(d, fin, m, q), 0 <= t < raw(path(d, fin[done] as int), path(d, fin[done] as int).len() as int).len(),
        permuted(raw(path(d, fin[done] as int), path(d, fin[done] as int).len() as int)[t].1, path(d, fin[l0] as int)),
        m2.same(&m), m2.v(num(d, fin, l0), num(d, fin, done)) == m.v(num(d, fin, l0), num(d, fin, done)) + if raw(path(d, fin[done] as int), path(d, fin[done] as int).len() as int)[t].0 { 1int } else { -1 },
        forall|k: int, l: int| m.has(k, l) && !(k == num(d, fin, l0) && l == num(d, fin, done)) ==> #[trigger] m2.v(k, l) == m.v(k, l),
    ensures filled(d, fin, m2, q, done, t + 1), shaped(d, fin, m2, q),
{
    hide(tree); hide(sibs); hide(path); hide(raw); hide(permuted); hide(rank); reveal(filled);
    let r = raw(path(d, fin[done] as int), path(d, fin[done] as int).len() as int);
    assert forall|l: int, k: int| 0 <= l < fin.len() && 0 <= k < fin.len() && edim(d, fin, k) == q && edim(d, fin, l) == q - 1 implies m2.v(#[trigger] num(d, fin, l), #[trigger] num(d, fin, k)) == coef(d, fin, l, k, done, t + 1) by {
        lemma_in(d, fin, l); lemma_in(d, fin, k); assert(m.has(num(d, fin, l), num(d, fin, k)));
        assert(m.v(num(d, fin, l), num(d, fin, k)) == coef(d, fin, l, k, done, t));
        if k != done { lemma_num_ne(d, fin, k, done); } else if l != l0 {
            lemma_num_ne(d, fin, l, l0);
            let a = path(d, fin[l] as int); let b = path(d, fin[l0] as int);
            assert(fin[l] < d.len() && fin[l0] < d.len());
            if permuted(r[t].1, a) { lemma_perm_len(r[t].1, a); lemma_perm_len(r[t].1, b); lemma_confs(g, d, fin[l] as int); lemma_confs(g, d, fin[l0] as int); lemma_perm_once(g, r[t].1, a, b, a.len() as int); assert(a.take(a.len() as int) =~= a && b.take(a.len() as int) =~= b);
                lemma_path_inj(d, fin[l] as int, fin[l0] as int); if l < l0 { assert(fin[l] != fin[l0]); } else { assert(fin[l0] != fin[l]); } }
        }
    }
}
proof fn lemma_perm_len(a: Seq<CubeFactor>, b: Seq<CubeFactor>) requires permuted(a, b) ensures a.len() == b.len() { }
// the boundary maps: for every dimension the matrix of the boundary and the cells that number its columns
pub open spec fn boundary_maps_of(cx: CubicalCplx, r: Seq<(Mat, Vec<Cube>)>) -> bool {
    let d = cx.data@; let fin = cx.final_branch_indeces@;
    &&& r.len() == cx.dim + 1
    &&& forall|q: int| 0 <= q < r.len() ==> isbas((#[trigger] r[q]).1@, bas(d, fin, q))
    &&& r[0].0.wf() && r[0].0.nr() == 1 && r[0].0.nc() == bas(d, fin, 0).len() && zeros(r[0].0)
    &&& forall|q: int| 1 <= q < r.len() ==> is_boundary(d, fin, #[trigger] r[q].0, q)
}
pub open spec fn is_boundary(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int) -> bool {
    &&& m.wf() && m.nr() == bas(d, fin, q - 1).len() && m.nc() == bas(d, fin, q).len()
    &&& forall|i: int, j: int| m.has(i, j) ==> #[trigger] m.v(i, j) == incid(raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int), bas(d, fin, q - 1)[i], raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int).len() as int)
}
pub trait VTake: Sized { spec fn eqv(self, o: Self) -> bool; fn vtake(&self) -> (r: Self) ensures r.eqv(*self); }
impl VTake for Mat { open spec fn eqv(self, o: Mat) -> bool { self.mem@ == o.mem@ && self.base == o.base && self.meta == o.meta } fn vtake(&self) -> (r: Mat) { Mat { mem: v_clone(&self.mem), base: self.base, meta: self.meta } } }
impl VTake for Vec<Cube> { open spec fn eqv(self, o: Vec<Cube>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < o@.len() ==> (#[trigger] self@[i]).0@ == o@[i].0@ }
    fn vtake(&self) -> (r: Vec<Cube>) { let mut r: Vec<Cube> = Vec::new(); let mut i = 0; while i < self.len() invariant i <= self.len(), r.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0@ == self@[j].0@ decreases self.len() - i { r.push(Cube(cf_copy(&self[i].0))); i += 1; } r } }
// into_iter: the consumed element
fn v_take<T: VTake>(x: &T) -> (r: T) ensures r.eqv(*x) { x.vtake() }
proof fn lemma_mat_eqv(a: Mat, b: Mat)
    requires b.eqv(a),
    ensures b.wf() == a.wf(), b.nr() == a.nr(), b.nc() == a.nc(), forall|i: int, j: int| #[trigger] b.v(i, j) == a.v(i, j),
{ reveal(Mat::wf); reveal(Mat::v); assert(forall|i: int, j: int| b.addr(i, j) == a.addr(i, j)); }
proof fn lemma_boundary_eqv(d: Seq<Branch>, fin: Seq<usize>, a: Mat, b: Mat, q: int)
    requires b.wf() == a.wf(), b.nr() == a.nr(), b.nc() == a.nc(), forall|i: int, j: int| #[trigger] b.v(i, j) == a.v(i, j), is_boundary(d, fin, a, q),
    ensures is_boundary(d, fin, b, q),
{ hide(raw); hide(bas); hide(incid); assert forall|i: int, j: int| b.has(i, j) implies #[trigger] b.v(i, j) == incid(raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int), bas(d, fin, q - 1)[i], raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int).len() as int) by { assert(a.has(i, j)); assert(b.v(i, j) == a.v(i, j)); } }
proof fn lemma_filled(d: Seq<Branch>, fin: Seq<usize>, m: Mat, q: int)
    requires q > 0, shaped(d, fin, m, q), filled(d, fin, m, q, fin.len() as int, 0),
    ensures is_boundary(d, fin, m, q),
{
    hide(raw); hide(rank); hide(bas); hide(incid);
    let f = fin.len() as int;
    assert(fin.take(f) =~= fin);
    lemma_bas_len(d, fin, f, q); lemma_bas_len(d, fin, f, q - 1);
    assert forall|i: int, j: int| m.has(i, j) implies #[trigger] m.v(i, j) == incid(raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int), bas(d, fin, q - 1)[i], raw(bas(d, fin, q)[j], bas(d, fin, q)[j].len() as int).len() as int) by {
        let l = lemma_onto(d, fin, f, q - 1, i); let k = lemma_onto(d, fin, f, q, j);
        lemma_in(d, fin, l); lemma_in(d, fin, k);
        assert(m.v(num(d, fin, l), num(d, fin, k)) == coef(d, fin, l, k, f, 0)) by { reveal(filled); }
    }
}
impl Cube {
//@fn <Cube as From<Vec<CubeFactor>>>::from name=from
//@.spec
    ensures r.0 == value,
//@end
}
impl CubicalCplx {
//@fn <CubicalCplx as Complex>::boundary_map Self::Cell=Cube Matrix<i64>=Mat call:Matrix::zero=Mat::zero matidx let:numbering=Vec<usize> let:counter=Vec<usize> acc4=Vec<(Mat,Vec<Cube>)> own4=v_take
//@.spec
    requires self.final_branch_indeces@.len() > 0, exists|n: int| #[trigger] self.wf(n) && complete(self.factor_pool, self.data@, self.final_branch_indeces@, n, Seq::empty()), roots(self.data@, self.first_branch_indeces@),
    ensures boundary_maps_of(*self, r@),
//@.entry
    hide(tree); hide(kids); hide(sibs); hide(roots); hide(path); hide(permuted); hide(confs); hide(rank); hide(bas); hide(raw); hide(edges);
    let ghost g = self.factor_pool; let ghost fin = self.final_branch_indeces@; let ghost d = self.data@;
    let ghost n = choose|n: int| #[trigger] self.wf(n) && complete(self.factor_pool, self.data@, self.final_branch_indeces@, n, Seq::empty());
    proof { assert(self.data.len() <= usize::MAX); lemma_ranks_pos(*self, n, 0); assert(self.factor_pool.wf()); lemma_tri_small(g.n_vertices as int, g.n_vertices as int); let m = g.n_vertices as int; assert(m < 0x1_0000_0000) by(nonlinear_arith) requires m * m <= usize::MAX, m >= 0; assert(self.dim < usize::MAX); }
//@.loop 0 before
    proof { lemma_none(d, fin); }
//@.loop 0
    invariant d == self.data@, fin == self.final_branch_indeces@, __n0 == fin.len(), __i0 <= __n0, self.wf(n), numbering@.len() == d.len(), counter@.len() == self.dim + 1, basis@.len() == self.dim + 1,
        forall|k: int| 0 <= k < __i0 ==> numbering@[#[trigger] fin[k] as int] == num(d, fin, k),
        forall|q: int| 0 <= q <= self.dim ==> #[trigger] counter@[q] == rank(d, fin.take(__i0 as int), q),
        forall|q: int| 0 <= q <= self.dim ==> isbas((#[trigger] basis@[q])@, bas(d, fin.take(__i0 as int), q)),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost num0 = numbering@; let ghost cnt0 = counter@; let ghost bas0 = basis@; let ghost w = edim(d, fin, __j0 as int);
    proof { let k = __j0 as int; assert(fin[k] < d.len()); assert(edges(path(d, fin[k] as int)) <= self.dim); lemma_bas_len(d, fin, k, w); assert(fin.contains(fin[k])); }
//@.loop 0 end
    proof {
        let k = __j0 as int;
        assert forall|l: int| 0 <= l < __i0 implies numbering@[#[trigger] fin[l] as int] == num(d, fin, l) by { if l < k { assert(fin[l] != fin[k]); } }
        assert forall|q: int| 0 <= q <= self.dim implies #[trigger] counter@[q] == rank(d, fin.take(__i0 as int), q) by { lemma_take(d, fin, k, q); assert(cnt0[q] == rank(d, fin.take(k), q)); }
        assert forall|q: int| 0 <= q <= self.dim implies isbas((#[trigger] basis@[q])@, bas(d, fin.take(__i0 as int), q)) by { lemma_take(d, fin, k, q); assert(isbas(bas0[q]@, bas(d, fin.take(k), q))); }
    }
//@.loop 1 before
    proof { assert(fin.take(fin.len() as int) =~= fin); }
//@.loop 1
    invariant d == self.data@, fin == self.final_branch_indeces@, g == self.factor_pool, __h1 == self.dim, 1 <= __i1 <= __h1 + 1, self.wf(n), complete(g, d, fin, n, Seq::empty()), boundary_maps@.len() == __i1, self.dim < usize::MAX,
        forall|q: int| 0 <= q < __i1 ==> shaped(d, fin, #[trigger] boundary_maps@[q], q) && zeros(boundary_maps@[q]),
    decreases __h1 + 1 - __i1,
//@.loop 1 begin
    proof { lemma_ranks_pos(*self, n, __j1 - 1); lemma_ranks_pos(*self, n, __j1 as int); }
//@.loop 2 before
    proof { assert forall|q: int| 1 <= q <= self.dim implies filled(d, fin, #[trigger] boundary_maps@[q], q, 0, 0) by { lemma_fill_zero(d, fin, boundary_maps@[q], q); } }
//@.loop 2
    invariant d == self.data@, fin == self.final_branch_indeces@, g == self.factor_pool, __n2 == fin.len(), __i2 <= __n2, self.wf(n), complete(g, d, fin, n, Seq::empty()), roots(d, self.first_branch_indeces@), boundary_maps@.len() == self.dim + 1,
        numbering@.len() == d.len(), forall|k: int| 0 <= k < fin.len() ==> numbering@[#[trigger] fin[k] as int] == num(d, fin, k), n < 0x1_0000_0000,
        zeros(boundary_maps@[0]), forall|q: int| 0 <= q <= self.dim ==> shaped(d, fin, #[trigger] boundary_maps@[q], q),
        forall|q: int| 1 <= q <= self.dim ==> filled(d, fin, #[trigger] boundary_maps@[q], q, __i2 as int, 0),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost bm0 = boundary_maps@; let ghost w = edim(d, fin, __j2 as int); let ghost c = path(d, fin[__j2 as int] as int); let ghost rw = raw(c, c.len() as int);
    proof { assert(fin[__j2 as int] < d.len() && c.len() == n); assert(edges(path(d, fin[__j2 as int] as int)) <= self.dim); assert(fin.contains(fin[__j2 as int])); lemma_raw_len(c, n); lemma_in(d, fin, __j2 as int); }
//@.loop 2 end
    proof { assert forall|q: int| 1 <= q <= self.dim implies filled(d, fin, #[trigger] boundary_maps@[q], q, __i2 as int, 0) by {
        assert(filled(d, fin, bm0[q], q, __j2 as int, 0)); if q == w { lemma_fill_next(d, fin, boundary_maps@[q], q, __j2 as int, rw.len() as int); } else { assert(boundary_maps@[q] == bm0[q]); lemma_fill_next(d, fin, boundary_maps@[q], q, __j2 as int, 0); } } }
//@.loop 3
    invariant d == self.data@, fin == self.final_branch_indeces@, g == self.factor_pool, self.wf(n), boundary_maps@.len() == self.dim + 1, __j2 < fin.len(), idx == fin[__j2 as int], dim == w, 0 < dim <= self.dim, w == edim(d, fin, __j2 as int), c == path(d, fin[__j2 as int] as int), rw == raw(c, c.len() as int), c.len() == n,
        __n3 == boundary_indeces@.len(), __i3 <= __n3, bounds(*self, c, boundary_indeces@), rw.len() <= 2 * n, n < 0x1_0000_0000,
        numbering@.len() == d.len(), forall|k: int| 0 <= k < fin.len() ==> numbering@[#[trigger] fin[k] as int] == num(d, fin, k),
        zeros(boundary_maps@[0]), forall|q: int| 0 <= q <= self.dim ==> shaped(d, fin, #[trigger] boundary_maps@[q], q),
        forall|q: int| 0 <= q <= self.dim && q != w ==> #[trigger] boundary_maps@[q] == bm0[q],
        filled(d, fin, boundary_maps@[w], w, __j2 as int, __i3 as int),
    decreases __n3 - __i3,
//@.loop 3 begin
    let ghost m0 = boundary_maps@[w]; let ghost t = __j3 as int; let ghost bi = boundary_indeces@[__j3 as int]; let ghost l0 = fin.index_of(bi.1);
    proof {
        assert(bound1(*self, rw[t], bi)); assert(fin[l0] == bi.1);
        lemma_raw_edges(c, n, t); lemma_edges_permuted(rw[t].1, path(d, fin[l0] as int));
        lemma_in(d, fin, l0); lemma_in(d, fin, __j2 as int);
        assert(shaped(d, fin, m0, w)); assert(m0.has(num(d, fin, l0), num(d, fin, __j2 as int)));
        assert(m0.v(num(d, fin, l0), num(d, fin, __j2 as int)) == coef(d, fin, l0, __j2 as int, __j2 as int, t)) by { reveal(filled); }
        lemma_incid(rw, path(d, fin[l0] as int), t);
    }
//@.loop 3 end
    proof { lemma_fill_step(g, d, fin, n, m0, boundary_maps@[w], w, __j2 as int, t, l0); }
//@.loop 4 before
    let ghost bm = boundary_maps@; let ghost bs = basis@;
    proof { assert forall|q: int| 1 <= q <= self.dim implies is_boundary(d, fin, #[trigger] bm[q], q) by { lemma_filled(d, fin, bm[q], q); } lemma_bas_len(d, fin, fin.len() as int, 0); }
//@.loop 4
    invariant __n4 == bm.len(), bm.len() == bs.len(), __i4 <= __n4, bm == boundary_maps@, bs == basis@, __a4@.len() == __i4,
        forall|q: int| 0 <= q < __i4 ==> (#[trigger] __a4@[q]).0.eqv(bm[q]) && __a4@[q].1.eqv(bs[q]),
    decreases __n4 - __i4,
//@.loop 4 end
    proof { assert(fin.take(fin.len() as int) =~= fin); }
//@.exit
    proof {
        assert forall|q: int| 0 <= q < __ret@.len() implies isbas((#[trigger] __ret@[q]).1@, bas(d, fin, q)) by { assert(__ret@[q].1.eqv(bs[q])); assert(isbas(bs[q]@, bas(d, fin, q))); }
        assert forall|q: int| 1 <= q < __ret@.len() implies is_boundary(d, fin, #[trigger] __ret@[q].0, q) by { assert(__ret@[q].0.eqv(bm[q])); lemma_mat_eqv(bm[q], __ret@[q].0); assert(is_boundary(d, fin, bm[q], q)); lemma_boundary_eqv(d, fin, bm[q], __ret@[q].0, q); }
        assert(__ret@[0].0.eqv(bm[0])); lemma_mat_eqv(bm[0], __ret@[0].0); assert(shaped(d, fin, bm[0], 0));
    }
//@end
}
// ------------------------------------------------------------------ the Morse complex: its cells are the paths of the same kind of tree
//@struct UdnMorseCplx SimpleGraph=RawSimpleGraph
//@struct UdnMorseFactorIter
impl<'a> UdnMorseFactorIter<'a> {
    pub open spec fn wf(&self) -> bool { tree(self.cplx.data@) && (!self.is_done ==> self.curr_idx < self.cplx.data@.len()) }
    pub open spec fn rest(&self) -> Seq<CubeFactor> { if self.is_done { Seq::empty() } else { path(self.cplx.data@, self.curr_idx as int) } }
//@fn <UdnMorseFactorIter as Iterator>::next Self::Item=CubeFactor
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cplx == old(self).cplx,
        match r { Some(f) => old(self).rest().len() > 0 && f == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(), None => old(self).rest().len() == 0 && *final(self) == *old(self) },
//@.exit
    proof { let d = self.cplx.data@; if !old(self).is_done { assert(d[old(self).curr_idx as int].parent_idx == self.cplx.data@[old(self).curr_idx as int].parent_idx);
        match d[old(self).curr_idx as int].parent_idx { Some(p) => { assert(path(d, p as int).push(d[old(self).curr_idx as int].val).drop_last() =~= path(d, p as int)); }, None => { assert(seq![d[old(self).curr_idx as int].val].drop_last() =~= Seq::empty()); } } } }
//@end
}
impl<'a> UdnMorseCplx {
//@fn UdnMorseCplx::factor_iter
//@.spec
    ensures r.cplx == self, r.curr_idx == branch_idx, !r.is_done,
//@end
}
//@known Cube::from_index
impl Cube {
//@fn Cube::from_index paramtype:cplx=&UdnMorseCplx params=idx,cplx iters=cplx.factor_iter,factor_iter method:reverse=~cf_reverse
//@.spec
    requires tree(cplx.data@), idx < cplx.data@.len(),
    ensures r.0@ == path(cplx.data@, idx as int),
//@.loop 0 before
    let ghost p = path(cplx.data@, idx as int);
//@.loop 0
    invariant __it0.wf(), __it0.cplx == cplx, __it0.rest() == p.take(__it0.rest().len() as int), __it0.rest().len() + __a0@.len() == p.len(),
        forall|k: int| 0 <= k < __a0@.len() ==> #[trigger] __a0@[k] == p[p.len() - 1 - k], p == path(cplx.data@, idx as int),
    ensures __it0.rest().len() == 0,
    decreases __it0.rest().len(),
//@.exit
    proof { assert(__ret.0@ =~= path(cplx.data@, idx as int)); }
//@end
}
impl UdnMorseCplx {
//@fn UdnMorseCplx::dim_of
//@.spec
    requires tree(self.data@), branch_idx < self.data@.len(),
    ensures r == edges(path(self.data@, branch_idx as int)), r <= path(self.data@, branch_idx as int).len() <= branch_idx + 1,
    decreases branch_idx,
//@.entry
    proof { let d = self.data@; assert(self.data.len() <= usize::MAX); assert(d[branch_idx as int].parent_idx == self.data@[branch_idx as int].parent_idx); let f = d[branch_idx as int].val;
        match d[branch_idx as int].parent_idx { Some(p) => { lemma_edges_push(path(d, p as int), f); } None => { lemma_edges_push(Seq::<CubeFactor>::empty(), f); assert(Seq::<CubeFactor>::empty().push(f) =~= seq![f]); } } }
//@end
//@fn UdnMorseCplx::get_cell_from_idx iters=factor_iter method:reverse=~cf_reverse
//@.spec
    requires tree(self.data@), idx < self.data@.len(),
    ensures r@ == path(self.data@, idx as int),
//@.loop 0 before
    let ghost p = path(self.data@, idx as int);
//@.loop 0
    invariant __it0.wf(), __it0.cplx == self, __it0.rest() == p.take(__it0.rest().len() as int), __it0.rest().len() + __a0@.len() == p.len(),
        forall|k: int| 0 <= k < __a0@.len() ==> #[trigger] __a0@[k] == p[p.len() - 1 - k], p == path(self.data@, idx as int),
    ensures __it0.rest().len() == 0,
    decreases __it0.rest().len(),
//@.exit
    proof { assert(__ret@ =~= path(self.data@, idx as int)); }
//@end
//@fn UdnMorseCplx::get_index_of op:===f_eq acc0=Option<&usize> acc2=Option<&usize> maypanic
//@.spec
    requires tree(self.data@), kids(self.data@), sibs(self.data@), roots(self.data@, self.first_branch_indeces@), cell@.len() > 0,
    ensures r < self.data@.len(), path(self.data@, r as int) == cell@,
//@.entry
    hide(tree); hide(kids); hide(sibs); hide(roots); hide(path);
    let ghost d = self.data@; let ghost fr = self.first_branch_indeces@;
    proof { assert(self.data.len() <= usize::MAX); }
//@.loop 0
    invariant d == self.data@, fr == self.first_branch_indeces@, __n0 == fr.len(), __i0 <= __n0, roots(d, fr),
        __a0 is Some ==> *__a0->0 < d.len() && d[*__a0->0 as int].parent_idx is None && d[*__a0->0 as int].val == cell@[0],
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { lemma_root(d, fr, __j0 as int); }
//@.loop 1 before
    proof { lemma_step(d, branch_idx as int); assert(cell@.take(1) =~= seq![cell@[0]]); }
//@.loop 1
    invariant d == self.data@, __h1 == cell@.len(), 1 <= __i1 <= __h1, branch_idx < d.len(), path(d, branch_idx as int) == cell@.take(__i1 as int), tree(d), kids(d), sibs(d),
    decreases __h1 - __i1,
//@.loop 2
    invariant d == self.data@, branch_idx < d.len(), __n2 == d[branch_idx as int].child_indeces@.len(), __i2 <= __n2, 1 <= i < cell@.len(), kids(d), tree(d),
        __a2 is Some ==> *__a2->0 < d.len() && d[*__a2->0 as int].parent_idx == Some(branch_idx) && d[*__a2->0 as int].val == cell@[i as int],
    decreases __n2 - __i2,
//@.loop 2 begin
    proof { lemma_kid(d, branch_idx as int, __j2 as int); }
//@.loop 1 end
    proof { assert(cell@.take(__i1 as int) =~= cell@.take(i as int).push(cell@[i as int])); lemma_step(d, branch_idx as int); }
//@.exit
    proof { assert(cell@.take(cell@.len() as int) =~= cell@); }
//@end
//@fn UdnMorseCplx::get_cells_of_dim
//@.spec
    requires tree(self.data@), forall|k: int| 0 <= k < self.final_branch_indeces@.len() ==> #[trigger] self.final_branch_indeces@[k] < self.data@.len(),
    ensures isbas(r@, bas(self.data@, self.final_branch_indeces@, d as int)),
//@.entry
    let ghost fin = self.final_branch_indeces@;
//@.loop 0
    invariant fin == self.final_branch_indeces@, __n0 == fin.len(), __i0 <= __n0, tree(self.data@), isbas(__a0@, bas(self.data@, fin.take(__i0 as int), d as int)), forall|k: int| 0 <= k < fin.len() ==> #[trigger] fin[k] < self.data@.len(),
    decreases __n0 - __i0,
//@.loop 0 end
    proof { lemma_take(self.data@, fin, __j0 as int, d as int); }
//@.exit
    proof { assert(fin.take(fin.len() as int) =~= fin); }
//@end
}
} // verus!
