//@include prelude.inc
//@include chk.inc
//@include mat.inc
//@include mzero.inc
verus! {
//@file topo_spaces/src/graph.rs
fn main() {}
//@struct WeightedSimpleGraph T=i64 Matrix<i64>=Mat String=u64
// ------------------------------------------------------------------ what a list of weighted edges means
// the vertices in the order of their first appearance
pub open spec fn reg1(l: Seq<u64>, x: u64) -> Seq<u64> { if l.contains(x) { l } else { l.push(x) } }
pub open spec fn reg(s: Seq<(u64, u64, i64)>, k: int) -> Seq<u64> decreases k
{ if k <= 0 { Seq::empty() } else { reg1(reg1(reg(s, k - 1), s[k - 1].0), s[k - 1].1) } }
// the weight of the edge between a and b: the one listed last; 0 without an edge
pub open spec fn wt(s: Seq<(u64, u64, i64)>, k: int, a: u64, b: u64) -> int decreases k
{ if k <= 0 { 0 } else if (s[k - 1].0 == a && s[k - 1].1 == b) || (s[k - 1].0 == b && s[k - 1].1 == a) { s[k - 1].2 as int } else { wt(s, k - 1, a, b) } }
// the same for a list over indices
pub open spec fn wl(s: Seq<(usize, usize, i64)>, k: int, i: int, j: int) -> int decreases k
{ if k <= 0 { 0 } else if (s[k - 1].0 == i && s[k - 1].1 == j) || (s[k - 1].0 == j && s[k - 1].1 == i) { s[k - 1].2 as int } else { wl(s, k - 1, i, j) } }
pub open spec fn no_loops(s: Seq<(u64, u64, i64)>) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 != s[k].1 }
// the k-th entry of w is the k-th entry of s with labels replaced by their indices
pub open spec fn idx_of(s: Seq<(u64, u64, i64)>, w: Seq<(usize, usize, i64)>, l: Seq<u64>, k: int) -> bool
{ w[k].0 < l.len() && w[k].1 < l.len() && l[w[k].0 as int] == s[k].0 && l[w[k].1 as int] == s[k].1 && w[k].2 == s[k].2 }
pub open spec fn idxs(s: Seq<(u64, u64, i64)>, w: Seq<(usize, usize, i64)>, l: Seq<u64>, n: int) -> bool
{ forall|k: int| 0 <= k < n ==> #[trigger] idx_of(s, w, l, k) }
proof fn lemma_wt_wl(s: Seq<(u64, u64, i64)>, w: Seq<(usize, usize, i64)>, l: Seq<u64>, k: int, i: int, j: int)
    requires 0 <= k <= s.len(), k <= w.len(), idxs(s, w, l, k), l.no_duplicates(), 0 <= i < l.len(), 0 <= j < l.len(),
    ensures wl(w, k, i, j) == wt(s, k, l[i], l[j]),
    decreases k,
{ if k > 0 { assert(idx_of(s, w, l, k - 1)); lemma_wt_wl(s, w, l, k - 1, i, j); } }
proof fn lemma_wt_sym(s: Seq<(u64, u64, i64)>, k: int, a: u64, b: u64) ensures wt(s, k, a, b) == wt(s, k, b, a), decreases k
{ if k > 0 { lemma_wt_sym(s, k - 1, a, b); } }
proof fn lemma_wt_diag(s: Seq<(u64, u64, i64)>, k: int, a: u64) requires no_loops(s), k <= s.len(), ensures wt(s, k, a, a) == 0, decreases k
{ if k > 0 { assert(s[k - 1].0 != s[k - 1].1); lemma_wt_diag(s, k - 1, a); } }
proof fn lemma_reg(s: Seq<(u64, u64, i64)>, k: int)
    requires 0 <= k <= s.len(),
    ensures reg(s, k).no_duplicates(), forall|m: int| 0 <= m < k ==> reg(s, k).contains((#[trigger] s[m]).0) && reg(s, k).contains(s[m].1),
    decreases k,
{
    if k > 0 {
        lemma_reg(s, k - 1);
        let l0 = reg(s, k - 1); let l1 = reg1(l0, s[k - 1].0); let l2 = reg1(l1, s[k - 1].1);
        lemma_reg1(l0, s[k - 1].0); lemma_reg1(l1, s[k - 1].1);
        assert forall|m: int| 0 <= m < k implies l2.contains((#[trigger] s[m]).0) && l2.contains(s[m].1) by { if m < k - 1 { assert(l0.contains(s[m].0) && l0.contains(s[m].1)); } }
    }
}
proof fn lemma_reg1(l: Seq<u64>, x: u64)
    requires l.no_duplicates(), ensures reg1(l, x).no_duplicates(), reg1(l, x).contains(x), forall|y: u64| l.contains(y) ==> reg1(l, x).contains(y),
{
    if !l.contains(x) {
        let p = l.push(x);
        assert(p[p.len() - 1] == x);
        assert forall|y: u64| l.contains(y) implies p.contains(y) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(p[i] == y); }
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < l.len() && j < l.len() { assert(l[i] != l[j]); } else if i < l.len() { assert(l.contains(l[i])); } else { assert(l.contains(l[j])); } }
    }
}
// the first k entries of a row added up
pub open spec fn rowsum(f: spec_fn(int) -> int, k: int) -> int decreases k { if k <= 0 { 0 } else { rowsum(f, k - 1) + f(k - 1) } }
// the entries of the Laplacian of the graph with weight matrix w (zero on the diagonal)
pub open spec fn lap(w: &Mat, i: int, j: int) -> int { if i == j { rowsum(row_of(w, i), w.nc()) } else { -w.v(i, j) } }
pub open spec fn wsym(w: &Mat) -> bool { w.nr() == w.nc() && (forall|i: int, j: int| w.has(i, j) ==> #[trigger] w.v(i, j) == w.v(j, i)) && (forall|i: int| w.has(i, i) ==> #[trigger] w.v(i, i) == 0) }
// hence the rows and the columns of the Laplacian sum to zero, and it is symmetric
proof fn lemma_rowsum_eq(f: spec_fn(int) -> int, g: spec_fn(int) -> int, k: int) requires forall|q: int| 0 <= q < k ==> #[trigger] f(q) == g(q), ensures rowsum(f, k) == rowsum(g, k), decreases k
{ if k > 0 { lemma_rowsum_eq(f, g, k - 1); assert(f(k - 1) == g(k - 1)); } }
proof fn lemma_row(w: &Mat, i: int, d: int, k: int)
    requires 0 <= i < w.nr(), w.v(i, i) == 0,
    ensures rowsum(lrow(w, i, d), k) == (if k > i { d } else { 0 }) - rowsum(row_of(w, i), k),
    decreases k,
{ if k > 0 { lemma_row(w, i, d, k - 1); } }
pub proof fn laplacian_sums(w: &Mat, l: &Mat)
    requires wsym(w), l.nr() == w.nr(), l.nc() == w.nr(), forall|i: int, j: int| l.has(i, j) ==> #[trigger] l.v(i, j) == lap(w, i, j),
    ensures forall|i: int, j: int| l.has(i, j) ==> #[trigger] l.v(i, j) == l.v(j, i),
        forall|i: int| 0 <= i < l.nr() ==> rowsum(#[trigger] row_of(l, i), l.nc()) == 0,
        forall|j: int| 0 <= j < l.nc() ==> rowsum(#[trigger] col_of(l, j), l.nr()) == 0,
{
    let n = w.nr();
    assert forall|i: int, j: int| l.has(i, j) implies #[trigger] l.v(i, j) == l.v(j, i) by { assert(l.has(j, i)); assert(w.has(i, j)); assert(l.v(j, i) == lap(w, j, i)); assert(w.v(i, j) == w.v(j, i)); }
    assert forall|i: int| 0 <= i < l.nr() implies rowsum(#[trigger] row_of(l, i), l.nc()) == 0 by {
        assert(w.has(i, i));
        let d = rowsum(row_of(w, i), n);
        let g = lrow(w, i, d);
        lemma_row(w, i, d, n);
        assert forall|q: int| 0 <= q < n implies #[trigger] row_of(l, i)(q) == g(q) by { assert(l.has(i, q)); assert(l.v(i, q) == lap(w, i, q)); }
        lemma_rowsum_eq(row_of(l, i), g, n);
    }
    assert forall|j: int| 0 <= j < l.nc() implies rowsum(#[trigger] col_of(l, j), l.nr()) == 0 by {
        assert forall|q: int| 0 <= q < n implies #[trigger] col_of(l, j)(q) == row_of(l, j)(q) by { assert(l.has(j, q)); assert(l.v(j, q) == l.v(q, j)); }
        lemma_rowsum_eq(col_of(l, j), row_of(l, j), n);
        assert(rowsum(row_of(l, j), l.nc()) == 0);
    }
}
pub open spec fn lrow(w: &Mat, i: int, d: int) -> spec_fn(int) -> int { |q: int| if q == i { d } else { -w.v(i, q) } }
pub open spec fn row_of(l: &Mat, i: int) -> spec_fn(int) -> int { |q: int| l.v(i, q) }
pub open spec fn col_of(l: &Mat, j: int) -> spec_fn(int) -> int { |q: int| l.v(q, j) }
impl WeightedSimpleGraph {
//@fn WeightedSimpleGraph::from T=i64 String=u64 params=input call:Matrix::zero=Mat::zero matidx maypanic op:+=e_add op:+==e_add op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires input.len() > 0, no_loops(input@),
    ensures r.data.wf(), r.vertices_labeling@ == reg(input@, input.len() as int), r.vertices_labeling@.no_duplicates(),
        forall|k: int| 0 <= k < input.len() ==> r.vertices_labeling@.contains((#[trigger] input@[k]).0) && r.vertices_labeling@.contains(input@[k].1),
        r.data.nr() == r.vertices_labeling.len(), r.data.nc() == r.vertices_labeling.len(), wsym(&r.data),
        forall|i: int, j: int| r.data.has(i, j) ==> #[trigger] r.data.v(i, j) == wt(input@, input.len() as int, r.vertices_labeling[i], r.vertices_labeling[j]),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __n0 == input.len(), no_loops(input@),
        vertices_labeling@ == reg(input@, __i0 as int), weights.len() == __i0, idxs(input@, weights@, vertices_labeling@, __i0 as int),
        __i0 > 0 ==> vertices_labeling.len() > 0,
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost l0 = vertices_labeling@; let ghost w0 = weights@;
    assert(input@[__j0 as int].0 != input@[__j0 as int].1);
//@.loop 0 end
    proof {
        let l = vertices_labeling@; let s = input@;
        assert(l =~= reg1(reg1(l0, s[__j0 as int].0), s[__j0 as int].1)) by {
            let a = s[__j0 as int].0; let b = s[__j0 as int].1;
            if l0.contains(b) { let i = choose|i: int| 0 <= i < l0.len() && l0[i] == b; assert(reg1(l0, a)[i] == b); }
            else if l0.contains(a) {} else { let p = l0.push(a); assert forall|i: int| 0 <= i < p.len() implies p[i] != b by { if i < l0.len() { assert(l0.contains(l0[i])); } } }
        }
        assert forall|k: int| 0 <= k < __i0 implies #[trigger] idx_of(s, weights@, l, k) by { if k < __j0 { assert(idx_of(s, w0, l0, k)); assert(weights@[k] == w0[k]); } }
    }
//@.loop 1
    invariant 0 <= __i1 <= __n1, __n1 == vertices_labeling.len(), match __a1 { Some(p) => p < __n1 && vertices_labeling@[p as int] == v1, None => forall|q: int| 0 <= q < __i1 ==> #[trigger] vertices_labeling@[q] != v1 },
    decreases __n1 - __i1,
//@.loop 2
    invariant 0 <= __i2 <= __n2, __n2 == vertices_labeling.len(), match __a2 { Some(p) => p < __n2 && vertices_labeling@[p as int] == v2, None => forall|q: int| 0 <= q < __i2 ==> #[trigger] vertices_labeling@[q] != v2 },
    decreases __n2 - __i2,
//@.loop 3 before
    proof { lemma_reg(input@, input.len() as int); }
//@.loop 3
    invariant 0 <= __i3 <= __n3, __n3 == weights.len(), data.wf(), data.nr() == vertices_labeling.len(), data.nc() == data.nr(), weights.len() == input.len(),
        idxs(input@, weights@, vertices_labeling@, __n3 as int),
        forall|i: int, j: int| data.has(i, j) ==> #[trigger] data.v(i, j) == wl(weights@, __i3 as int, i, j),
    decreases __n3 - __i3,
//@.loop 3 begin
    let ghost d0 = data;
    proof { assert(idx_of(input@, weights@, vertices_labeling@, __j3 as int)); }
//@.loop 3 end
    proof {
        assert forall|i: int, j: int| data.has(i, j) implies #[trigger] data.v(i, j) == wl(weights@, __i3 as int, i, j) by { assert(d0.has(i, j)); assert(d0.v(i, j) == wl(weights@, __j3 as int, i, j)); }
    }
//@.exit
    proof {
        let n = input.len() as int; let l = __ret.vertices_labeling@;
        assert forall|i: int, j: int| __ret.data.has(i, j) implies #[trigger] __ret.data.v(i, j) == wt(input@, n, l[i], l[j]) by { lemma_wt_wl(input@, weights@, l, n, i, j); }
        assert forall|i: int, j: int| __ret.data.has(i, j) implies #[trigger] __ret.data.v(i, j) == __ret.data.v(j, i) by { assert(__ret.data.has(j, i)); lemma_wt_sym(input@, n, l[i], l[j]); assert(__ret.data.v(j, i) == wt(input@, n, l[j], l[i])); }
        assert forall|i: int| __ret.data.has(i, i) implies #[trigger] __ret.data.v(i, i) == 0 by { lemma_wt_diag(input@, n, l[i]); }
    }
//@end
//@fn WeightedSimpleGraph::laplacian T=i64 Matrix<T>=Mat matidx op:+=e_add acc1=i64 call:i64::one=one_i64 op:*=e_mul op:u-=e_neg maypanic op:+==e_add op:-=e_sub op:-==e_sub op:*==e_mul
//@.spec
    requires self.data.wf(), self.data.nr() == self.data.nc(),
    ensures r.wf(), r.nr() == self.data.nr(), r.nc() == self.data.nc(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == lap(&self.data, i, j),
        wsym(&self.data) ==> (forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == r.v(j, i))
            && (forall|i: int| 0 <= i < r.nr() ==> rowsum(#[trigger] row_of(&r, i), r.nc()) == 0)
            && (forall|j: int| 0 <= j < r.nc() ==> rowsum(#[trigger] col_of(&r, j), r.nr()) == 0),
//@.loop 0
    invariant 0 <= __i0 <= n, n == self.data.nr(), n == self.data.nc(), laplacian.wf(), laplacian.nr() == n, laplacian.nc() == n,
        forall|i: int, j: int| laplacian.has(i, j) ==> #[trigger] laplacian.v(i, j) == (if i == j && i < __i0 { lap(&self.data, i, i) } else { self.data.v(i, j) }),
    decreases n - __i0,
//@.loop 1
    invariant 0 <= __i1 <= n, __a1 == rowsum(row_of(&self.data, __j0 as int), __i1 as int),
    decreases n - __i1,
//@.loop 2
    invariant 0 <= __i2 <= n, n == self.data.nr(), n == self.data.nc(), laplacian.wf(), laplacian.nr() == n, laplacian.nc() == n,
        forall|i: int, j: int| laplacian.has(i, j) ==> #[trigger] laplacian.v(i, j) == (if i == j || i < __i2 { lap(&self.data, i, j) } else { self.data.v(i, j) }),
    decreases n - __i2,
//@.loop 3
    invariant 0 <= __i3 <= n, __j2 < n, laplacian.wf(), laplacian.nr() == n, laplacian.nc() == n,
        forall|i: int, j: int| laplacian.has(i, j) ==> #[trigger] laplacian.v(i, j) == (if i == j || i < __j2 || (i == __j2 && j < __i3) { lap(&self.data, i, j) } else { self.data.v(i, j) }),
    decreases n - __i3,
//@.exit
    proof { if wsym(&self.data) { laplacian_sums(&self.data, &__ret); } }
//@end
}
} // verus!
