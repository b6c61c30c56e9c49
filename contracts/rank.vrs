//@include prelude.inc
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ an arbitrary field: only the axioms below are used
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: u64 }
pub uninterp spec fn f0() -> F;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
// x + (0 - x/p) p = 0 for p != 0
#[verifier::external_body]
pub broadcast proof fn ax_eliminate(x: F, p: F) requires p != f0(), ensures #[trigger] fadd(x, fmul(fsub(f0(), fdiv(x, p)), p)) == f0() { }
// 0 + c 0 = 0
#[verifier::external_body]
pub broadcast proof fn ax_zero(c: F) ensures #[trigger] fadd(f0(), fmul(c, f0())) == f0() { }
#[verifier::external_body]
fn f_zero() -> (r: F) ensures r == f0() { unimplemented!() }
#[verifier::external_body]
fn f_sub(a: F, b: F) -> (r: F) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body]
fn f_div(a: F, b: F) -> (r: F) requires b != f0(), ensures r == fdiv(a, b) { unimplemented!() }
// == of field elements is equality
#[verifier::external_body]
fn f_same(a: F, b: F) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub trait XEq: Sized { fn x_eq(a: Self, b: Self) -> (r: bool) ensures r == (a == b); }
impl XEq for F { fn x_eq(a: F, b: F) -> (r: bool) { f_same(a, b) } }
impl XEq for usize { fn x_eq(a: usize, b: usize) -> (r: bool) { a == b } }
fn x_eq<T: XEq>(a: T, b: T) -> (r: bool) ensures r == (a == b) { T::x_eq(a, b) }
fn x_ne<T: XEq>(a: T, b: T) -> (r: bool) ensures r == (a != b) { !T::x_eq(a, b) }
// ------------------------------------------------------------------ a matrix over the field; the contracts are those proved for entries i64 in the unit mat
#[verifier::external_body]
pub struct Mat { x: Vec<F> }
impl Mat {
    pub uninterp spec fn nr(&self) -> int;
    pub uninterp spec fn nc(&self) -> int;
    pub uninterp spec fn v(&self, i: int, j: int) -> F;
    pub open spec fn has(&self, i: int, j: int) -> bool { 0 <= i < self.nr() && 0 <= j < self.nc() }
    #[verifier::external_body]
    fn as_matrix(&self) -> (r: Mat) ensures r.nr() == self.nr(), r.nc() == self.nc(), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) { unimplemented!() }
    #[verifier::external_body]
    fn size(&self) -> (r: (usize, usize)) ensures r.0 == self.nr(), r.1 == self.nc() { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, i: usize, j: usize) -> (r: F) requires self.has(i as int, j as int), ensures r == self.v(i as int, j as int) { unimplemented!() }
    #[verifier::external_body]
    fn swap_rows(&mut self, k: usize, l: usize)
        requires k < old(self).nr(), l < old(self).nr(),
        ensures final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(), swapped(old(self), final(self), k as int, l as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn row_operation(&mut self, k: usize, l: usize, c: F)
        requires k < old(self).nr(), l < old(self).nr(), k != l,
        ensures final(self).nr() == old(self).nr(), final(self).nc() == old(self).nc(), added(old(self), final(self), k as int, l as int, c),
    { unimplemented!() }
}
// b is a with rows k and l exchanged
pub open spec fn swapped(a: &Mat, b: &Mat, k: int, l: int) -> bool {
    forall|i: int, j: int| a.has(i, j) ==> #[trigger] b.v(i, j) == a.v(if i == k { l } else if i == l { k } else { i }, j)
}
// b is a with c times row l added to row k
pub open spec fn added(a: &Mat, b: &Mat, k: int, l: int, c: F) -> bool {
    forall|i: int, j: int| a.has(i, j) ==> #[trigger] b.v(i, j) == if i == k { fadd(a.v(k, j), fmul(c, a.v(l, j))) } else { a.v(i, j) }
}
// one elementary row operation (or none)
pub open spec fn step(a: Mat, b: Mat) -> bool {
    a.nr() == b.nr() && a.nc() == b.nc() && {
        ||| forall|i: int, j: int| a.has(i, j) ==> #[trigger] b.v(i, j) == a.v(i, j)
        ||| exists|k: int, l: int| 0 <= k < a.nr() && 0 <= l < a.nr() && #[trigger] swapped(&a, &b, k, l)
        ||| exists|k: int, l: int, c: F| 0 <= k < a.nr() && 0 <= l < a.nr() && k != l && #[trigger] added(&a, &b, k, l, c)
    }
}
// a finite sequence of elementary row operations leads from the first to the last
pub open spec fn chain(s: Seq<Mat>) -> bool { s.len() > 0 && forall|n: int| 0 <= n && n + 1 < s.len() ==> step(#[trigger] s[n], s[n + 1]) }
pub open spec fn row_equivalent(a: &Mat, b: &Mat) -> bool { exists|s: Seq<Mat>| #[trigger] chain(s) && s[0] == *a && s.last() == *b }
proof fn lemma_chain(a: &Mat, b: &Mat, c: &Mat) requires row_equivalent(a, b), step(*b, *c), ensures row_equivalent(a, c)
{
    let s = choose|s: Seq<Mat>| #[trigger] chain(s) && s[0] == *a && s.last() == *b;
    let t = s.push(*c);
    assert forall|n: int| 0 <= n && n + 1 < t.len() implies step(#[trigger] t[n], t[n + 1]) by { if n + 1 < s.len() { assert(t[n] == s[n]); } else { assert(t[n] == s.last()); } }
    assert(chain(t) && t[0] == *a && t.last() == *c);
}
// row echelon form with r = p.len() nonzero rows on the columns before c : row i starts at column p[i], strictly to the right of the row above, and the remaining rows vanish
pub open spec fn echelon(m: &Mat, p: Seq<int>, c: int) -> bool {
    p.len() <= m.nr()
    && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < c)
    && (forall|i: int, k: int| 0 <= i < k < p.len() ==> #[trigger] p[i] < #[trigger] p[k])
    && (forall|i: int| 0 <= i < p.len() ==> m.v(i, #[trigger] p[i]) != f0())
    && (forall|i: int, j: int| 0 <= i < m.nr() && 0 <= j < c && (i < p.len() ==> j < p[i]) ==> #[trigger] m.v(i, j) == f0())
}
// the rank: the number of nonzero rows of a row echelon form reached by elementary row operations
pub open spec fn has_rank(a: &Mat, r: int) -> bool { exists|e: Mat, p: Seq<int>| row_equivalent(a, &e) && #[trigger] echelon(&e, p, a.nc()) && p.len() == r }
impl Mat {
//@file alg/src/lin_alg/matrix_impl.rs
//@known Matrix::size
//@known SubMatrix::size
//@fn Matrix::rank_as_linear_map T=F matidx op:-=f_sub op:/=f_div op:===x_eq op:!==x_ne call:F::zero=f_zero
//@.spec
    ensures has_rank(self, r as int), r <= self.nr(), r <= self.nc(),
//@.entry
    let ghost mut p: Seq<int> = Seq::empty(); let ghost mut ended = false;
//@.loop 0 before
    proof { let s = seq![*self, clone]; assert(step(s[0], s[1])); assert(chain(s) && s[0] == *self && s.last() == clone); }
//@.loop 0
    invariant_except_break p.len() <= __i0 <= self.nc(), echelon(&clone, p, __i0 as int),
    invariant __h0 == self.nc(), clone.nr() == self.nr(), clone.nc() == self.nc(), row_equivalent(self, &clone), rank == p.len(), rank <= self.nr(), rank <= self.nc(),
    ensures echelon(&clone, p, self.nc()),
    decreases __h0 - __i0,
//@.loop 0 begin
    let ghost c0 = clone;
    proof { if p.len() == self.nr() { assert(echelon(&clone, p, self.nc())); } }
//@.loop 1
    invariant rank <= __i1 <= __h1, __h1 == self.nr(), clone == c0, rank == p.len(), j == __j0,
        __a1 is None ==> forall|i: int| rank <= i < __i1 ==> #[trigger] clone.v(i, j as int) == f0(),
        __a1 is Some ==> rank <= __a1.unwrap() < self.nr() && clone.v(__a1.unwrap() as int, j as int) != f0(),
    decreases __h1 - __i1,
//@.loop 2 before
    let ghost c1 = clone;
    proof { lemma_chain(self, &c0, &c1); }
//@.loop 2
    invariant rank < __i2 <= __h2_1, __h2_1 == self.nr(), clone.nr() == self.nr(), clone.nc() == self.nc(), row_equivalent(self, &clone), rank == p.len(),
        clone.v(rank as int, j as int) != f0(), echelon(&clone, p, j as int), forall|i: int| rank < i < __i2 ==> #[trigger] clone.v(i, j as int) == f0(),
    decreases __h2_1 - __i2,
//@.loop 2 begin
    let ghost c2 = clone;
//@.loop 2 end
    proof { broadcast use ax_eliminate, ax_zero; 
        if clone != c2 { lemma_chain(self, &c2, &clone); } }
//@.loop 0 end
    proof { if rank > p.len() { p = p.push(j as int); } }
//@end
}
} // verus!
fn main() {}
