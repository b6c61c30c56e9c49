//@include prelude.inc
//@include chk.inc
//@include numth.inc
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ a matrix of machine integers; the contracts are those proved in the unit mat
#[verifier::external_body]
pub struct Mat { x: Vec<i64> }
impl Mat {
    pub uninterp spec fn nr(&self) -> int;
    pub uninterp spec fn nc(&self) -> int;
    pub uninterp spec fn v(&self, i: int, j: int) -> int;
    pub open spec fn has(&self, i: int, j: int) -> bool { 0 <= i < self.nr() && 0 <= j < self.nc() }
    pub open spec fn dim(&self, o: &Mat) -> bool { self.nr() == o.nr() && self.nc() == o.nc() }
    #[verifier::external_body]
    fn size(&self) -> (r: (usize, usize)) ensures r.0 == self.nr(), r.1 == self.nc(), r.0 < 65536, r.1 < 65536 { unimplemented!() }
    #[verifier::external_body]
    fn identity(n: usize) -> (r: Mat) requires n > 0, ensures r.nr() == n, r.nc() == n, forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == delta(i, j) { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, i: usize, j: usize) -> (r: i64) requires self.has(i as int, j as int), ensures r == self.v(i as int, j as int) { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, i: usize, j: usize, x: i64)
        requires old(self).has(i as int, j as int),
        ensures final(self).dim(old(self)), forall|k: int, l: int| old(self).has(k, l) ==> #[trigger] final(self).v(k, l) == if k == i && l == j { x as int } else { old(self).v(k, l) },
    { unimplemented!() }
    #[verifier::external_body]
    fn sub(&self, r0: usize, r1: usize, c0: usize, c1: usize) -> (r: Mat)
        requires r0 <= r1 <= self.nr(), c0 <= c1 <= self.nc(),
        ensures r.nr() == r1 - r0, r.nc() == c1 - c0, forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == self.v(r0 + i, c0 + j),
    { unimplemented!() }
    #[verifier::external_body]
    fn mul_scalar(&self, x: i64) -> (r: Mat) ensures r.dim(self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) * x { unimplemented!() }
    #[verifier::external_body]
    fn add_own(self, m: Mat) -> (r: Mat) requires self.dim(&m), ensures r.dim(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) + m.v(i, j) { unimplemented!() }
    #[verifier::external_body]
    fn sub_write_and_move(&mut self, r0: usize, r1: usize, c0: usize, c1: usize, m: Mat)
        requires r0 <= r1 <= old(self).nr(), c0 <= c1 <= old(self).nc(), m.nr() == r1 - r0, m.nc() == c1 - c0,
        ensures final(self).dim(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == if r0 <= i < r1 && c0 <= j < c1 { m.v(i - r0, j - c0) } else { old(self).v(i, j) },
    { unimplemented!() }
    #[verifier::external_body]
    fn swap_rows(&mut self, k: usize, l: usize)
        requires k < old(self).nr(), l < old(self).nr(),
        ensures row_swapped(*old(self), *final(self), k as int, l as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn swap_cols(&mut self, k: usize, l: usize)
        requires k < old(self).nc(), l < old(self).nc(),
        ensures col_swapped(*old(self), *final(self), k as int, l as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn row_operation(&mut self, k: usize, l: usize, c: i64)
        requires k < old(self).nr(), l < old(self).nr(),
        ensures row_added(*old(self), *final(self), k as int, l as int, c as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn col_operation(&mut self, k: usize, l: usize, c: i64)
        requires k < old(self).nc(), l < old(self).nc(),
        ensures col_added(*old(self), *final(self), k as int, l as int, c as int),
    { unimplemented!() }
}
pub open spec fn row_swapped(m: Mat, w: Mat, k: int, l: int) -> bool { w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if i == k { m.v(l, j) } else if i == l { m.v(k, j) } else { m.v(i, j) } }
pub open spec fn col_swapped(m: Mat, w: Mat, k: int, l: int) -> bool { w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if j == k { m.v(i, l) } else if j == l { m.v(i, k) } else { m.v(i, j) } }
pub open spec fn row_added(m: Mat, w: Mat, k: int, l: int, c: int) -> bool { w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if i == k { m.v(i, j) + m.v(l, j) * c } else { m.v(i, j) } }
pub open spec fn col_added(m: Mat, w: Mat, k: int, l: int, c: int) -> bool { w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if j == k { m.v(i, j) + m.v(i, l) * c } else { m.v(i, j) } }
fn zero_i64() -> (r: i64) ensures r == 0 { 0 }
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
fn x_eq(a: &i64, b: &i64) -> (r: bool) ensures r == (*a == *b) { *a == *b }
fn x_ne(a: &i64, b: &i64) -> (r: bool) ensures r == (*a != *b) { *a != *b }
fn vx_succ(a: usize) -> (r: usize) requires a < usize::MAX, ensures r == a + 1 { a + 1 }
#[verifier::external_body]
fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
// proved in the unit pid (a division that overflows panics)
#[verifier::external_body]
fn divides_chk(a: i64, b: i64) -> (r: bool) requires a != 0, ensures r <==> dvd(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn euclid_div_raw(n: i64, d: i64) -> (r: (i64, i64)) ensures d != 0, n == r.0 * d + r.1, 0 <= r.1 < iabs(d as int) { unimplemented!() }
fn euclid_div_chk(n: i64, d: i64) -> (r: (i64, i64)) ensures d != 0, dvd(d as int, n as int) ==> n == r.0 * d
{ let r = euclid_div_raw(n, d); proof { if dvd(d as int, n as int) { lemma_euclid_rem(n as int, d as int, r.0 as int, r.1 as int); } } r }
#[verifier::external_body]
fn bezout_identity(a: i64, b: i64) -> (r: (i64, i64, i64)) ensures is_gcd(r.0 as int, a as int, b as int), r.1 * a + r.2 * b == r.0 { unimplemented!() }
// ------------------------------------------------------------------ products of matrices
pub open spec fn delta(i: int, j: int) -> int { if i == j { 1 } else { 0 } }
// the entry (i, j) of the product a b, summed over the first n indices
pub open spec fn mm(a: Mat, b: Mat, i: int, j: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { mm(a, b, i, j, n - 1) + a.v(i, n - 1) * b.v(n - 1, j) } }
// the entry (i, j) of the product r a c, the first sum over the first n indices
pub open spec fn rac(r: Mat, a: Mat, c: Mat, i: int, j: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { rac(r, a, c, i, j, n - 1) + r.v(i, n - 1) * mm(a, c, n - 1, j, a.nc()) } }
// s = r a c
#[verifier::opaque]
pub open spec fn conj(s: Mat, r: Mat, a: Mat, c: Mat) -> bool { forall|i: int, j: int| a.has(i, j) ==> #[trigger] s.v(i, j) == rac(r, a, c, i, j, a.nr()) }
// r w is the identity of size n
#[verifier::opaque]
pub open spec fn isinv(r: Mat, w: Mat, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mm(r, w, i, j, n) == delta(i, j) }
pub open spec fn square(m: Mat, n: int) -> bool { m.nr() == n && m.nc() == n }
pub open spec fn dims(a: Mat, s: Mat, r: Mat, ri: Mat, c: Mat, ci: Mat) -> bool { s.dim(&a) && square(r, a.nr()) && square(ri, a.nr()) && square(c, a.nc()) && square(ci, a.nc()) }
// s = r a c, and ri, ci are inverse to r, c
pub open spec fn inv(a: Mat, s: Mat, r: Mat, ri: Mat, c: Mat, ci: Mat) -> bool { dims(a, s, r, ri, c, ci) && conj(s, r, a, c) && isinv(r, ri, a.nr()) && isinv(c, ci, a.nc()) }
proof fn lemma_lin(a: int, b: int, x: int, y: int, a2: int, b2: int, t: int) 
    ensures (a * x + b * y) + (a2 * x + b2 * y) * t == (a + a2 * t) * x + (b + b2 * t) * y, 
        (a * x + b * y) + t * (a2 * x + b2 * y) == (a + t * a2) * x + (b + t * b2) * y,
        a * 1 + b * 0 == a,
{ assert((a * x + b * y) + (a2 * x + b2 * y) * t == (a + a2 * t) * x + (b + b2 * t) * y) by(nonlinear_arith);
  assert((a * x + b * y) + t * (a2 * x + b2 * y) == (a + t * a2) * x + (b + t * b2) * y) by(nonlinear_arith); }
// linearity in the rows of the left factor
proof fn lemma_mm_row(a: Mat, a2: Mat, b: Mat, i: int, p: int, q: int, x: int, y: int, j: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a2.v(i, k) == a.v(p, k) * x + a.v(q, k) * y,
    ensures mm(a2, b, i, j, n) == mm(a, b, p, j, n) * x + mm(a, b, q, j, n) * y, decreases n
{
    if n > 0 { lemma_mm_row(a, a2, b, i, p, q, x, y, j, n - 1); lemma_lin(mm(a, b, p, j, n - 1), mm(a, b, q, j, n - 1), x, y, a.v(p, n - 1), a.v(q, n - 1), b.v(n - 1, j)); }
    else { assert(0 * x + 0 * y == 0); }
}
// linearity in the columns of the right factor
proof fn lemma_mm_col(a: Mat, b: Mat, b2: Mat, j: int, p: int, q: int, x: int, y: int, i: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] b2.v(k, j) == b.v(k, p) * x + b.v(k, q) * y,
    ensures mm(a, b2, i, j, n) == mm(a, b, i, p, n) * x + mm(a, b, i, q, n) * y, decreases n
{
    if n > 0 { lemma_mm_col(a, b, b2, j, p, q, x, y, i, n - 1); lemma_lin(mm(a, b, i, p, n - 1), mm(a, b, i, q, n - 1), x, y, b.v(n - 1, p), b.v(n - 1, q), a.v(i, n - 1)); }
    else { assert(0 * x + 0 * y == 0); }
}
proof fn lemma_rac_row(r: Mat, r2: Mat, a: Mat, c: Mat, i: int, p: int, q: int, x: int, y: int, j: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] r2.v(i, k) == r.v(p, k) * x + r.v(q, k) * y,
    ensures rac(r2, a, c, i, j, n) == rac(r, a, c, p, j, n) * x + rac(r, a, c, q, j, n) * y, decreases n
{
    if n > 0 { lemma_rac_row(r, r2, a, c, i, p, q, x, y, j, n - 1); lemma_lin(rac(r, a, c, p, j, n - 1), rac(r, a, c, q, j, n - 1), x, y, r.v(p, n - 1), r.v(q, n - 1), mm(a, c, n - 1, j, a.nc())); }
    else { assert(0 * x + 0 * y == 0); }
}
proof fn lemma_rac_col(r: Mat, a: Mat, c: Mat, c2: Mat, j: int, p: int, q: int, x: int, y: int, i: int, n: int)
    requires forall|k: int| 0 <= k < a.nc() ==> #[trigger] c2.v(k, j) == c.v(k, p) * x + c.v(k, q) * y,
    ensures rac(r, a, c2, i, j, n) == rac(r, a, c, i, p, n) * x + rac(r, a, c, i, q, n) * y, decreases n
{
    if n > 0 {
        lemma_rac_col(r, a, c, c2, j, p, q, x, y, i, n - 1); lemma_mm_col(a, c, c2, j, p, q, x, y, n - 1, a.nc());
        lemma_lin(rac(r, a, c, i, p, n - 1), rac(r, a, c, i, q, n - 1), x, y, mm(a, c, n - 1, p, a.nc()), mm(a, c, n - 1, q, a.nc()), r.v(i, n - 1));
    } else { assert(0 * x + 0 * y == 0); }
}
// the product with two columns of the left and two rows of the right factor changed
pub open spec fn term(on: bool, x: int, y: int, u: int, w: int) -> int { if on { x * y - u * w } else { 0 } }
proof fn lemma_mm_two(a: Mat, a2: Mat, b: Mat, b2: Mat, p: int, q: int, i: int, j: int, n: int)
    requires p != q, 0 <= p, 0 <= q, forall|k: int| 0 <= k < n && k != p && k != q ==> #[trigger] a2.v(i, k) == a.v(i, k), forall|k: int| 0 <= k < n && k != p && k != q ==> #[trigger] b2.v(k, j) == b.v(k, j),
    ensures mm(a2, b2, i, j, n) == mm(a, b, i, j, n) + term(n > p, a2.v(i, p), b2.v(p, j), a.v(i, p), b.v(p, j)) + term(n > q, a2.v(i, q), b2.v(q, j), a.v(i, q), b.v(q, j)), decreases n
{ if n > 0 { lemma_mm_two(a, a2, b, b2, p, q, i, j, n - 1); } }
proof fn lemma_mm_same(a: Mat, a2: Mat, b: Mat, b2: Mat, i: int, j: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a2.v(i, k) == a.v(i, k), forall|k: int| 0 <= k < n ==> #[trigger] b2.v(k, j) == b.v(k, j),
    ensures mm(a2, b2, i, j, n) == mm(a, b, i, j, n), decreases n
{ if n > 0 { lemma_mm_same(a, a2, b, b2, i, j, n - 1); } }
proof fn lemma_mm_id(a: Mat, b: Mat, i: int, j: int, n: int, m: int)
    requires forall|k: int| 0 <= k < m ==> #[trigger] a.v(i, k) == delta(i, k), forall|k: int| 0 <= k < m ==> #[trigger] b.v(k, j) == delta(k, j), 0 <= n <= m, 0 <= i < m, 0 <= j < m,
    ensures mm(a, b, i, j, n) == if i == j && i < n { 1int } else { 0 }, decreases n
{ if n > 0 { lemma_mm_id(a, b, i, j, n - 1, m); let (x, y) = (a.v(i, n - 1), b.v(n - 1, j)); assert(x * y == if i == n - 1 && j == n - 1 { 1int } else { 0 }) by(nonlinear_arith) requires x == delta(i, n - 1), y == delta(n - 1, j); } }
// a c with c the identity, and r (a c) with r the identity
proof fn lemma_mm_rid(a: Mat, c: Mat, i: int, j: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] c.v(k, j) == delta(k, j),
    ensures mm(a, c, i, j, n) == if 0 <= j < n { a.v(i, j) } else { 0 }, decreases n
{ if n > 0 { lemma_mm_rid(a, c, i, j, n - 1); let (x, y) = (a.v(i, n - 1), c.v(n - 1, j)); assert(x * y == if n - 1 == j { x } else { 0 }) by(nonlinear_arith) requires y == delta(n - 1, j); } }
proof fn lemma_rac_lid(r: Mat, a: Mat, c: Mat, i: int, j: int, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] r.v(i, k) == delta(i, k),
    ensures rac(r, a, c, i, j, n) == if 0 <= i < n { mm(a, c, i, j, a.nc()) } else { 0 }, decreases n
{ if n > 0 { lemma_rac_lid(r, a, c, i, j, n - 1); let (x, y) = (r.v(i, n - 1), mm(a, c, n - 1, j, a.nc())); assert(x * y == if n - 1 == i { y } else { 0 }) by(nonlinear_arith) requires x == delta(i, n - 1); } }
pub open spec fn is_id(m: Mat, n: int) -> bool { square(m, n) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] m.v(i, j) == delta(i, j) }
proof fn lemma_start(a: Mat, r: Mat, ri: Mat, c: Mat, ci: Mat)
    requires is_id(r, a.nr()), is_id(ri, a.nr()), is_id(c, a.nc()), is_id(ci, a.nc()), a.nr() >= 0, a.nc() >= 0,
    ensures inv(a, a, r, ri, c, ci),
{
    reveal(conj); reveal(isinv);
    assert forall|i: int, j: int| a.has(i, j) implies #[trigger] a.v(i, j) == rac(r, a, c, i, j, a.nr()) by { lemma_rac_lid(r, a, c, i, j, a.nr()); lemma_mm_rid(a, c, i, j, a.nc()); }
    assert forall|i: int, j: int| 0 <= i < a.nr() && 0 <= j < a.nr() implies #[trigger] mm(r, ri, i, j, a.nr()) == delta(i, j) by { lemma_mm_id(r, ri, i, j, a.nr(), a.nr()); }
    assert forall|i: int, j: int| 0 <= i < a.nc() && 0 <= j < a.nc() implies #[trigger] mm(c, ci, i, j, a.nc()) == delta(i, j) by { lemma_mm_id(c, ci, i, j, a.nc(), a.nc()); }
}
// ------------------------------------------------------------------ transformations of two rows (columns): row p becomes x p + y q and row q becomes z p + u q
pub open spec fn rowt(m: Mat, w: Mat, p: int, q: int, x: int, y: int, z: int, u: int) -> bool {
    w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if i == p { m.v(p, j) * x + m.v(q, j) * y } else if i == q { m.v(p, j) * z + m.v(q, j) * u } else { m.v(i, j) }
}
pub open spec fn colt(m: Mat, w: Mat, p: int, q: int, x: int, y: int, z: int, u: int) -> bool {
    w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == if j == p { m.v(i, p) * x + m.v(i, q) * y } else if j == q { m.v(i, p) * z + m.v(i, q) * u } else { m.v(i, j) }
}
pub open spec fn same(m: Mat, w: Mat) -> bool { w.dim(&m) && forall|i: int, j: int| m.has(i, j) ==> #[trigger] w.v(i, j) == m.v(i, j) }
// the matrices (x y / z u) and (x' z' / y' u') are inverse to each other, in both orders
pub open spec fn coef(x: int, y: int, z: int, u: int, x2: int, y2: int, z2: int, u2: int) -> bool {
    &&& x * x2 + y * y2 == 1 && x * z2 + y * u2 == 0 && z * x2 + u * y2 == 0 && z * z2 + u * u2 == 1
    &&& x * x2 + z * z2 == 1 && x * y2 + z * u2 == 0 && y * x2 + u * z2 == 0 && y * y2 + u * u2 == 1
}
proof fn lemma_dist(a: int, x: int, b: int, y: int, t: int) ensures (a * x + b * y) * t == a * (x * t) + b * (y * t)
{ let (m, n) = (a * x, b * y); assert((m + n) * t == m * t + n * t) by(nonlinear_arith); assert((a * x) * t == a * (x * t)) by(nonlinear_arith); assert((b * y) * t == b * (y * t)) by(nonlinear_arith); }
proof fn lemma_mono(a: int, x: int, c: int, t: int) ensures (a * x) * (c * t) == (a * c) * (x * t)
{ assert((a * x) * (c * t) == a * (x * (c * t))) by(nonlinear_arith); assert(x * (c * t) == c * (x * t)) by(nonlinear_arith); let u = x * t; assert(a * (c * u) == (a * c) * u) by(nonlinear_arith); }
proof fn lemma_exp(a: int, x: int, b: int, y: int, c: int, s: int, d: int, t: int)
    ensures (a * x + b * y) * (c * s + d * t) == (a * c) * (x * s) + (a * d) * (x * t) + (b * c) * (y * s) + (b * d) * (y * t)
{
    let (m, n, k, l) = (a * x, b * y, c * s, d * t);
    assert((m + n) * (k + l) == m * k + m * l + n * k + n * l) by(nonlinear_arith);
    lemma_mono(a, x, c, s); lemma_mono(a, x, d, t); lemma_mono(b, y, c, s); lemma_mono(b, y, d, t);
}
proof fn lemma_fac(k: int, s: int, t: int) ensures k * s + k * t == k * (s + t) { assert(k * s + k * t == k * (s + t)) by(nonlinear_arith); }
proof fn lemma_cell(d1: int, d2: int, d3: int, d4: int, x: int, y: int, x2: int, y2: int)
    ensures (d1 * x + d2 * y) * x2 + (d3 * x + d4 * y) * y2 == d1 * (x * x2) + d2 * (y * x2) + d3 * (x * y2) + d4 * (y * y2),
        d1 == 1 ==> d1 * (x * x2) == x * x2, d1 == 0 ==> d1 * (x * x2) == 0,
        d2 == 1 ==> d2 * (y * x2) == y * x2, d2 == 0 ==> d2 * (y * x2) == 0,
        d3 == 1 ==> d3 * (x * y2) == x * y2, d3 == 0 ==> d3 * (x * y2) == 0,
        d4 == 1 ==> d4 * (y * y2) == y * y2, d4 == 0 ==> d4 * (y * y2) == 0,
{ lemma_dist(d1, x, d2, y, x2); lemma_dist(d3, x, d4, y, y2); }
// the coefficients with which the row (column) i of the transformed matrix is read off
pub open spec fn src(i: int, p: int, q: int) -> (int, int) { if i == p || i == q { (p, q) } else { (i, i) } }
pub open spec fn cf(i: int, p: int, q: int, x: int, y: int, z: int, u: int) -> (int, int) { if i == p { (x, y) } else if i == q { (z, u) } else { (1, 0) } }
proof fn lemma_inv_rows(r: Mat, r2: Mat, w: Mat, w2: Mat, n: int, p: int, q: int, x: int, y: int, z: int, u: int, xi: int, yi: int, zi: int, ui: int)
    requires square(r, n), square(w, n), isinv(r, w, n), rowt(r, r2, p, q, x, y, z, u), colt(w, w2, p, q, xi, yi, zi, ui), p != q, 0 <= p < n, 0 <= q < n, coef(x, y, z, u, xi, yi, zi, ui),
    ensures isinv(r2, w2, n),
{
    reveal(isinv);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(r2, w2, i, j, n) == delta(i, j) by {
        let (ip, iq) = src(i, p, q); let (a, b) = cf(i, p, q, x, y, z, u);
        let (jp, jq) = src(j, p, q); let (c, d) = cf(j, p, q, xi, yi, zi, ui);
        assert forall|k: int| 0 <= k < n implies #[trigger] r2.v(i, k) == r.v(ip, k) * a + r.v(iq, k) * b by { assert(r.has(i, k)); lemma_lin(r.v(i, k), r.v(i, k), 0, 0, 0, 0, 0); }
        assert forall|k: int| 0 <= k < n implies #[trigger] w2.v(k, j) == w.v(k, jp) * c + w.v(k, jq) * d by { assert(w.has(k, j)); lemma_lin(w.v(k, j), w.v(k, j), 0, 0, 0, 0, 0); }
        lemma_mm_row(r, r2, w, i, ip, iq, a, b, jp, n);
        lemma_mm_row(r, r2, w, i, ip, iq, a, b, jq, n);
        lemma_mm_col(r2, w, w2, j, jp, jq, c, d, i, n);
        let (d1, d2, d3, d4) = (mm(r, w, ip, jp, n), mm(r, w, iq, jp, n), mm(r, w, ip, jq, n), mm(r, w, iq, jq, n));
        assert(d1 == delta(ip, jp) && d2 == delta(iq, jp) && d3 == delta(ip, jq) && d4 == delta(iq, jq));
        lemma_cell(d1, d2, d3, d4, a, b, c, d);
        assert(mm(r2, w2, i, j, n) == d1 * (a * c) + d2 * (b * c) + d3 * (a * d) + d4 * (b * d));
        assert(0 * c == 0 && 1 * c == c && 0 * d == 0 && a * 1 == a && a * 0 == 0 && b * 0 == 0 && b * 1 == b);
    }
}
proof fn lemma_two_terms(a: int, b: int, c: int, d: int, x: int, y: int, z: int, u: int, xi: int, yi: int, zi: int, ui: int)
    requires coef(x, y, z, u, xi, yi, zi, ui),
    ensures (a * x + b * y) * (c * xi + d * yi) + (a * z + b * u) * (c * zi + d * ui) == a * c + b * d,
{
    lemma_exp(a, x, b, y, c, xi, d, yi); lemma_exp(a, z, b, u, c, zi, d, ui);
    lemma_fac(a * c, x * xi, z * zi); lemma_fac(a * d, x * yi, z * ui); lemma_fac(b * c, y * xi, u * zi); lemma_fac(b * d, y * yi, u * ui);
    assert((a * c) * 1 == a * c && (a * d) * 0 == 0 && (b * c) * 0 == 0 && (b * d) * 1 == b * d);
}
proof fn lemma_inv_cols(r: Mat, r2: Mat, w: Mat, w2: Mat, n: int, p: int, q: int, x: int, y: int, z: int, u: int, xi: int, yi: int, zi: int, ui: int)
    requires square(r, n), square(w, n), isinv(r, w, n), colt(r, r2, p, q, x, y, z, u), rowt(w, w2, p, q, xi, yi, zi, ui), p != q, 0 <= p < n, 0 <= q < n, coef(x, y, z, u, xi, yi, zi, ui),
    ensures isinv(r2, w2, n),
{
    reveal(isinv);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(r2, w2, i, j, n) == delta(i, j) by {
        lemma_mm_two(r, r2, w, w2, p, q, i, j, n);
        lemma_two_terms(r.v(i, p), r.v(i, q), w.v(p, j), w.v(q, j), x, y, z, u, xi, yi, zi, ui);
        assert(r.has(i, p) && r.has(i, q) && w.has(p, j) && w.has(q, j));
        assert(mm(r, w, i, j, n) == delta(i, j));
    }
}
// the two-row step on s, r and the two-column step on ri keep the invariant
proof fn lemma_rstep(a: Mat, s: Mat, s2: Mat, r: Mat, r2: Mat, ri: Mat, ri2: Mat, c: Mat, ci: Mat, p: int, q: int, x: int, y: int, z: int, u: int, xi: int, yi: int, zi: int, ui: int)
    requires inv(a, s, r, ri, c, ci), rowt(s, s2, p, q, x, y, z, u), rowt(r, r2, p, q, x, y, z, u), colt(ri, ri2, p, q, xi, yi, zi, ui), p != q, 0 <= p < a.nr(), 0 <= q < a.nr(), coef(x, y, z, u, xi, yi, zi, ui),
    ensures inv(a, s2, r2, ri2, c, ci),
{
    lemma_inv_rows(r, r2, ri, ri2, a.nr(), p, q, x, y, z, u, xi, yi, zi, ui);
    assert(conj(s2, r2, a, c)) by {
        reveal(conj);
        assert forall|i: int, j: int| a.has(i, j) implies #[trigger] s2.v(i, j) == rac(r2, a, c, i, j, a.nr()) by {
            let (ip, iq) = src(i, p, q); let (e, f) = cf(i, p, q, x, y, z, u);
            assert forall|k: int| 0 <= k < a.nr() implies #[trigger] r2.v(i, k) == r.v(ip, k) * e + r.v(iq, k) * f by { assert(r.has(i, k)); lemma_lin(r.v(i, k), r.v(i, k), 0, 0, 0, 0, 0); }
            lemma_rac_row(r, r2, a, c, i, ip, iq, e, f, j, a.nr());
            assert(s.has(i, j) && a.has(ip, j) && a.has(iq, j));
            assert(s.v(ip, j) == rac(r, a, c, ip, j, a.nr()) && s.v(iq, j) == rac(r, a, c, iq, j, a.nr()));
            lemma_lin(s.v(i, j), s.v(i, j), 0, 0, 0, 0, 0);
        }
    }
}
proof fn lemma_cstep(a: Mat, s: Mat, s2: Mat, r: Mat, ri: Mat, c: Mat, c2: Mat, ci: Mat, ci2: Mat, p: int, q: int, x: int, y: int, z: int, u: int, xi: int, yi: int, zi: int, ui: int)
    requires inv(a, s, r, ri, c, ci), colt(s, s2, p, q, x, y, z, u), colt(c, c2, p, q, x, y, z, u), rowt(ci, ci2, p, q, xi, yi, zi, ui), p != q, 0 <= p < a.nc(), 0 <= q < a.nc(), coef(x, y, z, u, xi, yi, zi, ui),
    ensures inv(a, s2, r, ri, c2, ci2),
{
    lemma_inv_cols(c, c2, ci, ci2, a.nc(), p, q, x, y, z, u, xi, yi, zi, ui);
    assert(conj(s2, r, a, c2)) by {
        reveal(conj);
        assert forall|i: int, j: int| a.has(i, j) implies #[trigger] s2.v(i, j) == rac(r, a, c2, i, j, a.nr()) by {
            let (jp, jq) = src(j, p, q); let (e, f) = cf(j, p, q, x, y, z, u);
            assert forall|k: int| 0 <= k < a.nc() implies #[trigger] c2.v(k, j) == c.v(k, jp) * e + c.v(k, jq) * f by { assert(c.has(k, j)); lemma_lin(c.v(k, j), c.v(k, j), 0, 0, 0, 0, 0); }
            lemma_rac_col(r, a, c, c2, j, jp, jq, e, f, i, a.nr());
            assert(s.has(i, j) && a.has(i, jp) && a.has(i, jq));
            assert(s.v(i, jp) == rac(r, a, c, i, jp, a.nr()) && s.v(i, jq) == rac(r, a, c, i, jq, a.nr()));
            lemma_lin(s.v(i, j), s.v(i, j), 0, 0, 0, 0, 0);
        }
    }
}
// the particular steps of the code
proof fn lemma_same_inv(a: Mat, s: Mat, s2: Mat, r: Mat, r2: Mat, ri: Mat, ri2: Mat, c: Mat, c2: Mat, ci: Mat, ci2: Mat)
    requires inv(a, s, r, ri, c, ci), same(s, s2), same(r, r2), same(ri, ri2), same(c, c2), same(ci, ci2), ensures inv(a, s2, r2, ri2, c2, ci2),
{
    reveal(conj); reveal(isinv);
    assert forall|i: int, j: int| 0 <= i < a.nr() && 0 <= j < a.nr() implies #[trigger] mm(r2, ri2, i, j, a.nr()) == delta(i, j) by { lemma_same_mm(r, r2, ri, ri2, i, j, a.nr()); assert(mm(r, ri, i, j, a.nr()) == delta(i, j)); }
    assert forall|i: int, j: int| 0 <= i < a.nc() && 0 <= j < a.nc() implies #[trigger] mm(c2, ci2, i, j, a.nc()) == delta(i, j) by { lemma_same_mm(c, c2, ci, ci2, i, j, a.nc()); assert(mm(c, ci, i, j, a.nc()) == delta(i, j)); }
    assert forall|i: int, j: int| a.has(i, j) implies #[trigger] s2.v(i, j) == rac(r2, a, c2, i, j, a.nr()) by { lemma_same_rac(r, r2, a, c, c2, i, j, a.nr()); assert(s.has(i, j)); assert(s2.v(i, j) == s.v(i, j)); }
}
proof fn lemma_same_mm(a: Mat, a2: Mat, b: Mat, b2: Mat, i: int, j: int, n: int)
    requires square(a, n), square(b, n), same(a, a2), same(b, b2), 0 <= i < n, 0 <= j < n, ensures mm(a2, b2, i, j, n) == mm(a, b, i, j, n),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] a2.v(i, k) == a.v(i, k) by { assert(a.has(i, k)); }
    assert forall|k: int| 0 <= k < n implies #[trigger] b2.v(k, j) == b.v(k, j) by { assert(b.has(k, j)); }
    lemma_mm_same(a, a2, b, b2, i, j, n);
}
proof fn lemma_same_rac(r: Mat, r2: Mat, a: Mat, c: Mat, c2: Mat, i: int, j: int, n: int)
    requires square(r, a.nr()), square(c, a.nc()), same(r, r2), same(c, c2), 0 <= i < a.nr(), 0 <= j < a.nc(), 0 <= n <= a.nr(), ensures rac(r2, a, c2, i, j, n) == rac(r, a, c, i, j, n), decreases n
{
    if n > 0 {
        lemma_same_rac(r, r2, a, c, c2, i, j, n - 1); assert(r.has(i, n - 1));
        assert forall|k: int| 0 <= k < a.nc() implies #[trigger] c2.v(k, j) == c.v(k, j) by { assert(c.has(k, j)); }
        lemma_mm_same(a, a, c, c2, n - 1, j, a.nc());
    }
}
proof fn lemma_row_added(m: Mat, w: Mat, k: int, l: int, c: int) requires row_added(m, w, k, l, c), k != l, m.nr() > k, k >= 0, ensures rowt(m, w, k, l, 1, c, 0, 1)
{ assert forall|i: int, j: int| m.has(i, j) implies #[trigger] w.v(i, j) == if i == k { m.v(k, j) * 1 + m.v(l, j) * c } else if i == l { m.v(k, j) * 0 + m.v(l, j) * 1 } else { m.v(i, j) } by { } }
proof fn lemma_col_added(m: Mat, w: Mat, k: int, l: int, c: int) requires col_added(m, w, k, l, c), k != l, ensures colt(m, w, k, l, 1, c, 0, 1)
{ assert forall|i: int, j: int| m.has(i, j) implies #[trigger] w.v(i, j) == if j == k { m.v(i, k) * 1 + m.v(i, l) * c } else if j == l { m.v(i, k) * 0 + m.v(i, l) * 1 } else { m.v(i, j) } by { } }
// the same with the roles of the two rows (columns) written the other way round
proof fn lemma_row_added_t(m: Mat, w: Mat, k: int, l: int, c: int) requires row_added(m, w, l, k, c), k != l, ensures rowt(m, w, k, l, 1, 0, c, 1)
{ assert forall|i: int, j: int| m.has(i, j) implies #[trigger] w.v(i, j) == if i == k { m.v(k, j) * 1 + m.v(l, j) * 0 } else if i == l { m.v(k, j) * c + m.v(l, j) * 1 } else { m.v(i, j) } by { } }
proof fn lemma_col_added_t(m: Mat, w: Mat, k: int, l: int, c: int) requires col_added(m, w, l, k, c), k != l, ensures colt(m, w, k, l, 1, 0, c, 1)
{ assert forall|i: int, j: int| m.has(i, j) implies #[trigger] w.v(i, j) == if j == k { m.v(i, k) * 1 + m.v(i, l) * 0 } else if j == l { m.v(i, k) * c + m.v(i, l) * 1 } else { m.v(i, j) } by { } }
proof fn lemma_coef_add(c: int) ensures coef(1, c, 0, 1, 1, 0, -c, 1) { assert(1 * -c + c * 1 == 0); assert(0 * 0 == 0 && 0 * -c == 0 && c * 0 == 0 && 1 * 1 == 1); }
// row k += c row l on s and r, column l += -c column k on ri
proof fn lemma_radd(a: Mat, s: Mat, s2: Mat, r: Mat, r2: Mat, ri: Mat, ri2: Mat, c: Mat, ci: Mat, k: int, l: int, e: int)
    requires inv(a, s, r, ri, c, ci), row_added(s, s2, k, l, e), row_added(r, r2, k, l, e), col_added(ri, ri2, l, k, -e), k != l, 0 <= k < a.nr(), 0 <= l < a.nr(),
    ensures inv(a, s2, r2, ri2, c, ci),
{
    lemma_row_added(s, s2, k, l, e); lemma_row_added(r, r2, k, l, e); lemma_col_added_t(ri, ri2, k, l, -e); lemma_coef_add(e);
    lemma_rstep(a, s, s2, r, r2, ri, ri2, c, ci, k, l, 1, e, 0, 1, 1, 0, -e, 1);
}
proof fn lemma_cadd(a: Mat, s: Mat, s2: Mat, r: Mat, ri: Mat, c: Mat, c2: Mat, ci: Mat, ci2: Mat, k: int, l: int, e: int)
    requires inv(a, s, r, ri, c, ci), col_added(s, s2, k, l, e), col_added(c, c2, k, l, e), row_added(ci, ci2, l, k, -e), k != l, 0 <= k < a.nc(), 0 <= l < a.nc(),
    ensures inv(a, s2, r, ri, c2, ci2),
{
    lemma_col_added(s, s2, k, l, e); lemma_col_added(c, c2, k, l, e); lemma_row_added_t(ci, ci2, k, l, -e); lemma_coef_add(e);
    lemma_cstep(a, s, s2, r, ri, c, c2, ci, ci2, k, l, 1, e, 0, 1, 1, 0, -e, 1);
}
proof fn lemma_rswap(a: Mat, s: Mat, s2: Mat, r: Mat, r2: Mat, ri: Mat, ri2: Mat, c: Mat, ci: Mat, k: int, l: int)
    requires inv(a, s, r, ri, c, ci), row_swapped(s, s2, k, l), row_swapped(r, r2, k, l), col_swapped(ri, ri2, k, l) || col_swapped(ri, ri2, l, k), 0 <= k < a.nr(), 0 <= l < a.nr(),
    ensures inv(a, s2, r2, ri2, c, ci),
{
    if k == l { lemma_same_inv(a, s, s2, r, r2, ri, ri2, c, c, ci, ci); }
    else {
        assert(rowt(s, s2, k, l, 0, 1, 1, 0)); assert(rowt(r, r2, k, l, 0, 1, 1, 0)); assert(colt(ri, ri2, k, l, 0, 1, 1, 0));
        lemma_rstep(a, s, s2, r, r2, ri, ri2, c, ci, k, l, 0, 1, 1, 0, 0, 1, 1, 0);
    }
}
proof fn lemma_cswap(a: Mat, s: Mat, s2: Mat, r: Mat, ri: Mat, c: Mat, c2: Mat, ci: Mat, ci2: Mat, k: int, l: int)
    requires inv(a, s, r, ri, c, ci), col_swapped(s, s2, k, l), col_swapped(c, c2, k, l), row_swapped(ci, ci2, k, l) || row_swapped(ci, ci2, l, k), 0 <= k < a.nc(), 0 <= l < a.nc(),
    ensures inv(a, s2, r, ri, c2, ci2),
{
    if k == l { lemma_same_inv(a, s, s2, r, r, ri, ri, c, c2, ci, ci2); }
    else {
        assert(colt(s, s2, k, l, 0, 1, 1, 0)); assert(colt(c, c2, k, l, 0, 1, 1, 0)); assert(rowt(ci, ci2, k, l, 0, 1, 1, 0));
        lemma_cstep(a, s, s2, r, ri, c, c2, ci, ci2, k, l, 0, 1, 1, 0, 0, 1, 1, 0);
    }
}
// ------------------------------------------------------------------ the shape while the pivots are found: the rows above i have their only entry at the columns ps, the rows from i on are empty left of j
#[verifier::opaque]
pub open spec fn shape1(s: Mat, ps: Seq<int>, i: int, j: int) -> bool {
    &&& ps.len() == i && 0 <= i <= s.nr() && 0 <= j <= s.nc()
    &&& forall|r: int| 0 <= r < i ==> r <= #[trigger] ps[r] < j
    &&& forall|r: int, t: int| 0 <= r < t < i ==> #[trigger] ps[r] < #[trigger] ps[t]
    &&& forall|r: int, l: int| 0 <= r < i && 0 <= l < s.nc() ==> (#[trigger] s.v(r, l) != 0 <==> l == ps[r])
    &&& forall|r: int, l: int| i <= r < s.nr() && 0 <= l < j ==> #[trigger] s.v(r, l) == 0
}
proof fn lemma_zero2(x: int, y: int, a: int, b: int) requires a == 0, b == 0, ensures a * x + b * y == 0 { assert(0 * x == 0 && 0 * y == 0); }
proof fn lemma_shape_start(s: Mat) requires s.nr() >= 0, s.nc() >= 0, ensures shape1(s, Seq::empty(), 0, 0) { reveal(shape1); }
proof fn lemma_shape_dims(s: Mat, ps: Seq<int>, i: int, j: int) requires shape1(s, ps, i, j), ensures 0 <= i <= s.nr(), 0 <= j <= s.nc(), i <= j, ps.len() == i
{ reveal(shape1); if i > 0 { assert(i - 1 <= ps[i - 1] < j); } }
// the columns before l are empty from row i on
pub open spec fn empty_cols(s: Mat, i: int, j: int, l: int) -> bool { forall|r: int, t: int| i <= r < s.nr() && j <= t < l ==> #[trigger] s.v(r, t) == 0 }
proof fn lemma_shape_advance(s: Mat, ps: Seq<int>, i: int, j: int, l: int) requires shape1(s, ps, i, j), j <= l <= s.nc(), empty_cols(s, i, j, l), ensures shape1(s, ps, i, l)
{ reveal(shape1); assert forall|r: int, t: int| i <= r < s.nr() && 0 <= t < l implies #[trigger] s.v(r, t) == 0 by { } assert forall|r: int| 0 <= r < i implies r <= #[trigger] ps[r] < l by { } }
proof fn lemma_shape_rowt(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, p: int, q: int, x: int, y: int, z: int, u: int)
    requires shape1(s, ps, i, j), rowt(s, s2, p, q, x, y, z, u), i <= p < s.nr(), i <= q < s.nr(), ensures shape1(s2, ps, i, j),
{
    reveal(shape1);
    assert forall|r: int, l: int| i <= r < s2.nr() && 0 <= l < j implies #[trigger] s2.v(r, l) == 0 by { assert(s.has(r, l)); lemma_zero2(x, y, s.v(p, l), s.v(q, l)); lemma_zero2(z, u, s.v(p, l), s.v(q, l)); }
    assert forall|r: int, l: int| 0 <= r < i && 0 <= l < s2.nc() implies (#[trigger] s2.v(r, l) != 0 <==> l == ps[r]) by { assert(s.has(r, l)); assert(s2.v(r, l) == s.v(r, l)); }
}
proof fn lemma_shape_colt(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, p: int, q: int, x: int, y: int, z: int, u: int)
    requires shape1(s, ps, i, j), colt(s, s2, p, q, x, y, z, u), j <= p < s.nc(), j <= q < s.nc(), ensures shape1(s2, ps, i, j),
{
    reveal(shape1);
    assert forall|r: int, l: int| i <= r < s2.nr() && 0 <= l < j implies #[trigger] s2.v(r, l) == 0 by { assert(s.has(r, l)); assert(s2.v(r, l) == s.v(r, l)); }
    assert forall|r: int, l: int| 0 <= r < i && 0 <= l < s2.nc() implies (#[trigger] s2.v(r, l) != 0 <==> l == ps[r]) by {
        assert(s.has(r, l)); assert(ps[r] < j);
        if l == p || l == q { assert(s.v(r, p) == 0 && s.v(r, q) == 0); lemma_zero2(x, y, s.v(r, p), s.v(r, q)); lemma_zero2(z, u, s.v(r, p), s.v(r, q)); }
        else { assert(s2.v(r, l) == s.v(r, l)); }
    }
}
proof fn lemma_shape_rswap(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, k: int, l: int)
    requires shape1(s, ps, i, j), row_swapped(s, s2, k, l), i <= k < s.nr(), i <= l < s.nr(), ensures shape1(s2, ps, i, j),
{
    reveal(shape1);
    assert forall|r: int, l: int| i <= r < s2.nr() && 0 <= l < j implies #[trigger] s2.v(r, l) == 0 by { assert(s.has(r, l)); }
    assert forall|r: int, l: int| 0 <= r < i && 0 <= l < s2.nc() implies (#[trigger] s2.v(r, l) != 0 <==> l == ps[r]) by { assert(s.has(r, l)); assert(s2.v(r, l) == s.v(r, l)); }
}
proof fn lemma_shape_cswap(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, k: int, l: int)
    requires shape1(s, ps, i, j), col_swapped(s, s2, k, l), j <= k < s.nc(), j <= l < s.nc(), ensures shape1(s2, ps, i, j),
{
    reveal(shape1);
    assert forall|r: int, t: int| i <= r < s2.nr() && 0 <= t < j implies #[trigger] s2.v(r, t) == 0 by { assert(s.has(r, t)); assert(s2.v(r, t) == s.v(r, t)); }
    assert forall|r: int, t: int| 0 <= r < i && 0 <= t < s2.nc() implies (#[trigger] s2.v(r, t) != 0 <==> t == ps[r]) by { assert(s.has(r, t)); assert(ps[r] < j); if t == k || t == l { assert(s.v(r, k) == 0 && s.v(r, l) == 0); } else { assert(s2.v(r, t) == s.v(r, t)); } }
}
// a transformation of the rows i and k written from column j on only is one of the whole rows
pub open spec fn prow(s: Mat, s2: Mat, j: int, p: int, q: int, x: int, y: int, z: int, u: int) -> bool {
    s2.dim(&s) && forall|r: int, l: int| s.has(r, l) ==> #[trigger] s2.v(r, l) == if l < j { s.v(r, l) } else if r == p { s.v(p, l) * x + s.v(q, l) * y } else if r == q { s.v(p, l) * z + s.v(q, l) * u } else { s.v(r, l) }
}
pub open spec fn pcol(s: Mat, s2: Mat, i: int, p: int, q: int, x: int, y: int, z: int, u: int) -> bool {
    s2.dim(&s) && forall|r: int, l: int| s.has(r, l) ==> #[trigger] s2.v(r, l) == if r < i { s.v(r, l) } else if l == p { s.v(r, p) * x + s.v(r, q) * y } else if l == q { s.v(r, p) * z + s.v(r, q) * u } else { s.v(r, l) }
}
proof fn lemma_prow(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, p: int, q: int, x: int, y: int, z: int, u: int)
    requires shape1(s, ps, i, j), prow(s, s2, j, p, q, x, y, z, u) || rowt(s, s2, p, q, x, y, z, u), i <= p < s.nr(), i <= q < s.nr(), ensures rowt(s, s2, p, q, x, y, z, u), shape1(s2, ps, i, j),
{
    if !rowt(s, s2, p, q, x, y, z, u) {
        reveal(shape1);
        assert forall|r: int, l: int| s.has(r, l) implies #[trigger] s2.v(r, l) == if r == p { s.v(p, l) * x + s.v(q, l) * y } else if r == q { s.v(p, l) * z + s.v(q, l) * u } else { s.v(r, l) } by {
            if l < j { if r == p || r == q { assert(s.v(p, l) == 0 && s.v(q, l) == 0); lemma_zero2(x, y, s.v(p, l), s.v(q, l)); lemma_zero2(z, u, s.v(p, l), s.v(q, l)); } }
        }
    }
    lemma_shape_rowt(s, s2, ps, i, j, p, q, x, y, z, u);
}
proof fn lemma_pcol(s: Mat, s2: Mat, ps: Seq<int>, i: int, j: int, p: int, q: int, x: int, y: int, z: int, u: int)
    requires shape1(s, ps, i, j), pcol(s, s2, i, p, q, x, y, z, u) || colt(s, s2, p, q, x, y, z, u), j <= p < s.nc(), j <= q < s.nc(), ensures colt(s, s2, p, q, x, y, z, u), shape1(s2, ps, i, j),
{
    if !colt(s, s2, p, q, x, y, z, u) {
        reveal(shape1);
        assert forall|r: int, l: int| s.has(r, l) implies #[trigger] s2.v(r, l) == if l == p { s.v(r, p) * x + s.v(r, q) * y } else if l == q { s.v(r, p) * z + s.v(r, q) * u } else { s.v(r, l) } by {
            if r < i { if l == p || l == q { assert(ps[r] < j); assert(s.v(r, p) == 0 && s.v(r, q) == 0); lemma_zero2(x, y, s.v(r, p), s.v(r, q)); lemma_zero2(z, u, s.v(r, p), s.v(r, q)); } }
        }
    }
    lemma_shape_colt(s, s2, ps, i, j, p, q, x, y, z, u);
}
proof fn lemma_shape_push(s: Mat, ps: Seq<int>, i: int, j: int)
    requires shape1(s, ps, i, j), i < s.nr(), j < s.nc(), s.v(i, j) != 0, forall|k: int| i < k < s.nr() ==> #[trigger] s.v(k, j) == 0, forall|l: int| j < l < s.nc() ==> #[trigger] s.v(i, l) == 0,
    ensures shape1(s, ps.push(j), i + 1, j + 1),
{
    lemma_shape_dims(s, ps, i, j);
    reveal(shape1);
    let p2 = ps.push(j);
    assert forall|r: int| 0 <= r < i + 1 implies r <= #[trigger] p2[r] < j + 1 by { if r < i { assert(p2[r] == ps[r]); } }
    assert forall|r: int, t: int| 0 <= r < t < i + 1 implies #[trigger] p2[r] < #[trigger] p2[t] by { assert(p2[r] == ps[r]); if t < i { assert(p2[t] == ps[t]); } }
    assert forall|r: int, l: int| 0 <= r < i + 1 && 0 <= l < s.nc() implies (#[trigger] s.v(r, l) != 0 <==> l == p2[r]) by { if r < i { assert(p2[r] == ps[r]); } }
    assert forall|r: int, l: int| i + 1 <= r < s.nr() && 0 <= l < j + 1 implies #[trigger] s.v(r, l) == 0 by { }
}
// the pivots before r are on the diagonal
#[verifier::opaque]
pub open spec fn shape2(s: Mat, ps: Seq<int>, d: int) -> bool {
    &&& ps.len() <= s.nr()
    &&& forall|r: int| 0 <= r < ps.len() ==> r <= #[trigger] ps[r] < s.nc() && (r < d ==> ps[r] == r)
    &&& forall|r: int, t: int| 0 <= r < t < ps.len() ==> #[trigger] ps[r] < #[trigger] ps[t]
    &&& forall|r: int, l: int| 0 <= r < ps.len() && 0 <= l < s.nc() ==> (#[trigger] s.v(r, l) != 0 <==> l == ps[r])
    &&& forall|r: int, l: int| ps.len() <= r < s.nr() && 0 <= l < s.nc() ==> #[trigger] s.v(r, l) == 0
}
// a diagonal matrix of rank k: exactly the first k entries of the diagonal are nonzero
pub open spec fn diag(s: Mat, k: int) -> bool {
    0 <= k <= s.nr() && k <= s.nc() && forall|r: int, l: int| s.has(r, l) ==> (#[trigger] s.v(r, l) != 0 <==> r == l && r < k)
}
proof fn lemma_shape12(s: Mat, ps: Seq<int>, i: int, j: int) requires shape1(s, ps, i, j), i == s.nr() || empty_cols(s, i, j, s.nc()), ensures shape2(s, ps, 0)
{
    reveal(shape1); reveal(shape2);
    assert forall|r: int, l: int| ps.len() <= r < s.nr() && 0 <= l < s.nc() implies #[trigger] s.v(r, l) == 0 by { }
    assert forall|r: int| 0 <= r < ps.len() implies r <= #[trigger] ps[r] < s.nc() by { }
}
proof fn lemma_shape2_next(s: Mat, ps: Seq<int>, d: int) requires shape2(s, ps, d), 0 <= d < s.nr(), d < s.nc(), s.v(d, d) != 0, ensures shape2(s, ps, d + 1)
{ reveal(shape2); assert(s.has(d, d)); assert(d < ps.len() && ps[d] == d);
  assert forall|r: int| 0 <= r < ps.len() implies r <= #[trigger] ps[r] < s.nc() && (r < d + 1 ==> ps[r] == r) by { } }
pub open spec fn at_end(s: Mat, d: int) -> bool { d == s.nr() || d == s.nc() || (d < s.nr() && d < s.nc() && s.v(d, d) == 0 && forall|t: int| d < t < s.nc() ==> #[trigger] s.v(d, t) == 0) }
// no pivot to the right of the diagonal: all pivots are in place
proof fn lemma_shape2_end(s: Mat, ps: Seq<int>, d: int)
    requires s.nc() >= 0, s.nr() >= 0, shape2(s, ps, d), 0 <= d, at_end(s, d), ensures diag(s, ps.len() as int)
{
    reveal(shape2);
    if ps.len() > 0 { let t = ps.len() - 1; assert(t <= ps[t] < s.nc()); }
    if d < ps.len() { assert(d <= ps[d] < s.nc()); assert(s.v(d, ps[d]) != 0); assert(false); }
    assert forall|r: int| 0 <= r < ps.len() implies #[trigger] ps[r] == r by { }
    assert forall|r: int, l: int| s.has(r, l) implies (#[trigger] s.v(r, l) != 0 <==> r == l && r < ps.len()) by { }
}
// moving the entry (d, t) to (d, d) exchanges the columns d and t
proof fn lemma_shape2_move(s: Mat, s2: Mat, ps: Seq<int>, d: int, t: int)
    requires shape2(s, ps, d), 0 <= d < s.nr(), d < t < s.nc(), s.v(d, d) == 0, s.v(d, t) != 0, s2.dim(&s),
        forall|r: int, l: int| s.has(r, l) ==> #[trigger] s2.v(r, l) == if r == d && l == d { s.v(d, t) } else if r == d && l == t { 0 } else { s.v(r, l) },
    ensures col_swapped(s, s2, d, t), shape2(s2, ps.update(d, d), d + 1),
{
    reveal(shape2);
    assert(s.has(d, t)); assert(d < ps.len() && ps[d] == t);
    let p2 = ps.update(d, d);
    assert forall|r: int, l: int| s.has(r, l) implies #[trigger] s2.v(r, l) == if l == d { s.v(r, t) } else if l == t { s.v(r, d) } else { s.v(r, l) } by {
        if r != d && r < ps.len() { if r < d { assert(ps[r] == r); } else { assert(ps[d] < ps[r]); } }
        assert(s.v(r, t) != 0 || s.v(r, t) == 0); assert(s.v(r, d) != 0 || s.v(r, d) == 0);
    }
    assert forall|r: int| 0 <= r < p2.len() implies r <= #[trigger] p2[r] < s2.nc() && (r < d + 1 ==> p2[r] == r) by { if r != d { assert(p2[r] == ps[r]); } }
    assert forall|r: int, k: int| 0 <= r < k < p2.len() implies #[trigger] p2[r] < #[trigger] p2[k] by { if r == d { assert(ps[d] < ps[k]); } else if k == d { assert(ps[r] == r); } else { assert(ps[r] < ps[k]); } }
    assert forall|r: int, l: int| 0 <= r < p2.len() && 0 <= l < s2.nc() implies (#[trigger] s2.v(r, l) != 0 <==> l == p2[r]) by { assert(s.has(r, l)); if r != d { assert(p2[r] == ps[r]); assert(s2.v(r, l) == s.v(r, l)); } }
    assert forall|r: int, l: int| p2.len() <= r < s2.nr() && 0 <= l < s2.nc() implies #[trigger] s2.v(r, l) == 0 by { assert(s.has(r, l)); }
}
// ------------------------------------------------------------------ divisibility along the diagonal: done for all pairs before (r, t)
#[verifier::opaque]
pub open spec fn chain(s: Mat, k: int, r: int, t: int) -> bool { forall|a: int, b: int| 0 <= a < b < k && (a < r || (a == r && b < t)) ==> #[trigger] dvd(s.v(a, a), s.v(b, b)) }
// the Smith normal form
pub open spec fn snf(s: Mat) -> bool { exists|k: int| #[trigger] diag(s, k) && forall|a: int, b: int| 0 <= a < b < k ==> #[trigger] dvd(s.v(a, a), s.v(b, b)) }
// each diagonal entry divides the next, zeros last
proof fn lemma_snf(s: Mat) requires snf(s), ensures forall|r: int, l: int| s.has(r, l) && r != l ==> #[trigger] s.v(r, l) == 0, forall|a: int| 0 <= a && a + 1 < s.nr() && a + 1 < s.nc() ==> dvd(#[trigger] s.v(a, a), s.v(a + 1, a + 1))
{
    let k = choose|k: int| #[trigger] diag(s, k) && forall|a: int, b: int| 0 <= a < b < k ==> #[trigger] dvd(s.v(a, a), s.v(b, b));
    assert forall|a: int| 0 <= a && a + 1 < s.nr() && a + 1 < s.nc() implies dvd(#[trigger] s.v(a, a), s.v(a + 1, a + 1)) by {
        assert(s.has(a + 1, a + 1));
        if a + 1 < k { assert(dvd(s.v(a, a), s.v(a + 1, a + 1))); } else { assert(s.v(a + 1, a + 1) == 0); assert(s.v(a, a) * 0 == 0); }
    }
}
// the pair of diagonal entries a, b replaced by their gcd g and their common multiple (a / g) b
proof fn lemma_chain_step(s: Mat, s2: Mat, k: int, r: int, t: int, g: int, m: int)
    requires diag(s, k), diag(s2, k), s2.dim(&s), 0 <= r < t < k, chain(s, k, r, t), s2.v(r, r) == g, s2.v(t, t) == m * s.v(t, t), is_gcd(g, s.v(r, r), s.v(t, t)), dvd(g, m * s.v(t, t)),
        forall|a: int| 0 <= a < k && a != r && a != t ==> #[trigger] s2.v(a, a) == s.v(a, a),
    ensures chain(s2, k, r, t + 1),
{
    reveal(chain);
    assert forall|a: int, b: int| 0 <= a < b < k && (a < r || (a == r && b < t + 1)) implies #[trigger] dvd(s2.v(a, a), s2.v(b, b)) by {
        if a < r {
            assert(dvd(s.v(a, a), s.v(b, b)));
            if b == r { assert(dvd(s.v(a, a), s.v(t, t))); lemma_gcd_greatest(g, s.v(r, r), s.v(t, t), s.v(a, a)); }
            else if b == t { lemma_dvd_intro(s.v(t, t), m); assert(s.v(t, t) * m == m * s.v(t, t)) by(nonlinear_arith); lemma_dvd_trans(s.v(a, a), s.v(t, t), m * s.v(t, t)); }
        } else if b < t { assert(dvd(s.v(r, r), s.v(b, b))); lemma_dvd_trans(g, s.v(r, r), s.v(b, b)); }
    }
}
proof fn lemma_chain_next(s: Mat, k: int, r: int, t: int) requires chain(s, k, r, t), dvd(s.v(r, r), s.v(t, t)), ensures chain(s, k, r, t + 1)
{ reveal(chain); assert forall|a: int, b: int| 0 <= a < b < k && (a < r || (a == r && b < t + 1)) implies #[trigger] dvd(s.v(a, a), s.v(b, b)) by { } }
proof fn lemma_chain_row(s: Mat, k: int, r: int) ensures chain(s, k, r, k) ==> chain(s, k, r + 1, r + 2), chain(s, k, 0, 1), chain(s, k, k, k + 1) && diag(s, k) ==> snf(s)
{ reveal(chain); 
  if chain(s, k, r, k) { assert forall|a: int, b: int| 0 <= a < b < k && (a < r + 1 || (a == r + 1 && b < r + 2)) implies #[trigger] dvd(s.v(a, a), s.v(b, b)) by { } } }
// the arithmetic of one Bezout step: with a = s g and b = t g, the coefficients are inverse to each other, and the pivot gets smaller when it did not divide b
proof fn lemma_bezout(a: int, b: int, g: int, x: int, y: int, s: int, t: int)
    requires is_gcd(g, a, b), x * a + y * b == g, a != 0, a == s * g, b == t * g,
    ensures g != 0, a * x + b * y == g, a * -t + b * s == 0, coef(x, y, -t, s, s, t, -y, x), x * s + y * t == 1, !dvd(a, b) ==> iabs(g) < iabs(a),
{
    if g == 0 { assert(s * 0 == 0); }
    assert(x * a == a * x && y * b == b * y) by(nonlinear_arith);
    assert(x * (s * g) == (x * s) * g && y * (t * g) == (y * t) * g) by(nonlinear_arith);
    lemma_fac2(x * s, y * t, g);
    let w = x * s + y * t;
    assert(w == 1) by(nonlinear_arith) requires w * g == g, g != 0;
    assert((s * g) * -t + (t * g) * s == 0) by(nonlinear_arith);
    assert(x * -y + y * x == 0 && -t * s + s * t == 0 && -t * -y == t * y && x * t + -t * x == 0 && y * s + s * -y == 0 && x * s == s * x && y * t == t * y) by(nonlinear_arith);
    lemma_dvd_le(g, a);
    if !dvd(a, b) && iabs(g) == iabs(a) {
        if g == a { assert(dvd(a, b)); } else { assert(a == -g); assert(a * -t == b) by(nonlinear_arith) requires a == -g, b == t * g; assert(dvd(a, b)); }
    }
}
proof fn lemma_fac2(k: int, l: int, g: int) ensures k * g + l * g == (k + l) * g { assert(k * g + l * g == (k + l) * g) by(nonlinear_arith); }
// an exact division
proof fn lemma_exact(n: int, d: int, q: int, r: int) requires d != 0, dvd(d, n), n == q * d + r, 0 <= r < iabs(d), ensures n == q * d { lemma_euclid_rem(n, d, q, r); }
proof fn lemma_cancel(p: int, q: int) ensures q * p + p * -q == 0 { assert(q * p + p * -q == 0) by(nonlinear_arith); }
// one step of the last phase: the columns r, t are added, the rows combined to the gcd, and the remaining entry is cleared
proof fn lemma_phase3(s0: Mat, s1: Mat, s2: Mat, s3: Mat, k: int, r: int, t: int, g: int, x: int, y: int, z: int, w: int, e: int)
    requires diag(s0, k), 0 <= r < t < k, col_added(s0, s1, r, t, 1), rowt(s1, s2, r, t, x, y, -w, z), col_added(s2, s3, t, r, e),
        is_gcd(g, s1.v(r, r), s1.v(t, r)), x * s1.v(r, r) + y * s1.v(t, r) == g, s1.v(r, r) == z * g, s1.v(t, r) == w * g, e == -w * y,
    ensures s1.v(r, r) == s0.v(r, r), s1.v(t, r) == s0.v(t, t), diag(s3, k), s3.v(r, r) == g, s3.v(t, t) == z * s0.v(t, t), dvd(g, z * s0.v(t, t)), g != 0,
        forall|a: int| 0 <= a < k && a != r && a != t ==> #[trigger] s3.v(a, a) == s0.v(a, a),
{
    let (a, b) = (s0.v(r, r), s0.v(t, t));
    assert(s0.has(r, r) && s0.has(t, t) && s0.has(t, r) && s0.has(r, t));
    assert(s0.v(r, t) == 0 && s0.v(t, r) == 0);
    assert(s1.v(r, r) == a + 0 * 1 && s1.v(t, r) == 0 + b * 1);
    lemma_bezout(a, b, g, x, y, z, w);
    assert(s1.has(r, r) && s1.has(t, t) && s1.has(t, r) && s1.has(r, t));
    assert(s1.v(r, t) == 0 && s1.v(t, t) == b);
    assert(s2.v(r, r) == g && s2.v(t, r) == 0);
    lemma_zero2(x, y, 0, 0); lemma_zero2(-w, z, 0, 0);
    assert(0 * x == 0 && 0 * -w == 0);
    assert(s2.v(r, t) == b * y && s2.v(t, t) == b * z);
    assert(s2.has(r, r) && s2.has(t, t) && s2.has(t, r) && s2.has(r, t));
    assert(b * y + g * e == 0) by(nonlinear_arith) requires b == w * g, e == -w * y;
    assert(0 * e == 0);
    assert(s3.v(r, t) == 0 && s3.v(t, t) == b * z);
    assert(b * z == z * b) by(nonlinear_arith);
    assert(z * b != 0) by(nonlinear_arith) requires a == z * g, a != 0, b != 0;
    assert(g * (w * z) == z * b) by(nonlinear_arith) requires b == w * g;
    assert forall|p: int, q: int| s3.has(p, q) implies (#[trigger] s3.v(p, q) != 0 <==> p == q && p < k) && (p != r && p != t ==> s3.v(p, q) == s0.v(p, q)) by {
        assert(s0.has(p, q) && s0.has(p, t) && s0.has(p, r) && s0.has(r, q) && s0.has(t, q)); assert(s1.has(p, q) && s1.has(p, r) && s1.has(r, q) && s1.has(t, q)); assert(s2.has(p, q) && s2.has(p, r));
        assert(0 * 1 == 0);
        if p != r && p != t {
            assert(s1.v(p, q) == s0.v(p, q)); assert(s1.v(p, r) == s0.v(p, r));
            assert(s2.v(p, q) == s0.v(p, q)); assert(s2.v(p, r) == s0.v(p, r)); assert(s0.v(p, r) == 0);
        } else if q != r && q != t {
            assert(s1.v(r, q) == 0 && s1.v(t, q) == 0); assert(s2.v(p, q) == 0);
        }
    }
}
// a nonzero entry in the column l from row i on
pub open spec fn nzc(s: Mat, i: int, l: int) -> bool { exists|k: int| i <= k < s.nr() && #[trigger] s.v(k, l) != 0 }
pub open spec fn col_zero(s: Mat, i: int, k1: int, l: int) -> bool { forall|k: int| i <= k < k1 ==> #[trigger] s.v(k, l) == 0 }
pub open spec fn row_zero(s: Mat, r: int, t0: int, t1: int) -> bool { forall|t: int| t0 <= t < t1 ==> #[trigger] s.v(r, t) == 0 }
// the pivot divides the entries below it, from k0 to k1 (to the right of it, from l0 to l1)
pub open spec fn col_dvd(s: Mat, i: int, j: int, k0: int, k1: int) -> bool { forall|k: int| k0 <= k < k1 ==> dvd(s.v(i, j), #[trigger] s.v(k, j)) }
pub open spec fn row_dvd(s: Mat, i: int, j: int, l0: int, l1: int) -> bool { forall|l: int| l0 <= l < l1 ==> dvd(s.v(i, j), #[trigger] s.v(i, l)) }
impl Mat {
//@file alg/src/lin_alg/matrix_impl.rs
//@known Matrix::size
//@known SubMatrix::size
//@known SubMatrix::swap_rows
//@known SubMatrix::swap_cols
//@known SubMatrix::row_operation
//@known SubMatrix::col_operation
//@known SubMatrix::write_and_move
//@known Matrix::swap_rows
//@known Matrix::swap_cols
//@known Matrix::row_operation
//@known Matrix::col_operation
//@known Matrix::identity
//@fn Matrix::smith_normal_form T=i64 Self=Mat matidx nodebug op:===&x_eq op:!==&x_ne call:Matrix::identity=Mat::identity call:std::cmp::min=usize_min method:divides=divides_chk method:euclid_div=euclid_div_chk call:bezout_identity=bezout_identity call:i64::zero=zero_i64 call:i64::one=one_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg acc15=Option<usize>
//@.spec
    requires self.nr() > 0, self.nc() > 0,
    ensures inv(self, r.2, r.1, r.0, r.3, r.4), snf(r.2),
//@.entry
    let ghost a0 = self; let ghost mut ps: Seq<int> = Seq::empty();
    let ghost mut gl = 0int; let ghost mut gk = 0int; let ghost mut gx = 0int; let ghost mut gy = 0int; let ghost mut gs = 0int; let ghost mut gt = 0int; let ghost mut gg = 0int;
    let ghost mut done = false;
    let ghost mut sa = self; let ghost mut sb = self; let ghost mut ra = self; let ghost mut rb = self; let ghost mut ca = self; let ghost mut cb = self;
    let ghost mut s1 = self; let ghost mut c1 = self; let ghost mut d1 = self; let ghost mut s2 = self;
//@.loop 0 before
    proof { lemma_start(a0, r_op, r_op_inv, c_op, c_op_inv); lemma_shape_start(self_); }
//@.loop 0
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i <= a0.nr(), j <= a0.nc(),
    ensures i == a0.nr() || empty_cols(self_, i as int, j as int, a0.nc()),
    decreases a0.nc() - j,
//@.loop 0 begin
    let ghost j0 = j as int;
//@.loop 1
    invariant __h1 == self_.nc(), j <= __i1 <= __h1, i <= self_.nr(), self_.nr() < 65536,
        __a1 is None ==> empty_cols(self_, i as int, j as int, __i1 as int),
        __a1 is Some ==> j <= __a1.unwrap() < self_.nc() && empty_cols(self_, i as int, j as int, __a1.unwrap() as int) && nzc(self_, i as int, __a1.unwrap() as int),
    decreases __h1 - __i1,
//@.loop 2
    invariant __h2 == self_.nr(), i <= __i2 <= __h2, __j1 < self_.nc(), !__a2 ==> col_zero(self_, i as int, __i2 as int, __j1 as int), __a2 ==> nzc(self_, i as int, __j1 as int),
    decreases __h2 - __i2,
//@.loop 3 before
    proof { lemma_shape_advance(self_, ps, i as int, j0, j as int); sa = self_; ca = c_op; cb = c_op_inv; }
//@.loop 3
    invariant __h3 == self_.nc(), j <= __i3 <= __h3, i <= self_.nr(),
        __a3 is None ==> empty_cols(self_, i as int, j as int, __i3 as int),
        __a3 is Some ==> j <= __a3.unwrap() < self_.nc() && nzc(self_, i as int, __a3.unwrap() as int),
    decreases __h3 - __i3,
//@.loop 4
    invariant __h4 == self_.nr(), i <= __i4 <= __h4, __j3 < self_.nc(), !__a4 ==> col_zero(self_, i as int, __i4 as int, __j3 as int), __a4 ==> nzc(self_, i as int, __j3 as int),
    decreases __h4 - __i4,
//@.at swap_cols 0
    proof { gl = l as int; done = false; }
//@.loop 5 before
    proof {
        lemma_cswap(a0, sa, self_, r_op, r_op_inv, ca, c_op, cb, c_op_inv, j as int, gl); lemma_shape_cswap(sa, self_, ps, i as int, j as int, j as int, gl);
        let kk = choose|k: int| i <= k < sa.nr() && #[trigger] sa.v(k, gl) != 0; assert(sa.has(kk, j as int)); assert(self_.v(kk, j as int) != 0); assert(nzc(self_, i as int, j as int));
        sb = self_; ra = r_op; rb = r_op_inv; done = true; }
//@.loop 5
    invariant __h5 == self_.nr(), i <= __i5 <= __h5, j < self_.nc(), 
        __a5 is None ==> col_zero(self_, i as int, __i5 as int, j as int),
        __a5 is Some ==> i <= __a5.unwrap() < self_.nr() && self_.v(__a5.unwrap() as int, j as int) != 0,
    decreases __h5 - __i5,
//@.at swap_rows 1
    proof { gk = k as int; }
//@.loop 6 before
    proof {
        if done { lemma_rswap(a0, sb, self_, ra, r_op, rb, r_op_inv, c_op, c_op_inv, i as int, gk); lemma_shape_rswap(sb, self_, ps, i as int, j as int, i as int, gk); assert(sb.has(i as int, j as int)); }
        else { lemma_cswap(a0, sa, self_, r_op, r_op_inv, ca, c_op, cb, c_op_inv, j as int, gl); lemma_shape_cswap(sa, self_, ps, i as int, j as int, j as int, gl); }
        assert(self_.v(i as int, j as int) != 0);
    }
//@.loop 6
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i < a0.nr(), j < a0.nc(), self_.v(i as int, j as int) != 0, a0.nr() < 65536, a0.nc() < 65536,
    ensures col_dvd(self_, i as int, j as int, i + 1, a0.nr()), row_dvd(self_, i as int, j as int, j + 1, a0.nc()),
    decreases iabs(self_.v(i as int, j as int)),
//@.loop 7
    invariant __h7_1 == self_.nr(), i < __i7 <= __h7_1, j < self_.nc(), self_.v(i as int, j as int) != 0,
        !__a7 ==> col_dvd(self_, i as int, j as int, i + 1, __i7 as int), __a7 ==> !col_dvd(self_, i as int, j as int, i + 1, self_.nr()),
    decreases __h7_1 - __i7,
//@.loop 8
    invariant __h8_1 == self_.nc(), j < __i8 <= __h8_1, i < self_.nr(), self_.v(i as int, j as int) != 0,
        !__a8 ==> row_dvd(self_, i as int, j as int, j + 1, __i8 as int), __a8 ==> !row_dvd(self_, i as int, j as int, j + 1, self_.nc()),
    decreases __h8_1 - __i8,
//@.loop 9 before
    let ghost s0 = self_; let ghost p0 = iabs(self_.v(i as int, j as int));
//@.loop 9
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i < a0.nr(), j < a0.nc(), self_.v(i as int, j as int) != 0, a0.nr() < 65536, a0.nc() < 65536,
        __h9_1 == a0.nr(), i < __i9 <= __h9_1, p0 == iabs(s0.v(i as int, j as int)),
        iabs(self_.v(i as int, j as int)) < p0 || (self_ == s0 && col_dvd(s0, i as int, j as int, i + 1, __i9 as int)),
    decreases __h9_1 - __i9,
//@.loop 9 begin
    proof { sa = self_; ra = r_op; rb = r_op_inv; done = false; }
//@.at sub_write_and_move 0
    proof { gx = x as int; gy = y as int; gs = s as int; gt = t as int; gg = gcd as int; done = true; lemma_bezout(a as int, b as int, gg, gx, gy, gs, gt); }
//@.loop 9 end
    proof { if done {
        assert(prow(sa, self_, j as int, i as int, __j9 as int, gx, gy, -gt, gs) || rowt(sa, self_, i as int, __j9 as int, gx, gy, -gt, gs));
        assert(rowt(ra, r_op, i as int, __j9 as int, gx, gy, -gt, gs));
        assert(colt(rb, r_op_inv, i as int, __j9 as int, gs, gt, -gy, gx));
        lemma_prow(sa, self_, ps, i as int, j as int, i as int, __j9 as int, gx, gy, -gt, gs);
        lemma_rstep(a0, sa, self_, ra, r_op, rb, r_op_inv, c_op, c_op_inv, i as int, __j9 as int, gx, gy, -gt, gs, gs, gt, -gy, gx);
        assert(sa.has(i as int, j as int)); assert(self_.v(i as int, j as int) == gg);
    } }
//@.loop 10
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i < a0.nr(), j < a0.nc(), self_.v(i as int, j as int) != 0, a0.nr() < 65536, a0.nc() < 65536,
        __h10_1 == a0.nc(), j < __i10 <= __h10_1, p0 == iabs(s0.v(i as int, j as int)),
        iabs(self_.v(i as int, j as int)) < p0 || (self_ == s0 && row_dvd(s0, i as int, j as int, j + 1, __i10 as int) && !row_dvd(s0, i as int, j as int, j + 1, a0.nc())),
    decreases __h10_1 - __i10,
//@.loop 10 begin
    proof { sa = self_; ca = c_op; cb = c_op_inv; done = false; }
//@.at sub_write_and_move 6
    proof { gx = x as int; gy = y as int; gs = s as int; gt = t as int; gg = gcd as int; done = true; lemma_bezout(a as int, b as int, gg, gx, gy, gs, gt); }
//@.loop 10 end
    proof { if done {
        assert(pcol(sa, self_, i as int, j as int, __j10 as int, gx, gy, -gt, gs) || colt(sa, self_, j as int, __j10 as int, gx, gy, -gt, gs));
        assert(colt(ca, c_op, j as int, __j10 as int, gx, gy, -gt, gs));
        assert(rowt(cb, c_op_inv, j as int, __j10 as int, gs, gt, -gy, gx));
        lemma_pcol(sa, self_, ps, i as int, j as int, j as int, __j10 as int, gx, gy, -gt, gs);
        lemma_cstep(a0, sa, self_, r_op, r_op_inv, ca, c_op, cb, c_op_inv, j as int, __j10 as int, gx, gy, -gt, gs, gs, gt, -gy, gx);
        assert(sa.has(i as int, j as int)); assert(self_.v(i as int, j as int) == gg);
    } }
//@.loop 11
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i < a0.nr(), j < a0.nc(), self_.v(i as int, j as int) != 0,
        __h11_1 == a0.nr(), i < __i11 <= __h11_1, col_dvd(self_, i as int, j as int, __i11 as int, a0.nr()), row_dvd(self_, i as int, j as int, j + 1, a0.nc()), col_zero(self_, i + 1, __i11 as int, j as int),
    decreases __h11_1 - __i11,
//@.loop 11 begin
    proof { sa = self_; ra = r_op; rb = r_op_inv; done = false; }
//@.at row_operation 0
    proof { gx = ratio as int; done = true; }
//@.loop 11 end
    proof { if done {
        let k = __j11 as int;
        lemma_row_added(sa, self_, k, i as int, -gx); lemma_shape_rowt(sa, self_, ps, i as int, j as int, k, i as int, 1, -gx, 0, 1);
        lemma_radd(a0, sa, self_, ra, r_op, rb, r_op_inv, c_op, c_op_inv, k, i as int, -gx);
        lemma_cancel(sa.v(i as int, j as int), gx); assert(sa.has(k, j as int)); assert(self_.v(k, j as int) == 0);
        assert(col_zero(self_, i + 1, __i11 as int, j as int)) by { assert forall|q: int| i + 1 <= q < __i11 implies #[trigger] self_.v(q, j as int) == 0 by { assert(sa.has(q, j as int)); } }
        assert(col_dvd(self_, i as int, j as int, __i11 as int, a0.nr())) by { assert forall|q: int| __i11 <= q < a0.nr() implies dvd(self_.v(i as int, j as int), #[trigger] self_.v(q, j as int)) by { assert(sa.has(q, j as int)); assert(sa.has(i as int, j as int)); assert(dvd(sa.v(i as int, j as int), sa.v(q, j as int))); } }
        assert(row_dvd(self_, i as int, j as int, j + 1, a0.nc())) by { assert forall|q: int| j + 1 <= q < a0.nc() implies dvd(self_.v(i as int, j as int), #[trigger] self_.v(i as int, q)) by { assert(sa.has(i as int, q)); assert(sa.has(i as int, j as int)); assert(dvd(sa.v(i as int, j as int), sa.v(i as int, q))); } }
    } }
//@.loop 12
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape1(self_, ps, i as int, j as int), i < a0.nr(), j < a0.nc(), self_.v(i as int, j as int) != 0,
        __h12_1 == a0.nc(), j < __i12 <= __h12_1, row_dvd(self_, i as int, j as int, __i12 as int, a0.nc()), row_zero(self_, i as int, j + 1, __i12 as int), col_zero(self_, i + 1, a0.nr(), j as int),
    decreases __h12_1 - __i12,
//@.loop 12 begin
    proof { sa = self_; ca = c_op; cb = c_op_inv; done = false; }
//@.at col_operation 1
    proof { gx = ratio as int; done = true; }
//@.loop 12 end
    proof { if done {
        let l = __j12 as int;
        lemma_col_added(sa, self_, l, j as int, -gx); lemma_shape_colt(sa, self_, ps, i as int, j as int, l, j as int, 1, -gx, 0, 1);
        lemma_cadd(a0, sa, self_, r_op, r_op_inv, ca, c_op, cb, c_op_inv, l, j as int, -gx);
        lemma_cancel(sa.v(i as int, j as int), gx); assert(sa.has(i as int, l)); assert(self_.v(i as int, l) == 0);
        assert(row_zero(self_, i as int, j + 1, __i12 as int)) by { assert forall|q: int| j + 1 <= q < __i12 implies #[trigger] self_.v(i as int, q) == 0 by { assert(sa.has(i as int, q)); } }
        assert(row_dvd(self_, i as int, j as int, __i12 as int, a0.nc())) by { assert forall|q: int| __i12 <= q < a0.nc() implies dvd(self_.v(i as int, j as int), #[trigger] self_.v(i as int, q)) by { assert(sa.has(i as int, q)); assert(sa.has(i as int, j as int)); assert(dvd(sa.v(i as int, j as int), sa.v(i as int, q))); } }
        assert(col_zero(self_, i + 1, a0.nr(), j as int)) by { assert forall|q: int| i + 1 <= q < a0.nr() implies #[trigger] self_.v(q, j as int) == 0 by { assert(sa.has(q, j as int)); } }
    } }
//@.loop 0 end
    proof { lemma_shape_push(self_, ps, i - 1, j - 1); ps = ps.push(j - 1); }
//@.loop 13 before
    let ghost mut dd = 0int;
    proof { lemma_shape12(self_, ps, i as int, j as int); lemma_shape_dims(self_, ps, i as int, j as int); }
//@.loop 13
    invariant_except_break dd == __i13,
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), shape2(self_, ps, dd), 0 <= dd <= a0.nr(), dd <= a0.nc(), __h13 == if a0.nr() <= a0.nc() { a0.nr() } else { a0.nc() },
    ensures at_end(self_, dd),
    decreases __h13 - __i13,
//@.loop 13 begin
    proof { sa = self_; ca = c_op; cb = c_op_inv; done = false; }
//@.loop 14
    invariant __h14_1 == self_.nc(), r < __i14 <= __h14_1, r < self_.nr(),
        __a14 is None ==> row_zero(self_, r as int, r + 1, __i14 as int),
        __a14 is Some ==> r < __a14.unwrap() < self_.nc() && self_.v(r as int, __a14.unwrap() as int) != 0,
    decreases __h14_1 - __i14,
//@.at set 0
    proof { done = true; gl = s as int; }
//@.loop 13 end
    proof {
        let r = __j13 as int;
        if done { lemma_shape2_move(sa, self_, ps, r, gl); lemma_cswap(a0, sa, self_, r_op, r_op_inv, ca, c_op, cb, c_op_inv, r, gl); ps = ps.update(r, r); }
        else { lemma_shape2_next(self_, ps, r); }
        dd = dd + 1; }
//@.loop 15 before
    proof { lemma_shape2_end(self_, ps, dd); }
//@.loop 15
    invariant __h15 == if self_.nr() <= self_.nc() { self_.nr() } else { self_.nc() }, 0 <= __i15 <= __h15,
        __a15 is None ==> forall|t: int| 0 <= t < __i15 ==> #[trigger] self_.v(t, t) != 0,
        __a15 is Some ==> __a15.unwrap() < __h15 && self_.v(__a15.unwrap() as int, __a15.unwrap() as int) == 0 && forall|t: int| 0 <= t < __a15.unwrap() ==> #[trigger] self_.v(t, t) != 0,
    decreases __h15 - __i15,
//@.loop 16 before
    proof {
        let k = ps.len() as int;
        if rank < k { assert(self_.has(rank as int, rank as int)); } else if rank > k { assert(self_.has(k, k)); assert(self_.v(k, k) != 0); }
        assert(rank == k); lemma_chain_row(self_, rank as int, 0); }
//@.loop 16
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), diag(self_, rank as int), chain(self_, rank as int, __i16 as int, __i16 + 1), 0 <= __i16 <= __h16, __h16 == rank,
    decreases __h16 - __i16,
//@.loop 17
    invariant inv(a0, self_, r_op, r_op_inv, c_op, c_op_inv), diag(self_, rank as int), chain(self_, rank as int, r as int, __i17 as int), __h17_1 == rank, r < __i17 <= __h17_1, r < rank, r == __j16,
    decreases __h17_1 - __i17,
//@.loop 17 begin
    proof { sa = self_; ra = r_op; rb = r_op_inv; ca = c_op; cb = c_op_inv; done = false; }
    assert(self_.has(r as int, r as int)); assert(self_.has(__j17 as int, __j17 as int));
//@.at bezout_identity 2
    proof { s1 = self_; c1 = c_op; d1 = c_op_inv; lemma_cadd(a0, sa, s1, r_op, r_op_inv, ca, c1, cb, d1, r as int, s as int, 1); assert(sa.has(r as int, r as int) && sa.has(s as int, r as int) && sa.has(r as int, s as int) && sa.has(s as int, s as int)); assert(0 * 1 == 0); }
//@.at sub_write_and_move 12
    proof { lemma_bezout(a as int, b as int, gcd as int, x as int, y as int, z as int, w as int); }
//@.at col_operation 5
    proof {
        s2 = self_;
        assert(rowt(s1, s2, r as int, s as int, x as int, y as int, -w as int, z as int));
        assert(rowt(ra, r_op, r as int, s as int, x as int, y as int, -w as int, z as int));
        assert(colt(rb, r_op_inv, r as int, s as int, z as int, w as int, -y as int, x as int));
        lemma_rstep(a0, s1, s2, ra, r_op, rb, r_op_inv, c1, d1, r as int, s as int, x as int, y as int, -w as int, z as int, z as int, w as int, -y as int, x as int);
        gx = x as int; gy = y as int; gs = z as int; gt = w as int; gg = gcd as int; done = true; }
//@.loop 17 end
    proof {
        let t = __j17 as int; let r = r as int;
        if done {
            let e = -gt * gy;
            assert(-e == gt * gy) by(nonlinear_arith) requires e == -gt * gy;
            lemma_cadd(a0, s2, self_, r_op, r_op_inv, c1, c_op, d1, c_op_inv, t, r, e);
            lemma_phase3(sa, s1, s2, self_, rank as int, r, t, gg, gx, gy, gs, gt, e);
            lemma_chain_step(sa, self_, rank as int, r, t, gg, gs);
        }
        else { lemma_chain_next(self_, rank as int, r, t); }
    }
//@.loop 16 end
    proof { lemma_chain_row(self_, rank as int, r as int); }
//@.exit
    proof { lemma_chain_row(__ret.2, rank as int, 0); }
//@end
}
} // verus!
fn main() {}
