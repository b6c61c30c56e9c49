//@include prelude.inc
//@include chk.inc
//@include numth.inc
verus! {
global size_of usize == 8;
fn main() {}
//@known Matrix::size
//@known SubMatrix::size
// ------------------------------------------------------------------ a matrix of machine integers; the contracts are those proved in the units mat and snf
#[verifier::external_body]
pub struct Mat { x: Vec<i64> }
impl Mat {
    pub uninterp spec fn nr(&self) -> int;
    pub uninterp spec fn nc(&self) -> int;
    pub uninterp spec fn v(&self, i: int, j: int) -> int;
    pub open spec fn has(&self, i: int, j: int) -> bool { 0 <= i < self.nr() && 0 <= j < self.nc() }
    pub open spec fn dim(&self, o: &Mat) -> bool { self.nr() == o.nr() && self.nc() == o.nc() }
    pub open spec fn eqv(&self, o: Mat) -> bool { self.nr() == o.nr() && self.nc() == o.nc() && forall|i: int, j: int| #[trigger] self.v(i, j) == o.v(i, j) }
    #[verifier::external_body]
    fn size(&self) -> (r: (usize, usize)) ensures r.0 == self.nr(), r.1 == self.nc(), r.0 < 65536, r.1 < 65536 { unimplemented!() }
    #[verifier::external_body]
    fn identity(n: usize) -> (r: Mat) requires n > 0, ensures r.nr() == n, r.nc() == n { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, i: usize, j: usize) -> (r: i64) requires self.has(i as int, j as int), ensures r == self.v(i as int, j as int) { unimplemented!() }
    #[verifier::external_body]
    fn copy(&self) -> (r: Mat) ensures r.eqv(*self) { unimplemented!() }
    #[verifier::external_body]
    fn transpose(self) -> (r: Mat) ensures istr(r, self) { unimplemented!() }
    // the Smith normal form s = r a c with the inverses ri, ci of r, c, returned as (ri, r, s, c, ci)
    #[verifier::external_body]
    fn smith_normal_form(self) -> (r: (Mat, Mat, Mat, Mat, Mat)) requires self.nr() > 0, self.nc() > 0, ensures inv(self, r.2, r.1, r.0, r.3, r.4), snf(r.2) { unimplemented!() }
}
pub open spec fn istr(t: Mat, m: Mat) -> bool { t.nr() == m.nc() && t.nc() == m.nr() && forall|i: int, j: int| t.has(i, j) ==> #[trigger] t.v(i, j) == m.v(j, i) }
pub open spec fn delta(i: int, j: int) -> int { if i == j { 1 } else { 0 } }
pub open spec fn mm(a: Mat, b: Mat, i: int, j: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { mm(a, b, i, j, n - 1) + a.v(i, n - 1) * b.v(n - 1, j) } }
pub open spec fn rac(r: Mat, a: Mat, c: Mat, i: int, j: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { rac(r, a, c, i, j, n - 1) + r.v(i, n - 1) * mm(a, c, n - 1, j, a.nc()) } }
#[verifier::opaque]
pub open spec fn conj(s: Mat, r: Mat, a: Mat, c: Mat) -> bool { forall|i: int, j: int| a.has(i, j) ==> #[trigger] s.v(i, j) == rac(r, a, c, i, j, a.nr()) }
#[verifier::opaque]
pub open spec fn isinv(r: Mat, w: Mat, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] mm(r, w, i, j, n) == delta(i, j) }
pub open spec fn square(m: Mat, n: int) -> bool { m.nr() == n && m.nc() == n }
pub open spec fn dims(a: Mat, s: Mat, r: Mat, ri: Mat, c: Mat, ci: Mat) -> bool { s.dim(&a) && square(r, a.nr()) && square(ri, a.nr()) && square(c, a.nc()) && square(ci, a.nc()) }
pub open spec fn inv(a: Mat, s: Mat, r: Mat, ri: Mat, c: Mat, ci: Mat) -> bool { dims(a, s, r, ri, c, ci) && conj(s, r, a, c) && isinv(r, ri, a.nr()) && isinv(c, ci, a.nc()) }
pub open spec fn diag(s: Mat, k: int) -> bool { k <= s.nr() && k <= s.nc() && (k == s.nr() || k == s.nc()) && forall|i: int, j: int| s.has(i, j) && i != j ==> #[trigger] s.v(i, j) == 0 }
pub open spec fn snf(s: Mat) -> bool { exists|k: int| #[trigger] diag(s, k) && forall|a: int, b: int| 0 <= a < b < k ==> #[trigger] dvd(s.v(a, a), s.v(b, b)) }
// ------------------------------------------------------------------ formal sums of cells (unit vect)
#[verifier::external_body]
pub struct Vector { x: Vec<i64> }
pub open spec fn one(a: u64, x: u64) -> int { if a == x { 1 } else { 0 } }
pub open spec fn sumco(s: Seq<Vector>, n: int, x: u64) -> int decreases n { if n <= 0 { 0 } else { sumco(s, n - 1, x) + s[n - 1].co(x) } }
proof fn lemma_sumco_ext(s: Seq<Vector>, t: Seq<Vector>, n: int, x: u64) requires n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> #[trigger] s[k] == t[k] ensures sumco(s, n, x) == sumco(t, n, x) decreases n { if n > 0 { lemma_sumco_ext(s, t, n - 1, x); } }
impl Vector { pub uninterp spec fn co(&self, x: u64) -> int; }
#[verifier::external_body]
fn v_one(c: i64, b: u64) -> (r: Vector) ensures forall|x: u64| #[trigger] r.co(x) == c * one(b, x) { unimplemented!() }
#[verifier::external_body]
fn v_scale(a: Vector, c: i64) -> (r: Vector) ensures forall|x: u64| #[trigger] r.co(x) == a.co(x) * c { unimplemented!() }
#[verifier::external_body]
fn v_sum(a: Vec<Vector>) -> (r: Vector) ensures forall|x: u64| #[trigger] r.co(x) == sumco(a@, a.len() as int, x) { unimplemented!() }
// vec::IntoIter yields the elements, Clone copies them
#[verifier::external_body]
fn own<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
fn rev<T>(v: &mut Vec<T>) ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == old(v)@[old(v)@.len() - 1 - k] { unimplemented!() }
#[verifier::external_body]
fn v_last_mut(v: &mut Vec<(i64, usize)>) -> (r: Option<&mut (i64, usize)>)
    ensures match r { Some(p) => old(v)@.len() > 0 && *p == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(p)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ v.last_mut() }
pub trait HMul<B> { type O; spec fn hok(&self, b: B) -> bool; spec fn hr(&self, b: B, r: Self::O) -> bool; fn hmul(self, b: B) -> (r: Self::O) requires self.hok(b), ensures self.hr(b, r); }
impl HMul<Vec<u64>> for Mat { type O = Vec<Vector>; open spec fn hok(&self, b: Vec<u64>) -> bool { self.nc() == b@.len() } open spec fn hr(&self, b: Vec<u64>, r: Vec<Vector>) -> bool { based(*self, b@, r@) } fn hmul(self, b: Vec<u64>) -> (r: Vec<Vector>) { self.mul_basis(b) } }
impl HMul<i64> for Vector { type O = Vector; open spec fn hok(&self, b: i64) -> bool { true } open spec fn hr(&self, b: i64, r: Vector) -> bool { forall|x: u64| #[trigger] r.co(x) == self.co(x) * b } fn hmul(self, b: i64) -> (r: Vector) { v_scale(self, b) } }
fn h_mul<B, A: HMul<B>>(a: A, b: B) -> (r: A::O) requires a.hok(b), ensures a.hr(b, r) { a.hmul(b) }
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
fn i_ne(a: &i64, b: &i64) -> (r: bool) ensures r == (*a != *b) { *a != *b }
fn i_abs(a: i64) -> (r: i64) ensures r == iabs(a as int) { if a == i64::MIN { vx_may_panic() } else if a < 0 { -a } else { a } }
fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
// ------------------------------------------------------------------ divisors with multiplicities
pub open spec fn dv(d: Seq<(i64, usize)>) -> Seq<(int, int)> { Seq::new(d.len(), |i: int| (d[i].0 as int, d[i].1 as int)) }
// equal neighbours are counted together
pub open spec fn group(s: Seq<int>) -> Seq<(int, int)> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let g = group(s.drop_last()); if g.len() > 0 && g.last().0 == s.last() { g.update(g.len() - 1, (s.last(), g.last().1 + 1)) } else { g.push((s.last(), 1int)) } } }
pub open spec fn nonunits(d: Seq<(int, int)>) -> Seq<(int, int)> decreases d.len()
{ if d.len() == 0 { Seq::empty() } else if d.last().0 != 1 { nonunits(d.drop_last()).push(d.last()) } else { nonunits(d.drop_last()) } }
// how many elements the first n groups count
pub open spec fn upto(d: Seq<(int, int)>, n: int) -> int decreases n { if n <= 0 { 0 } else { upto(d, n - 1) + d[n - 1].1 } }
proof fn lemma_upto_ext(d: Seq<(int, int)>, e: Seq<(int, int)>, n: int) requires n <= d.len(), n <= e.len(), forall|k: int| 0 <= k < n ==> #[trigger] d[k] == e[k] ensures upto(d, n) == upto(e, n) decreases n { if n > 0 { lemma_upto_ext(d, e, n - 1); } }
// the group that counts the element i has its value
proof fn lemma_group(s: Seq<int>)
    ensures upto(group(s), group(s).len() as int) == s.len(), forall|k: int| 0 <= k < group(s).len() ==> (#[trigger] group(s)[k]).1 > 0,
        forall|k: int, i: int| 0 <= k < group(s).len() && upto(group(s), k) <= i < upto(group(s), k + 1) && 0 <= i < s.len() ==> #[trigger] s[i] == (#[trigger] group(s)[k]).0,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last(); let g = group(t); let e = group(s); let m = g.len() as int;
        lemma_group(t);
        assert forall|k: int| 0 <= k <= m && k < e.len() implies upto(e, k) == upto(g, k) by { lemma_upto_ext(e, g, k); }
        if g.len() > 0 && g.last().0 == s.last() {
            lemma_upto_ext(e, g, m - 1);
            assert(upto(e, m) == upto(e, m - 1) + e[m - 1].1); assert(upto(g, m) == upto(g, m - 1) + g[m - 1].1);
            assert forall|k: int, i: int| 0 <= k < e.len() && upto(e, k) <= i < upto(e, k + 1) && 0 <= i < s.len() implies #[trigger] s[i] == (#[trigger] e[k]).0 by {
                if k < m - 1 { assert(upto(e, k + 1) == upto(g, k + 1)); lemma_upto_mono(g, k + 1, m); assert(t[i] == s[i]); assert(g[k].0 == t[i]); } else if i < t.len() { assert(t[i] == g[m - 1].0); } }
        } else {
            assert(upto(e, m) == upto(g, m)) by { lemma_upto_ext(e, g, m); }
            assert(upto(e, m + 1) == upto(e, m) + e[m].1);
            assert forall|k: int, i: int| 0 <= k < e.len() && upto(e, k) <= i < upto(e, k + 1) && 0 <= i < s.len() implies #[trigger] s[i] == (#[trigger] e[k]).0 by {
                if k < m { lemma_upto_ext(e, g, k + 1); lemma_upto_mono(g, k + 1, m); assert(t[i] == s[i]); assert(g[k].0 == t[i]); } }
        }
    }
}
proof fn lemma_upto_mono(d: Seq<(int, int)>, a: int, b: int) requires 0 <= a <= b <= d.len(), forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]).1 > 0 ensures upto(d, a) <= upto(d, b) decreases b { if a < b { lemma_upto_mono(d, a, b - 1); assert(d[b - 1].1 > 0); } }
// ------------------------------------------------------------------ what is read from the normal form
pub open spec fn rowco(m: Mat, b: Seq<u64>, i: int, n: int, x: u64) -> int decreases n { if n <= 0 { 0 } else { rowco(m, b, i, n - 1, x) + m.v(i, n - 1) * one(b[n - 1], x) } }
// the rows of m as formal sums
#[verifier::opaque]
pub open spec fn based(m: Mat, b: Seq<u64>, r: Seq<Vector>) -> bool { r.len() == m.nr() && forall|i: int, x: u64| 0 <= i < r.len() ==> #[trigger] r[i].co(x) == rowco(m, b, i, b.len() as int, x) }
// the formal sum with the column i of m as coefficients
pub open spec fn colco(m: Mat, b: Seq<u64>, i: int, n: int, x: u64) -> int decreases n { if n <= 0 { 0 } else { colco(m, b, i, n - 1, x) + m.v(n - 1, i) * one(b[n - 1], x) } }
proof fn lemma_rowcol(t: Mat, m: Mat, b: Seq<u64>, i: int, n: int, x: u64)
    requires t.nr() == m.nc(), t.nc() == m.nr(), 0 <= i < t.nr(), n <= t.nc(), forall|i: int, j: int| t.has(i, j) ==> #[trigger] t.v(i, j) == m.v(j, i),
    ensures rowco(t, b, i, n, x) == colco(m, b, i, n, x), decreases n
{ if n > 0 { lemma_rowcol(t, m, b, i, n - 1, x); assert(t.has(i, n - 1)); } }
proof fn lemma_cols(m: Mat, b: Seq<u64>, r: Seq<Vector>)
    requires b.len() == m.nr(), exists|t: Mat| #[trigger] istr(t, m) && based(t, b, r),
    ensures colsum(m, b, r), r.len() == m.nc(),
{
    reveal(colsum); reveal(based);
    let t = choose|t: Mat| #[trigger] istr(t, m) && based(t, b, r);
    assert forall|i: int, x: u64| 0 <= i < r.len() implies #[trigger] r[i].co(x) == colco(m, b, i, b.len() as int, x) by { lemma_rowcol(t, m, b, i, b.len() as int, x); }
}
// a normal form of a map with its witnesses and its rank
pub struct W { pub s: Mat, pub r: Mat, pub ri: Mat, pub c: Mat, pub ci: Mat, pub rk: int }
pub open spec fn least(s: Mat) -> int { if s.nr() <= s.nc() { s.nr() } else { s.nc() } }
pub open spec fn isrank(s: Mat, k: int) -> bool { 0 <= k <= least(s) && forall|i: int| 0 <= i < least(s) ==> (#[trigger] s.v(i, i) != 0 <==> i < k) }
pub open spec fn wok(a: Mat, w: W) -> bool { inv(a, w.s, w.r, w.ri, w.c, w.ci) && snf(w.s) && isrank(w.s, w.rk) }
proof fn lemma_rank(s: Mat, k: int) requires snf(s), 0 <= k <= least(s), forall|i: int| 0 <= i < k ==> #[trigger] s.v(i, i) != 0, k == least(s) || s.v(k, k) == 0 ensures isrank(s, k)
{
    let n = choose|n: int| #[trigger] diag(s, n) && forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] dvd(s.v(a, a), s.v(b, b));
    assert forall|i: int| 0 <= i < least(s) && i >= k implies #[trigger] s.v(i, i) == 0 by { if i > k { assert(dvd(s.v(k, k), s.v(i, i))); } }
}
pub open spec fn absd(s: Mat, k: int) -> Seq<int> { Seq::new(k as nat, |i: int| iabs(s.v(i, i))) }
// rank and divisors of the map from one dimension above k
pub open spec fn hrk(ws: Seq<W>, k: int) -> int { if k + 1 < ws.len() { ws[k + 1].rk } else { 0 } }
pub open spec fn hdiv(ws: Seq<W>, k: int) -> Seq<int> { if k + 1 < ws.len() { absd(ws[k + 1].s, ws[k + 1].rk) } else { Seq::empty() } }
pub open spec fn is_module(m: Module, free: int, divs: Seq<int>) -> bool { m.free_rank == free && dv(m.elementary_divisors@) =~= nonunits(group(divs)) }
#[verifier::opaque]
pub open spec fn is_homology(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, m: Module) -> bool { is_module(m, maps[k].0.nc() - ws[k].rk - hrk(ws, k), hdiv(ws, k)) }
// the columns of c past the rank
#[verifier::opaque]
pub open spec fn are_cycles(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, c: Seq<Vector>) -> bool { c.len() == maps[k].0.nc() - ws[k].rk && forall|i: int, x: u64| 0 <= i < c.len() ==> #[trigger] c[i].co(x) == colco(ws[k].c, maps[k].1@, ws[k].rk + i, maps[k].0.nc(), x) }
// the columns of ri of the next map up to its rank, times the divisors
#[verifier::opaque]
pub open spec fn are_boundaries(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, b: Seq<Vector>) -> bool { b.len() == hrk(ws, k) && forall|i: int, x: u64| 0 <= i < b.len() ==> #[trigger] b[i].co(x) == colco(ws[k + 1].ri, maps[k].1@, i, maps[k].0.nc(), x) * hdiv(ws, k)[i] }
pub open spec fn out_ok(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, o: (Module, Vec<Vector>, Vec<Vector>)) -> bool { is_homology(maps, ws, k, o.0) && are_cycles(maps, ws, k, o.1@) && are_boundaries(maps, ws, k, o.2@) }
proof fn lemma_out_ext(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, vs: Seq<W>, k: int, o: (Module, Vec<Vector>, Vec<Vector>))
    requires out_ok(maps, ws, k, o), ws.len() == vs.len(), 0 <= k < ws.len(), ws[k] == vs[k], k + 1 < ws.len() ==> ws[k + 1] == vs[k + 1],
    ensures out_ok(maps, vs, k, o),
{ reveal(is_homology); reveal(are_cycles); reveal(are_boundaries); }
// the formal sums of the columns of m
#[verifier::opaque]
pub open spec fn colsum(m: Mat, b: Seq<u64>, r: Seq<Vector>) -> bool { r.len() == m.nc() && forall|i: int, x: u64| 0 <= i < r.len() ==> #[trigger] r[i].co(x) == colco(m, b, i, b.len() as int, x) }
#[verifier::opaque]
pub open spec fn scaled(r: Seq<Vector>, b: Seq<Vector>, d: Seq<int>) -> bool { forall|q: int, x: u64| 0 <= q < r.len() ==> #[trigger] r[q].co(x) == b[q].co(x) * d[q] }
proof fn lemma_scaled(r: Seq<Vector>, e: Vector, b: Seq<Vector>, d: Seq<int>) requires scaled(r, b, d), forall|x: u64| #[trigger] e.co(x) == b[r.len() as int].co(x) * d[r.len() as int] ensures scaled(r.push(e), b, d) { reveal(scaled); }
proof fn lemma_scaled0(b: Seq<Vector>, d: Seq<int>) ensures scaled(Seq::empty(), b, d) { reveal(scaled); }
proof fn lemma_mk(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, o: (Module, Vec<Vector>, Vec<Vector>), cy: Seq<Vector>, by: Seq<Vector>)
    requires is_module(o.0, maps[k].0.nc() - ws[k].rk - hrk(ws, k), hdiv(ws, k)), colsum(ws[k].c, maps[k].1@, cy), maps[k].1@.len() == maps[k].0.nc(), ws[k].c.nc() == maps[k].0.nc(), 0 <= ws[k].rk,
        o.1@.len() == maps[k].0.nc() - ws[k].rk, forall|q: int| 0 <= q < o.1@.len() ==> #[trigger] o.1@[q] == cy[ws[k].rk + q],
        o.2@.len() == hrk(ws, k), o.2@.len() > 0 ==> k + 1 < ws.len() && colsum(ws[k + 1].ri, maps[k].1@, by) && hrk(ws, k) <= by.len(), scaled(o.2@, by, hdiv(ws, k)),
    ensures out_ok(maps, ws, k, o),
{
    reveal(is_homology); reveal(are_cycles); reveal(are_boundaries); reveal(colsum); reveal(scaled);
    assert forall|i: int, x: u64| 0 <= i < o.1@.len() implies #[trigger] o.1@[i].co(x) == colco(ws[k].c, maps[k].1@, ws[k].rk + i, maps[k].0.nc(), x) by { assert(o.1@[i] == cy[ws[k].rk + i]); assert(cy[ws[k].rk + i].co(x) == colco(ws[k].c, maps[k].1@, ws[k].rk + i, maps[k].0.nc(), x)); }
    assert forall|i: int, x: u64| 0 <= i < o.2@.len() implies #[trigger] o.2@[i].co(x) == colco(ws[k + 1].ri, maps[k].1@, i, maps[k].0.nc(), x) * hdiv(ws, k)[i] by { assert(by[i].co(x) == colco(ws[k + 1].ri, maps[k].1@, i, maps[k].0.nc(), x)); }
}
// the division of the position in a run
proof fn lemma_pick(hd: Seq<int>, k: int, i: int) requires 0 <= k < group(hd).len(), upto(group(hd), k) <= i < upto(group(hd), k) + group(hd)[k].1, 0 <= i < hd.len() ensures hd[i] == group(hd)[k].0 { lemma_group(hd); assert(upto(group(hd), k + 1) == upto(group(hd), k) + group(hd)[k].1); }
proof fn lemma_zero(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int, m: Module) requires is_homology(maps, ws, k, m) ensures zero(maps, ws, k) <==> (m.free_rank == 0 && m.elementary_divisors@.len() == 0) { reveal(is_homology); assert(dv(m.elementary_divisors@).len() == m.elementary_divisors@.len()); }
pub open spec fn wforms(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, lo: int) -> bool { ws.len() == maps.len() && forall|k: int| lo <= k < ws.len() ==> wok(maps[k].0, #[trigger] ws[k]) }
// a complex, its maps from dimension 0 on with the cells of each dimension
#[verifier::external_body]
pub struct Cx { x: Vec<i64> }
impl Cx {
    pub uninterp spec fn maps(&self) -> Seq<(Mat, Vec<u64>)>;
    pub open spec fn ok(&self) -> bool {
        &&& forall|k: int| 0 <= k < self.maps().len() ==> (#[trigger] self.maps()[k]).0.nr() > 0 && self.maps()[k].0.nc() > 0 && self.maps()[k].1@.len() == self.maps()[k].0.nc()
        &&& forall|k: int| 0 <= k && k + 1 < self.maps().len() ==> (#[trigger] self.maps()[k]).0.nc() == self.maps()[k + 1].0.nr()
    }
    #[verifier::external_body]
    fn boundary_map(&self) -> (r: Vec<(Mat, Vec<u64>)>) ensures r@ == self.maps() { unimplemented!() }
}
pub open spec fn cutoff(max_dim: Option<usize>, n: int) -> int { match max_dim { Some(d) => if d + 1 < n { d + 1 } else { n }, None => n } }
// the group at dimension k is zero
pub open spec fn zero(maps: Seq<(Mat, Vec<u64>)>, ws: Seq<W>, k: int) -> bool { maps[k].0.nc() - ws[k].rk - hrk(ws, k) == 0 && nonunits(group(hdiv(ws, k))).len() == 0 }
// the answer, for the dimensions below m: what follows is zero up to max_dim, the last is not
pub open spec fn answers(maps: Seq<(Mat, Vec<u64>)>, max_dim: Option<usize>, ws: Seq<W>, r: IntegralHomology) -> bool {
    let m = r.homology@.len() as int; let n = maps.len() as int; let cut = cutoff(max_dim, n);
    &&& wforms(maps, ws, 0) && r.cycles@.len() == m && r.boundaries@.len() == m && m <= cut
    &&& forall|k: int| 0 <= k < m ==> is_homology(maps, ws, k, #[trigger] r.homology@[k])
    &&& forall|k: int| 0 <= k < m ==> are_cycles(maps, ws, k, (#[trigger] r.cycles@[k])@)
    &&& forall|k: int| 0 <= k < m ==> are_boundaries(maps, ws, k, (#[trigger] r.boundaries@[k])@)
    &&& forall|k: int| m <= k < cut ==> #[trigger] zero(maps, ws, k)
    &&& m > 0 ==> !zero(maps, ws, m - 1)
}
// a matrix over a field, with its rank (unit rank)
#[verifier::external_body]
pub struct FMat { x: Vec<i64> }
impl FMat {
    pub uninterp spec fn nc(&self) -> int;
    pub uninterp spec fn rk(&self) -> int;
    #[verifier::external_body]
    fn size(&self) -> (r: (usize, usize)) ensures r.1 == self.nc() { unimplemented!() }
    #[verifier::external_body]
    fn rank_as_linear_map(&self) -> (r: usize) ensures r == self.rk() { unimplemented!() }
}
#[verifier::external_body]
pub struct Cf { x: Vec<i64> }
impl Cf {
    pub uninterp spec fn maps(&self) -> Seq<FMat>;
    #[verifier::external_body]
    fn get_boundary_map(&self) -> (r: Vec<FMat>) ensures r@ == self.maps() { unimplemented!() }
}
//@file alg/src/lin_alg.rs
//@struct Module Coeff=i64
impl Module {
//@fn Module::new Coeff=i64 params=free_rank,elementary_divisors call:i64::one=one_i64 acc0=Vec<(i64,usize)> own0=own
//@.spec
    ensures r.free_rank == free_rank, dv(r.elementary_divisors@) =~= nonunits(dv(elementary_divisors@)),
//@.entry
    let ghost d0 = dv(elementary_divisors@);
//@.loop 0
    invariant __i0 <= __n0, __n0 == elementary_divisors@.len(), dv(__a0@) =~= nonunits(dv(elementary_divisors@).take(__i0 as int)),
    decreases __n0 - __i0,
//@.loop 0 end
    proof { let d = dv(elementary_divisors@); assert(d.take(__i0 as int).drop_last() =~= d.take(__j0 as int)); }
//@.exit
    proof { assert(d0.take(d0.len() as int) =~= d0); }
//@end
//@fn Module::is_zero Coeff=i64
//@.spec
    ensures r == (self.free_rank == 0 && self.elementary_divisors@.len() == 0),
//@end
}
//@file alg/src/lin_alg/matrix_impl.rs
impl Mat {
//@fn <Matrix<i64> as Mul<Vec<Basis>>>::mul name=mul_basis Basis=u64 Matrix<i64>=Mat Vector<i64,Basis>=Vector Self::Output=Vec<Vector> matidx params=rhs op:*=v_one sum_fn=v_sum acc1=Vec<Vector> let:out=Vec<Vector> maypanic
//@.spec
    requires self.nc() == rhs@.len(),
    ensures based(self, rhs@, r@),
//@.exit
    proof { reveal(based); }
//@.loop 0
    invariant 0 <= __i0 <= __h0, __h0 == self.nr(), self.nc() == rhs@.len(), out@.len() == __i0, forall|i: int, x: u64| 0 <= i < __i0 ==> #[trigger] out@[i].co(x) == rowco(self, rhs@, i, rhs@.len() as int, x),
    decreases __h0 - __i0,
//@.loop 1
    invariant 0 <= __i1 <= __h1, __h1 == self.nc(), __a1@.len() == __i1, 0 <= i < self.nr(), self.nc() == rhs@.len(), forall|x: u64| #[trigger] sumco(__a1@, __i1 as int, x) == rowco(self, rhs@, i as int, __i1 as int, x),
    decreases __h1 - __i1,
//@.loop 1 begin
    let ghost a1 = __a1@;
//@.loop 1 end
    proof { assert forall|x: u64| #[trigger] sumco(__a1@, __i1 as int, x) == rowco(self, rhs@, i as int, __i1 as int, x) by { lemma_sumco_ext(__a1@, a1, __j1 as int, x); assert(sumco(a1, __j1 as int, x) == rowco(self, rhs@, i as int, __j1 as int, x)); } }
//@end
}
//@file topo_spaces/src/lib.rs
//@struct IntegralHomology nogenerics Module<i64>=Module Vector<i64,T::Cell>=Vector
//@fn IntegralHomology::new name=homology_new generics= params=cplx,max_dim paramtype:cplx=&Cx Self=IntegralHomology Module<i64>=Module Matrix<i64>=Mat matidx maypanic call:std::cmp::min=usize_min op:*=h_mul op:-=e_sub op:+==e_add own0=own own2=own own3=own own8=own method:clone=&own method:last_mut=~v_last_mut method:abs=i_abs method:reverse=~rev call:Matrix::<i64>::identity=Mat::identity acc1=Option<usize> acc2=Vec<Vector> acc3=Vec<Vector> acc0=Vec<(Module,Vec<Vector>,Vec<Vector>)>
//@.spec
    requires cplx.ok(), max_dim is Some ==> max_dim->0 < usize::MAX,
    ensures exists|ws: Seq<W>| #[trigger] answers(cplx.maps(), max_dim, ws, r),
//@.entry
    let ghost maps = cplx.maps(); let ghost n = maps.len() as int; let ghost mut ws: Seq<W> = Seq::new(maps.len(), |i: int| arbitrary::<W>()); let ghost mut gw = arbitrary::<W>(); let ghost md = max_dim;
    let ghost mut cs: Seq<Vector> = Seq::empty(); let ghost mut bs: Seq<Vector> = Seq::empty(); let ghost mut gcy: Seq<Vector> = Seq::empty(); let ghost mut gby: Seq<Vector> = Seq::empty(); let ghost mut oa: Seq<(Module, Vec<Vector>, Vec<Vector>)> = Seq::empty();
//@.loop 0
    invariant maps == cplx.maps(), n == maps.len(), cplx.ok(), boundary_maps@ == maps, __n0 == n, __i0 <= __n0, n > 0, __a0@.len() == __i0, wforms(maps, ws, n - __i0),
        rank_of_higher_map == hrk(ws, n - 1 - __i0), dv(elem_divisors_of_higher_map@) =~= group(hdiv(ws, n - 1 - __i0)),
        __i0 == 0 ==> square(row_op_of_higher_map, maps[n - 1].0.nc()), __i0 > 0 ==> row_op_of_higher_map == ws[n - __i0].ri,
        forall|j: int| 0 <= j < __i0 ==> out_ok(maps, ws, n - 1 - j, #[trigger] __a0@[j]),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost k = n - 1 - __j0; let ghost ws0 = ws; let ghost a0 = maps[k].0; let ghost ba = maps[k].1@; let ghost hi = hrk(ws, k); let ghost hd = hdiv(ws, k);
    proof { assert(cplx.maps()[k].0.nc() > 0); if k + 1 < n { assert(cplx.maps()[k].0.nc() == maps[k + 1].0.nr()); assert(wok(maps[k + 1].0, ws[k + 1])); } assert(square(row_op_of_higher_map, a0.nc()) && 0 <= hi <= a0.nc() && hd.len() == hi); }
//@.loop 1 before
    proof { let (r, ci) = choose|r: Mat, ci: Mat| #[trigger] inv(a0, boundary_map, r, r_op_inv, c_op, ci); gw = W { s: boundary_map, r: r, ri: r_op_inv, c: c_op, ci: ci, rk: 0 }; }
//@.loop 1
    invariant __h1 == shorter_side, __i1 <= __h1, shorter_side == least(boundary_map), __a1 is None ==> forall|q: int| 0 <= q < __i1 ==> #[trigger] boundary_map.v(q, q) != 0,
        __a1 is Some ==> __a1->0 < shorter_side && boundary_map.v(__a1->0 as int, __a1->0 as int) == 0 && forall|q: int| 0 <= q < __a1->0 ==> #[trigger] boundary_map.v(q, q) != 0,
    decreases __h1 - __i1,
//@.loop 2 before
    let ghost cy = cycles_at_this_dim@; let ghost rk = rank_of_lower_map as int;
    proof { lemma_rank(boundary_map, rk); gw = W { s: gw.s, r: gw.r, ri: gw.ri, c: gw.c, ci: gw.ci, rk: rk }; ws = ws.update(k, gw); lemma_cols(gw.c, ba, cy); }
//@.loop 2
    invariant cy.len() == a0.nc(), __i2 <= __n2, cycles_at_this_dim@ == cy, rk == rank_of_lower_map, 0 <= rk <= cy.len(), (__n2 == cy.len() && __a2@.len() == if __i2 >= rk { __i2 - rk } else { 0 }) || (__n2 == cy.len() - rk && __a2@.len() == __i2), forall|q: int| 0 <= q < __a2@.len() ==> #[trigger] __a2@[q] == cy[rk + q],
    decreases __n2 - __i2,
//@.loop 2 after
    proof { cs = __a2@; gcy = cy; }
//@.loop 3 before
    let ghost by = boundaries_at_this_dim@; let ghost ri0 = row_op_of_higher_map;
    proof { lemma_cols(row_op_of_higher_map, ba, by); lemma_scaled0(by, hd); assert(__a3@ =~= Seq::<Vector>::empty()); }
//@.loop 3
    invariant __n3 == by.len() || __n3 == hi, by.len() == a0.nc(), __i3 <= __n3, boundaries_at_this_dim@ == by, hi == rank_of_higher_map, 0 <= hi <= by.len(), hd.len() == hi, dv(elem_divisors_of_higher_map@) =~= group(hd), __a3@.len() == if __i3 >= hi { hi } else { __i3 as int },
        scaled(__a3@, by, hd),
    decreases __n3 - __i3,
//@.loop 3 begin
    let ghost a3 = __a3@;
//@.loop 4 after
    proof { lemma_pick(hd, idx as int, __j3 as int); }
//@.loop 3 end
    proof { if __j3 < hi { lemma_scaled(a3, __a3@.last(), by, hd); assert(__a3@ =~= a3.push(__a3@.last())); } }
//@.loop 3 after
    proof { bs = __a3@; gby = by; }
//@.loop 4 before
    let ghost dd = dv(elem_divisors_of_higher_map@);
    proof { lemma_group(hd); assert(dd == group(hd)); assert(upto(dd, 0) == 0); }
//@.loop 4
    invariant dd == dv(elem_divisors_of_higher_map@), dd == group(hd), upto(dd, dd.len() as int) == hd.len(), __j3 < hd.len(), idx < dd.len(), i + upto(dd, idx as int) == __j3,
    decreases dd.len() - idx,
//@.loop 4 end
    proof { assert(upto(dd, idx as int) == upto(dd, idx - 1) + dd[idx - 1].1); }
//@.loop 5
    invariant __h5 == rank_of_lower_map, __i5 <= __h5, boundary_map == gw.s, rank_of_lower_map <= least(boundary_map), dv(elem_divisors_of_higher_map@) =~= group(absd(boundary_map, __i5 as int)),
    decreases __h5 - __i5,
//@.loop 5 begin
    let ghost e0 = elem_divisors_of_higher_map@;
//@.loop 5 end
    proof { let t = absd(boundary_map, __i5 as int); assert(t.drop_last() =~= absd(boundary_map, __j5 as int)); assert(dv(e0) =~= group(t.drop_last())); assert(t.last() == iabs(boundary_map.v(__j5 as int, __j5 as int))); }
//@.loop 0 end
    proof {
        assert forall|j: int| 0 <= j < __i0 implies out_ok(maps, ws, n - 1 - j, #[trigger] __a0@[j]) by {
            if j < __j0 { lemma_out_ext(maps, ws0, ws, n - 1 - j, __a0@[j]); }
            else { assert(hrk(ws, k) == hi && hdiv(ws, k) == hd); lemma_mk(maps, ws, k, __a0@[j], gcy, gby); }
        }
    }
//@.loop 0 after
    proof { oa = __a0@; }
//@.loop 6 before
    proof { assert forall|q: int| 0 <= q < n implies out_ok(maps, ws, q, #[trigger] output@[q]) by { let w = n - 1 - q; assert(out_ok(maps, ws, n - 1 - w, oa[w])); } }
//@.loop 6
    invariant 1 <= output@.len() <= n, output@.len() == n || output@.len() >= max_dim + 1, forall|q: int| 0 <= q < output@.len() ==> out_ok(maps, ws, q, #[trigger] output@[q]),
    decreases output@.len(),
//@.loop 7 before
    let ghost c = output@.len() as int;
    proof {
        assert(c == cutoff(md, n));
        if md is None { assert forall|q: int| 0 <= q < n implies out_ok(maps, ws, q, #[trigger] output@[q]) by { let w = n - 1 - q; assert(out_ok(maps, ws, n - 1 - w, oa[w])); } }
    }
//@.loop 7
    invariant output@.len() <= c, c <= n, forall|q: int| 0 <= q < output@.len() ==> out_ok(maps, ws, q, #[trigger] output@[q]), forall|q: int| output@.len() <= q < c ==> zero(maps, ws, q),
    ensures output@.len() > 0 ==> !zero(maps, ws, output@.len() - 1),
    decreases output@.len(),
//@.loop 7 begin
    proof { let l = output@.len() - 1; assert(out_ok(maps, ws, l, output@[l])); lemma_zero(maps, ws, l, output@[l].0); }
//@.loop 8 before
    let ghost out = output@;
//@.loop 8
    invariant __n8 == out.len(), __i8 <= __n8, output@ == out, homology@.len() == __i8, cycles@.len() == __i8, boundaries@.len() == __i8,
        forall|q: int| 0 <= q < __i8 ==> #[trigger] homology@[q] == out[q].0, forall|q: int| 0 <= q < __i8 ==> #[trigger] cycles@[q] == out[q].1, forall|q: int| 0 <= q < __i8 ==> #[trigger] boundaries@[q] == out[q].2,
    decreases __n8 - __i8,
//@.exit
    proof {
        let m = out.len() as int;
        assert forall|k: int| 0 <= k < m implies is_homology(maps, ws, k, #[trigger] __ret.homology@[k]) by { assert(out_ok(maps, ws, k, out[k])); }
        assert forall|k: int| 0 <= k < m implies are_cycles(maps, ws, k, (#[trigger] __ret.cycles@[k])@) by { assert(out_ok(maps, ws, k, out[k])); }
        assert forall|k: int| 0 <= k < m implies are_boundaries(maps, ws, k, (#[trigger] __ret.boundaries@[k])@) by { assert(out_ok(maps, ws, k, out[k])); }
        assert(answers(maps, md, ws, __ret));
    }
//@end
//@fn HomologyWithFieldCoefficients::homology self_as=Cf name=field_homology generics= Matrix<Coeff>=FMat op:-=e_sub maypanic let:homology=Vec<usize> own0=& acc0=Vec<(usize,usize)>
//@.spec
    ensures r@.len() == self_.maps().len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == self_.maps()[k].nc() - self_.maps()[k].rk() - if k + 1 < r@.len() { self_.maps()[k + 1].rk() } else { 0 },
//@.loop 0
    invariant __i0 <= __n0, __n0 == boundary_maps@.len(), boundary_maps@ == self_.maps(), __a0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0@[k]).0 == self_.maps()[k].rk() && __a0@[k].1 == self_.maps()[k].nc() - self_.maps()[k].rk(),
    decreases __n0 - __i0,
//@.loop 1
    invariant __i1 <= __n1, __n1 == im_and_ker@.len() - 1, im_and_ker@.len() == self_.maps().len(), homology@.len() == __i1,
        forall|k: int| 0 <= k < im_and_ker@.len() ==> (#[trigger] im_and_ker@[k]).0 == self_.maps()[k].rk() && im_and_ker@[k].1 == self_.maps()[k].nc() - self_.maps()[k].rk(),
        kernel == im_and_ker@[__i1 as int].1, forall|k: int| 0 <= k < __i1 ==> #[trigger] homology@[k] == self_.maps()[k].nc() - self_.maps()[k].rk() - self_.maps()[k + 1].rk(),
    decreases __n1 - __i1,
//@end
} // verus!
