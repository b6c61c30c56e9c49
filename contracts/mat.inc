verus! {
global size_of usize == 8;
use core::ops::Bound;
use core::mem;
//@known metadata
//@known Matrix::size
//@known SubMatrix::as_ptr
//@known SubMatrix::as_mut_ptr
//@known submatrix_from_raw_parts
//@known submatrix_from_raw_parts_mut
// ------------------------------------------------------------------ the packed sizes and strides of a matrix view
pub open spec fn f3(d: usize) -> usize { (d >> 48) & 0xffff }
pub open spec fn f2(d: usize) -> usize { (d >> 32) & 0xffff }
pub open spec fn f1(d: usize) -> usize { (d >> 16) & 0xffff }
pub open spec fn f0(d: usize) -> usize { d & 0xffff }
pub open spec fn pack(a: usize, b: usize, c: usize, d: usize) -> usize { (a << 48) | (b << 32) | (c << 16) | d }
pub proof fn lemma_pack(a: usize, b: usize, c: usize, d: usize)
    requires a < 65536, b < 65536, c < 65536, d < 65536,
    ensures f3(pack(a, b, c, d)) == a, f2(pack(a, b, c, d)) == b, f1(pack(a, b, c, d)) == c, f0(pack(a, b, c, d)) == d,
{
    assert((((a << 48) | (b << 32) | (c << 16) | d) >> 48) & 0xffff == a
        && (((a << 48) | (b << 32) | (c << 16) | d) >> 32) & 0xffff == b
        && (((a << 48) | (b << 32) | (c << 16) | d) >> 16) & 0xffff == c
        && ((a << 48) | (b << 32) | (c << 16) | d) & 0xffff == d) by(bit_vector) requires a < 65536, b < 65536, c < 65536, d < 65536;
}
pub proof fn lemma_fields(x: usize)
    ensures f3(x) < 65536, f2(x) < 65536, f1(x) < 65536, f0(x) < 65536,
{
    assert(((x >> 48) & 0xffff) < 65536 && ((x >> 32) & 0xffff) < 65536 && ((x >> 16) & 0xffff) < 65536 && (x & 0xffff) < 65536) by(bit_vector);
}
// ------------------------------------------------------------------ a view into an allocation: a base address and the packed sizes
// The allocation is modelled by the vector `mem`; an address is an index into it.
pub struct Mat { pub mem: Vec<i64>, pub base: usize, pub meta: usize }
pub struct Ptr { pub addr: usize }
pub struct Raw { pub addr: usize, pub meta: usize }
pub struct Rg { pub s: Bound<usize>, pub e: Bound<usize> }
pub open spec fn rlo(r: Rg) -> int { match r.s { Bound::Included(x) => x as int, Bound::Excluded(x) => x as int, Bound::Unbounded => 0 } }
pub open spec fn rhi(r: Rg, n: int) -> int { match r.e { Bound::Included(x) => x + 1, Bound::Excluded(x) => x as int, Bound::Unbounded => n } }
impl Rg {
    fn modified_start_bound(&self) -> (r: Bound<&usize>)
        ensures match self.s { Bound::Included(x) => r == Bound::Included(&x), Bound::Excluded(x) => r == Bound::Excluded(&x), Bound::Unbounded => r == Bound::<&usize>::Unbounded }
    { match &self.s { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), Bound::Unbounded => Bound::Unbounded } }
    fn modified_end_bound(&self) -> (r: Bound<&usize>)
        ensures match self.e { Bound::Included(x) => r == Bound::Included(&x), Bound::Excluded(x) => r == Bound::Excluded(&x), Bound::Unbounded => r == Bound::<&usize>::Unbounded }
    { match &self.e { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), Bound::Unbounded => Bound::Unbounded } }
}
impl Ptr {
    // address arithmetic wraps; an address matters only when it is read or written
    #[verifier::external_body]
    fn add(self, k: usize) -> (r: Ptr) ensures self.addr + k <= usize::MAX ==> r.addr == self.addr + k { unimplemented!() }
    fn cast(self) -> (r: Ptr) ensures r == self { self }
}
fn p_addr(p: Ptr) -> (r: usize) ensures r == p.addr { p.addr }
fn p_raw(r: Raw) -> (o: Raw) ensures o == r { r }
fn metadata(m: &Mat) -> (r: usize) ensures r == m.meta { m.meta }
fn submatrix_from_raw_parts(p: Ptr, size: (usize, usize), offsets: (usize, usize)) -> (r: Raw)
    ensures r.addr == p.addr, r.meta == pack(size.0, size.1, offsets.0, offsets.1),
{ Raw { addr: p.addr, meta: compress(size, offsets) } }
fn submatrix_from_raw_parts_mut(p: Ptr, size: (usize, usize), offsets: (usize, usize)) -> (r: Raw)
    ensures r.addr == p.addr, r.meta == pack(size.0, size.1, offsets.0, offsets.1),
{ Raw { addr: p.addr, meta: compress(size, offsets) } }
pub open spec fn off(i: int, j: int, o0: int, o1: int) -> int { i * o0 + j * o1 }
impl Mat {
    fn as_ptr(&self) -> (r: Ptr) ensures r.addr == self.base { Ptr { addr: self.base } }
    fn as_mut_ptr(&self) -> (r: Ptr) ensures r.addr == self.base { Ptr { addr: self.base } }
    pub open spec fn nr(&self) -> int { f3(self.meta) as int }
    pub open spec fn nc(&self) -> int { f2(self.meta) as int }
    pub open spec fn o0(&self) -> int { f1(self.meta) as int }
    pub open spec fn o1(&self) -> int { f0(self.meta) as int }
    pub open spec fn addr(&self, i: int, j: int) -> int { self.base + off(i, j, self.o0(), self.o1()) }
    pub open spec fn has(&self, i: int, j: int) -> bool { 0 <= i < self.nr() && 0 <= j < self.nc() }
    // every cell lies in the allocation and no two cells share an address
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: int, j: int| self.has(i, j) ==> 0 <= #[trigger] self.addr(i, j) < self.mem.len()
        &&& forall|i: int, j: int, k: int, l: int| self.has(i, j) && self.has(k, l) && #[trigger] self.addr(i, j) == #[trigger] self.addr(k, l) ==> i == k && j == l
    }
    #[verifier::opaque]
    pub open spec fn v(&self, i: int, j: int) -> int { self.mem[self.addr(i, j)] as int }
}
//@file alg/src/lin_alg/matrix_impl.rs
//@fn compress params=size,offsets
//@.spec
    ensures r == pack(size.0, size.1, offsets.0, offsets.1),
//@end
//@fn extract params=data
//@.spec
    ensures r == ((f3(data), f2(data)), (f1(data), f0(data))),
//@.exit
    proof { lemma_fields(data); assert(!(!0usize << 16) == 0xffff) by(bit_vector); }
//@end
//@fn unpack_bounds_for_sub params=range,size paramtype:range=&Rg generics=
//@.spec
    requires !(range.s is Excluded), range.e != Bound::Included(usize::MAX),
    ensures r.0 == rlo(*range), r.1 == rhi(*range, size as int),
//@end
//@fn check_bounds_for_index T=i64 generics= name=check_bounds_for_index params=r,c,m SubMatrix<T>=Mat
//@.spec
    requires m.has(r as int, c as int),
//@end
//@fn check_bounds_for_sub params=start,end,size
//@.spec
    requires start <= end <= size,
//@end
impl Mat {
//@fn SubMatrix::size T=i64
//@.spec
    ensures r.0 == self.nr(), r.1 == self.nc(),
//@end
//@fn SubMatrix::size_as_range T=i64 rettype=(core::ops::Range<usize>,core::ops::Range<usize>)
//@.spec
    ensures r.0.start == 0, r.0.end == self.nr(), r.1.start == 0, r.1.end == self.nc(),
//@end
//@fn SubMatrix::offsets T=i64
//@.spec
    ensures r.0 == self.o0(), r.1 == self.o1(),
//@end
//@fn SubMatrix::transpose T=i64 rawptr=p_raw rettype=Raw expr:selfas*constSelf=self.as_ptr()
//@.spec
    ensures r.addr == self.base, r.meta == pack(self.nc() as usize, self.nr() as usize, self.o1() as usize, self.o0() as usize),
//@end
//@fn <SubMatrix as Index<(usize,usize)>>::index T=i64 params=rc rettype=usize ret=p rawptr=p_addr
//@.spec
    requires self.wf(), self.has(rc.0 as int, rc.1 as int),
    ensures p == self.addr(rc.0 as int, rc.1 as int),
//@.entry
    proof { reveal(Mat::wf); lemma_off(rc.0 as int, rc.1 as int, self.o0(), self.o1()); assert(self.addr(rc.0 as int, rc.1 as int) < self.mem.len()); }
//@end
//@fn <SubMatrix as IndexMut<(usize,usize)>>::index_mut T=i64 params=rc rettype=usize ret=p rawptr=p_addr
//@.spec
    requires old(self).wf(), old(self).has(rc.0 as int, rc.1 as int),
    ensures p == old(self).addr(rc.0 as int, rc.1 as int), *final(self) == *old(self),
//@.entry
    proof { reveal(Mat::wf); lemma_off(rc.0 as int, rc.1 as int, self.o0(), self.o1()); assert(self.addr(rc.0 as int, rc.1 as int) < self.mem.len()); }
//@end
//@fn <SubMatrix as Index<($range1,$range2)>>::index name=index_range macro=submatrix_index_by_ranges_impl T=i64 $range1=Rg $range2=Rg params=rc rettype=Raw ret=p rawptr=p_raw
//@.spec
    requires self.wf(), !(rc.0.s is Excluded), !(rc.1.s is Excluded), rc.0.e != Bound::Included(usize::MAX), rc.1.e != Bound::Included(usize::MAX),
        rlo(rc.0) <= rhi(rc.0, self.nr()) <= self.nr(), rlo(rc.1) <= rhi(rc.1, self.nc()) <= self.nc(),
    ensures p.meta == pack((rhi(rc.0, self.nr()) - rlo(rc.0)) as usize, (rhi(rc.1, self.nc()) - rlo(rc.1)) as usize, self.o0() as usize, self.o1() as usize),
        rlo(rc.0) < rhi(rc.0, self.nr()) && rlo(rc.1) < rhi(rc.1, self.nc()) ==> p.addr == self.addr(rlo(rc.0), rlo(rc.1)),
//@.entry
    proof { reveal(Mat::wf); lemma_fields(self.meta); lemma_start(rlo(rc.0), rlo(rc.1), self.o0(), self.o1());
        if rlo(rc.0) < rhi(rc.0, self.nr()) && rlo(rc.1) < rhi(rc.1, self.nc()) { assert(self.has(rlo(rc.0), rlo(rc.1))); assert(self.addr(rlo(rc.0), rlo(rc.1)) < self.mem.len()); } }
//@end
//@fn <SubMatrix as IndexMut<($range1,$range2)>>::index_mut name=index_range_mut macro=submatrix_index_by_ranges_impl T=i64 $range1=Rg $range2=Rg params=rc rettype=Raw ret=p rawptr=p_raw
//@.spec
    requires old(self).wf(), !(rc.0.s is Excluded), !(rc.1.s is Excluded), rc.0.e != Bound::Included(usize::MAX), rc.1.e != Bound::Included(usize::MAX),
        rlo(rc.0) <= rhi(rc.0, old(self).nr()) <= old(self).nr(), rlo(rc.1) <= rhi(rc.1, old(self).nc()) <= old(self).nc(),
    ensures *final(self) == *old(self), p.meta == pack((rhi(rc.0, old(self).nr()) - rlo(rc.0)) as usize, (rhi(rc.1, old(self).nc()) - rlo(rc.1)) as usize, old(self).o0() as usize, old(self).o1() as usize),
        rlo(rc.0) < rhi(rc.0, old(self).nr()) && rlo(rc.1) < rhi(rc.1, old(self).nc()) ==> p.addr == old(self).addr(rlo(rc.0), rlo(rc.1)),
//@.entry
    proof { reveal(Mat::wf); lemma_fields(self.meta); lemma_start(rlo(rc.0), rlo(rc.1), self.o0(), self.o1());
        if rlo(rc.0) < rhi(rc.0, self.nr()) && rlo(rc.1) < rhi(rc.1, self.nc()) { assert(self.has(rlo(rc.0), rlo(rc.1))); assert(self.addr(rlo(rc.0), rlo(rc.1)) < self.mem.len()); } }
//@end
    // a cell as a value
    pub fn at(&self, i: usize, j: usize) -> (r: i64)
        requires self.wf(), self.has(i as int, j as int), ensures r == self.v(i as int, j as int),
    {
        proof { reveal(Mat::wf); reveal(Mat::v); assert(self.addr(i as int, j as int) < self.mem.len()); }
        self.mem[self.index((i, j))]
    }
    pub fn set(&mut self, i: usize, j: usize, x: i64)
        requires old(self).wf(), old(self).has(i as int, j as int),
        ensures final(self).same(old(self)), final(self).v(i as int, j as int) == x,
            forall|o: Mat| #[trigger] old(self).same(&o) ==> final(self).same(&o),
            forall|k: int, l: int| old(self).has(k, l) && !(k == i && l == j) ==> #[trigger] final(self).v(k, l) == old(self).v(k, l),
    {
        proof { reveal(Mat::wf); reveal(Mat::v); assert(self.addr(i as int, j as int) < self.mem.len()); }
        let p = self.index_mut((i, j));
        self.mem.set(p, x);
        proof {
            reveal(Mat::frame);
            assert(old(self).is_cell(p as int));
            assert forall|k: int, l: int| old(self).has(k, l) && !(k == i && l == j) implies #[trigger] self.v(k, l) == old(self).v(k, l) by {
                assert(old(self).addr(k, l) < old(self).mem.len()); assert(old(self).addr(k, l) != old(self).addr(i as int, j as int)); assert(self.addr(k, l) == old(self).addr(k, l)); }
            assert forall|k: int, l: int| self.has(k, l) implies 0 <= #[trigger] self.addr(k, l) < self.mem.len() by { assert(old(self).addr(k, l) < old(self).mem.len()); assert(self.addr(k, l) == old(self).addr(k, l)); }
            assert forall|a: int, b: int, k: int, l: int| self.has(a, b) && self.has(k, l) && #[trigger] self.addr(a, b) == #[trigger] self.addr(k, l) implies a == k && b == l by { assert(old(self).addr(a, b) == old(self).addr(k, l)); }
            assert forall|o: Mat| #[trigger] old(self).same(&o) implies self.same(&o) by { lemma_same_trans(&o, old(self), self); }
        }
    }
    // a well-formed matrix of the same place and size, and nothing outside its cells has changed
    pub open spec fn same(&self, o: &Mat) -> bool { self.wf() && self.meta == o.meta && self.base == o.base && self.frame(o) }
    #[verifier::opaque]
    pub open spec fn frame(&self, o: &Mat) -> bool {
        &&& self.mem.len() == o.mem.len()
        &&& forall|p: int| 0 <= p < o.mem.len() && !o.is_cell(p) ==> #[trigger] self.mem[p] == o.mem[p]
    }
    pub open spec fn is_cell(&self, p: int) -> bool { exists|i: int, j: int| self.has(i, j) && #[trigger] self.addr(i, j) == p }
    pub proof fn same_refl(&self) requires self.wf(), ensures self.same(self) { reveal(Mat::frame); }
}
pub proof fn lemma_same_trans(a: &Mat, b: &Mat, c: &Mat) requires b.same(a), c.same(b), ensures c.same(a)
{
    reveal(Mat::frame);
    assert forall|p: int| 0 <= p < a.mem.len() && !a.is_cell(p) implies #[trigger] c.mem[p] == a.mem[p] by {
        if b.is_cell(p) { let (i, j) = choose|i: int, j: int| b.has(i, j) && #[trigger] b.addr(i, j) == p; assert(a.has(i, j) && a.addr(i, j) == p); }
        assert(b.mem[p] == a.mem[p]);
    }
}
proof fn lemma_off(i: int, j: int, o0: int, o1: int) requires i >= 0, j >= 0, o0 >= 0, o1 >= 0, ensures 0 <= i * o0 <= off(i, j, o0, o1), 0 <= j * o1 <= off(i, j, o0, o1),
{ assert(i * o0 >= 0 && j * o1 >= 0) by(nonlinear_arith) requires i >= 0, j >= 0, o0 >= 0, o1 >= 0; }
proof fn lemma_start(i: int, j: int, o0: int, o1: int) requires 0 <= i < 65536, 0 <= j < 65536, 0 <= o0 < 65536, 0 <= o1 < 65536, ensures 0 <= o0 * i, 0 <= o1 * j, o0 * i + o1 * j == off(i, j, o0, o1), o0 * i + o1 * j < 0x3_0000_0000,
{ assert(0 <= o0 * i <= 65535 * 65535 && 0 <= o1 * j <= 65535 * 65535 && o0 * i == i * o0 && o1 * j == j * o1) by(nonlinear_arith) requires 0 <= i < 65536, 0 <= j < 65536, 0 <= o0 < 65536, 0 <= o1 < 65536; }
pub trait XEq: Sized { fn x_ne(a: &Self, b: &Self) -> (r: bool) ensures r == (*a != *b); }
impl XEq for i64 { fn x_ne(a: &i64, b: &i64) -> (r: bool) { *a != *b } }
impl XEq for usize { fn x_ne(a: &usize, b: &usize) -> (r: bool) { *a != *b } }
impl XEq for (usize, usize) { fn x_ne(a: &(usize, usize), b: &(usize, usize)) -> (r: bool) { a.0 != b.0 || a.1 != b.1 } }
impl<A: XEq, B: XEq> XEq for ((A, B), (A, B)) { fn x_ne(a: &Self, b: &Self) -> (r: bool) { A::x_ne(&a.0.0, &b.0.0) || B::x_ne(&a.0.1, &b.0.1) || A::x_ne(&a.1.0, &b.1.0) || B::x_ne(&a.1.1, &b.1.1) } }
fn x_ne<T: XEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a != *b) { T::x_ne(a, b) }
fn x_eq<T: XEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { !T::x_ne(a, b) }
fn vx_succ(a: usize) -> (r: usize) requires a < usize::MAX, ensures r == a + 1 { a + 1 }
fn v_clone(x: &Vec<i64>) -> (r: Vec<i64>) ensures r@ == x@
{
    let mut r = Vec::new();
    let mut i = 0;
    while i < x.len() invariant i <= x.len(), r.len() == i, forall|k: int| 0 <= k < i ==> r[k] == x[k], decreases x.len() - i { r.push(x[i]); i += 1; }
    proof { assert(r@ =~= x@); }
    r
}
fn rg(a: usize, b: usize) -> (r: Rg) ensures rlo(r) == a, forall|n: int| #[trigger] rhi(r, n) == b, r.s is Included, r.e is Excluded { Rg { s: Bound::Included(a), e: Bound::Excluded(b) } }
impl Mat {
    // what the range view of a matrix is, as a place in the same allocation
    spec fn view_of(&self, s: &Mat, r0: int, r1: int, c0: int, c1: int) -> bool {
        &&& s.mem@ == self.mem@ && s.nr() == r1 - r0 && s.nc() == c1 - c0 && s.o0() == self.o0() && s.o1() == self.o1()
        &&& r0 < r1 && c0 < c1 ==> s.base == self.addr(r0, c0)
    }
    proof fn lemma_view(&self, s: &Mat, r0: int, r1: int, c0: int, c1: int)
        requires self.wf(), 0 <= r0 <= r1 <= self.nr(), 0 <= c0 <= c1 <= self.nc(), self.view_of(s, r0, r1, c0, c1),
        ensures s.wf(),
            forall|i: int, j: int| s.has(i, j) ==> #[trigger] s.addr(i, j) == self.addr(r0 + i, c0 + j) && self.has(r0 + i, c0 + j),
            forall|i: int, j: int| s.has(i, j) ==> #[trigger] s.v(i, j) == self.v(r0 + i, c0 + j),
    {
        reveal(Mat::wf); reveal(Mat::v);
        assert forall|i: int, j: int| s.has(i, j) implies #[trigger] s.addr(i, j) == self.addr(r0 + i, c0 + j) && self.has(r0 + i, c0 + j) by {
            let (a, b) = (self.o0(), self.o1());
            assert(r0 * a + c0 * b + (i * a + j * b) == (r0 + i) * a + (c0 + j) * b) by(nonlinear_arith);
        }
        assert forall|i: int, j: int| s.has(i, j) implies 0 <= #[trigger] s.addr(i, j) < s.mem.len() by { assert(self.addr(r0 + i, c0 + j) < self.mem.len()); }
        assert forall|i: int, j: int, k: int, l: int| s.has(i, j) && s.has(k, l) && #[trigger] s.addr(i, j) == #[trigger] s.addr(k, l) implies i == k && j == l by {
            assert(self.addr(r0 + i, c0 + j) == self.addr(r0 + k, c0 + l)); }
    }
    pub fn sub(&self, r0: usize, r1: usize, c0: usize, c1: usize) -> (r: Mat)
        requires self.wf(), r0 <= r1 <= self.nr(), c0 <= c1 <= self.nc(),
        ensures r.wf(), r.nr() == r1 - r0, r.nc() == c1 - c0, forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == self.v(r0 + i, c0 + j),
    {
        proof { lemma_fields(self.meta); lemma_pack((r1 - r0) as usize, (c1 - c0) as usize, self.o0() as usize, self.o1() as usize); }
        let w = self.index_range((rg(r0, r1), rg(c0, c1)));
        let r = Mat { mem: v_clone(&self.mem), base: w.addr, meta: w.meta };
        proof { self.lemma_view(&r, r0 as int, r1 as int, c0 as int, c1 as int); }
        r
    }
    // a mutable range view: the allocation is lent to the view and handed back
    fn lend(&mut self, r0: usize, r1: usize, c0: usize, c1: usize) -> (s: Mat)
        requires old(self).wf(), r0 <= r1 <= old(self).nr(), c0 <= c1 <= old(self).nc(),
        ensures old(self).view_of(&s, r0 as int, r1 as int, c0 as int, c1 as int), final(self).meta == old(self).meta, final(self).base == old(self).base,
    {
        proof { lemma_fields(self.meta); lemma_pack((r1 - r0) as usize, (c1 - c0) as usize, self.o0() as usize, self.o1() as usize); }
        let w = self.index_range_mut((rg(r0, r1), rg(c0, c1)));
        let mut m: Vec<i64> = Vec::new();
        core::mem::swap(&mut m, &mut self.mem);
        Mat { mem: m, base: w.addr, meta: w.meta }
    }
    proof fn lemma_back(&self, o: &Mat, s0: &Mat, s: &Mat, r0: int, r1: int, c0: int, c1: int)
        requires o.wf(), 0 <= r0 <= r1 <= o.nr(), 0 <= c0 <= c1 <= o.nc(), o.view_of(s0, r0, r1, c0, c1), s.same(s0), self.meta == o.meta, self.base == o.base, self.mem@ == s.mem@,
        ensures self.same(o),
            forall|i: int, j: int| s0.has(i, j) ==> #[trigger] self.v(r0 + i, c0 + j) == s.v(i, j),
            forall|i: int, j: int| o.has(i, j) && !(r0 <= i < r1 && c0 <= j < c1) ==> #[trigger] self.v(i, j) == o.v(i, j),
            forall|i: int, j: int| r0 <= i < r1 && c0 <= j < c1 ==> #[trigger] self.v(i, j) == s.v(i - r0, j - c0),
    {
        o.lemma_view(s0, r0, r1, c0, c1);
        reveal(Mat::wf); reveal(Mat::v); reveal(Mat::frame);
        assert forall|i: int, j: int| self.has(i, j) implies 0 <= #[trigger] self.addr(i, j) < self.mem.len() by { assert(o.addr(i, j) < o.mem.len()); }
        assert forall|i: int, j: int, k: int, l: int| self.has(i, j) && self.has(k, l) && #[trigger] self.addr(i, j) == #[trigger] self.addr(k, l) implies i == k && j == l by { assert(o.addr(i, j) == o.addr(k, l)); }
        assert forall|p: int| 0 <= p < o.mem.len() && !o.is_cell(p) implies #[trigger] self.mem[p] == o.mem[p] by {
            if s0.is_cell(p) { let (i, j) = choose|i: int, j: int| s0.has(i, j) && #[trigger] s0.addr(i, j) == p; assert(o.has(r0 + i, c0 + j) && o.addr(r0 + i, c0 + j) == p); }
            assert(s.mem[p] == s0.mem[p]);
        }
        assert forall|i: int, j: int| r0 <= i < r1 && c0 <= j < c1 implies #[trigger] self.v(i, j) == s.v(i - r0, j - c0) by {
            assert(s0.has(i - r0, j - c0)); assert(s0.addr(i - r0, j - c0) == o.addr(r0 + (i - r0), c0 + (j - c0))); assert(s.addr(i - r0, j - c0) == self.addr(i, j)); }
        assert forall|i: int, j: int| s0.has(i, j) implies #[trigger] self.v(r0 + i, c0 + j) == s.v(i, j) by { assert(s0.addr(i, j) == o.addr(r0 + i, c0 + j)); assert(s.addr(i, j) == self.addr(r0 + i, c0 + j)); }
        assert forall|i: int, j: int| o.has(i, j) && !(r0 <= i < r1 && c0 <= j < c1) implies #[trigger] self.v(i, j) == o.v(i, j) by {
            let p = o.addr(i, j);
            if s0.is_cell(p) { let (k, l) = choose|k: int, l: int| s0.has(k, l) && #[trigger] s0.addr(k, l) == p; assert(o.has(r0 + k, c0 + l) && o.addr(r0 + k, c0 + l) == p); }
            assert(p < o.mem.len());
            assert(s.mem[p] == s0.mem[p]);
            assert(self.addr(i, j) == p);
        }
    }
}
} // verus!
