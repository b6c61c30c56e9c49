verus! {
//@file alg/src/lin_alg/matrix_impl.rs
fn zero_i64() -> (r: i64) ensures r == 0 { 0 }
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
// ------------------------------------------------------------------ the owner of an allocation
pub struct MPtr(pub Vec<i64>);
impl MPtr { 
    fn as_ptr(&self) -> (r: Ptr) ensures r.addr == 0 { Ptr { addr: 0 } }
    fn dangling() -> (r: MPtr) { MPtr(Vec::new()) }
}
pub struct Matrix { pub ptr: MPtr, pub _marker: (), pub size: (usize, usize), pub offsets: (usize, usize) }
impl Matrix {
    // trusted: the allocator hands out room for as many entries as are asked for
    #[verifier::external_body]
    fn alloc(&mut self) ensures final(self).size == old(self).size, final(self).offsets == old(self).offsets, final(self).ptr.0.len() == old(self).size.0 * old(self).size.1 { unimplemented!() }
    // the view deref gives
    pub open spec fn is_view(&self, m: &Mat) -> bool { m.mem@ == self.ptr.0@ && m.base == 0 && m.meta == pack(self.size.0, self.size.1, self.offsets.0, self.offsets.1) }
//@known Matrix::alloc
//@fn Matrix::new T=i64 params=n,m expr:ptr::NonNull::dangling()=MPtr::dangling() expr:PhantomData=() op:===&x_eq maypanic
//@.spec
    ensures n < 65536, m < 65536, r.size == (n, m), r.offsets == (m, 1usize), r.ptr.0.len() == n * m,
//@.entry
    proof { lemma_fields(pack(n, m, m, 1)); }
//@end
//@fn <Matrix as Deref>::deref T=i64 rettype=Raw rawptr=p_raw
//@.spec
    ensures r.addr == 0, r.meta == pack(self.size.0, self.size.1, self.offsets.0, self.offsets.1),
//@end
}
// the bodies of a new matrix and of a transposed one, as views
proof fn lemma_inj(a: int, b: int, c: int, d: int, m: int) requires 0 <= b < m, 0 <= d < m, 0 <= a, 0 <= c, a * m + b == c * m + d, ensures a == c, b == d
{ if a < c { assert(a * m + m <= c * m) by(nonlinear_arith) requires a < c, m > 0; } else if c < a { assert(c * m + m <= a * m) by(nonlinear_arith) requires c < a, m > 0; } }
impl Mat {
    pub fn new(n: usize, m: usize) -> (r: Mat) ensures r.wf(), r.nr() == n, r.nc() == m, n < 65536, m < 65536,
    {
        let x = Matrix::new(n, m);
        let d = x.deref();
        let r = Mat { mem: x.ptr.0, base: d.addr, meta: d.meta };
        proof {
            reveal(Mat::wf); lemma_pack(n, m, m, 1);
            assert forall|i: int, j: int| r.has(i, j) implies 0 <= #[trigger] r.addr(i, j) < r.mem.len() by {
                assert(i * m + j * 1 == i * m + j && 0 <= i * m + j < n * m) by(nonlinear_arith) requires 0 <= i < n, 0 <= j < m; }
            assert forall|i: int, j: int, k: int, l: int| r.has(i, j) && r.has(k, l) && #[trigger] r.addr(i, j) == #[trigger] r.addr(k, l) implies i == k && j == l by { lemma_inj(i, j, k, l, m as int); }
        }
        r
    }
    // Matrix::write: the raw write of one entry is modelled as `set`
    fn write_raw(&mut self, p: (usize, usize), x: i64)
        requires old(self).wf(), old(self).has(p.0 as int, p.1 as int),
        ensures final(self).same(old(self)), final(self).v(p.0 as int, p.1 as int) == x,
            forall|k: int, l: int| old(self).has(k, l) && !(k == p.0 && l == p.1) ==> #[trigger] final(self).v(k, l) == old(self).v(k, l),
    { self.set(p.0, p.1, x) }
//@fn Matrix::zero T=i64 Self=Mat call:Matrix::new=Mat::new params=n,m call:i64::zero=zero_i64 method:write=~Mat::write_raw
//@.spec
    requires n > 0, m > 0,
    ensures r.wf(), r.nr() == n, r.nc() == m, forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == 0,
//@.loop 0
    invariant 0 <= __i0 <= n, out.wf(), out.nr() == n, out.nc() == m,
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < m ==> #[trigger] out.v(i, j) == 0,
    decreases n - __i0,
//@.loop 1
    invariant 0 <= __i1 <= m, __i0 == __j0 + 1, __j0 < n, out.wf(), out.nr() == n, out.nc() == m,
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < m) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] out.v(i, j) == 0,
    decreases m - __i1,
//@end
}
} // verus!
