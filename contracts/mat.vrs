//@include prelude.inc
//@include chk.inc
//@include mat.inc
//@include mzero.inc
verus! {
//@file alg/src/lin_alg/matrix_impl.rs
impl Matrix {
//@fn Matrix::transpose T=i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.size == (self.size.1, self.size.0), r.offsets == (self.offsets.1, self.offsets.0), r.ptr == self.ptr,
//@end
}
impl Mat {
    proof fn lemma_transposed(&self, t: &Mat)
        requires self.wf(), t.mem@ == self.mem@, t.base == self.base, t.nr() == self.nc(), t.nc() == self.nr(), t.o0() == self.o1(), t.o1() == self.o0(),
        ensures t.wf(), forall|i: int, j: int| t.has(i, j) ==> #[trigger] t.v(i, j) == self.v(j, i),
    {
        reveal(Mat::wf); reveal(Mat::v);
        assert forall|i: int, j: int| t.has(i, j) implies #[trigger] t.addr(i, j) == self.addr(j, i) by {}
        assert forall|i: int, j: int| t.has(i, j) implies 0 <= #[trigger] t.addr(i, j) < t.mem.len() by { assert(self.has(j, i)); assert(self.addr(j, i) < self.mem.len()); }
        assert forall|i: int, j: int, k: int, l: int| t.has(i, j) && t.has(k, l) && #[trigger] t.addr(i, j) == #[trigger] t.addr(k, l) implies i == k && j == l by { assert(self.addr(j, i) == self.addr(l, k)); }
    }
    // the transposed view
    pub fn transposed(&self) -> (r: Mat) requires self.wf(), ensures r.wf(), r.nr() == self.nc(), r.nc() == self.nr(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == self.v(j, i),
    {
        let w = self.transpose();
        let r = Mat { mem: v_clone(&self.mem), base: w.addr, meta: w.meta };
        proof { lemma_fields(self.meta); lemma_pack(self.nc() as usize, self.nr() as usize, self.o1() as usize, self.o0() as usize); self.lemma_transposed(&r); }
        r
    }
}
// transpose of a Matrix, and of any view of it, gives the transposed view
proof fn lemma_matrix_transpose(a: Matrix, b: Matrix, m: Mat, t: Mat)
    requires a.is_view(&m), b.is_view(&t), m.wf(), a.size.0 < 65536, a.size.1 < 65536, a.offsets.0 < 65536, a.offsets.1 < 65536,
        b.size == (a.size.1, a.size.0), b.offsets == (a.offsets.1, a.offsets.0), b.ptr == a.ptr,
    ensures t.wf(), t.nr() == m.nc(), t.nc() == m.nr(), forall|i: int, j: int| t.has(i, j) ==> #[trigger] t.v(i, j) == m.v(j, i),
{
    lemma_pack(a.size.0, a.size.1, a.offsets.0, a.offsets.1); lemma_pack(a.size.1, a.size.0, a.offsets.1, a.offsets.0);
    m.lemma_transposed(&t);
}
// sum over l < k of a(i, l) * b(l, j)
pub open spec fn mdot(a: &Mat, i: int, b: &Mat, j: int, k: int) -> int decreases k
{ if k <= 0 { 0 } else { mdot(a, i, b, j, k - 1) + a.v(i, k - 1) * b.v(k - 1, j) } }
proof fn lemma_mdot_views(a: &Mat, i: int, b: &Mat, j: int, sa: &Mat, sb: &Mat, k: int)
    requires forall|l: int| 0 <= l < k ==> #[trigger] sa.v(0, l) == a.v(i, l), forall|l: int| 0 <= l < k ==> #[trigger] sb.v(l, 0) == b.v(l, j),
    ensures mdot(sa, 0, sb, 0, k) == mdot(a, i, b, j, k), decreases k
{ if k > 0 { lemma_mdot_views(a, i, b, j, sa, sb, k - 1); } }
pub open spec fn rows_agree(s: &Mat, k: int, a: &Mat, i: int, t: &Mat, b: &Mat, j: int) -> bool {
    &&& forall|l: int| 0 <= l < k ==> #[trigger] s.v(0, l) == a.v(i, l)
    &&& forall|l: int| 0 <= l < k ==> #[trigger] t.v(l, 0) == b.v(l, j)
}
pub open spec fn same_size(a: &Mat, b: &Mat) -> bool { a.nr() == b.nr() && a.nc() == b.nc() }
impl Mat {
//@fn SubMatrix::dot T=i64 Self=Mat params=rhs matidx op:*=e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(), self.nr() == 1, rhs.nc() == 1, self.nc() == rhs.nr(),
    ensures r == mdot(self, 0, rhs, 0, self.nc()),
        forall|a: &Mat, i: int, b: &Mat, j: int| rows_agree(self, self.nc(), a, i, rhs, b, j) ==> r == #[trigger] mdot(a, i, b, j, self.nc()),
//@.exit
    proof { assert forall|a: &Mat, i: int, b: &Mat, j: int| rows_agree(self, self.nc(), a, i, rhs, b, j) implies __ret == #[trigger] mdot(a, i, b, j, self.nc()) by { lemma_mdot_views(a, i, b, j, self, rhs, self.nc()); } }
//@.loop 0
    invariant 0 <= __i0 <= self.nc(), __a0 == mdot(self, 0, rhs, 0, __i0 as int),
    decreases self.nc() - __i0,
//@end
//@fn SubMatrix::as_matrix T=i64 Matrix<T>=Mat call:Matrix::new=Mat::new matidx method:write=~Mat::write_raw op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j),
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() ==> #[trigger] out.v(i, j) == self.v(i, j),
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] out.v(i, j) == self.v(i, j),
    decreases self.nc() - __i1,
//@end
//@fn SubMatrix::swap_rows T=i64 matidx params=r1,r2 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), r1 < old(self).nr(), r2 < old(self).nr(),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == if i == r1 { old(self).v(r2 as int, j) } else if i == r2 { old(self).v(r1 as int, j) } else { old(self).v(i, j) },
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nc(), o == *old(self), self.same(&o), r1 < o.nr(), r2 < o.nr(),
        forall|i: int, j: int| o.has(i, j) ==> #[trigger] self.v(i, j) == if j < __i0 { if i == r1 { o.v(r2 as int, j) } else if i == r2 { o.v(r1 as int, j) } else { o.v(i, j) } } else { o.v(i, j) },
    decreases o.nc() - __i0,
//@end
//@fn SubMatrix::swap_cols T=i64 matidx params=c1,c2 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), c1 < old(self).nc(), c2 < old(self).nc(),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == if j == c1 { old(self).v(i, c2 as int) } else if j == c2 { old(self).v(i, c1 as int) } else { old(self).v(i, j) },
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), c1 < o.nc(), c2 < o.nc(),
        forall|i: int, j: int| o.has(i, j) ==> #[trigger] self.v(i, j) == if i < __i0 { if j == c1 { o.v(i, c2 as int) } else if j == c2 { o.v(i, c1 as int) } else { o.v(i, j) } } else { o.v(i, j) },
    decreases o.nr() - __i0,
//@end
//@fn SubMatrix::row_operation T=i64 matidx params=r1,r2,scalar op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), r1 < old(self).nr(), r2 < old(self).nr(),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == if i == r1 { old(self).v(i, j) + old(self).v(r2 as int, j) * scalar } else { old(self).v(i, j) },
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
    let ghost s2 = r2 as int;
//@.loop 0
    invariant 0 <= __i0 <= o.nc(), o == *old(self), self.same(&o), r1 < o.nr(), s2 < o.nr(), r2.wf(), r2.nr() == 1, r2.nc() == o.nc(),
        forall|l: int| 0 <= l < o.nc() ==> #[trigger] r2.v(0, l) == o.v(s2, l) * scalar,
        forall|i: int, j: int| o.has(i, j) ==> #[trigger] self.v(i, j) == if j < __i0 { if i == r1 { o.v(i, j) + o.v(s2, j) * scalar } else { o.v(i, j) } } else { o.v(i, j) },
    decreases o.nc() - __i0,
//@end
//@fn SubMatrix::col_operation T=i64 matidx params=c1,c2,scalar op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), c1 < old(self).nc(), c2 < old(self).nc(),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == if j == c1 { old(self).v(i, j) + old(self).v(i, c2 as int) * scalar } else { old(self).v(i, j) },
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
    let ghost s2 = c2 as int;
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), c1 < o.nc(), s2 < o.nc(), c2.wf(), c2.nr() == o.nr(), c2.nc() == 1,
        forall|l: int| 0 <= l < o.nr() ==> #[trigger] c2.v(l, 0) == o.v(l, s2) * scalar,
        forall|i: int, j: int| o.has(i, j) ==> #[trigger] self.v(i, j) == if i < __i0 { if j == c1 { o.v(i, j) + o.v(i, s2) * scalar } else { o.v(i, j) } } else { o.v(i, j) },
    decreases o.nr() - __i0,
//@end
//@fn SubMatrix::write T=i64 SubMatrix<T>=Mat matidx params=m op:!==&x_ne op:===&x_eq op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), m.wf(), same_size(old(self), m),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == m.v(i, j),
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), same_size(&o, m), m.wf(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == m.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o), same_size(&o, m), m.wf(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == m.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <&SubMatrix<T> as Mul<T>>::mul name=mul_scalar T=i64 Self=&Mat Matrix<T>=Mat Self::Output=Mat call:Matrix::new=Mat::new matidx params=rhs op:*=e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) * rhs,
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() ==> #[trigger] out.v(i, j) == self.v(i, j) * rhs,
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] out.v(i, j) == self.v(i, j) * rhs,
    decreases self.nc() - __i1,
//@end
//@fn <SubMatrix as MulAssign<T>>::mul_assign name=mul_assign T=i64 matidx params=rhs op:*=e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == old(self).v(i, j) * rhs,
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j) * rhs, forall|i: int, j: int| __i0 <= i < o.nr() && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == o.v(i, j) * rhs, forall|i: int, j: int| ((__i0 <= i < o.nr() && 0 <= j < o.nc()) || (i == __j0 && __i1 <= j < o.nc())) ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <&SubMatrix<T> as Mul>::mul name=mul_mat T=i64 Self=&Mat Self::Output=Mat call:Matrix::new=Mat::new matidx params=rhs op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(), self.nc() == rhs.nr(),
    ensures r.wf(), r.nr() == self.nr(), r.nc() == rhs.nc(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == mdot(self, i, rhs, j, self.nc()),
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), prod.wf(), prod.nr() == self.nr(), prod.nc() == rhs.nc(), self.wf(), rhs.wf(), self.nc() == rhs.nr(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < rhs.nc() ==> #[trigger] prod.v(i, j) == mdot(self, i, rhs, j, self.nc()),
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= rhs.nc(), __i0 == __j0 + 1, __j0 < self.nr(), prod.wf(), prod.nr() == self.nr(), prod.nc() == rhs.nc(), self.wf(), rhs.wf(), self.nc() == rhs.nr(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < rhs.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] prod.v(i, j) == mdot(self, i, rhs, j, self.nc()),
    decreases rhs.nc() - __i1,
//@end
//@fn <SubMatrix as PartialEq>::eq T=i64 Self=Mat matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r == (same_size(self, rhs) && forall|i: int, j: int| self.has(i, j) ==> #[trigger] self.v(i, j) == rhs.v(i, j)),
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), same_size(self, rhs), forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() ==> #[trigger] self.v(i, j) == rhs.v(i, j),
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), same_size(self, rhs), forall|i: int, j: int| (0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1) ==> #[trigger] self.v(i, j) == rhs.v(i, j),
    decreases self.nc() - __i1,
//@end
//@fn Matrix::is_diagonal T=i64 matidx call:i64::zero=zero_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r == forall|i: int, j: int| self.has(i, j) && i != j ==> #[trigger] self.v(i, j) == 0,
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() && i != j ==> #[trigger] self.v(i, j) == 0,
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1)) && i != j ==> #[trigger] self.v(i, j) == 0,
    decreases self.nc() - __i1,
//@end
//@fn Matrix::identity T=i64 Self=Mat params=size call:Matrix::zero=Mat::zero matidx call:i64::one=one_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires size > 0,
    ensures r.wf(), r.nr() == size, r.nc() == size, forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == if i == j { 1int } else { 0 },
//@.loop 0
    invariant 0 <= __i0 <= size, mat.wf(), mat.nr() == size, mat.nc() == size, forall|i: int, j: int| mat.has(i, j) ==> #[trigger] mat.v(i, j) == if i == j && i < __i0 { 1int } else { 0 },
    decreases size - __i0,
//@end
//@fn Matrix::from_array T=i64 Self=Mat call:Matrix::new=Mat::new params=v matidx op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires v.len() > 0, v[0].len() > 0, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].len() == v[0].len(),
    ensures r.wf(), r.nr() == v.len(), r.nc() == v[0].len(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == v[i][j],
//@.loop 0
    invariant 0 <= __i0 <= v.len(), !__a0, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].len() == v[0].len(),
    decreases v.len() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].len() == v[0].len(), out.wf(), out.nr() == v.len(), out.nc() == v[0].len(),
        forall|i: int, j: int| 0 <= i < __i1 && 0 <= j < v[0].len() ==> #[trigger] out.v(i, j) == v[i][j],
    decreases v.len() - __i1,
//@.loop 2
    invariant 0 <= __i2 <= v[0].len(), v[__j1 as int].len() == v[0].len(), __i1 == __j1 + 1, __j1 < v.len(), out.wf(), out.nr() == v.len(), out.nc() == v[0].len(),
        forall|i: int, j: int| ((0 <= i < __j1 && 0 <= j < v[0].len()) || (i == __j1 && 0 <= j < __i2)) ==> #[trigger] out.v(i, j) == v[i][j],
    decreases v[0].len() - __i2,
//@end
//@fn <&SubMatrix<T> as $bin_op_tr>::$bin_op_fn macro=submatrix_add_sub_impl key=&SubMatrix::add name=add_mat T=i64 Self=&Mat Matrix<T>=Mat Self::Output=Mat $bin_op_tr=Add $bin_op_fn=add call:Add::add=e_add call:Matrix::new=Mat::new matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(), same_size(self, rhs),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) + rhs.v(i, j),
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() ==> #[trigger] out.v(i, j) == self.v(i, j) + rhs.v(i, j),
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] out.v(i, j) == self.v(i, j) + rhs.v(i, j),
    decreases self.nc() - __i1,
//@end
//@fn <&SubMatrix<T> as $bin_op_tr>::$bin_op_fn macro=submatrix_add_sub_impl key=&SubMatrix::sub name=sub_mat T=i64 Self=&Mat Matrix<T>=Mat Self::Output=Mat $bin_op_tr=Sub $bin_op_fn=sub call:Sub::sub=e_sub call:Matrix::new=Mat::new matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(), same_size(self, rhs),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) - rhs.v(i, j),
//@.loop 0
    invariant 0 <= __i0 <= self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < self.nc() ==> #[trigger] out.v(i, j) == self.v(i, j) - rhs.v(i, j),
    decreases self.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= self.nc(), __i0 == __j0 + 1, __j0 < self.nr(), out.wf(), out.nr() == self.nr(), out.nc() == self.nc(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < self.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] out.v(i, j) == self.v(i, j) - rhs.v(i, j),
    decreases self.nc() - __i1,
//@end
//@fn <Matrix<T> as AddAssign<&SubMatrix<T>>>::add_assign macro=submatrix_add_sub_assign_impl! key=Matrix::add_assign name=add_assign_mat T=i64 Self=Mat SubMatrix<T>=Mat matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), rhs.wf(), same_size(old(self), rhs),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == old(self).v(i, j) + rhs.v(i, j),
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), same_size(&o, rhs), rhs.wf(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j) + rhs.v(i, j), forall|i: int, j: int| __i0 <= i < o.nr() && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o), same_size(&o, rhs), rhs.wf(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == o.v(i, j) + rhs.v(i, j), forall|i: int, j: int| ((__i0 <= i < o.nr() && 0 <= j < o.nc()) || (i == __j0 && __i1 <= j < o.nc())) ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <Matrix<T> as Add<&SubMatrix<T>>>::add macro=binary_op_impl! key=Matrix::add_view name=add_view T=i64 Self=Mat Matrix<T>=Mat SubMatrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~&Mat::add_assign_mat op:-==~&Mat::sub_assign_mat
//@.spec
    requires self.wf(), rhs.wf(), same_size(&self, rhs),
    ensures r.same(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) + rhs.v(i, j),
//@end
//@fn <Matrix<T> as Add<Matrix<T>>>::add macro=binary_op_impl! key=Matrix::add name=add_own T=i64 Self=Mat Matrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~&Mat::add_assign_mat op:-==~&Mat::sub_assign_mat
//@.spec
    requires self.wf(), rhs.wf(), same_size(&self, &rhs),
    ensures r.same(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) + rhs.v(i, j),
//@end
//@fn <Matrix<T> as SubAssign<&SubMatrix<T>>>::sub_assign macro=submatrix_add_sub_assign_impl! key=Matrix::sub_assign name=sub_assign_mat T=i64 Self=Mat SubMatrix<T>=Mat matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), rhs.wf(), same_size(old(self), rhs),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == old(self).v(i, j) - rhs.v(i, j),
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), same_size(&o, rhs), rhs.wf(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j) - rhs.v(i, j), forall|i: int, j: int| __i0 <= i < o.nr() && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o), same_size(&o, rhs), rhs.wf(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == o.v(i, j) - rhs.v(i, j), forall|i: int, j: int| ((__i0 <= i < o.nr() && 0 <= j < o.nc()) || (i == __j0 && __i1 <= j < o.nc())) ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <Matrix<T> as Sub<&SubMatrix<T>>>::sub macro=binary_op_impl! key=Matrix::sub_view name=sub_view T=i64 Self=Mat Matrix<T>=Mat SubMatrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~&Mat::add_assign_mat op:-==~&Mat::sub_assign_mat
//@.spec
    requires self.wf(), rhs.wf(), same_size(&self, rhs),
    ensures r.same(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) - rhs.v(i, j),
//@end
//@fn <Matrix<T> as Sub<Matrix<T>>>::sub macro=binary_op_impl! key=Matrix::sub name=sub_own T=i64 Self=Mat Matrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~&Mat::add_assign_mat op:-==~&Mat::sub_assign_mat
//@.spec
    requires self.wf(), rhs.wf(), same_size(&self, &rhs),
    ensures r.same(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) - rhs.v(i, j),
//@end
//@fn <Matrix<T> as AddAssign<Matrix<T>>>::add_assign macro=submatrix_add_sub_assign_impl! key=Matrix::add_assign_own name=add_assign_own T=i64 Self=Mat Matrix<T>=Mat matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), rhs.wf(), same_size(old(self), &rhs),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == old(self).v(i, j) + rhs.v(i, j),
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), same_size(&o, &rhs), rhs.wf(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j) + rhs.v(i, j), forall|i: int, j: int| __i0 <= i < o.nr() && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o), same_size(&o, &rhs), rhs.wf(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == o.v(i, j) + rhs.v(i, j), forall|i: int, j: int| ((__i0 <= i < o.nr() && 0 <= j < o.nc()) || (i == __j0 && __i1 <= j < o.nc())) ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <&SubMatrix<T> as Add<Matrix<T>>>::add macro=binary_op_impl! key=&SubMatrix::add_own name=add_view_own T=i64 Self=&Mat Matrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~Mat::add_assign_own op:-==~Mat::sub_assign_own
//@.spec
    requires self.wf(), rhs.wf(), same_size(self, &rhs),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) + rhs.v(i, j),
//@end
//@fn <Matrix<T> as SubAssign<Matrix<T>>>::sub_assign macro=submatrix_add_sub_assign_impl! key=Matrix::sub_assign_own name=sub_assign_own T=i64 Self=Mat Matrix<T>=Mat matidx params=rhs op:!==&x_ne op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), rhs.wf(), same_size(old(self), &rhs),
    ensures final(self).same(old(self)), forall|i: int, j: int| old(self).has(i, j) ==> #[trigger] final(self).v(i, j) == old(self).v(i, j) - rhs.v(i, j),
//@.entry
    let ghost o = *self; proof { o.same_refl(); }
//@.loop 0
    invariant 0 <= __i0 <= o.nr(), o == *old(self), self.same(&o), same_size(&o, &rhs), rhs.wf(),
        forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j) - rhs.v(i, j), forall|i: int, j: int| __i0 <= i < o.nr() && 0 <= j < o.nc() ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nr() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= o.nc(), __i0 == __j0 + 1, __j0 < o.nr(), o == *old(self), self.same(&o), same_size(&o, &rhs), rhs.wf(),
        forall|i: int, j: int| ((0 <= i < __j0 && 0 <= j < o.nc()) || (i == __j0 && 0 <= j < __i1)) ==> #[trigger] self.v(i, j) == o.v(i, j) - rhs.v(i, j), forall|i: int, j: int| ((__i0 <= i < o.nr() && 0 <= j < o.nc()) || (i == __j0 && __i1 <= j < o.nc())) ==> #[trigger] self.v(i, j) == o.v(i, j),
    decreases o.nc() - __i1,
//@end
//@fn <&SubMatrix<T> as Sub<Matrix<T>>>::sub macro=binary_op_impl! key=&SubMatrix::sub_own name=sub_view_own T=i64 Self=&Mat Matrix<T>=Mat Self::Output=Mat matidx params=rhs op:+==~Mat::add_assign_own op:-==~Mat::sub_assign_own
//@.spec
    requires self.wf(), rhs.wf(), same_size(self, &rhs),
    ensures r.wf(), same_size(&r, self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) - rhs.v(i, j),
//@end
//@fn <Matrix<T> as Mul<&SubMatrix<T>>>::mul key=Matrix::mul_view name=mul_view T=i64 Self=Mat Matrix<T>=Mat SubMatrix<T>=Mat Self::Output=Mat matidx params=rhs op:*=&Mat::mul_mat expr:&*self=&self expr:&*rhs=&rhs
//@.spec
    requires self.wf(), rhs.wf(), self.nc() == rhs.nr(),
    ensures r.wf(), r.nr() == self.nr(), r.nc() == rhs.nc(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == mdot(&self, i, rhs, j, self.nc()),
//@end
//@fn <&SubMatrix<T> as Mul<Matrix<T>>>::mul key=&SubMatrix::mul_own name=mul_view_own T=i64 Self=&Mat Matrix<T>=Mat SubMatrix<T>=Mat Self::Output=Mat matidx params=rhs op:*=&Mat::mul_mat expr:&*self=&self expr:&*rhs=&rhs
//@.spec
    requires self.wf(), rhs.wf(), self.nc() == rhs.nr(),
    ensures r.wf(), r.nr() == self.nr(), r.nc() == rhs.nc(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == mdot(self, i, &rhs, j, self.nc()),
//@end
//@fn <Matrix<T> as Mul<Matrix<T>>>::mul key=Matrix::mul_own name=mul_own T=i64 Self=Mat Matrix<T>=Mat SubMatrix<T>=Mat Self::Output=Mat matidx params=rhs op:*=&Mat::mul_mat expr:&*self=&self expr:&*rhs=&rhs
//@.spec
    requires self.wf(), rhs.wf(), self.nc() == rhs.nr(),
    ensures r.wf(), r.nr() == self.nr(), r.nc() == rhs.nc(), forall|i: int, j: int| r.has(i, j) ==> #[trigger] r.v(i, j) == mdot(&self, i, &rhs, j, self.nc()),
//@end
//@fn <Matrix<T> as Mul<T>>::mul key=Matrix::mul_scalar_own name=mul_scalar_own T=i64 Self=Mat Self::Output=Mat matidx params=rhs op:*==~Mat::mul_assign expr:*self_=self_ expr:*self=self
//@.spec
    requires self.wf(),
    ensures r.same(&self), forall|i: int, j: int| self.has(i, j) ==> #[trigger] r.v(i, j) == self.v(i, j) * rhs,
//@end
}
} // verus!
fn main() {}
