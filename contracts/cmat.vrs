//@include prelude.inc
//@include chk.inc
verus! {
//@file alg/src/lin_alg/const_matrix_impl.rs
fn zero_i64() -> (r: i64) ensures r == 0 { 0 }
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
//@struct ConstVector file=alg/src/lin_alg.rs T=i64 @derive(Clone,Copy)
//@struct ConstMatrix file=alg/src/lin_alg.rs T=i64 @derive(Clone,Copy)
// sum of the products of the first k entries
pub open spec fn dot(a: Seq<i64>, b: Seq<i64>, k: int) -> int decreases k
{ if k <= 0 { 0 } else { dot(a, b, k - 1) + a[k - 1] * b[k - 1] } }
impl<const N: usize> ConstVector<N> {
//@fn <ConstVector as AddAssign>::add_assign params=rhs T=i64 deref=self:0,rhs:0 op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).0[i] == old(self).0[i] + rhs.0[i],
//@.loop 0
    invariant 0 <= __i0 <= N, __n0 == N, forall|i: int| 0 <= i < __i0 ==> #[trigger] self.0[i] == old(self).0[i] + rhs.0[i],
       forall|i: int| __i0 <= i < N ==> #[trigger] self.0[i] == old(self).0[i],
    decreases N - __i0,
//@end
//@fn <ConstVector as SubAssign>::sub_assign params=rhs T=i64 deref=self:0,rhs:0 op:-==e_sub op:+=e_add op:+==e_add op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).0[i] == old(self).0[i] - rhs.0[i],
//@.loop 0
    invariant 0 <= __i0 <= N, __n0 == N, forall|i: int| 0 <= i < __i0 ==> #[trigger] self.0[i] == old(self).0[i] - rhs.0[i],
       forall|i: int| __i0 <= i < N ==> #[trigger] self.0[i] == old(self).0[i],
    decreases N - __i0,
//@end
//@fn <ConstVector as MulAssign>::mul_assign params=rhs T=i64 deref=self:0,rhs:0 op:*==e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).0[i] == old(self).0[i] * rhs,
//@.loop 0
    invariant 0 <= __i0 <= N, __n0 == N, forall|i: int| 0 <= i < __i0 ==> #[trigger] self.0[i] == old(self).0[i] * rhs,
       forall|i: int| __i0 <= i < N ==> #[trigger] self.0[i] == old(self).0[i],
    decreases N - __i0,
//@end
//@fn <ConstVector as Neg>::neg T=i64 Self::Output=Self deref=self:0,self_:0 method:neg=e_neg op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == -self.0[i],
//@.loop 0
    invariant 0 <= __i0 <= N, __n0 == N, forall|i: int| 0 <= i < __i0 ==> #[trigger] self_.0[i] == -self.0[i],
       forall|i: int| __i0 <= i < N ==> #[trigger] self_.0[i] == self.0[i],
    decreases N - __i0,
//@end
//@fn <ConstVector as Add>::add params=rhs T=i64 Self::Output=Self op:+==~Self::add_assign op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == self.0[i] + rhs.0[i],
//@end
//@fn <ConstVector as Sub>::sub params=rhs T=i64 Self::Output=Self op:-==~Self::sub_assign op:+=e_add op:+==e_add op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == self.0[i] - rhs.0[i],
//@end
//@fn <ConstVector as Mul>::mul params=rhs T=i64 Self::Output=Self op:*==~Self::mul_assign op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == self.0[i] * rhs,
//@end
//@fn <ConstVector as From>::from params=value T=i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.0 == value,
//@end
//@fn ConstVector::zero T=i64 call:i64::zero=zero_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == 0,
//@end
//@fn ConstVector::dot params=other T=i64 deref=self:0,other:0 op:*=e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*==e_mul op:u-=e_neg
//@.spec
    ensures r == dot(self.0@, other.0@, N as int),
//@.loop 0
    invariant 0 <= __i0 <= N, __n0 == N, __a0 == dot(self.0@, other.0@, __i0 as int),
    decreases N - __i0,
//@end
}
impl<const N_ROW: usize, const N_COL: usize> ConstMatrix<N_ROW, N_COL> {
//@fn <ConstMatrix as AddAssign>::add_assign params=rhs T=i64 deref=self:0,rhs:0 op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] final(self).0[i][j] == old(self).0[i][j] + rhs.0[i][j],
//@.loop 0
    invariant 0 <= __i0 <= N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j] + rhs.0[i][j],
       forall|i: int, j: int| __i0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_ROW - __i0,
//@.loop 1
    invariant 0 <= __i1 <= N_COL, __n1 == N_COL, __i0 == __j0 + 1, __j0 < N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| (0 <= i < __j0 && 0 <= j < N_COL) || (i == __j0 && 0 <= j < __i1) ==> #[trigger] self.0[i][j] == old(self).0[i][j] + rhs.0[i][j],
       forall|i: int, j: int| (__i0 <= i < N_ROW && 0 <= j < N_COL) || (i == __j0 && __i1 <= j < N_COL) ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_COL - __i1,
//@end
//@fn <ConstMatrix as SubAssign>::sub_assign params=rhs T=i64 deref=self:0,rhs:0 op:-==e_sub op:+=e_add op:+==e_add op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] final(self).0[i][j] == old(self).0[i][j] - rhs.0[i][j],
//@.loop 0
    invariant 0 <= __i0 <= N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j] - rhs.0[i][j],
       forall|i: int, j: int| __i0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_ROW - __i0,
//@.loop 1
    invariant 0 <= __i1 <= N_COL, __n1 == N_COL, __i0 == __j0 + 1, __j0 < N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| (0 <= i < __j0 && 0 <= j < N_COL) || (i == __j0 && 0 <= j < __i1) ==> #[trigger] self.0[i][j] == old(self).0[i][j] - rhs.0[i][j],
       forall|i: int, j: int| (__i0 <= i < N_ROW && 0 <= j < N_COL) || (i == __j0 && __i1 <= j < N_COL) ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_COL - __i1,
//@end
//@fn <ConstMatrix as MulAssign>::mul_assign params=rhs T=i64 deref=self:0,rhs:0 op:*==e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] final(self).0[i][j] == old(self).0[i][j] * rhs,
//@.loop 0
    invariant 0 <= __i0 <= N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j] * rhs,
       forall|i: int, j: int| __i0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_ROW - __i0,
//@.loop 1
    invariant 0 <= __i1 <= N_COL, __n1 == N_COL, __i0 == __j0 + 1, __j0 < N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| (0 <= i < __j0 && 0 <= j < N_COL) || (i == __j0 && 0 <= j < __i1) ==> #[trigger] self.0[i][j] == old(self).0[i][j] * rhs,
       forall|i: int, j: int| (__i0 <= i < N_ROW && 0 <= j < N_COL) || (i == __j0 && __i1 <= j < N_COL) ==> #[trigger] self.0[i][j] == old(self).0[i][j],
    decreases N_COL - __i1,
//@end
//@fn <ConstMatrix as Neg>::neg T=i64 Self::Output=Self deref=self:0,self_:0 method:neg=e_neg op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] r.0[i][j] == -self.0[i][j],
//@.loop 0
    invariant 0 <= __i0 <= N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| 0 <= i < __i0 && 0 <= j < N_COL ==> #[trigger] self_.0[i][j] == -self.0[i][j],
       forall|i: int, j: int| __i0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] self_.0[i][j] == self.0[i][j],
    decreases N_ROW - __i0,
//@.loop 1
    invariant 0 <= __i1 <= N_COL, __n1 == N_COL, __i0 == __j0 + 1, __j0 < N_ROW, __n0 == N_ROW,
       forall|i: int, j: int| (0 <= i < __j0 && 0 <= j < N_COL) || (i == __j0 && 0 <= j < __i1) ==> #[trigger] self_.0[i][j] == -self.0[i][j],
       forall|i: int, j: int| (__i0 <= i < N_ROW && 0 <= j < N_COL) || (i == __j0 && __i1 <= j < N_COL) ==> #[trigger] self_.0[i][j] == self.0[i][j],
    decreases N_COL - __i1,
//@end
//@fn <ConstMatrix as Mul>::mul params=rhs T=i64 Self::Output=Self op:*==~Self::mul_assign op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] r.0[i][j] == self.0[i][j] * rhs,
//@end
//@fn ConstMatrix::zero T=i64 call:i64::zero=zero_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] r.0[i][j] == 0,
//@end
//@fn <ConstMatrix as From<[ConstVector<T,N_ROW>;N_COL]>>::from ConstVector<T,N_ROW>=ConstVector<N_ROW> name=from_columns params=value T=i64 deref=m:0,value[]:0 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < N_COL ==> #[trigger] r.0[i][j] == value[j].0[i],
//@.loop 0
    invariant 0 <= __i0 <= N_COL, forall|i: int, j: int| 0 <= i < N_ROW && 0 <= j < __i0 ==> #[trigger] m.0[i][j] == value[j].0[i],
    decreases N_COL - __i0,
//@.loop 1
    invariant 0 <= __i1 <= N_ROW, __i0 == __j0 + 1, __j0 < N_COL,
        forall|i: int, j: int| (0 <= i < N_ROW && 0 <= j < __j0) || (0 <= i < __i1 && j == __j0) ==> #[trigger] m.0[i][j] == value[j].0[i],
    decreases N_ROW - __i1,
//@end
//@fn <ConstMatrix as From<[[T;N_COL];N_ROW]>>::from name=from_rows params=value T=i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.0 == value,
//@end
}
impl<const N: usize> ConstMatrix<N, N> {
//@fn ConstMatrix::identity T=i64 call:i64::one=one_i64 deref=m:0 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] r.0[i][j] == if i == j { 1i64 } else { 0i64 },
//@.loop 0
    invariant 0 <= __i0 <= N, forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] m.0[i][j] == if i == j && i < __i0 { 1i64 } else { 0i64 },
    decreases N - __i0,
//@end
}
} // verus!
fn main() {}
