//@include prelude.inc
//@include chk.inc
verus! {
//@file alg/src/non_commutative/permutation.rs
// ------------------------------------------------------------------ specification: a list p with p[i] in range and no value twice
pub open spec fn is_perm(s: Seq<usize>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
}
pub open spec fn is_id(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == i }
// composition: apply q first
pub open spec fn comp(p: Seq<usize>, q: Seq<usize>) -> Seq<usize> { Seq::new(q.len(), |i: int| p[q[i] as int]) }
// the permutation of all indices a list stands for
pub open spec fn ev(p: Seq<usize>, i: int) -> int { if 0 <= i < p.len() { p[i] as int } else { i } }
pub open spec fn pow(p: Seq<usize>, k: nat) -> Seq<usize> decreases k
{ if k == 0 { Seq::new(p.len(), |i: int| i as usize) } else { comp(pow(p, (k - 1) as nat), p) } }
// padded with fixed points
pub open spec fn pad(p: Seq<usize>, n: nat) -> Seq<usize> { Seq::new(n, |i: int| if i < p.len() { p[i] } else { i as usize }) }

pub proof fn lemma_comp(p: Seq<usize>, q: Seq<usize>)
    requires is_perm(p), is_perm(q), p.len() == q.len(),
    ensures is_perm(comp(p, q)), comp(p, q).len() == p.len(),
{
    let c = comp(p, q);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] < c.len() by { assert(q[i] < q.len()); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by {
        assert(q[i] != q[j]); assert(q[i] < q.len() && q[j] < q.len());
        if q[i] < q[j] { assert(p[q[i] as int] != p[q[j] as int]); } else { assert(p[q[j] as int] != p[q[i] as int]); }
    }
}
pub proof fn lemma_assoc(p: Seq<usize>, q: Seq<usize>, r: Seq<usize>)
    requires is_perm(p), is_perm(q), is_perm(r), p.len() == q.len() == r.len(),
    ensures comp(comp(p, q), r) =~= comp(p, comp(q, r)),
{
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < q.len() by {}
}
pub proof fn lemma_pad(p: Seq<usize>, n: nat)
    requires is_perm(p), p.len() <= n, n <= usize::MAX,
    ensures is_perm(pad(p, n)), pad(p, n).len() == n, forall|i: int| ev(pad(p, n), i) == #[trigger] ev(p, i), p.len() == n ==> pad(p, n) =~= p,
{
    let s = pad(p, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] < n by { if i < p.len() { assert(p[i] < p.len()); } }
    assert forall|i: int, j: int| 0 <= i < j < n implies s[i] != s[j] by { if i < p.len() { assert(p[i] < p.len()); } }
}
// an injective self-map of a finite set is onto
pub proof fn lemma_onto(s: Seq<usize>, v: int) -> (i: int)
    requires is_perm(s), 0 <= v < s.len(), ensures 0 <= i < s.len(), s[i] == v,
{
    let dom = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    let m = s.map(|_i: int, v: usize| v as int);
    assert(m.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < m.len() && a != b implies m[a] != m[b] by { if a < b { assert(s[a] != s[b]); } else { assert(s[b] != s[a]); } } }
    m.unique_seq_to_set();
    assert(m.to_set().subset_of(dom)) by { assert forall|x: int| m.to_set().contains(x) implies dom.contains(x) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == x; assert(s[i] < s.len()); } }
    vstd::set_lib::lemma_subset_equality(m.to_set(), dom);
    assert(dom.contains(v));
    assert(m.to_set().contains(v));
    let i = choose|i: int| 0 <= i < m.len() && m[i] == v;
    i
}
pub proof fn lemma_inverse(s: Seq<usize>, o: Seq<usize>)
    requires is_perm(s), o.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] o[s[k] as int] == k,
    ensures is_perm(o), is_id(comp(o, s)), is_id(comp(s, o)),
{
    assert forall|v: int| 0 <= v < o.len() implies #[trigger] o[v] < o.len() && s[o[v] as int] == v by { let i = lemma_onto(s, v); assert(o[s[i] as int] == i); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies o[i] != o[j] by { assert(s[o[i] as int] == i && s[o[j] as int] == j); }
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] comp(o, s)[i] == i by {}
}
//@fn permutation_mul_impl params=out,p1,p2
//@.spec
    requires old(out).len() == p2.len(), is_perm(p2@), p1.len() == p2.len(),
    ensures final(out)@ == comp(p1@, p2@),
//@.loop 0
    invariant 0 <= __i0 <= out.len(), out.len() == p2.len(), p1.len() == p2.len(), is_perm(p2@),
        forall|k: int| 0 <= k < __i0 ==> #[trigger] out[k] == p1[p2[k] as int],
    decreases out.len() - __i0,
//@.exit
    proof { assert(out@ =~= comp(p1@, p2@)); }
//@end
//@struct ConstPermutation @derive(Clone,Copy,PartialEq,Eq)
impl<const N: usize> ConstPermutation<N> {
    pub open spec fn wf(self) -> bool { is_perm(self.0@) }
//@fn <ConstPermutation as Mul>::mul params=rhs
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.0@ == comp(self.0@, rhs.0@), r.wf(),
//@.exit
    proof { lemma_comp(self.0@, rhs.0@); }
//@end
//@fn <ConstPermutation as MulAssign>::mul_assign params=rhs
//@.spec
    requires old(self).wf(), rhs.wf(),
    ensures final(self).0@ == comp(old(self).0@, rhs.0@), final(self).wf(),
//@.exit
    proof { lemma_comp(old(self).0@, rhs.0@); }
//@end
//@fn <ConstPermutation as From>::from params=a
//@.spec
    ensures r.0@ == a@,
//@end
//@fn <ConstPermutation as Group>::identity
//@.spec
    ensures r.wf(), is_id(r.0@),
//@.loop 0
    invariant 0 <= __i0 <= N, forall|k: int| 0 <= k < __i0 ==> #[trigger] out[k] == k,
    decreases N - __i0,
//@end
//@fn <ConstPermutation as Group>::inverse
//@.spec
    requires self.wf(),
    ensures r.wf(), is_id(comp(r.0@, self.0@)), is_id(comp(self.0@, r.0@)),
//@.loop 0
    invariant 0 <= __i0 <= N, self.wf(), forall|k: int| 0 <= k < __i0 ==> #[trigger] out[self.0[k] as int] == k,
    decreases N - __i0,
//@.exit
    proof { lemma_inverse(self.0@, out@); }
//@end
}

proof fn lemma_pow(p: Seq<usize>, k: nat)
    requires is_perm(p), p.len() <= usize::MAX,
    ensures is_perm(pow(p, k)), pow(p, k).len() == p.len(), k > 0 ==> pow(p, k) == comp(pow(p, (k - 1) as nat), p), pow(p, 1) =~= p,
    decreases k,
{
    if k > 0 { lemma_pow(p, (k - 1) as nat); lemma_comp(pow(p, (k - 1) as nat), p); }
    let id = pow(p, 0);
    assert(pow(p, 1) == comp(id, p));
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] comp(id, p)[i] == p[i] by { assert(p[i] < p.len()); }
    assert(comp(id, p) =~= p);
}
// the order of p: the least positive exponent whose power is the identity
pub open spec fn is_order(p: Seq<usize>, k: nat) -> bool { k >= 1 && is_id(pow(p, k)) && forall|m: nat| 1 <= m < k ==> !is_id(#[trigger] pow(p, m)) }
// ---- the derived == of arrays and vectors, and `*=` through MulAssign
fn c_ne<const N: usize>(a: ConstPermutation<N>, b: ConstPermutation<N>) -> (r: bool) ensures r == (a.0@ != b.0@)
{
    let mut i: usize = 0;
    while i < N
        invariant 0 <= i <= N, forall|k: int| 0 <= k < i ==> a.0[k] == b.0[k],
        decreases N - i,
    { if a.0[i] != b.0[i] { assert(a.0@[i as int] != b.0@[i as int]); return true; } i += 1; }
    assert(a.0@ =~= b.0@);
    false
}
fn c_muled<const N: usize>(a: ConstPermutation<N>, b: ConstPermutation<N>) -> (r: ConstPermutation<N>)
    requires a.wf(), b.wf(), ensures r.0@ == comp(a.0@, b.0@), r.wf(),
{ let mut x = a; x.mul_assign(b); x }
fn v_ne(a: &VecPermutation, b: &VecPermutation) -> (r: bool) ensures r == (a.0@ != b.0@)
{
    if a.0.len() != b.0.len() { return true; }
    let mut i: usize = 0;
    while i < a.0.len()
        invariant 0 <= i <= a.0.len(), a.0.len() == b.0.len(), forall|k: int| 0 <= k < i ==> a.0[k] == b.0[k],
        decreases a.0.len() - i,
    { if a.0[i] != b.0[i] { assert(a.0@[i as int] != b.0@[i as int]); return true; } i += 1; }
    assert(a.0@ =~= b.0@);
    false
}
fn v_muled(a: VecPermutation, b: VecPermutation) -> (r: VecPermutation)
    requires a.wf(), b.wf(), a.0@.len() == b.0@.len(), ensures r.0@ == comp(a.0@, b.0@), r.wf(),
{
    let mut x = a; let ghost p = a.0@; x.mul_assign(b);
    proof {
        assert(a.0.len() == a.0@.len());
        lemma_comp(p, b.0@);
        let c = comp(p, b.0@);
        assert forall|i: int| 0 <= i < c.len() implies x.0@[i] == c[i] by { assert(ev(x.0@, i) == ev(p, ev(b.0@, i))); assert(b.0@[i] < p.len()); }
        assert(x.0@ =~= c);
    }
    x
}
proof fn lemma_id_unique(a: Seq<usize>, b: Seq<usize>) requires is_id(a), is_id(b), a.len() == b.len() ensures a == b
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {} assert(a =~= b); }
impl<const N: usize> ConstPermutation<N> {
//@fn ConstPermutation::order nodecreases op:!==c_ne op:*==c_muled op:+==u_inc
//@.spec
    requires self.wf(),
    ensures is_order(self.0@, r as nat),
//@.entry
    proof { lemma_pow(self.0@, 1); }
//@.loop 0
    invariant self.wf(), power.wf(), power.0@ == pow(self.0@, order as nat), order >= 1, is_id(id.0@),
        forall|m: nat| 1 <= m < order ==> !is_id(#[trigger] pow(self.0@, m)),
//@.loop 0 begin
    proof { lemma_pow(self.0@, order as nat); lemma_pow(self.0@, (order + 1) as nat); if is_id(power.0@) { lemma_id_unique(power.0@, id.0@); } }
//@end
//@fn <ConstPermutation as Product>::product params=iter seqs=iter I=Vec<Self> op:*=ConstPermutation::mul
//@.spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    ensures r.wf(), r.0@ == c_prod(iter@, iter@.len() as int),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), __a0.wf(), __a0.0@ == c_prod(iter@, __i0 as int), forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    decreases iter.len() - __i0,
//@end
}
// the last factor is applied last
pub open spec fn c_prod<const N: usize>(s: Seq<ConstPermutation<N>>, k: int) -> Seq<usize> decreases k
{ if k <= 0 { Seq::new(N as nat, |i: int| i as usize) } else { comp(s[k - 1].0@, c_prod(s, k - 1)) } }

proof fn lemma_pad_comp(p: Seq<usize>, q: Seq<usize>, n: nat)
    requires is_perm(p), is_perm(q), p.len() <= n, q.len() <= n, n <= usize::MAX,
    ensures forall|i: int| #[trigger] ev(comp(pad(p, n), pad(q, n)), i) == ev(p, ev(q, i)),
{
    lemma_pad(p, n); lemma_pad(q, n);
    assert forall|i: int| #[trigger] ev(comp(pad(p, n), pad(q, n)), i) == ev(p, ev(q, i)) by {
        if 0 <= i < n { assert(pad(q, n)[i] < n); assert(ev(pad(q, n), i) == ev(q, i)); assert(ev(pad(p, n), ev(q, i)) == ev(p, ev(q, i))); }
    }
}
//@struct VecPermutation @verifier::allow(autoderive_clone_without_spec)
impl VecPermutation {
    pub open spec fn wf(self) -> bool { is_perm(self.0@) }
//@fn VecPermutation::eval params=index
//@.spec
    ensures r == ev(self.0@, index as int),
//@end
//@fn <VecPermutation as Group>::identity
//@.spec
    ensures r.wf(), is_id(r.0@), forall|i: int| #[trigger] ev(r.0@, i) == i,
//@end
//@fn <VecPermutation as Group>::inverse
//@.spec
    requires self.wf(),
    ensures r.wf(), is_id(comp(r.0@, self.0@)), is_id(comp(self.0@, r.0@)),
//@.loop 0
    invariant 0 <= __i0 <= out.len(), out.len() == self.0.len(), self.wf(), forall|k: int| 0 <= k < __i0 ==> #[trigger] out[self.0[k] as int] == k,
    decreases out.len() - __i0,
//@.exit
    proof { lemma_inverse(self.0@, out@); }
//@end
//@fn <VecPermutation as Mul>::mul params=rhs
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|i: int| #[trigger] ev(r.0@, i) == ev(self.0@, ev(rhs.0@, i)),
        r.0@.len() == if self.0@.len() < rhs.0@.len() { rhs.0@.len() } else { self.0@.len() },
//@.entry
    proof {
        let (p, q) = (self.0@, rhs.0@);
        assert(self.0.len() == self.0@.len() && rhs.0.len() == rhs.0@.len());
        let n = if p.len() < q.len() { q.len() } else { p.len() };
        lemma_pad(p, n); lemma_pad(q, n); lemma_comp(pad(p, n), pad(q, n));
        assert(p =~= pad(p, p.len()) && q =~= pad(q, q.len()));
        lemma_pad_comp(p, q, n);
    }
//@.loop 0 before
    let ghost sm = small@;
    let ghost lg = large@;
//@.loop 0
    invariant small@ == pad(sm, small@.len()), sm.len() <= small@.len() <= large@.len(), large@ == lg,
    decreases large@.len() - small@.len(),
//@.loop 0 end
    proof { assert(small@ =~= pad(sm, small@.len())); }
//@end
//@fn <VecPermutation as MulAssign>::mul_assign params=rhs
//@.spec
    requires old(self).wf(), rhs.wf(),
    ensures final(self).wf(), forall|i: int| #[trigger] ev(final(self).0@, i) == ev(old(self).0@, ev(rhs.0@, i)),
        final(self).0@.len() == if old(self).0@.len() < rhs.0@.len() { rhs.0@.len() } else { old(self).0@.len() },
//@.entry
    proof {
        let (p, q) = (old(self).0@, rhs.0@);
        assert(self.0.len() == self.0@.len() && rhs.0.len() == rhs.0@.len());
        let n = if p.len() < q.len() { q.len() } else { p.len() };
        lemma_pad(p, n); lemma_pad(q, n); lemma_comp(pad(p, n), pad(q, n));
        assert(p =~= pad(p, p.len()) && q =~= pad(q, q.len()));
        lemma_pad_comp(p, q, n);
    }
//@.loop 0 before
    let ghost sm = small@;
    let ghost lg = large@;
//@.loop 0
    invariant small@ == pad(sm, small@.len()), sm.len() <= small@.len() <= large@.len(), large@ == lg,
    decreases large@.len() - small@.len(),
//@.loop 0 end
    proof { assert(small@ =~= pad(sm, small@.len())); }
//@end
}
fn v_clone(a: &VecPermutation) -> (r: VecPermutation) ensures r.0@ == a.0@
{ let c = VecPermutation(a.0.clone()); assert(c.0@ =~= a.0@); c }
impl VecPermutation {
//@fn VecPermutation::order nodecreases op:!==&v_ne op:*==v_muled op:+==u_inc method:clone=&v_clone
//@.spec
    requires self.wf(),
    ensures is_order(self.0@, r as nat),
//@.entry
    proof { lemma_pow(self.0@, 1); assert(self.0.len() == self.0@.len()); }
//@.loop 0
    invariant 0 <= __i0 <= self.0.len(), __a0@.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __a0@[k] == k,
    decreases self.0.len() - __i0,
//@.loop 1
    invariant self.wf(), self.0@.len() <= usize::MAX, power.wf(), power.0@ == pow(self.0@, order as nat), order >= 1, is_id(id.0@), id.0@.len() == self.0@.len(),
        forall|m: nat| 1 <= m < order ==> !is_id(#[trigger] pow(self.0@, m)),
//@.loop 1 begin
    proof { lemma_pow(self.0@, order as nat); lemma_pow(self.0@, (order + 1) as nat); if is_id(power.0@) { lemma_id_unique(power.0@, id.0@); } }
//@end
//@fn <VecPermutation as Product>::product params=iter seqs=iter I=Vec<Self> op:*=VecPermutation::mul clone_owned method:clone=&v_clone
//@.spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    ensures r.wf(), forall|i: int| #[trigger] ev(r.0@, i) == v_prod(iter@, iter@.len() as int, i),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), __a0.wf(), forall|i: int| #[trigger] ev(__a0.0@, i) == v_prod(iter@, __i0 as int, i), forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    decreases iter.len() - __i0,
//@end
//@fn <VecPermutation as Group>::inverse_of_gen
//@.spec
    requires self.wf(),
    ensures r.wf(), is_id(comp(r.0@, self.0@)), is_id(comp(self.0@, r.0@)),
//@end
}
// the last factor is applied last
pub open spec fn v_prod(s: Seq<VecPermutation>, k: int, i: int) -> int decreases k
{ if k <= 0 { i } else { ev(s[k - 1].0@, v_prod(s, k - 1, i)) } }
impl<const N: usize> ConstPermutation<N> {
//@fn <ConstPermutation as Group>::inverse_of_gen
//@.spec
    requires self.wf(),
    ensures r.wf(), is_id(comp(r.0@, self.0@)), is_id(comp(self.0@, r.0@)),
//@end
}
} // verus!
fn main() {}
