//@include prelude.inc
//@include chk.inc
verus! {
//@file alg/src/lin_alg.rs
fn zero_i64() -> (r: i64) ensures r == 0 { 0 }
fn one_i64() -> (r: i64) ensures r == 1 { 1 }
fn negone_i64() -> (r: i64) ensures r == -1 { -1 }
// a formal sum: pairs (coefficient, basis element)
//@struct Vector T=i64 Coeff=i64 Basis=u64
pub open spec fn coef(s: Seq<(i64, u64)>, b: u64) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { coef(s.drop_last(), b) + if s.last().1 == b { s.last().0 as int } else { 0 } } }
pub open spec fn count(s: Seq<u64>, b: u64) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { count(s.drop_last(), b) + if s.last() == b { 1int } else { 0 } } }
pub open spec fn canon(s: Seq<(i64, u64)>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 < (#[trigger] s[j]).1) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != 0
}
proof fn lemma_absent(s: Seq<(i64, u64)>, b: u64) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != b, ensures coef(s, b) == 0, decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).1 != b by { assert(s[i].1 != b); } lemma_absent(s.drop_last(), b); } }
proof fn lemma_at(s: Seq<(i64, u64)>, k: int) requires canon(s), 0 <= k < s.len(), ensures coef(s, s[k].1) == s[k].0, decreases s.len()
{
    let d = s.drop_last();
    assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
    if k == s.len() - 1 { lemma_absent(d, s[k].1); } else { lemma_at(d, k); }
}
proof fn lemma_scale(s: Seq<(i64, u64)>, t: Seq<(i64, u64)>, c: int, b: u64)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i]).1 == s[i].1 && t[i].0 == s[i].0 * c,
    ensures coef(t, b) == coef(s, b) * c, decreases s.len(),
{
    if s.len() > 0 {
        lemma_scale(s.drop_last(), t.drop_last(), c, b);
        assert(t.last() == t[s.len() - 1]);
        assert((coef(s.drop_last(), b) + s.last().0) * c == coef(s.drop_last(), b) * c + s.last().0 * c) by(nonlinear_arith);
    } else { assert(0 * c == 0) by(nonlinear_arith); }
}
proof fn lemma_count_perm(s: Seq<u64>, t: Seq<u64>, b: u64) requires s.to_multiset() =~= t.to_multiset(), ensures count(s, b) == count(t, b)
{ lemma_count_ms(s, b); lemma_count_ms(t, b); }
proof fn lemma_count_ms(s: Seq<u64>, b: u64) ensures count(s, b) == s.to_multiset().count(b), decreases s.len()
{
    s.to_multiset_ensures();
    if s.len() > 0 {
        lemma_count_ms(s.drop_last(), b);
        assert(s =~= s.drop_last().push(s.last()));
        s.drop_last().to_multiset_ensures();
    }
}
#[verifier::external_body]
fn sort_u64(v: &mut Vec<u64>)
    ensures forall|i: int, j: int| 0 <= i < j < final(v).len() ==> #[trigger] final(v)[i] <= #[trigger] final(v)[j], final(v)@.to_multiset() =~= old(v)@.to_multiset(),
{ v.sort(); }
#[verifier::external_body]
fn v_last_mut(v: &mut Vec<(i64, u64)>) -> (r: Option<&mut (i64, u64)>)
    ensures old(v).len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v).len() > 0 ==> r is Some && *r.unwrap() == old(v)@.last() && final(v)@ == old(v)@.update(old(v).len() - 1, *final(r.unwrap())),
{ v.last_mut() }
fn v_single(c: i64, b: u64) -> (r: Vec<(i64, u64)>) ensures r@ == seq![(c, b)] { let mut v = Vec::new(); v.push((c, b)); proof { assert(v@ =~= seq![(c, b)]); } v }
pub open spec fn s0_co(s: Seq<(i64, u64)>, b: u64) -> int { coef(s, b) }
impl Vector {
    // strictly increasing in the basis elements, no coefficient zero
    pub open spec fn wf(&self) -> bool { canon(self.0@) }
    pub open spec fn co(&self, b: u64) -> int { coef(self.0@, b) }
//@fn Vector::zero Coeff=i64 Basis=u64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == 0,
//@.exit
    proof { assert(__ret.0@.len() == 0); assert forall|b: u64| #[trigger] __ret.co(b) == 0 by { assert(coef(__ret.0@, b) == 0); } }
//@end
//@fn Vector::len Coeff=i64 Basis=u64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r == self.0.len(),
//@end
//@fn Vector::remove Coeff=i64 Basis=u64 params=i op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(), i < old(self).0.len(),
    ensures r == old(self).0[i as int], final(self).0@ == old(self).0@.remove(i as int), final(self).wf(),
//@.entry
    proof { let (a, b) = (self.0@, self.0@.remove(i as int)); assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == a[if k < i { k } else { k + 1 }] by {} }
//@end
//@fn <Vector as From<Vec<Basis>>>::from name=from_vec Coeff=i64 Basis=u64 params=summands expr:summands.sort_by(|x,y|x.partial_cmp(y).unwrap())=sort_u64(&mut~summands) call:i64::one=one_i64 op:+==e_add guards expr:out.last_mut()=v_last_mut(&mut~out) op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == count(summands@, b),
//@.entry
    let ghost s0 = summands@;
//@.exit
    proof { assert(summands@.take(summands.len() as int) =~= summands@);
        assert forall|b: u64| #[trigger] __ret.co(b) == count(s0, b) by { lemma_count_perm(summands@, s0, b); assert(coef(out@, b) == count(summands@, b)); } }
//@.loop 0
    invariant 0 <= __i0 <= summands.len(), canon(out@), forall|b: u64| #[trigger] coef(out@, b) == count(summands@.take(__i0 as int), b),
        forall|i: int| 0 <= i < out.len() ==> 0 < (#[trigger] out[i]).0 && exists|k: int| 0 <= k < __i0 && out[i].1 == #[trigger] summands[k],
        out.len() == 0 ==> __i0 == 0, __i0 > 0 ==> out[out.len() - 1].1 == summands[__i0 - 1],
    decreases summands.len() - __i0,
//@.loop 0 begin
    let ghost o0 = out@;
//@.loop 0 end
    proof {
        let (t0, t1) = (summands@.take(__j0 as int), summands@.take(__i0 as int));
        assert(t1.drop_last() =~= t0);
        if o0.len() > 0 && o0.last().1 == b { assert(out@.drop_last() =~= o0.drop_last()); } else { assert(out@.drop_last() =~= o0); if o0.len() > 0 { assert(o0.last() == o0[o0.len() - 1]); } }
        assert forall|b: u64| #[trigger] coef(out@, b) == count(summands@.take(__i0 as int), b) by { assert(coef(o0, b) == count(t0, b)); }
        assert(summands[__j0 as int] == b);
        assert forall|i: int| 0 <= i < out.len() implies 0 < (#[trigger] out[i]).0 && exists|k: int| 0 <= k < __i0 && out[i].1 == #[trigger] summands[k] by {
            if i < o0.len() { assert(0 < o0[i].0); assert(out[i].1 == o0[i].1); } else { assert(out[i].1 == summands[__j0 as int]); } }
    }
//@end
//@fn <Vector as From<Basis>>::from name=from_basis Coeff=i64 Basis=u64 params=summand expr:vec![(Coeff::one(),summand)]=v_single(one_i64(),summand) op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == if b == summand { 1int } else { 0 },
//@.exit
    proof { assert forall|b: u64| #[trigger] __ret.co(b) == if b == summand { 1int } else { 0 } by { assert(__ret.0@.drop_last().len() == 0); assert(coef(__ret.0@.drop_last(), b) == 0); } }
//@end
//@fn <Vector as Neg>::neg Coeff=i64 Basis=u64 Self::Output=Self deref=self:0,self_:0 call:i64::one=one_i64 op:*==e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == -self.co(b),
//@.entry
    let ghost s0 = self.0@;
//@.loop 0
    invariant 0 <= __i0 <= s0.len(), self_.0.len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] self_.0[i]).1 == s0[i].1 && self_.0[i].0 == if i < __i0 { s0[i].0 * (-1) } else { s0[i].0 as int },
    decreases s0.len() - __i0,
//@.loop 0 after
    proof { 
        assert forall|b: u64| #[trigger] self_.co(b) == s0_co(s0, b) * (-1) by { lemma_scale(s0, self_.0@, -1, b); }
        assert forall|i: int| 0 <= i < s0.len() implies (#[trigger] self_.0[i]).0 != 0 by { assert(s0[i].0 != 0); if (-1) != 0 { assert(s0[i].0 * (-1) != 0) by(nonlinear_arith) requires s0[i].0 != 0, (-1) != 0; } }
        assert forall|i: int, j: int| 0 <= i < j < s0.len() implies (#[trigger] self_.0[i]).1 < (#[trigger] self_.0[j]).1 by { assert(s0[i].1 < s0[j].1); }
    }
//@end
//@fn <Vector as Mul<Coeff>>::mul Coeff=i64 Basis=u64 Self::Output=Self params=rhs deref=self:0,self_:0 call:i64::zero=zero_i64 op:*==e_mul op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == self.co(b) * rhs,
//@.entry
    let ghost s0 = self.0@;
//@.loop 0
    invariant 0 <= __i0 <= s0.len(), self_.0.len() == s0.len(), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] self_.0[i]).1 == s0[i].1 && self_.0[i].0 == if i < __i0 { s0[i].0 * (rhs as int) } else { s0[i].0 as int },
    decreases s0.len() - __i0,
//@.loop 0 after
    proof { 
        assert forall|b: u64| #[trigger] self_.co(b) == s0_co(s0, b) * (rhs as int) by { lemma_scale(s0, self_.0@, rhs as int, b); }
        assert forall|i: int| 0 <= i < s0.len() implies (#[trigger] self_.0[i]).0 != 0 by { assert(s0[i].0 != 0); if (rhs as int) != 0 { assert(s0[i].0 * (rhs as int) != 0) by(nonlinear_arith) requires s0[i].0 != 0, (rhs as int) != 0; } }
        assert forall|i: int, j: int| 0 <= i < j < s0.len() implies (#[trigger] self_.0[i]).1 < (#[trigger] self_.0[j]).1 by { assert(s0[i].1 < s0[j].1); }
    }
//@end
//@fn <Vector as Index<&Basis>>::index Coeff=i64 Basis=u64 params=index deref=self:0 rettype=&i64 acc0=Option<&(i64,u64)> op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), self.co(*index) != 0,
    ensures *r == self.co(*index),
//@.loop 0
    invariant 0 <= __i0 <= self.0.len(), __a0 is None ==> forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.0[i]).1 != *index,
        __a0 is Some ==> __i0 > 0 && *__a0.unwrap() == self.0[__i0 - 1] && self.0[__i0 - 1].1 == *index,
    decreases self.0.len() - __i0,
//@.loop 0 after
    proof { if __a0 is None { lemma_absent(self.0@, *index); } else { lemma_at(self.0@, __i0 - 1); } }
//@end
}
use std::cmp::Ordering;
// ---- the k-way merge behind +, - and sum
pub struct Q<T> { pub v: Vec<T> }       // std::vec::IntoIter : yields the elements of a vector in order
impl<T> Q<T> {
    fn next(&mut self) -> (r: Option<T>)
        ensures old(self).v.len() == 0 ==> r is None && final(self).v@ == old(self).v@, old(self).v.len() > 0 ==> r is Some && r.unwrap() == old(self).v[0] && final(self).v@ == old(self).v@.drop_first(),
    { if self.v.len() == 0 { None } else { let x = self.v.remove(0); proof { assert(self.v@ =~= old(self).v@.drop_first()); } Some(x) } }
}
fn q_of<T>(v: Vec<T>) -> (r: Q<T>) ensures r.v == v { Q { v } }
fn opt_some<T>(o: &Option<T>) -> (r: bool) ensures r == (o is Some) { o.is_some() }
fn vec_copy(v: &Vector) -> (r: Vector) ensures r.0@ == v.0@ {
    let mut o: Vec<(i64, u64)> = Vec::new(); let mut i: usize = 0;
    while i < v.0.len() invariant i <= v.0.len(), o@ == v.0@.take(i as int), decreases v.0.len() - i { o.push(v.0[i]); i += 1; proof { assert(o@ =~= v.0@.take(i as int)); } }
    proof { assert(o@ =~= v.0@); } Vector(o)
}
// a stream is the rest of one summand: its first term and an iterator over the terms after it
type S = ((i64, u64), Q<(i64, u64)>);
pub open spec fn terms(s: S) -> Seq<(i64, u64)> { seq![s.0] + s.1.v@ }
pub open spec fn hd(s: S) -> u64 { s.0.1 }
pub open spec fn sco(s: S, b: u64) -> int { coef(terms(s), b) }
pub open spec fn wco(b: u64) -> spec_fn(S) -> int { |s: S| sco(s, b) }
pub open spec fn wlen() -> spec_fn(S) -> int { |s: S| terms(s).len() as int }
pub open spec fn total(s: Seq<S>, w: spec_fn(S) -> int) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last(), w) + w(s.last()) } }
pub open spec fn vtotal(s: Seq<Vector>, b: u64) -> int decreases s.len() { if s.len() == 0 { 0 } else { vtotal(s.drop_last(), b) + s.last().co(b) } }
pub open spec fn ok(s: S) -> bool { canon(terms(s)) }
pub open spec fn all_ok(s: Seq<S>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok(#[trigger] s[i]) }
pub open spec fn above(s: Seq<S>, m: u64) -> bool { forall|i: int| 0 <= i < s.len() ==> m < hd(#[trigger] s[i]) }
pub open spec fn heads_sorted(s: Seq<S>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> hd(#[trigger] s[i]) <= hd(#[trigger] s[j]) }
pub open spec fn opt_seq(o: Option<S>) -> Seq<S> { if o is Some { seq![o.unwrap()] } else { Seq::empty() } }
proof fn lemma_total_push(s: Seq<S>, x: S, w: spec_fn(S) -> int) ensures total(s.push(x), w) == total(s, w) + w(x) { assert(s.push(x).drop_last() =~= s); }
proof fn lemma_total_nonneg(s: Seq<S>) ensures total(s, wlen()) >= 0 decreases s.len() { if s.len() > 0 { lemma_total_nonneg(s.drop_last()); } }
proof fn lemma_total_cat(s: Seq<S>, t: Seq<S>, w: spec_fn(S) -> int) ensures total(s + t, w) == total(s, w) + total(t, w) decreases t.len()
{ if t.len() > 0 { assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); lemma_total_cat(s, t.drop_last(), w); } else { assert(s + t =~= s); } }
proof fn lemma_total_remove(s: Seq<S>, k: int, w: spec_fn(S) -> int) requires 0 <= k < s.len(), ensures total(s, w) == total(s.remove(k), w) + w(s[k])
{
    let (l, r) = (s.take(k), s.skip(k + 1));
    assert(s =~= l.push(s[k]) + r); assert(s.remove(k) =~= l + r);
    lemma_total_cat(l.push(s[k]), r, w); lemma_total_cat(l, r, w); lemma_total_push(l, s[k], w);
}
proof fn lemma_total_first(s: Seq<S>, w: spec_fn(S) -> int) requires s.len() > 0, ensures total(s, w) == w(s[0]) + total(s.drop_first(), w)
{ lemma_total_remove(s, 0, w); assert(s.remove(0) =~= s.drop_first()); }
proof fn lemma_total_perm(s: Seq<S>, t: Seq<S>, w: spec_fn(S) -> int) requires s.to_multiset() =~= t.to_multiset(), ensures total(s, w) == total(t, w) decreases s.len()
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(s.len() == t.len());
    if s.len() > 0 {
        let x = s.last();
        assert(s[s.len() - 1] == x); assert(s.to_multiset().count(x) > 0); assert(t.contains(x));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        lemma_total_remove(t, k, w);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.remove(s.len() - 1).to_multiset() =~= t.remove(k).to_multiset());
        lemma_total_perm(s.drop_last(), t.remove(k), w);
    }
}
proof fn lemma_perm_has(s: Seq<S>, t: Seq<S>, k: int) -> (j: int) requires s.to_multiset() =~= t.to_multiset(), 0 <= k < t.len(), ensures 0 <= j < s.len(), s[j] == t[k]
{ s.to_multiset_ensures(); t.to_multiset_ensures(); assert(t.contains(t[k])); assert(t.to_multiset().count(t[k]) > 0); assert(s.contains(t[k])); choose|j: int| 0 <= j < s.len() && s[j] == t[k] }
proof fn lemma_terms(s: S, b: u64) ensures sco(s, b) == coef(s.1.v@, b) + if hd(s) == b { s.0.0 as int } else { 0 }
{ lemma_coef_front(s.0, s.1.v@, b); }
proof fn lemma_coef_front(x: (i64, u64), s: Seq<(i64, u64)>, b: u64) ensures coef(seq![x] + s, b) == coef(s, b) + if x.1 == b { x.0 as int } else { 0 } decreases s.len()
{
    let t = seq![x] + s;
    if s.len() > 0 { assert(t.drop_last() =~= seq![x] + s.drop_last()); assert(t.last() == s.last()); lemma_coef_front(x, s.drop_last(), b); }
    else { assert(t.drop_last() =~= Seq::empty()); assert(coef(t.drop_last(), b) == 0); assert(t.last() == x); }
}
#[verifier::external_body]
fn sort_by_head(v: &mut Vec<S>)
    ensures heads_sorted(final(v)@), final(v)@.to_multiset() =~= old(v)@.to_multiset(),
{ v.sort_by(|((_, basis1),_), ((_, basis2),_)| basis1.partial_cmp(basis2).unwrap()); }
fn sort_streams(v: &mut Vec<S>)
    ensures heads_sorted(final(v)@), all_ok(old(v)@) ==> all_ok(final(v)@), forall|k: u64| above(old(v)@, k) ==> #[trigger] above(final(v)@, k), forall|w: spec_fn(S) -> int| #[trigger] total(final(v)@, w) == total(old(v)@, w),
{
    let ghost a = v@;
    sort_by_head(v);
    proof {
        if all_ok(a) { lemma_perm_ok(a, v@); }
        assert forall|k: u64| above(a, k) implies #[trigger] above(v@, k) by { lemma_perm_above(a, v@, k); }
        assert forall|w: spec_fn(S) -> int| #[trigger] total(v@, w) == total(a, w) by { lemma_total_perm(a, v@, w); }
    }
}
fn ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater) => true, _ => false } }
fn ord_ne(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a != b) { !ord_eq(a, b) }
fn mem_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { let mut s = s; core::mem::swap(d, &mut s); s }
pub struct HeadCmp;
fn head_cmp(f: &HeadCmp, x: &S, y: &S) -> (r: Ordering) ensures r == (if x.0.1 < y.0.1 { Ordering::Less } else if x.0.1 == y.0.1 { Ordering::Equal } else { Ordering::Greater })
{ if x.0.1 < y.0.1 { Ordering::Less } else if x.0.1 == y.0.1 { Ordering::Equal } else { Ordering::Greater } }
//@struct Merge T=S I=Q<S> J=Q<S> F=HeadCmp
impl Merge {
    pub open spec fn left(&self) -> Seq<S> { opt_seq(self.curr_i) + self.i.v@ }
    pub open spec fn right(&self) -> Seq<S> { opt_seq(self.curr_j) + self.j.v@ }
    pub open spec fn inv(&self) -> bool { (self.curr_i is None ==> self.i.v.len() == 0) && (self.curr_j is None ==> self.j.v.len() == 0) }
    pub open spec fn step(&self, n: &Self, x: S) -> bool {
        if self.left().len() > 0 && (self.right().len() == 0 || hd(self.left()[0]) <= hd(self.right()[0])) {
            x == self.left()[0] && n.left() == self.left().drop_first() && n.right() == self.right()
        } else { self.right().len() > 0 && x == self.right()[0] && n.right() == self.right().drop_first() && n.left() == self.left() }
    }
//@fn Merge::next T=S I=Q<S> J=Q<S> F=HeadCmp rettype=Option<S> op:!==ord_ne op:===ord_eq call:std::mem::replace=mem_replace expr:(self.f)(x,y)=head_cmp(&self.f,x,y)
//@.spec
    requires old(self).inv(),
    ensures final(self).inv(), r is None ==> old(self).left().len() == 0 && old(self).right().len() == 0, r is Some ==> old(self).step(final(self), r.unwrap()),
//@.exit
    proof { let (a, b) = (old(self), *self);
        if a.left().len() > 0 && (a.right().len() == 0 || hd(a.left()[0]) <= hd(a.right()[0])) { assert(b.left() =~= a.left().drop_first()); assert(b.right() =~= a.right()); }
        else if a.right().len() > 0 { assert(b.right() =~= a.right().drop_first()); assert(b.left() =~= a.left()); } }
//@end
}
//@fn merge_by T=S I=Q<S> J=Q<S> F=HeadCmp rettype=Merge params=i,j,f
//@.spec
    ensures r.inv(), r.left() == i.v@, r.right() == j.v@,
//@.entry
    let ghost (i0, j0) = (i.v@, j.v@);
//@.exit
    proof { assert(__ret.left() =~= i0); assert(__ret.right() =~= j0); }
//@end
fn collect_merge(m: Merge) -> (r: Vec<S>)
    requires m.inv(), heads_sorted(m.left()), heads_sorted(m.right()), all_ok(m.left()), all_ok(m.right()),
    ensures heads_sorted(r@), all_ok(r@), forall|w: spec_fn(S) -> int| #[trigger] total(r@, w) == total(m.left(), w) + total(m.right(), w), forall|k: u64| above(m.left(), k) && above(m.right(), k) ==> #[trigger] above(r@, k),
{
    let ghost m0 = m;
    let mut m = m; let mut o: Vec<S> = Vec::new();
    loop
        invariant_except_break m.inv(), heads_sorted(m.left()), heads_sorted(m.right()), all_ok(m.left()), all_ok(m.right()),
            forall|i: int| 0 <= i < o.len() && m.left().len() > 0 ==> hd(#[trigger] o[i]) <= hd(m.left()[0]), forall|i: int| 0 <= i < o.len() && m.right().len() > 0 ==> hd(#[trigger] o[i]) <= hd(m.right()[0]),
            forall|k: u64| above(m0.left(), k) && above(m0.right(), k) ==> #[trigger] above(m.left(), k), forall|k: u64| above(m0.left(), k) && above(m0.right(), k) ==> #[trigger] above(m.right(), k),
            forall|w: spec_fn(S) -> int| #[trigger] total(o@, w) + total(m.left(), w) + total(m.right(), w) == total(m0.left(), w) + total(m0.right(), w),
        invariant heads_sorted(o@), all_ok(o@), forall|k: u64| above(m0.left(), k) && above(m0.right(), k) ==> #[trigger] above(o@, k),
        ensures forall|w: spec_fn(S) -> int| #[trigger] total(o@, w) == total(m0.left(), w) + total(m0.right(), w),
        decreases m.left().len() + m.right().len(),
    {
        let ghost (m1, o1) = (m, o@);
        let c = m.next();
        if c.is_none() {
            proof { assert forall|w: spec_fn(S) -> int| #[trigger] total(o@, w) == total(m0.left(), w) + total(m0.right(), w) by { assert(total(m1.left(), w) == 0 && total(m1.right(), w) == 0); } }
            break;
        }
        let x = c.unwrap();
        o.push(x);
        proof {
            assert forall|w: spec_fn(S) -> int| #[trigger] total(o@, w) + total(m.left(), w) + total(m.right(), w) == total(m0.left(), w) + total(m0.right(), w) by {
                lemma_total_push(o1, x, w); assert(total(o1, w) + total(m1.left(), w) + total(m1.right(), w) == total(m0.left(), w) + total(m0.right(), w));
                if m1.left().len() > 0 { lemma_total_first(m1.left(), w); }
                if m1.right().len() > 0 { lemma_total_first(m1.right(), w); }
            }
            assert forall|k: u64| above(m0.left(), k) && above(m0.right(), k) implies #[trigger] above(o@, k) by { assert(above(o1, k)); assert(above(m1.left(), k)); assert(above(m1.right(), k)); }
            assert forall|k: u64| above(m0.left(), k) && above(m0.right(), k) implies #[trigger] above(m.left(), k) by { assert(above(m1.left(), k)); }
            assert forall|k: u64| above(m0.left(), k) && above(m0.right(), k) implies #[trigger] above(m.right(), k) by { assert(above(m1.right(), k)); }
        }
    }
    o
}
proof fn lemma_pop(s: S, s2: S) requires ok(s), s.1.v.len() > 0, s2.0 == s.1.v[0], s2.1.v@ == s.1.v@.drop_first(),
    ensures ok(s2), hd(s) < hd(s2), terms(s).len() == terms(s2).len() + 1, forall|b: u64| #[trigger] sco(s, b) == sco(s2, b) + if hd(s) == b { s.0.0 as int } else { 0 },
{
    assert(terms(s2) =~= s.1.v@);
    let t = terms(s); assert forall|i: int| 0 <= i < terms(s2).len() implies #[trigger] terms(s2)[i] == t[i + 1] by {}
    assert(t[0] == s.0); assert(t[1] == s2.0);
    assert forall|b: u64| #[trigger] sco(s, b) == sco(s2, b) + if hd(s) == b { s.0.0 as int } else { 0 } by { lemma_terms(s, b); }
}
proof fn lemma_pop_last(s: S) requires s.1.v.len() == 0, ensures terms(s).len() == 1, forall|b: u64| #[trigger] sco(s, b) == if hd(s) == b { s.0.0 as int } else { 0 },
{ assert forall|b: u64| #[trigger] sco(s, b) == if hd(s) == b { s.0.0 as int } else { 0 } by { lemma_terms(s, b); assert(coef(s.1.v@, b) == 0); } }
proof fn lemma_perm_above(s: Seq<S>, t: Seq<S>, k: u64) requires s.to_multiset() =~= t.to_multiset(), above(s, k), ensures above(t, k)
{ assert forall|i: int| 0 <= i < t.len() implies k < hd(#[trigger] t[i]) by { let j = lemma_perm_has(s, t, i); } }
proof fn lemma_perm_ok(s: Seq<S>, t: Seq<S>) requires s.to_multiset() =~= t.to_multiset(), all_ok(s), ensures all_ok(t)
{ assert forall|i: int| 0 <= i < t.len() implies ok(#[trigger] t[i]) by { let j = lemma_perm_has(s, t, i); } }
// the first k streams, with one term taken from each, are nx together with the number c of the basis element m
pub open spec fn popped(it: Seq<S>, k: int, nx: Seq<S>, m: u64, c: int) -> bool {
    all_ok(nx) && above(nx, m) && total(it.take(k), wlen()) == total(nx, wlen()) + k
    && forall|b: u64| #[trigger] total(it.take(k), wco(b)) == total(nx, wco(b)) + if b == m { c } else { 0 }
}
proof fn lemma_popped_step(it: Seq<S>, k: int, nx: Seq<S>, m: u64, c: int, nx2: Seq<S>)
    requires 0 <= k < it.len(), popped(it, k, nx, m, c), all_ok(it), hd(it[k]) == m,
        it[k].1.v.len() == 0 ==> nx2 == nx,
        it[k].1.v.len() > 0 ==> nx2.len() == nx.len() + 1 && nx2.drop_last() == nx && nx2.last().0 == it[k].1.v[0] && nx2.last().1.v@ == it[k].1.v@.drop_first(),
    ensures popped(it, k + 1, nx2, m, c + it[k].0.0),
{
    let s = it[k];
    assert(it.take(k + 1).drop_last() =~= it.take(k)); assert(it.take(k + 1).last() == s);
    if s.1.v.len() > 0 { lemma_pop(s, nx2.last()); assert(nx2 =~= nx.push(nx2.last())); } else { lemma_pop_last(s); }
    assert forall|b: u64| #[trigger] total(it.take(k + 1), wco(b)) == total(nx2, wco(b)) + if b == m { c + it[k].0.0 } else { 0 } by { assert(total(it.take(k), wco(b)) == total(nx, wco(b)) + if b == m { c } else { 0 }); assert(sco(s, b) == sco(s, b)); }
}
impl Vector {
//@fn <Vector as Sum>::sum Coeff=i64 Basis=u64 generics= params=iter paramtype:iter=Vec<Vector> seqs=iter expr:v.into_iter()=q_of(v.0) expr:val!=&None=opt_some(val) own0=vec_copy expr:iters.sort_by(|((_,basis1),_),((_,basis2),_)|basis1.partial_cmp(basis2).unwrap())=sort_streams(&mut~iters) expr:next_iters.sort_by(|((_,x),_),((_,y),_)|x.partial_cmp(y).unwrap())=sort_streams(&mut~next_iters) expr:iters.into_iter()=q_of(iters) expr:next_iters.into_iter()=q_of(next_iters) expr:merge_by(consumed_iter,next_iters.into_iter(),|((_,x),_),((_,y),_)|x.partial_cmp(y).unwrap()).collect()=collect_merge(merge_by(consumed_iter,q_of(next_iters),HeadCmp)) op:+=e_add op:+==e_add op:u-=e_neg call:i64::zero=zero_i64 op:-==e_sub op:*=e_mul op:*==e_mul
//@.spec
    requires forall|i: int| 0 <= i < iter.len() ==> (#[trigger] iter[i]).wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == vtotal(iter@, b),
//@.entry
    let ghost v0 = iter@;
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), all_ok(__a0@), forall|b: u64| #[trigger] total(__a0@, wco(b)) == vtotal(v0.take(__i0 as int), b),
    decreases iter.len() - __i0,
//@.loop 0 begin
    let ghost a0 = __a0@;
//@.loop 0 end
    proof {
        let w = v0[__j0 as int].0@;
        assert(v0.take(__i0 as int).drop_last() =~= v0.take(__j0 as int));
        if w.len() > 0 { let s = __a0@.last(); assert(__a0@ =~= a0.push(s)); assert(terms(s) =~= w); }
        assert forall|b: u64| #[trigger] total(__a0@, wco(b)) == vtotal(v0.take(__i0 as int), b) by {
            assert(total(a0, wco(b)) == vtotal(v0.take(__j0 as int), b));
            if w.len() > 0 { lemma_total_push(a0, __a0@.last(), wco(b)); } else { assert(coef(w, b) == 0); } }
    }
//@.loop 0 after
    let ghost a0 = __a0@;
    proof { assert(v0.take(v0.len() as int) =~= v0); }
//@.loop 1 before
    proof { assert forall|b: u64| coef(out@, b) + #[trigger] total(iters@, wco(b)) == vtotal(v0, b) by { assert(total(a0, wco(b)) == vtotal(v0.take(v0.len() as int), b)); assert(coef(out@, b) == 0); } }
//@.loop 1
    invariant all_ok(iters@), heads_sorted(iters@), canon(out@), out.len() > 0 ==> above(iters@, out@.last().1),
        forall|b: u64| coef(out@, b) + #[trigger] total(iters@, wco(b)) == vtotal(v0, b),
    decreases total(iters@, wlen()),
//@.loop 1 begin
    let ghost it0 = iters@; let ghost o0 = out@; let ghost m = hd(it0[0]);
//@.loop 2
    invariant_except_break __a2 == __i2,
    invariant __a2 <= it0.len(), __n2 == it0.len(), __i2 <= __n2, forall|k: int| 0 <= k < __a2 ==> hd(#[trigger] it0[k]) == m,
    ensures __a2 < it0.len() ==> hd(it0[__a2 as int]) != m,
    decreases __n2 - __i2,
//@.loop 3 before
    let ghost mut k3: int = 1;
    proof { assert(it0.take(0) =~= Seq::empty()); assert(popped(it0, 0, Seq::empty(), m, 0)); assert(next_iters@.len() > 0 ==> next_iters@.drop_last() =~= Seq::empty()); lemma_popped_step(it0, 0, Seq::empty(), m, 0, next_iters@); assert(consumed_iter.v@ =~= it0.skip(1)); }
//@.loop 3
    invariant __i3 <= __h3, 1 <= k3 <= n <= it0.len(), __h3 - __i3 == n - k3, consumed_iter.v@ == it0.skip(k3), popped(it0, k3, next_iters@, m, coeff as int),
    decreases __h3 - __i3,
//@.loop 3 begin
    let ghost nx0 = next_iters@; let ghost c0 = coeff;
    proof { assert(it0.skip(k3)[0] == it0[k3]); assert(it0.skip(k3).drop_first() =~= it0.skip(k3 + 1)); }
//@.loop 3 end
    proof { assert(next_iters@.len() > nx0.len() ==> next_iters@.drop_last() =~= nx0); lemma_popped_step(it0, k3, nx0, m, c0 as int, next_iters@); k3 = k3 + 1; }
//@.loop 3 after
    let ghost nx = next_iters@; let ghost rest = it0.skip(n as int); let ghost c = coeff as int;
    proof {
        assert(it0 =~= it0.take(n as int) + rest);
        assert forall|i: int| 0 <= i < rest.len() implies m < hd(#[trigger] rest[i]) by { assert(rest[i] == it0[n + i]); assert(hd(it0[0]) <= hd(it0[n as int])); if i > 0 { assert(hd(it0[n as int]) <= hd(it0[n + i])); } }
    }
//@.loop 1 end
    proof {
        lemma_total_cat(it0.take(n as int), rest, wlen()); lemma_total_nonneg(iters@);
        assert(total(iters@, wlen()) == total(rest, wlen()) + total(nx, wlen()));
        assert forall|b: u64| coef(out@, b) + #[trigger] total(iters@, wco(b)) == vtotal(v0, b) by {
            lemma_total_cat(it0.take(n as int), rest, wco(b));
            assert(coef(o0, b) + total(it0, wco(b)) == vtotal(v0, b));
            assert(total(it0.take(n as int), wco(b)) == total(nx, wco(b)) + if b == m { c } else { 0 });
            assert(total(iters@, wco(b)) == total(rest, wco(b)) + total(nx, wco(b)));
            if c != 0 { assert(out@.drop_last() =~= o0); assert(out@.last() == (c as i64, m)); }
        }
        assert(above(iters@, m));
        if o0.len() > 0 { assert(o0.last().1 < m); assert(o0.last() == o0[o0.len() - 1]); }
    }
//@.exit
    proof { assert forall|b: u64| #[trigger] __ret.co(b) == vtotal(v0, b) by { assert(iters@.len() == 0); assert(total(iters@, wco(b)) == 0); } }
//@end
//@fn <Vector as Add>::add Coeff=i64 Basis=u64 Self::Output=Self params=rhs sum_fn=Vector::sum acc0=Vec<Vector> own0=vec_copy op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == self.co(b) + rhs.co(b),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __n0 == 2, __a0.len() == __i0, __p0[0].0@ == self.0@, __p0[1].0@ == rhs.0@, forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0[k]).0@ == __p0[k].0@,
    decreases __n0 - __i0,
//@.loop 0 after
    proof { assert forall|b: u64| #[trigger] vtotal(__a0@, b) == self.co(b) + rhs.co(b) by { lemma_two(__a0@, b); } }
//@end
//@fn <Vector as Sub>::sub Coeff=i64 Basis=u64 Self::Output=Self params=rhs op:+=op_add op:u-=op_neg op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == self.co(b) - rhs.co(b),
//@end
//@fn <Vector as Add<Basis>>::add name=add_basis Coeff=i64 Basis=u64 Self::Output=Self params=rhs op:+=op_add call:Vector::from=Vector::from_basis op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == self.co(b) + if b == rhs { 1int } else { 0 },
//@end
//@fn <Vector as Sub<Basis>>::sub name=sub_basis Coeff=i64 Basis=u64 Self::Output=Self params=rhs op:-=op_sub call:Vector::from=Vector::from_basis op:+=e_add op:+==e_add op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == self.co(b) - if b == rhs { 1int } else { 0 },
//@end
//@fn <Vector as FromIterator<Basis>>::from_iter Coeff=i64 Basis=u64 generics= params=iter acc0=Vec<u64> paramtype:iter=Vec<u64> seqs=iter call:Self::from=Vector::from_vec op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == count(iter@, b),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), __a0@ == iter@.take(__i0 as int),
    decreases iter.len() - __i0,
//@.loop 0 end
    proof { assert(__a0@ =~= iter@.take(__i0 as int)); }
//@.loop 0 after
    proof { assert(__a0@ =~= iter@); }
//@end
//@fn <Vector as From<[Basis;N]>>::from name=from_arr Coeff=i64 Basis=u64 generics=<const~N:usize> acc0=Vec<u64> params=summands call:Self::from=Vector::from_vec op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == count(summands@, b),
//@.loop 0
    invariant 0 <= __i0 <= summands.len(), __a0@ == summands@.take(__i0 as int),
    decreases summands.len() - __i0,
//@.loop 0 end
    proof { assert(__a0@ =~= summands@.take(__i0 as int)); }
//@.loop 0 after
    proof { assert(__a0@ =~= summands@); }
//@end
}
proof fn lemma_two(s: Seq<Vector>, b: u64) requires s.len() == 2, ensures vtotal(s, b) == s[0].co(b) + s[1].co(b)
{ assert(vtotal(s.drop_last(), b) == vtotal(s.drop_last().drop_last(), b) + s.drop_last().last().co(b)); assert(s.drop_last().last() == s[0]); assert(s.drop_last().drop_last() =~= Seq::empty()); assert(vtotal(s.drop_last().drop_last(), b) == 0); }
fn op_add(x: Vector, y: Vector) -> (r: Vector) requires x.wf(), y.wf(), ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == x.co(b) + y.co(b) { x.add(y) }
fn op_sub(x: Vector, y: Vector) -> (r: Vector) requires x.wf(), y.wf(), ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == x.co(b) - y.co(b) { x.sub(y) }
fn op_neg(x: Vector) -> (r: Vector) requires x.wf(), ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == -x.co(b) { x.neg() }
fn op_scale(x: Vector, c: i64) -> (r: Vector) requires x.wf(), ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == x.co(b) * c { x.mul(c) }
// the operators formal_sum_impl! defines on basis elements, here for the basis type u64
//@fn <__mac_t as Add>::add key=fs_add macro=formal_sum_impl $t=u64 Self=u64 self_as=u64 name=fs_add Coeff=i64 Basis=u64 Self::Output=Vector params=rhs op:+=op_add call:Vector::from=Vector::from_basis op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == (if b == self_ { 1int } else { 0 }) + if b == rhs { 1int } else { 0 },
//@end
//@fn <__mac_t as Add<Vector<i64,$t>>>::add key=fs_add_v name=fs_add_v macro=formal_sum_impl $t=u64 Self=u64 self_as=u64 Coeff=i64 Basis=u64 Self::Output=Vector op:+=op_add op:-=op_sub op:u-=op_neg op:*=op_scale call:Vector::from=Vector::from_basis params=rhs paramtype:rhs=Vector op:+==e_add op:-==e_sub op:*==e_mul
//@.spec
    requires rhs.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == (if b == self_ { 1int } else { 0 }) + rhs.co(b),
//@end
//@fn <__mac_t as Sub>::sub key=fs_sub name=fs_sub macro=formal_sum_impl $t=u64 Self=u64 self_as=u64 Coeff=i64 Basis=u64 Self::Output=Vector op:+=op_add op:-=op_sub op:u-=op_neg op:*=op_scale call:Vector::from=Vector::from_basis params=rhs  op:+==e_add op:-==e_sub op:*==e_mul
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == (if b == self_ { 1int } else { 0 }) - if b == rhs { 1int } else { 0 },
//@end
//@fn <__mac_t as Sub<Vector<i64,$t>>>::sub key=fs_sub_v name=fs_sub_v macro=formal_sum_impl $t=u64 Self=u64 self_as=u64 Coeff=i64 Basis=u64 Self::Output=Vector op:+=op_add op:-=op_sub op:u-=op_neg op:*=op_scale call:Vector::from=Vector::from_basis params=rhs paramtype:rhs=Vector op:+==e_add op:-==e_sub op:*==e_mul
//@.spec
    requires rhs.wf(),
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == (if b == self_ { 1int } else { 0 }) - rhs.co(b),
//@end
//@fn <i64 as Mul<$t>>::mul key=fs_mul name=fs_mul macro=formal_sum_impl $t=u64 Self=i64 self_as=i64 Coeff=i64 Basis=u64 Self::Output=Vector op:+=op_add op:-=op_sub op:u-=op_neg op:*=op_scale call:Vector::from=Vector::from_basis params=rhs rettype=Vector op:+==e_add op:-==e_sub op:*==e_mul
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == if b == rhs { self_ as int } else { 0 },
//@end
//@fn <__mac_t as Neg>::neg key=fs_neg name=fs_neg macro=formal_sum_impl $t=u64 Self=u64 self_as=u64 Coeff=i64 Basis=u64 Self::Output=Vector op:+=op_add op:-=op_sub op:u-=op_neg op:*=op_scale call:Vector::from=Vector::from_basis   op:+==e_add op:-==e_sub op:*==e_mul
//@.spec
    ensures r.wf(), forall|b: u64| #[trigger] r.co(b) == if b == self_ { -1int } else { 0 },
//@end
// the terms are determined by the coefficients, so the derived == is equality of elements of the free module
proof fn lemma_unique(s: Seq<(i64, u64)>, t: Seq<(i64, u64)>)
    requires canon(s), canon(t), forall|b: u64| #[trigger] coef(s, b) == coef(t, b),
    ensures s == t, decreases s.len(),
{
    if s.len() > 0 { lemma_at(s, s.len() - 1); if forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).1 != s[s.len() - 1].1 { lemma_absent(t, s[s.len() - 1].1); assert(coef(s, s[s.len() - 1].1) == coef(t, s[s.len() - 1].1)); } }
    if t.len() > 0 { lemma_at(t, t.len() - 1); if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != t[t.len() - 1].1 { lemma_absent(s, t[t.len() - 1].1); assert(coef(s, t[t.len() - 1].1) == coef(t, t[t.len() - 1].1)); } }
    if s.len() > 0 {
        let (x, y) = (s.last(), t.last());
        assert(x == s[s.len() - 1] && y == t[t.len() - 1]);
        assert(coef(s, x.1) == coef(t, x.1));
        let (s1, t1) = (s.drop_last(), t.drop_last());
        assert forall|b: u64| #[trigger] coef(s1, b) == coef(t1, b) by { assert(coef(s, b) == coef(t, b)); }
        assert(forall|i: int| 0 <= i < s1.len() ==> s1[i] == s[i]); assert(forall|i: int| 0 <= i < t1.len() ==> t1[i] == t[i]);
        lemma_unique(s1, t1);
        assert(s =~= s1.push(x)); assert(t =~= t1.push(y));
    } else { assert(s =~= t); }
}
} // verus!
fn main() {}
