verus! {
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@file alg/src/non_commutative/permutation.rs
// ------------------------------------------------------------------ cycles
pub open spec fn distinct(c: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] != c[j] }
pub open spec fn memb(c: Seq<usize>, n: usize) -> bool { exists|i: int| 0 <= i < c.len() && c[i] == n }
pub open spec fn at(c: Seq<usize>, n: usize) -> int { choose|i: int| 0 <= i < c.len() && c[i] == n }
pub open spec fn nxt(c: Seq<usize>, i: int) -> usize { if i + 1 >= c.len() { c[0] } else { c[i + 1] } }
// where a cycle sends n
pub open spec fn cmap(c: Seq<usize>, n: usize) -> usize { if memb(c, n) { nxt(c, at(c, n)) } else { n } }
pub open spec fn smallest_first(c: Seq<usize>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[0] <= #[trigger] c[i] }
pub open spec fn cyc_wf(c: Seq<usize>) -> bool { distinct(c) && c.len() != 1 && smallest_first(c) }
pub proof fn lemma_at(c: Seq<usize>, i: int) requires distinct(c), 0 <= i < c.len() ensures memb(c, c[i]), at(c, c[i]) == i, cmap(c, c[i]) == nxt(c, i)
{ let j = at(c, c[i]); if i < j { assert(c[i] != c[j]); } if j < i { assert(c[j] != c[i]); } }
pub proof fn lemma_cmap(c: Seq<usize>, x: usize, y: usize)
    requires distinct(c), ensures cmap(c, x) == cmap(c, y) ==> x == y, memb(c, x) <==> memb(c, cmap(c, x)), (cmap(c, x) == x) <==> (!memb(c, x) || c.len() == 1),
{
    if memb(c, x) { let i = at(c, x); lemma_at(c, i); let k = if i + 1 >= c.len() { 0 } else { i + 1 }; lemma_at(c, k); assert(c[k] == cmap(c, x));
        if k < i { assert(c[k] != c[i]); } else if i < k { assert(c[i] != c[k]); } }
    if memb(c, y) { let i = at(c, y); lemma_at(c, i); let k = if i + 1 >= c.len() { 0 } else { i + 1 }; lemma_at(c, k); assert(c[k] == cmap(c, y)); }
}
pub open spec fn same_cyc(a: Seq<usize>, b: Seq<usize>) -> bool { forall|n: usize| #[trigger] memb(a, n) == memb(b, n) && cmap(a, n) == cmap(b, n) }
pub proof fn lemma_rot(d: Seq<usize>, m: int)
    requires distinct(d), d.len() >= 2, 0 <= m < d.len(), forall|k: int| 0 <= k < d.len() ==> d[m] <= #[trigger] d[k],
    ensures ({ let e = d.subrange(m, d.len() as int) + d.subrange(0, m); cyc_wf(e) && e.len() == d.len() && same_cyc(e, d) }),
{
    let e = d.subrange(m, d.len() as int) + d.subrange(0, m);
    let l = d.len() as int;
    assert forall|i: int| 0 <= i < l implies #[trigger] e[i] == d[if i + m < l { i + m } else { i + m - l }] by {}
    assert forall|i: int, j: int| 0 <= i < j < l implies e[i] != e[j] by {
        let a = if i + m < l { i + m } else { i + m - l }; let b = if j + m < l { j + m } else { j + m - l };
        assert(e[i] == d[a] && e[j] == d[b]); if a < b { assert(d[a] != d[b]); } else { assert(d[b] != d[a]); }
    }
    assert forall|n: usize| #[trigger] memb(e, n) == memb(d, n) && cmap(e, n) == cmap(d, n) by {
        if memb(d, n) { let i = at(d, n); let k = if i >= m { i - m } else { i - m + l }; assert(e[k] == n); lemma_at(d, i); lemma_at(e, k);
            let i2 = if i + 1 >= l { 0 } else { i + 1 }; let k2 = if k + 1 >= l { 0 } else { k + 1 };
            assert(e[k2] == d[i2]); }
        if memb(e, n) { let k = at(e, n); let i = if k + m < l { k + m } else { k + m - l }; assert(d[i] == n); }
    }
}
// ------------------------------------------------------------------ helpers standing for library operations, verified
fn v_contains(v: &Vec<usize>, x: &usize) -> (r: bool) ensures r == memb(v@, *x)
{
    let mut i: usize = 0;
    while i < v.len() invariant 0 <= i <= v.len(), forall|k: int| 0 <= k < i ==> v[k] != *x, decreases v.len() - i
    { if v[i] == *x { assert(v@[i as int] == *x); return true; } i += 1; }
    false
}
fn vec_eq(a: &Vec<usize>, b: &Vec<usize>) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant 0 <= i <= a.len(), a.len() == b.len(), forall|k: int| 0 <= k < i ==> a[k] == b[k], decreases a.len() - i
    { if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); return false; } i += 1; }
    assert(a@ =~= b@);
    true
}
// the order of cycles used to list disjoint cycles
pub open spec fn cyc_cmp(a: Seq<usize>, b: Seq<usize>) -> Ordering {
    if a == b || (a.len() > 0 && b.len() > 0 && a[0] == b[0]) { Ordering::Equal } else if a.len() == 0 { Ordering::Less } else if b.len() == 0 { Ordering::Greater } else if a[0] < b[0] { Ordering::Less } else { Ordering::Greater }
}
//@struct Cycle derives:PartialEq,Eq,Clone @verifier::allow(autoderive_clone_without_spec)
// the derived == of Cycle
fn c_eq(a: &Cycle, b: &Cycle) -> (r: bool) ensures r == (a.data@ == b.data@) { vec_eq(&a.data, &b.data) }
fn c_clone(a: &Cycle) -> (r: Cycle) ensures r.data@ == a.data@ { let d = a.data.clone(); assert(d@ =~= a.data@); Cycle { data: d } }
impl Cycle {
//@fn Cycle::is_valid deref=self:data method:contains=&v_contains
//@.spec
    ensures r == distinct(self.data@),
//@.loop 0
    invariant 0 <= __i0 <= self.data.len(), checker@ == self.data@.subrange(0, __i0 as int), distinct(checker@),
    decreases self.data.len() - __i0,
//@.loop 0 end
    proof { assert(checker@ =~= self.data@.subrange(0, __i0 as int)); }
//@.exit
    proof { assert(checker@ =~= self.data@); }
//@end
//@fn Cycle::identity
//@.spec
    ensures r.data@ == Seq::<usize>::empty(),
//@.exit
    proof { assert(__ret.data@ =~= Seq::<usize>::empty()); }
//@end
//@fn Cycle::cyclic_from params=r ret=out ranges=r
//@.spec
    ensures cyc_wf(out.data@), out.data@.len() == (if r.start + 1 < r.end { r.end - r.start } else { 0 }), forall|i: int| 0 <= i < out.data@.len() ==> #[trigger] out.data@[i] == r.start + i,
//@.loop 0
    invariant r.start <= __i0, __i0 <= r.end || __i0 == r.start, __a0@.len() == __i0 - r.start, forall|i: int| 0 <= i < __a0@.len() ==> #[trigger] __a0@[i] == r.start + i,
    decreases r.end - __i0,
//@end
//@fn Cycle::bring_smallest_first deref=self:data,self_:data acc0=Option<((usize,&usize),usize)>
//@.spec
    requires distinct(self.data@), self.data@.len() >= 2,
    ensures cyc_wf(r.data@), r.data@.len() == self.data@.len(), same_cyc(r.data@, self.data@),
//@.entry
    let ghost d = self.data@;
//@.loop 0
    invariant 0 <= __i0 <= self_.data.len(), self_.data@ == d, d.len() >= 2,
        match __a0 { None => __i0 == 0, Some(((x, y), m)) => 0 <= x < __i0 && *y == d[x as int] && m == d[x as int] && forall|k: int| 0 <= k < __i0 ==> m <= #[trigger] d[k] },
    decreases self_.data.len() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= d.len() - min_idx, self_.data@ == d, min_idx < d.len(), __n1 == d.len() - min_idx, __a1@ == d.subrange(min_idx as int, min_idx + __i1),
    decreases d.len() - __i1,
//@.loop 1 end
    proof { assert(__a1@ =~= d.subrange(min_idx as int, min_idx + __i1)); }
//@.loop 2
    invariant_except_break 0 <= __i2 <= min_idx, __a1@ == d.subrange(min_idx as int, d.len() as int) + d.subrange(0, __i2 as int),
    invariant self_.data@ == d, min_idx < d.len(), min == d[min_idx as int], distinct(d),
    ensures __a1@ == d.subrange(min_idx as int, d.len() as int) + d.subrange(0, min_idx as int),
    decreases d.len() - __i2,
//@.loop 2 begin
    proof { if __j2 < min_idx { assert(d[__j2 as int] != d[min_idx as int]); } }
//@.loop 2 end
    proof { assert(__a1@ =~= d.subrange(min_idx as int, d.len() as int) + d.subrange(0, __i2 as int)); }
//@.exit
    proof { lemma_rot(d, min_idx as int); }
//@end
//@fn Cycle::from key=from_any name=from_any params=data maypanic
//@.spec
    ensures cyc_wf(r.data@), same_cyc(r.data@, data@) || data@.len() <= 1, data@.len() <= 1 ==> r.data@.len() == 0, data@.len() >= 2 ==> distinct(data@) && r.data@.len() == data@.len(),
//@end
//@fn Cycle::from params=data
//@.spec
    requires distinct(data@),
    ensures cyc_wf(r.data@), forall|n: usize| #[trigger] cmap(r.data@, n) == cmap(data@, n), data@.len() <= 1 ==> r.data@.len() == 0, data@.len() >= 2 ==> same_cyc(r.data@, data@) && r.data@.len() == data@.len(),
//@.exit
    proof { if data@.len() == 1 { assert(nxt(data@, 0) == data@[0]); } }
//@end
//@fn Cycle::map params=n deref=self:data
//@.spec
    requires distinct(self.data@),
    ensures r == cmap(self.data@, n),
//@.loop 0
    invariant 0 <= __i0 <= self.data.len(), __a0 is None ==> forall|k: int| 0 <= k < __i0 ==> self.data@[k] != n,
        __a0 matches Some(x) ==> x < self.data.len() && self.data@[x as int] == n,
    decreases self.data.len() - __i0,
//@.loop 0 after
    proof { if __a0 is Some { lemma_at(self.data@, __a0.unwrap() as int); } }
//@end
//@fn <Cycle as Ord>::cmp params=other deref=self:data,other:data op:===&c_eq
//@.spec
    ensures r == cyc_cmp(self.data@, other.data@),
//@end
}

// ------------------------------------------------------------------ permutations as lists of disjoint cycles
pub open spec fn flat(cs: Seq<Cycle>) -> Seq<usize> decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { cs[0].data@ + flat(cs.drop_first()) } }
pub open spec fn inn(cs: Seq<Cycle>, i: int, n: usize) -> bool { 0 <= i < cs.len() && memb(cs[i].data@, n) }
pub open spec fn disj(cs: Seq<Cycle>) -> bool { forall|i: int, j: int, n: usize| i != j && #[trigger] inn(cs, i, n) ==> !#[trigger] inn(cs, j, n) }
pub open spec fn all_wf(cs: Seq<Cycle>) -> bool { forall|i: int| 0 <= i < cs.len() ==> cyc_wf(#[trigger] cs[i].data@) }
pub open spec fn no_empty(cs: Seq<Cycle>) -> bool { forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i].data@.len() > 0 }
pub open spec fn sorted(cs: Seq<Cycle>) -> bool { forall|i: int, j: int| 0 <= i < j < cs.len() ==> cs[i].data@[0] < cs[j].data@[0] }
pub open spec fn pwf(cs: Seq<Cycle>) -> bool { cs.len() >= 1 && all_wf(cs) && disj(cs) && (no_empty(cs) || cs.len() == 1) && sorted(cs) }
// where the permutation sends n: the first cycle that moves it
pub open spec fn pmap(cs: Seq<Cycle>, n: usize) -> usize decreases cs.len()
{ if cs.len() == 0 { n } else if cmap(cs[0].data@, n) != n { cmap(cs[0].data@, n) } else { pmap(cs.drop_first(), n) } }
pub proof fn lemma_pmap(cs: Seq<Cycle>, n: usize)
    requires all_wf(cs), disj(cs),
    ensures forall|i: int| #[trigger] inn(cs, i, n) ==> pmap(cs, n) == cmap(cs[i].data@, n), (forall|i: int| !#[trigger] inn(cs, i, n)) ==> pmap(cs, n) == n,
    decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_first();
        assert forall|i: int, m: usize| #[trigger] inn(t, i, m) implies inn(cs, i + 1, m) by { assert(t[i] == cs[i + 1]); }
        assert forall|i: int, j: int, m: usize| i != j && #[trigger] inn(t, i, m) implies !#[trigger] inn(t, j, m) by { assert(inn(cs, i + 1, m)); if inn(t, j, m) { assert(inn(cs, j + 1, m)); } }
        assert forall|i: int| 0 <= i < t.len() implies cyc_wf(#[trigger] t[i].data@) by { assert(t[i] == cs[i + 1]); }
        lemma_pmap(t, n);
        lemma_cmap(cs[0].data@, n, n);
        assert(cyc_wf(cs[0].data@));
        assert forall|i: int| #[trigger] inn(cs, i, n) implies pmap(cs, n) == cmap(cs[i].data@, n) by {
            if i > 0 { assert(t[i - 1] == cs[i]); assert(inn(t, i - 1, n)); assert(!inn(cs, 0, n)); }
        }
        if forall|i: int| !#[trigger] inn(cs, i, n) { assert(!inn(cs, 0, n)); assert forall|i: int| !#[trigger] inn(t, i, n) by { if inn(t, i, n) { assert(inn(cs, i + 1, n)); } } }
    }
}
pub proof fn lemma_pmap_in(cs: Seq<Cycle>, x: usize, i: int)
    requires all_wf(cs), disj(cs), ensures inn(cs, i, x) == inn(cs, i, pmap(cs, x)),
{
    lemma_pmap(cs, x);
    if 0 <= i < cs.len() {
        assert(cyc_wf(cs[i].data@));
        lemma_cmap(cs[i].data@, x, x);
        if !inn(cs, i, x) && inn(cs, i, pmap(cs, x)) {
            assert(pmap(cs, x) != x);
            let j = choose|j: int| inn(cs, j, x); assert(inn(cs, j, x)); assert(cyc_wf(cs[j].data@)); lemma_cmap(cs[j].data@, x, x); assert(inn(cs, j, pmap(cs, x)));
        }
    }
}
pub proof fn lemma_pmap_inj(cs: Seq<Cycle>, x: usize, y: usize)
    requires all_wf(cs), disj(cs), pmap(cs, x) == pmap(cs, y), ensures x == y,
{
    lemma_pmap(cs, x); lemma_pmap(cs, y);
    if exists|i: int| inn(cs, i, x) {
        let i = choose|i: int| inn(cs, i, x);
        lemma_pmap_in(cs, x, i); lemma_pmap_in(cs, y, i);
        assert(cyc_wf(cs[i].data@)); lemma_cmap(cs[i].data@, x, y);
    } else if exists|i: int| inn(cs, i, y) {
        let i = choose|i: int| inn(cs, i, y);
        lemma_pmap_in(cs, x, i); lemma_pmap_in(cs, y, i);
    }
}
pub proof fn lemma_flat(cs: Seq<Cycle>, n: usize)
    ensures memb(flat(cs), n) <==> exists|i: int| #[trigger] inn(cs, i, n), decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_first();
        lemma_flat(t, n);
        let (a, b, f) = (cs[0].data@, flat(t), flat(cs));
        if memb(f, n) { let k = at(f, n); if k < a.len() { assert(a[k] == n); assert(inn(cs, 0, n)); } else { assert(b[k - a.len()] == n); let i = choose|i: int| inn(t, i, n); assert(inn(t, i, n)); assert(t[i] == cs[i + 1]); assert(inn(cs, i + 1, n)); } }
        if exists|i: int| #[trigger] inn(cs, i, n) {
            let i = choose|i: int| inn(cs, i, n); assert(inn(cs, i, n));
            if i == 0 { let k = at(a, n); assert(f[k] == n); } else { assert(t[i - 1] == cs[i]); assert(inn(t, i - 1, n)); let k = at(b, n); assert(f[a.len() + k] == n); }
        }
    }
}
// the list of all entries has no repetition exactly when every cycle has none and no two meet
pub proof fn lemma_flat_distinct(cs: Seq<Cycle>)
    ensures distinct(flat(cs)) <==> (disj(cs) && forall|i: int| 0 <= i < cs.len() ==> distinct(#[trigger] cs[i].data@)), decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_first();
        lemma_flat_distinct(t);
        let (a, b, f) = (cs[0].data@, flat(t), flat(cs));
        let l = a.len() as int;
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == cs[i + 1] by {}
        if distinct(f) {
            assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert(f[i] != f[j]); }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert(f[l + i] != f[l + j]); }
            assert forall|i: int| 0 <= i < cs.len() implies distinct(#[trigger] cs[i].data@) by { if i > 0 { assert(t[i - 1] == cs[i]); } }
            assert forall|i: int, j: int, n: usize| i != j && #[trigger] inn(cs, i, n) implies !#[trigger] inn(cs, j, n) by {
                if inn(cs, j, n) {
                    if i > 0 && j > 0 { assert(inn(t, i - 1, n)); assert(inn(t, j - 1, n)); }
                    else { let k = if i == 0 { j } else { i }; assert(inn(t, k - 1, n)); lemma_flat(t, n); let x = at(b, n); let y = at(a, n); assert(f[l + x] == n && f[y] == n); assert(f[y] != f[l + x]); }
                }
            }
        } else if disj(cs) && forall|i: int| 0 <= i < cs.len() ==> distinct(#[trigger] cs[i].data@) {
            assert forall|i: int, j: int, n: usize| i != j && #[trigger] inn(t, i, n) implies !#[trigger] inn(t, j, n) by { assert(inn(cs, i + 1, n)); if inn(t, j, n) { assert(inn(cs, j + 1, n)); } }
            assert forall|i: int| 0 <= i < t.len() implies distinct(#[trigger] t[i].data@) by { assert(distinct(cs[i + 1].data@)); }
            assert(distinct(b));
            let (x, y) = choose|x: int, y: int| 0 <= x < y < f.len() && f[x] == f[y];
            assert(distinct(cs[0].data@));
            if y < l { assert(a[x] != a[y]); } else if x >= l { assert(b[x - l] != b[y - l]); }
            else { let n = f[x]; assert(a[x] == n && b[y - l] == n); lemma_flat(t, n); let i = choose|i: int| inn(t, i, n); assert(inn(t, i, n)); assert(inn(cs, 0, n)); assert(inn(cs, i + 1, n)); }
        }
    } else { assert(disj(cs)); }
}
//@struct Permutation derives:PartialEq,Eq,Clone @verifier::allow(autoderive_clone_without_spec)
//@struct UnfixedIndexIter
// what the iterator has yet to yield
pub open spec fn vals(s: Seq<&usize>) -> Seq<usize> { s.map_values(|x: &usize| *x) }
pub open spec fn flatr(s: Seq<&Cycle>) -> Seq<usize> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].data@ + flatr(s.drop_first()) } }
pub proof fn lemma_flatr(s: Seq<&Cycle>, cs: Seq<Cycle>) requires s.len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> *#[trigger] s[i] == cs[i], ensures flatr(s) == flat(cs), decreases s.len()
{ if s.len() > 0 { lemma_flatr(s.drop_first(), cs.drop_first()); } }
proof fn lemma_new(cs: Seq<Cycle>)
    requires cs.len() >= 1,
    ensures forall|u: Seq<&usize>, s: Seq<&Cycle>| s.len() == cs.len() - 1 && (forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == cs[i + 1]) && u.len() == cs[0].data@.len() && (forall|i: int| 0 <= i < u.len() ==> *#[trigger] u[i] == cs[0].data@[i])
        ==> #[trigger] (vals(u) + flatr(s)) == flat(cs),
{
    assert forall|u: Seq<&usize>, s: Seq<&Cycle>| s.len() == cs.len() - 1 && (forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == cs[i + 1]) && u.len() == cs[0].data@.len() && (forall|i: int| 0 <= i < u.len() ==> *#[trigger] u[i] == cs[0].data@[i])
        implies #[trigger] (vals(u) + flatr(s)) == flat(cs) by {
        let c = cs.drop_first();
        assert forall|i: int| 0 <= i < c.len() implies *#[trigger] s[i] == c[i] by { assert(c[i] == cs[i + 1]); }
        lemma_flatr(s, c);
        assert(vals(u) =~= cs[0].data@);
    }
}
proof fn lemma_rest1(u: Seq<&usize>, f: Seq<usize>) requires u.len() > 0 ensures (vals(u) + f).drop_first() == vals(u.drop_first()) + f, (vals(u) + f)[0] == *u[0], vals(u).len() == u.len()
{ assert((vals(u) + f).drop_first() =~= vals(u.drop_first()) + f); }
proof fn lemma_rest2(u: Seq<&usize>, v: Seq<&usize>, h: Seq<usize>, t: Seq<usize>) requires u.len() == 0, h.len() > 0, vals(v) == h.drop_first() ensures (vals(u) + (h + t)).drop_first() == vals(v) + t, (vals(u) + (h + t))[0] == h[0], (vals(u) + (h + t)).len() > 0
{ assert(vals(u) + (h + t) =~= h + t); assert((h + t).drop_first() =~= h.drop_first() + t); }
proof fn lemma_rest3(u: Seq<&usize>, v: Seq<usize>) requires u.len() == v.len(), v.len() > 0, forall|i: int| 0 <= i < v.len() ==> *#[trigger] u[i] == v[i] ensures vals(u.drop_first()) == v.drop_first()
{ assert(vals(u.drop_first()) =~= v.drop_first()); }
proof fn lemma_rest()
    ensures forall|u: Seq<&usize>, c: Seq<&Cycle>| u.len() > 0 ==> (#[trigger] (vals(u) + flatr(c))).drop_first() == vals(u.drop_first()) + flatr(c) && (vals(u) + flatr(c))[0] == *u[0],
        forall|u: Seq<&usize>, v: Seq<&usize>, c: Seq<&Cycle>| u.len() == 0 && c.len() > 0 && c[0].data@.len() > 0 && #[trigger] vals(v) == c[0].data@.drop_first() ==> (#[trigger] (vals(u) + flatr(c))).drop_first() == vals(v) + flatr(c.drop_first()) && (vals(u) + flatr(c))[0] == c[0].data@[0],
        forall|u: Seq<&usize>, v: Seq<usize>| u.len() == v.len() && v.len() > 0 && (forall|i: int| 0 <= i < v.len() ==> *#[trigger] u[i] == v[i]) ==> #[trigger] vals(u.drop_first()) == #[trigger] v.drop_first(),
{
    assert forall|u: Seq<&usize>, c: Seq<&Cycle>| u.len() > 0 implies (#[trigger] (vals(u) + flatr(c))).drop_first() == vals(u.drop_first()) + flatr(c) && (vals(u) + flatr(c))[0] == *u[0] by { lemma_rest1(u, flatr(c)); }
    assert forall|u: Seq<&usize>, v: Seq<&usize>, c: Seq<&Cycle>| u.len() == 0 && c.len() > 0 && c[0].data@.len() > 0 && #[trigger] vals(v) == c[0].data@.drop_first() implies (#[trigger] (vals(u) + flatr(c))).drop_first() == vals(v) + flatr(c.drop_first()) && (vals(u) + flatr(c))[0] == c[0].data@[0] by { lemma_rest2(u, v, c[0].data@, flatr(c.drop_first())); }
    assert forall|u: Seq<&usize>, v: Seq<usize>| u.len() == v.len() && v.len() > 0 && (forall|i: int| 0 <= i < v.len() ==> *#[trigger] u[i] == v[i]) implies #[trigger] vals(u.drop_first()) == #[trigger] v.drop_first() by { lemma_rest3(u, v); }
}
impl<'a> UnfixedIndexIter<'a> {
    #[verifier::prophetic]
    pub open spec fn rest(&self) -> Seq<usize> { vals(self.unfixed_indeces_iter.remaining()) + flatr(self.cycle_iter.remaining()) }
    #[verifier::prophetic]
    pub open spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.cycle_iter.remaining().len() ==> (#[trigger] self.cycle_iter.remaining()[i]).data@.len() > 0 }
//@fn UnfixedIndexIter::new params=p
//@.spec
    requires p.cycles@.len() >= 1, no_empty(p.cycles@) || p.cycles@.len() == 1,
    ensures r.rest() == flat(p.cycles@), r.ok(),
//@.exit
    proof { lemma_new(p.cycles@); }
//@end
//@fn <UnfixedIndexIter as Iterator>::next deref=cycle:data
//@.spec
    requires old(self).ok(),
    ensures final(self).ok(), match r { None => old(self).rest().len() == 0, Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() },
//@.entry
    proof { lemma_rest(); }
//@end
}

// ---- trusted: slice::sort leaves a rearrangement in the order of Cycle::cmp (verified above)
pub open spec fn hits(p: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < p.len() && p[i] == k }
pub open spec fn rearranged(a: Seq<Cycle>, b: Seq<Cycle>, p: Seq<int>) -> bool {
    p.len() == a.len() && a.len() == b.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len() && b[i] == a[p[i]]) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j])
        && (forall|k: int| 0 <= k < a.len() ==> #[trigger] hits(p, k))
}
#[verifier::external_body]
pub fn sort_cycles(v: &mut Vec<Cycle>)
    ensures exists|p: Seq<int>| rearranged(old(v)@, final(v)@, p), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] cyc_cmp(final(v)@[i].data@, final(v)@[j].data@) != Ordering::Greater,
{ v.sort_by(|a, b| a.cmp(b)) }
// the non-empty ones among the first k
pub open spec fn picked(cs: Seq<Cycle>, out: Seq<Cycle>, k: int, ix: Seq<int>) -> bool {
    ix.len() == out.len() && (forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i] < k && out[i].data@ == cs[ix[i]].data@ && out[i].data@.len() > 0) && (forall|i: int, j: int| 0 <= i < j < ix.len() ==> ix[i] < ix[j])
        && (forall|m: int| 0 <= m < k && #[trigger] cs[m].data@.len() > 0 ==> hits(ix, m))
}
pub open spec fn norm_of(out: Seq<Cycle>, res: Seq<Cycle>) -> bool {
    if out.len() == 0 { res.len() == 1 && res[0].data@.len() == 0 }
    else { (exists|p: Seq<int>| rearranged(out, res, p)) && (forall|i: int, j: int| 0 <= i < j < res.len() ==> #[trigger] cyc_cmp(res[i].data@, res[j].data@) != Ordering::Greater) }
}
proof fn lemma_norm(cs: Seq<Cycle>, out: Seq<Cycle>, res: Seq<Cycle>, ix: Seq<int>)
    requires all_wf(cs), disj(cs), picked(cs, out, cs.len() as int, ix), norm_of(out, res),
    ensures pwf(res), distinct(flat(res)), forall|n: usize| #[trigger] pmap(res, n) == pmap(cs, n), cs.len() == 1 ==> res.len() == 1 && res[0].data@ == cs[0].data@,
{
    if cs.len() == 1 {
        if cs[0].data@.len() > 0 { assert(hits(ix, 0)); if ix.len() > 1 { assert(ix[0] < ix[1]); } let p = choose|p: Seq<int>| rearranged(out, res, p); assert(0 <= p[0] < p.len()); assert(res[0] == out[p[0]]); assert(out[0].data@ == cs[ix[0]].data@); }
        else { if out.len() > 0 { assert(cs[ix[0]].data@.len() > 0); } assert(cs[0].data@ =~= Seq::empty()); assert(res[0].data@ =~= Seq::empty()); }
    }
    if out.len() == 0 {
        assert forall|n: usize| #[trigger] pmap(res, n) == pmap(cs, n) by {
            lemma_pmap(cs, n); assert(res.drop_first().len() == 0); assert(pmap(res.drop_first(), n) == n);
            assert forall|i: int| !#[trigger] inn(cs, i, n) by { if inn(cs, i, n) { assert(cs[i].data@.len() > 0); assert(hits(ix, i)); } }
            assert(pmap(res, n) == n);
        }
        assert(disj(res));
    } else {
        let p = choose|p: Seq<int>| rearranged(out, res, p);
        let q = Seq::new(p.len(), |i: int| ix[p[i]]);
        assert forall|i: int| 0 <= i < res.len() implies res[i].data@ == cs[#[trigger] q[i]].data@ && 0 <= q[i] < cs.len() && res[i].data@.len() > 0 by { assert(0 <= p[i] < p.len()); assert(ix[p[i]] == q[i]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(p[i] != p[j]); assert(0 <= p[i] < p.len() && 0 <= p[j] < p.len()); if p[i] < p[j] { assert(ix[p[i]] < ix[p[j]]); } else { assert(ix[p[j]] < ix[p[i]]); } }
        assert forall|i: int| 0 <= i < res.len() implies cyc_wf(#[trigger] res[i].data@) by { assert(res[i].data@ == cs[q[i]].data@); }
        assert forall|i: int, n: usize| #[trigger] inn(res, i, n) implies inn(cs, q[i], n) by { assert(res[i].data@ == cs[q[i]].data@); }
        assert forall|i: int, j: int, n: usize| i != j && #[trigger] inn(res, i, n) implies !#[trigger] inn(res, j, n) by {
            assert(inn(cs, q[i], n)); if inn(res, j, n) { assert(inn(cs, q[j], n)); if i < j { assert(q[i] != q[j]); } else { assert(q[j] != q[i]); } }
        }
        assert forall|i: int| 0 <= i < res.len() implies #[trigger] res[i].data@.len() > 0 by { assert(res[i].data@ == cs[q[i]].data@); }
        assert forall|i: int, j: int| 0 <= i < j < res.len() implies res[i].data@[0] < res[j].data@[0] by {
            assert(cyc_cmp(res[i].data@, res[j].data@) != Ordering::Greater);
            let n = res[i].data@[0]; assert(memb(res[i].data@, n)); assert(inn(res, i, n));
            if res[j].data@[0] == n { assert(inn(res, j, n)); }
        }
        assert forall|n: usize| #[trigger] pmap(res, n) == pmap(cs, n) by {
            lemma_pmap(cs, n); lemma_pmap(res, n);
            if exists|m: int| inn(cs, m, n) {
                let m = choose|m: int| inn(cs, m, n); assert(inn(cs, m, n)); assert(cs[m].data@.len() > 0); assert(hits(ix, m));
                let t = choose|t: int| 0 <= t < ix.len() && #[trigger] ix[t] == m;
                assert(hits(p, t));
                let u = choose|u: int| 0 <= u < p.len() && #[trigger] p[u] == t;
                assert(q[u] == m); assert(res[u].data@ == cs[m].data@); assert(inn(res, u, n));
            } else {
                assert forall|i: int| !#[trigger] inn(res, i, n) by { if inn(res, i, n) { assert(inn(cs, q[i], n)); } }
            }
        }
    }
    lemma_flat_distinct(res);
    assert forall|i: int| 0 <= i < res.len() implies distinct(#[trigger] res[i].data@) by { assert(cyc_wf(res[i].data@)); }
}
impl Permutation {
    pub open spec fn wf(&self) -> bool { pwf(self.cycles@) }
    pub open spec fn f(&self, n: usize) -> usize { pmap(self.cycles@, n) }
}
impl<'a> Permutation {
//@fn Permutation::unfixed_indeces_iter
//@.spec
    requires self.cycles@.len() >= 1, no_empty(self.cycles@) || self.cycles@.len() == 1,
    ensures r.rest() == flat(self.cycles@), r.ok(),
//@end
}
impl Permutation {
//@fn Permutation::is_valid method:contains=&v_contains iters=unfixed_indeces_iter
//@.spec
    requires self.cycles@.len() >= 1, no_empty(self.cycles@) || self.cycles@.len() == 1,
    ensures r == distinct(flat(self.cycles@)),
//@.loop 0
    invariant_except_break __it0.ok(), checker@ + __it0.rest() == flat(self.cycles@), distinct(checker@),
    ensures checker@ == flat(self.cycles@), distinct(checker@),
    decreases flat(self.cycles@).len() - checker@.len(),
//@.loop 0 begin
    proof { assert(flat(self.cycles@)[checker@.len() as int] == __x0); assert(forall|k: int| 0 <= k < checker@.len() ==> #[trigger] flat(self.cycles@)[k] == checker@[k]);
        let fl = flat(self.cycles@); let l = checker@.len() as int;
        if memb(checker@, __x0) { let k = at(checker@, __x0); assert(fl[k] == fl[l]); assert(!distinct(fl)); }
    }
    let ghost c0 = checker@;
//@.loop 0 end
    proof { assert(checker@ == c0.push(__x0)); let fl = flat(self.cycles@); assert(fl.subrange(0, checker@.len() as int) =~= checker@); assert(checker@ + fl.subrange(checker@.len() as int, fl.len() as int) =~= fl); }
//@end
//@fn Permutation::from_disjoint_cycles params=cycles clone_owned method:clone=&c_clone method:sort=~sort_cycles deref=cycle:data
//@.spec
    requires all_wf(cycles@), disj(cycles@),
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == pmap(cycles@, n), cycles@.len() == 1 ==> r.cycles@.len() == 1 && r.cycles@[0].data@ == cycles@[0].data@,
//@.entry
    let ghost cs = cycles@;
    let ghost mut ix: Seq<int> = Seq::empty();
//@.loop 0
    invariant 0 <= __i0 <= cycles@.len(), cycles@ == cs, picked(cs, __a0@, __i0 as int, ix),
    decreases cycles@.len() - __i0,
//@.loop 0 begin
    let ghost (a0, ix0) = (__a0@, ix);
//@.loop 0 end
    proof {
        let j = __j0 as int;
        if cs[j].data@.len() > 0 { ix = ix.push(j); assert(ix[ix0.len() as int] == j); assert(hits(ix, j)); }
        assert forall|m: int| 0 <= m < j + 1 && #[trigger] cs[m].data@.len() > 0 implies hits(ix, m) by { if m < j { assert(hits(ix0, m)); let t = choose|t: int| 0 <= t < ix0.len() && ix0[t] == m; assert(ix[t] == m); } }
        assert forall|i: int| 0 <= i < ix.len() implies 0 <= #[trigger] ix[i] < j + 1 && __a0@[i].data@ == cs[ix[i]].data@ && __a0@[i].data@.len() > 0 by { if i < ix0.len() { assert(ix[i] == ix0[i]); assert(__a0@[i] == a0[i]); } }
    }
//@.loop 0 after
    proof {
        let out = __a0@;
        assert forall|res: Seq<Cycle>| #![trigger flat(res)] #![trigger no_empty(res)] norm_of(out, res) implies pwf(res) && distinct(flat(res)) && (cs.len() == 1 ==> res.len() == 1 && res[0].data@ == cs[0].data@) && forall|n: usize| #[trigger] pmap(res, n) == pmap(cs, n) by { lemma_norm(cs, out, res, ix); }
        // a list of one is rearranged in one way only
        assert forall|a: Seq<Cycle>, b: Seq<Cycle>, p: Seq<int>| a.len() == 1 && #[trigger] rearranged(a, b, p) implies b == a by { assert(p[0] == 0); assert(b =~= a); }
    }
//@end
}

proof fn lemma_pmap_step(cs: Seq<Cycle>, k: int, n: usize)
    requires 0 <= k <= cs.len(), forall|i: int| 0 <= i < k ==> cmap(#[trigger] cs[i].data@, n) == n,
    ensures pmap(cs, n) == pmap(cs.subrange(k, cs.len() as int), n), decreases k,
{
    let t = cs.drop_first();
    if k == 0 { assert(cs.subrange(0, cs.len() as int) =~= cs); }
    else {
        assert(cmap(cs[0].data@, n) == n);
        assert forall|i: int| 0 <= i < k - 1 implies cmap(#[trigger] t[i].data@, n) == n by { assert(t[i] == cs[i + 1]); }
        lemma_pmap_step(t, k - 1, n);
        assert(t.subrange(k - 1, t.len() as int) =~= cs.subrange(k, cs.len() as int));
    }
}
// ---- the composite of two permutations, and its orbits
pub open spec fn comp(a: Seq<Cycle>, b: Seq<Cycle>, n: usize) -> usize { pmap(a, pmap(b, n)) }
// the points either one moves or lists
pub open spec fn listed(a: Seq<Cycle>, b: Seq<Cycle>) -> Seq<usize> { flat(b) + flat(a) }
proof fn lemma_comp(a: Seq<Cycle>, b: Seq<Cycle>)
    requires pwf(a), pwf(b),
    ensures forall|x: usize, y: usize| #[trigger] comp(a, b, x) == #[trigger] comp(a, b, y) ==> x == y,
        forall|x: usize| memb(listed(a, b), x) ==> memb(listed(a, b), #[trigger] comp(a, b, x)),
        forall|x: usize| !memb(listed(a, b), x) ==> #[trigger] comp(a, b, x) == x,
{
    let u = listed(a, b);
    assert forall|x: usize, y: usize| #[trigger] comp(a, b, x) == #[trigger] comp(a, b, y) implies x == y by { lemma_pmap_inj(a, pmap(b, x), pmap(b, y)); lemma_pmap_inj(b, x, y); }
    assert forall|x: usize| (memb(u, x) ==> memb(u, #[trigger] comp(a, b, x))) && (!memb(u, x) ==> comp(a, b, x) == x) by {
        let y = pmap(b, x); let z = pmap(a, y);
        lemma_listed(a, b, x); lemma_listed(a, b, z);
        lemma_stay(b, x); lemma_stay(a, y);
    }
}
proof fn lemma_listed(a: Seq<Cycle>, b: Seq<Cycle>, x: usize) ensures memb(listed(a, b), x) == (memb(flat(b), x) || memb(flat(a), x))
{
    let u = listed(a, b);
    if memb(u, x) { let i = at(u, x); if i < flat(b).len() { assert(flat(b)[i] == x); } else { assert(flat(a)[i - flat(b).len()] == x); } }
    if memb(flat(b), x) { let i = at(flat(b), x); assert(u[i] == x); }
    if memb(flat(a), x) { let i = at(flat(a), x); assert(u[flat(b).len() + i] == x); }
}
proof fn lemma_stay(b: Seq<Cycle>, x: usize) requires all_wf(b), disj(b) ensures memb(flat(b), x) == memb(flat(b), pmap(b, x)), !memb(flat(b), x) ==> pmap(b, x) == x
{
    let y = pmap(b, x);
    lemma_flat(b, x); lemma_flat(b, y); lemma_pmap(b, x);
    if exists|i: int| inn(b, i, x) { let i = choose|i: int| inn(b, i, x); lemma_pmap_in(b, x, i); assert(inn(b, i, y)); }
    if exists|i: int| inn(b, i, y) { let i = choose|i: int| inn(b, i, y); lemma_pmap_in(b, x, i); assert(inn(b, i, x)); }
}
// c is the part of the orbit of c[0] walked so far
pub open spec fn walk(a: Seq<Cycle>, b: Seq<Cycle>, c: Seq<usize>) -> bool { c.len() >= 1 && forall|i: int| 1 <= i < c.len() ==> #[trigger] c[i] == comp(a, b, c[i - 1]) }
proof fn lemma_walk(a: Seq<Cycle>, b: Seq<Cycle>, c: Seq<usize>, e: usize)
    requires pwf(a), pwf(b), walk(a, b, c), distinct(c), e == comp(a, b, c.last()), e != c[0], memb(listed(a, b), c.last()),
    ensures walk(a, b, c.push(e)), distinct(c.push(e)), memb(listed(a, b), e),
{
    lemma_comp(a, b);
    let d = c.push(e);
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies d[i] != d[j] by {
        if j == c.len() as int && d[i] == e { assert(i > 0); assert(c[i] == comp(a, b, c[i - 1])); assert(c[i - 1] == c.last()); assert(c[i - 1] != c[c.len() - 1]); }
    }
    assert forall|i: int| 1 <= i < d.len() implies #[trigger] d[i] == comp(a, b, d[i - 1]) by { if i < c.len() { assert(c[i] == comp(a, b, c[i - 1])); } }
}
// what the loop over the orbits has done: the points of `done` are settled by the cycles in `prod`
pub open spec fn settled(a: Seq<Cycle>, b: Seq<Cycle>, prod: Seq<Cycle>, done: Set<usize>) -> bool {
    &&& all_wf(prod)
    &&& disj(prod)
    &&& forall|x: usize| done.contains(x) ==> #[trigger] pmap(prod, x) == comp(a, b, x)
    &&& forall|i: int, x: usize| #[trigger] inn(prod, i, x) ==> done.contains(x)
    &&& forall|x: usize| done.contains(x) <==> done.contains(#[trigger] comp(a, b, x))
}
proof fn lemma_settle(a: Seq<Cycle>, b: Seq<Cycle>, prod: Seq<Cycle>, done: Set<usize>, c: Seq<usize>, cy: Cycle)
    requires pwf(a), pwf(b), settled(a, b, prod, done), walk(a, b, c), distinct(c), comp(a, b, c.last()) == c[0], !done.contains(c[0]),
        cyc_wf(cy.data@), forall|n: usize| #[trigger] cmap(cy.data@, n) == cmap(c, n), c.len() == 1 ==> cy.data@.len() == 0, c.len() >= 2 ==> same_cyc(cy.data@, c),
    ensures settled(a, b, prod.push(cy), done.union(c.to_set())),
{
    lemma_comp(a, b);
    let d2 = done.union(c.to_set());
    let p2 = prod.push(cy);
    assert forall|x: usize| #[trigger] d2.contains(x) <==> done.contains(x) || memb(c, x) by { if c.to_set().contains(x) { assert(c.contains(x)); } if memb(c, x) { let k = at(c, x); assert(c[k] == x); assert(c.contains(x)); } }
    assert forall|i: int| 0 <= i < c.len() implies !done.contains(#[trigger] c[i]) by { lemma_fresh(a, b, done, c, i); }
    assert forall|x: usize| memb(c, x) implies #[trigger] comp(a, b, x) == cmap(c, x) && memb(c, comp(a, b, x)) by {
        let i = at(c, x); lemma_at(c, i); lemma_cmap(c, x, x); if i + 1 < c.len() { assert(c[i + 1] == comp(a, b, c[i])); }
    }
    assert forall|x: usize| memb(c, #[trigger] comp(a, b, x)) implies memb(c, x) by {
        let y = comp(a, b, x); let i = at(c, y); if i > 0 { assert(c[i] == comp(a, b, c[i - 1])); } else { assert(c.last() == x); assert(c[c.len() - 1] == x); }
    }
    assert forall|i: int| 0 <= i < p2.len() implies cyc_wf(#[trigger] p2[i].data@) by { if i < prod.len() { assert(cyc_wf(prod[i].data@)); } }
    assert forall|i: int, x: usize| #[trigger] inn(p2, i, x) implies d2.contains(x) && (i < prod.len() ==> inn(prod, i, x)) && (i == prod.len() ==> memb(c, x) && memb(cy.data@, x)) by {
        if i < prod.len() { assert(p2[i] == prod[i]); assert(inn(prod, i, x)); } else { assert(c.len() >= 2); }
    }
    assert forall|i: int, j: int, n: usize| i != j && #[trigger] inn(p2, i, n) implies !#[trigger] inn(p2, j, n) by {
        if inn(p2, j, n) {
            if i < prod.len() && j < prod.len() { assert(inn(prod, i, n)); assert(inn(prod, j, n)); }
            else { assert(done.contains(n)); assert(memb(c, n)); let k = at(c, n); assert(!done.contains(c[k])); }
        }
    }
    assert forall|x: usize| d2.contains(x) implies #[trigger] pmap(p2, x) == comp(a, b, x) by {
        lemma_pmap(p2, x); lemma_pmap(prod, x);
        if memb(c, x) {
            if c.len() >= 2 { assert(inn(p2, prod.len() as int, x)); }
            else { assert(c[0] == x); assert(forall|i: int| !#[trigger] inn(p2, i, x)) by { assert forall|i: int| !#[trigger] inn(p2, i, x) by { if inn(p2, i, x) { if i < prod.len() { assert(inn(prod, i, x)); } } } } }
        } else {
            if exists|i: int| inn(prod, i, x) { let i = choose|i: int| inn(prod, i, x); assert(inn(prod, i, x)); assert(p2[i] == prod[i]); assert(inn(p2, i, x)); }
            else { assert forall|i: int| !#[trigger] inn(p2, i, x) by { if inn(p2, i, x) { if i < prod.len() { assert(inn(prod, i, x)); } } } }
        }
    }
    assert forall|x: usize| d2.contains(x) <==> d2.contains(#[trigger] comp(a, b, x)) by { assert(done.contains(x) <==> done.contains(comp(a, b, x))); }
}
proof fn lemma_fresh(a: Seq<Cycle>, b: Seq<Cycle>, done: Set<usize>, c: Seq<usize>, i: int)
    requires walk(a, b, c), 0 <= i < c.len(), !done.contains(c[0]), forall|x: usize| done.contains(x) <==> done.contains(#[trigger] comp(a, b, x)),
    ensures !done.contains(c[i]), decreases i,
{ if i > 0 { lemma_fresh(a, b, done, c, i - 1); assert(c[i] == comp(a, b, c[i - 1])); } }
// a list without repetition drawn from u is no longer than u
proof fn lemma_pigeon(c: Seq<usize>, u: Seq<usize>)
    requires distinct(c), forall|i: int| 0 <= i < c.len() ==> memb(u, #[trigger] c[i]), ensures c.len() <= u.len(),
{
    assert(c.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by { if i < j { assert(c[i] != c[j]); } else { assert(c[j] != c[i]); } } }
    c.unique_seq_to_set();
    u.lemma_cardinality_of_set();
    assert(c.to_set().subset_of(u.to_set())) by { assert forall|x: usize| c.to_set().contains(x) implies u.to_set().contains(x) by { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(memb(u, c[i])); let k = at(u, x); assert(u[k] == x); } }
    vstd::set_lib::lemma_len_subset(c.to_set(), u.to_set());
}
proof fn lemma_shift() ensures forall|a: Seq<usize>, b: Seq<usize>| b.len() > 0 ==> a.push(b[0]) + b.drop_first() == #[trigger] (a + b), forall|a: Seq<usize>, b: Seq<usize>| b.len() == 0 ==> #[trigger] (a + b) == a,
{
    assert forall|a: Seq<usize>, b: Seq<usize>| b.len() > 0 implies a.push(b[0]) + b.drop_first() == #[trigger] (a + b) by { assert(a.push(b[0]) + b.drop_first() =~= a + b); }
    assert forall|a: Seq<usize>, b: Seq<usize>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); }
}
proof fn lemma_kept(u: Seq<usize>, c: Seq<usize>, a0: Seq<usize>, a1: Seq<usize>, j: int)
    requires 0 <= j < u.len(), c.len() >= 1, c[0] == u[0], a1 == (if memb(c, u[j]) { a0 } else { a0.push(u[j]) }), forall|x: usize| #[trigger] memb(a0, x) <==> memb(u.subrange(0, j), x) && !memb(c, x),
    ensures forall|x: usize| #[trigger] memb(a1, x) <==> memb(u.subrange(0, j + 1), x) && !memb(c, x), j == 0 ==> a1 == a0, a1.len() <= a0.len() + 1,
{
    if j == 0 { assert(c[0] == u[j]); assert(memb(c, u[j])); }
    let (s, t) = (u.subrange(0, j), u.subrange(0, j + 1));
    assert forall|x: usize| #[trigger] memb(t, x) <==> memb(s, x) || x == u[j] by {
        if memb(s, x) { let k = at(s, x); assert(t[k] == x); } if x == u[j] { assert(t[j] == x); }
        if memb(t, x) { let k = at(t, x); if k < j { assert(s[k] == x); } }
    }
    assert forall|x: usize| #[trigger] memb(a1, x) <==> memb(a0, x) || (x == u[j] && !memb(c, u[j])) by {
        if memb(a0, x) { let k = at(a0, x); assert(a1[k] == x); } if x == u[j] && !memb(c, u[j]) { assert(a1[a0.len() as int] == x); }
        if memb(a1, x) { let k = at(a1, x); if k < a0.len() { assert(a0[k] == x); } }
    }
}
proof fn lemma_out(a: Seq<Cycle>, b: Seq<Cycle>, prod: Seq<Cycle>, done: Set<usize>, rest: Seq<usize>, n: usize)
    requires pwf(a), pwf(b), settled(a, b, prod, done), rest.len() == 0, forall|x: usize| #[trigger] memb(rest, x) <==> memb(listed(a, b), x) && !done.contains(x),
    ensures pmap(prod, n) == comp(a, b, n),
{
    lemma_comp(a, b);
    if !done.contains(n) { assert(!memb(rest, n)); assert(comp(a, b, n) == n); lemma_pmap(prod, n); assert forall|i: int| !#[trigger] inn(prod, i, n) by {} }
}
fn p_clone(a: &Permutation) -> (r: Permutation) ensures r.cycles@.len() == a.cycles@.len(), forall|i: int| 0 <= i < a.cycles@.len() ==> #[trigger] r.cycles@[i].data@ == a.cycles@[i].data@
{
    let mut v: Vec<Cycle> = Vec::new();
    let mut i: usize = 0;
    while i < a.cycles.len() invariant 0 <= i <= a.cycles.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k].data@ == a.cycles@[k].data@, decreases a.cycles.len() - i
    {
        let ghost v0 = v@;
        let x = c_clone(&a.cycles[i]);
        v.push(x);
        proof { assert forall|k: int| 0 <= k < i + 1 implies #[trigger] v@[k].data@ == a.cycles@[k].data@ by { if k < i { assert(v@[k] == v0[k]); } else { assert(v@[k] == x); } } }
        i += 1;
    }
    Permutation { cycles: v }
}
impl Permutation {
//@fn Permutation::map params=n deref=self:cycles
//@.spec
    requires all_wf(self.cycles@),
    ensures r == self.f(n),
//@.loop 0
    invariant 0 <= __i0 <= self.cycles@.len(), all_wf(self.cycles@), match __a0 { None => forall|i: int| 0 <= i < __i0 ==> cmap(#[trigger] self.cycles@[i].data@, n) == n,
        Some(k) => k == self.f(n) && k != n },
    decreases self.cycles@.len() - __i0,
//@.loop 0 begin
    proof { assert(cyc_wf(self.cycles@[__j0 as int].data@)); lemma_pmap_step(self.cycles@, __j0 as int, n); let t = self.cycles@.subrange(__j0 as int, self.cycles@.len() as int); assert(t[0] == self.cycles@[__j0 as int]); }
//@.loop 0 after
    proof { if __a0 is None { lemma_pmap_step(self.cycles@, self.cycles@.len() as int, n); } }
//@end
//@fn <Permutation as Group>::identity
//@.spec
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == n, r.cycles@.len() == 1 && r.cycles@[0].data@ == Seq::<usize>::empty(),
//@.exit
    proof { assert(__ret.cycles@.drop_first().len() == 0); assert forall|n: usize| #[trigger] __ret.f(n) == n by { assert(pmap(__ret.cycles@.drop_first(), n) == n); } }
//@end
//@fn Permutation::from_cycle params=cycle
//@.spec
    requires cyc_wf(cycle.data@),
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == cmap(cycle.data@, n),
//@.exit
    proof { assert(__ret.cycles@[0] == cycle); assert forall|n: usize| #[trigger] __ret.f(n) == cmap(cycle.data@, n) by { assert(pmap(__ret.cycles@.drop_first(), n) == n); } }
//@end
//@fn Permutation::cyclic_from params=r ret=out
//@.spec
    ensures out.wf(), forall|n: usize| #[trigger] out.f(n) == (if r.start <= n < r.end { if n + 1 < r.end { (n + 1) as usize } else { r.start } } else { n }),
//@.exit
    proof {
        let c = __ret.cycles@[0].data@;
        assert forall|n: usize| #[trigger] __ret.f(n) == (if r.start <= n < r.end { if n + 1 < r.end { (n + 1) as usize } else { r.start } } else { n }) by {
            assert(pmap(__ret.cycles@.drop_first(), n) == n);
            if r.start <= n < r.end && c.len() > 0 { lemma_at(c, n - r.start); }
        }
    }
//@end
//@fn <Permutation as Mul>::mul params=other iters=unfixed_indeces_iter clone_owned method:contains=&v_contains method:map=&Permutation::map
//@.spec
    requires self.wf(), other.wf(),
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == self.f(other.f(n)),
//@.entry
    let ghost (a, b) = (self.cycles@, other.cycles@);
    let ghost u = listed(a, b);
    let ghost mut done: Set<usize> = Set::empty();
    proof { lemma_comp(a, b); }
//@.loop 0
    invariant_except_break __it0.ok(), __a0@ + __it0.rest() == flat(other.cycles@),
    ensures __a0@ == flat(other.cycles@),
    decreases flat(other.cycles@).len() - __a0@.len(),
//@.loop 0 begin
    proof { lemma_shift(); }
//@.loop 1
    invariant_except_break __it1.ok(), unfixed_indeces@ + __it1.rest() == flat(other.cycles@) + flat(self.cycles@),
    ensures unfixed_indeces@ == flat(other.cycles@) + flat(self.cycles@),
    decreases flat(other.cycles@).len() + flat(self.cycles@).len() - unfixed_indeces@.len(),
//@.loop 1 begin
    proof { lemma_shift(); }
//@.loop 2
    invariant a == self.cycles@, b == other.cycles@, self.wf(), other.wf(), u == listed(a, b), settled(a, b, product@, done),
        forall|x: usize| #[trigger] memb(unfixed_indeces@, x) <==> memb(u, x) && !done.contains(x),
    decreases unfixed_indeces@.len(),
//@.loop 2 begin
    proof { lemma_comp(a, b); assert(unfixed_indeces@[0] == unfixed_indeces@.first()); assert(memb(unfixed_indeces@, unfixed_indeces@[0])); }
    let ghost u0 = unfixed_indeces@;
    let ghost (d0, p0) = (done, product@);
//@.loop 3
    invariant a == self.cycles@, b == other.cycles@, self.wf(), other.wf(), u == listed(a, b), walk(a, b, cycle@), distinct(cycle@), cycle@[0] == first_elem, elem == cycle@.last(),
        forall|i: int| 0 <= i < cycle@.len() ==> memb(u, #[trigger] cycle@[i]),
    decreases u.len() - cycle@.len(),
//@.loop 3 begin
    proof { lemma_walk(a, b, cycle@, comp(a, b, elem)); lemma_pigeon(cycle@.push(comp(a, b, elem)), u); }
//@.loop 3 after
    let ghost c = cycle@;
//@.loop 4
    invariant 0 <= __i4 <= unfixed_indeces@.len(), unfixed_indeces@ == u0, cycle@ == c, c.len() >= 1, u0.len() >= 1, c[0] == u0[0], __a4@.len() <= __i4, __i4 > 0 ==> __a4@.len() < __i4,
        forall|x: usize| #[trigger] memb(__a4@, x) <==> memb(u0.subrange(0, __i4 as int), x) && !memb(c, x),
    decreases unfixed_indeces@.len() - __i4,
//@.loop 4 begin
    let ghost a0 = __a4@;
//@.loop 4 end
    proof { lemma_kept(u0, c, a0, __a4@, __j4 as int); }
//@.loop 4 after
    proof { assert(u0.subrange(0, u0.len() as int) =~= u0); }
//@.loop 2 end
    proof {
        lemma_settle(a, b, p0, d0, c, product@.last());
        done = d0.union(c.to_set());
        assert(p0.push(product@.last()) =~= product@);
        assert forall|x: usize| #[trigger] memb(unfixed_indeces@, x) <==> memb(u, x) && !done.contains(x) by { if c.to_set().contains(x) { assert(c.contains(x)); } if memb(c, x) { let k = at(c, x); assert(c[k] == x); assert(c.contains(x)); } }
    }
//@.loop 2 after
    proof { assert forall|n: usize| #[trigger] pmap(product@, n) == comp(a, b, n) by { lemma_out(a, b, product@, done, unfixed_indeces@, n); } }
//@end
}

// ------------------------------------------------------------------ products, powers, generators, inverse
// the factors applied one after another, the last one last
pub open spec fn pprod(s: Seq<Permutation>, k: int, n: usize) -> usize decreases k { if k <= 0 { n } else { s[k - 1].f(pprod(s, k - 1, n)) } }
pub open spec fn rprod(s: Seq<Permutation>, k: int, n: usize) -> usize decreases k { if k <= 0 { n } else { rprod(s, k - 1, s[k - 1].f(n)) } }
pub open spec fn iter_f(p: Seq<Cycle>, k: int, n: usize) -> usize decreases k { if k <= 0 { n } else { pmap(p, iter_f(p, k - 1, n)) } }
pub open spec fn all_pwf(s: Seq<Permutation>) -> bool { forall|i: int| 0 <= i < s.len() ==> pwf(#[trigger] s[i].cycles@) }
pub open spec fn same_data(a: Seq<Cycle>, b: Seq<Cycle>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].data@ == b[i].data@ }
pub proof fn lemma_same_pmap(a: Seq<Cycle>, b: Seq<Cycle>, n: usize) requires same_data(a, b) ensures pmap(a, n) == pmap(b, n) decreases a.len()
{ if a.len() > 0 { let (x, y) = (a.drop_first(), b.drop_first()); assert(a[0].data@ == b[0].data@); assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i].data@ == y[i].data@ by { assert(a[i + 1].data@ == b[i + 1].data@); } lemma_same_pmap(x, y, n); } }
pub proof fn lemma_same(a: Seq<Cycle>, b: Seq<Cycle>) requires same_data(a, b), pwf(b) ensures pwf(a), forall|n: usize| #[trigger] pmap(a, n) == pmap(b, n)
{
    assert forall|i: int, n: usize| #[trigger] inn(a, i, n) implies inn(b, i, n) by { assert(a[i].data@ == b[i].data@); }
    assert forall|i: int| 0 <= i < a.len() implies cyc_wf(#[trigger] a[i].data@) by { assert(cyc_wf(b[i].data@)); }
    if no_empty(b) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i].data@.len() > 0 by { assert(b[i].data@.len() > 0); } }
    assert forall|n: usize| #[trigger] pmap(a, n) == pmap(b, n) by { lemma_same_pmap(a, b, n); }
    assert forall|i: int, j: int, n: usize| i != j && #[trigger] inn(a, i, n) implies !#[trigger] inn(a, j, n) by { assert(inn(b, i, n)); if inn(a, j, n) { assert(inn(b, j, n)); } }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i].data@[0] < a[j].data@[0] by { assert(a[i].data@ == b[i].data@ && a[j].data@ == b[j].data@); }
}
fn p_copy(a: &Permutation) -> (r: Permutation) requires a.wf() ensures r.wf(), same_data(r.cycles@, a.cycles@), is_gen(*a) ==> is_gen(r), forall|n: usize| #[trigger] r.f(n) == a.f(n)
{ let r = p_clone(a); proof { lemma_same(r.cycles@, a.cycles@); } r }
// the derived == of Permutation
fn p_eq(a: &Permutation, b: &Permutation) -> (r: bool) ensures r == same_data(a.cycles@, b.cycles@)
{
    if a.cycles.len() != b.cycles.len() { return false; }
    let mut i: usize = 0;
    while i < a.cycles.len() invariant 0 <= i <= a.cycles.len(), a.cycles@.len() == b.cycles@.len(), forall|k: int| 0 <= k < i ==> #[trigger] a.cycles@[k].data@ == b.cycles@[k].data@, decreases a.cycles.len() - i
    { if !c_eq(&a.cycles[i], &b.cycles[i]) { assert(a.cycles@[i as int].data@ != b.cycles@[i as int].data@); return false; } i += 1; }
    true
}
// a generator: the identity or one transposition
pub open spec fn is_gen(p: Permutation) -> bool { p.wf() && p.cycles@.len() == 1 && (p.cycles@[0].data@.len() == 0 || p.cycles@[0].data@.len() == 2) }
pub open spec fn tr(a: usize, b: usize, n: usize) -> usize { if n == a { b } else if n == b { a } else { n } }
proof fn lemma_gen(p: Permutation)
    requires is_gen(p),
    ensures p.cycles@[0].data@.len() == 0 ==> forall|n: usize| #[trigger] p.f(n) == n, p.cycles@[0].data@.len() == 2 ==> p.cycles@[0].data@[0] != p.cycles@[0].data@[1] && forall|n: usize| #[trigger] p.f(n) == tr(p.cycles@[0].data@[0], p.cycles@[0].data@[1], n),
        forall|n: usize| #[trigger] p.f(p.f(n)) == n,
{
    let c = p.cycles@[0].data@;
    assert(p.cycles@.drop_first().len() == 0);
    assert(cyc_wf(c));
    assert forall|n: usize| #[trigger] p.f(n) == cmap(c, n) by { assert(pmap(p.cycles@.drop_first(), n) == n); }
    if c.len() == 2 {
        lemma_at(c, 0); lemma_at(c, 1);
        assert forall|n: usize| #[trigger] p.f(n) == tr(c[0], c[1], n) by { if memb(c, n) { let i = at(c, n); lemma_at(c, i); } }
    }
    assert forall|n: usize| #[trigger] p.f(p.f(n)) == n by { let m = p.f(n); assert(p.f(m) == cmap(c, m)); }
}
proof fn lemma_rprod(s: Seq<Permutation>, k: int, n: usize)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> is_gen(#[trigger] s[i]),
    ensures rprod(s, k, pprod(s, k, n)) == n, pprod(s, k, rprod(s, k, n)) == n, decreases k,
{
    if k > 0 {
        let g = s[k - 1]; lemma_gen(g);
        lemma_rprod(s, k - 1, n);
        assert(g.f(g.f(pprod(s, k - 1, n))) == pprod(s, k - 1, n));
        lemma_rprod(s, k - 1, g.f(n));
        assert(g.f(g.f(n)) == n);
    }
}
proof fn lemma_rev(s: Seq<Permutation>, t: Seq<Permutation>, m: int, n: usize)
    requires s.len() == t.len(), 0 <= m <= s.len(), forall|i: int, x: usize| 0 <= i < s.len() ==> #[trigger] t[i].f(x) == s[s.len() - 1 - i].f(x),
    ensures rprod(s, s.len() as int, n) == rprod(s, s.len() - m, pprod(t, m, n)), decreases m,
{ if m > 0 { lemma_rev(s, t, m - 1, n); let y = pprod(t, m - 1, n); assert(t[m - 1].f(y) == s[s.len() - 1 - (m - 1)].f(y)); } }
// the product of (c0 c1), (c0 c2) .. (c0 c_k-1) is the cycle c0 c1 .. c_k-1
proof fn lemma_cycle_step(c: Seq<usize>, k: int, x: usize)
    requires distinct(c), 1 <= k < c.len(),
    ensures tr(c[0], c[k], cmap(c.subrange(0, k), x)) == cmap(c.subrange(0, k + 1), x),
{
    let (p, q) = (c.subrange(0, k), c.subrange(0, k + 1));
    assert(distinct(p) && distinct(q));
    if memb(q, x) { let i = at(q, x); lemma_at(q, i); if i < k { assert(p[i] == x); lemma_at(p, i); assert(c[i] == x); if i + 1 < k { assert(c[i + 1] != c[k]); assert(c[0] != c[i + 1]); } } else { assert(c[k] == x); if memb(p, x) { let j = at(p, x); assert(c[j] == x); assert(c[j] != c[k]); } } }
    else { if memb(p, x) { let j = at(p, x); assert(q[j] == x); } assert(x != c[0]) by { assert(q[0] == c[0]); } assert(x != c[k]) by { assert(q[k] == c[k]); } }
}
proof fn lemma_pmap_last(cs: Seq<Cycle>, i: int, n: usize)
    requires all_wf(cs), disj(cs), 0 <= i < cs.len(),
    ensures pmap(cs.subrange(0, i + 1), n) == cmap(cs[i].data@, pmap(cs.subrange(0, i), n)),
{
    let (p, q) = (cs.subrange(0, i), cs.subrange(0, i + 1));
    lemma_sub(cs, i); lemma_sub(cs, i + 1);
    lemma_pmap(p, n); lemma_pmap(q, n);
    let y = pmap(p, n);
    assert(cyc_wf(cs[i].data@)); lemma_cmap(cs[i].data@, y, y); lemma_cmap(cs[i].data@, n, n);
    if exists|j: int| inn(p, j, n) {
        let j = choose|j: int| inn(p, j, n); assert(inn(p, j, n));
        lemma_pmap_in(p, n, j); assert(inn(cs, j, y)); assert(!inn(cs, i, y)); assert(q[j] == cs[j]); assert(inn(q, j, n));
    } else {
        if memb(cs[i].data@, n) { assert(inn(q, i, n)); }
        else { assert forall|j: int| !#[trigger] inn(q, j, n) by { if inn(q, j, n) { if j < i { assert(p[j] == q[j]); assert(inn(p, j, n)); } } } }
    }
}
proof fn lemma_sub(cs: Seq<Cycle>, i: int) requires all_wf(cs), disj(cs), 0 <= i <= cs.len() ensures all_wf(cs.subrange(0, i)), disj(cs.subrange(0, i))
{
    let p = cs.subrange(0, i);
    assert forall|j: int, n: usize| #[trigger] inn(p, j, n) implies inn(cs, j, n) by { assert(p[j] == cs[j]); }
    assert forall|j: int| 0 <= j < p.len() implies cyc_wf(#[trigger] p[j].data@) by { assert(cyc_wf(cs[j].data@)); }
    assert forall|a: int, b: int, n: usize| a != b && #[trigger] inn(p, a, n) implies !#[trigger] inn(p, b, n) by { assert(inn(cs, a, n)); if inn(p, b, n) { assert(inn(cs, b, n)); } }
}
impl Permutation {
//@fn <Permutation as Product>::product params=iter seqs=iter I=Vec<Self> op:*=Permutation::mul clone_owned method:clone=&p_copy
//@.spec
    requires all_pwf(iter@),
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == pprod(iter@, iter@.len() as int, n),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), all_pwf(iter@), __a0.wf(), forall|n: usize| #[trigger] __a0.f(n) == pprod(iter@, __i0 as int, n),
    decreases iter.len() - __i0,
//@.loop 0 begin
    proof { assert(pwf(iter@[__j0 as int].cycles@)); }
//@end
//@fn <Permutation as Group>::inverse_of_gen
//@.spec
    ensures r == self,
//@end
//@fn <Permutation as Group>::in_terms_of_gens nodebug op:===&p_eq deref=cycle:data
//@.spec
    requires self.wf(),
    ensures forall|i: int| 0 <= i < r@.len() ==> is_gen(#[trigger] r@[i]), all_pwf(r@), forall|n: usize| #[trigger] pprod(r@, r@.len() as int, n) == self.f(n),
        forall|i: int, n: usize| 0 <= i < r@.len() && #[trigger] r@[i].f(n) != n ==> self.f(n) != n,
//@.entry
    let ghost cs = self.cycles@;
    proof { lemma_one_prod(); assert(cs.subrange(0, 0) =~= Seq::empty());
        if !no_empty(cs) { assert(cs[0].data@ =~= Seq::empty()); } }
//@.loop 0
    invariant 0 <= __i0 <= self.cycles@.len(), cs == self.cycles@, pwf(cs), no_empty(cs), forall|i: int| 0 <= i < gens@.len() ==> is_gen(#[trigger] gens@[i]), forall|i: int, n: usize| 0 <= i < gens@.len() && #[trigger] gens@[i].f(n) != n ==> self.f(n) != n,
        forall|n: usize| #[trigger] pprod(gens@, gens@.len() as int, n) == pmap(cs.subrange(0, __i0 as int), n),
    decreases self.cycles@.len() - __i0,
//@.loop 0 begin
    let ghost i = __j0 as int;
    let ghost c = cs[i].data@;
    let ghost g0 = gens@;
    proof { assert(c.len() > 0); assert(cyc_wf(c)); assert forall|n: usize| #[trigger] pprod(gens@, gens@.len() as int, n) == cmap(c.subrange(0, 1), pmap(cs.subrange(0, i), n)) by {
        let y = pmap(cs.subrange(0, i), n); assert(c.subrange(0, 1).len() == 1); assert(distinct(c.subrange(0, 1))); lemma_cmap(c.subrange(0, 1), y, y); } }
//@.loop 1
    invariant 0 <= __i1 <= c.len(), 0 <= i < cs.len(), cs == self.cycles@, pwf(cs), no_empty(cs), c == cs[i].data@, c == self.cycles@[__j0 as int].data@, cyc_wf(c), c.len() >= 2, first_elem == c[0], cycle.data@ == c, __j0 == i, forall|i: int| 0 <= i < gens@.len() ==> is_gen(#[trigger] gens@[i]), forall|i: int, n: usize| 0 <= i < gens@.len() && #[trigger] gens@[i].f(n) != n ==> self.f(n) != n,
        forall|n: usize| #[trigger] pprod(gens@, gens@.len() as int, n) == cmap(c.subrange(0, if __i1 == 0 { 1 } else { __i1 as int }), pmap(cs.subrange(0, i), n)),
    decreases c.len() - __i1,
//@.loop 1 begin
    let ghost gg = gens@;
    proof { lemma_single(); lemma_two(); assert(__j1 > 0 ==> c[0] != c[__j1 as int]); }
//@.loop 1 end
    proof {
        let k = __j1 as int;
        if k > 0 {
            assert(c[0] != c[k]);
            let g = gens@.last();
            assert(gens@ == gg.push(g));
            assert forall|n: usize| #[trigger] g.f(n) != n implies self.f(n) != n by { assert(g.f(n) == tr(c[0], c[k], n)); if n == c[0] { lemma_moved(cs, i, 0); } else { lemma_moved(cs, i, k); } }
            assert forall|i: int, n: usize| 0 <= i < gens@.len() && #[trigger] gens@[i].f(n) != n implies self.f(n) != n by { if i < gg.len() { assert(gg[i].f(n) != n); } }
            assert forall|n: usize| #[trigger] pprod(gens@, gens@.len() as int, n) == cmap(c.subrange(0, k + 1), pmap(cs.subrange(0, i), n)) by {
                lemma_pprod_ext(gg, gens@, gg.len() as int, n);
                assert(pprod(gg, gg.len() as int, n) == cmap(c.subrange(0, k), pmap(cs.subrange(0, i), n)));
                lemma_cycle_step(c, k, pmap(cs.subrange(0, i), n));
            }
        }
    }
//@.loop 0 end
    proof { assert forall|n: usize| #[trigger] pprod(gens@, gens@.len() as int, n) == pmap(cs.subrange(0, i + 1), n) by { lemma_pmap_last(cs, i, n); assert(c.subrange(0, c.len() as int) =~= c); } }
//@.loop 0 after
    proof { assert(cs.subrange(0, cs.len() as int) =~= cs); }
//@end
}
proof fn lemma_moved(cs: Seq<Cycle>, i: int, k: int)
    requires all_wf(cs), disj(cs), 0 <= i < cs.len(), 0 <= k < cs[i].data@.len(), cs[i].data@.len() >= 2,
    ensures pmap(cs, cs[i].data@[k]) != cs[i].data@[k],
{ let c = cs[i].data@; assert(cyc_wf(c)); let n = c[k]; assert(inn(cs, i, n)); lemma_pmap(cs, n); lemma_at(c, k); if k + 1 < c.len() { assert(c[k + 1] != c[k]); } else { assert(c[0] != c[k]); } }
proof fn lemma_single() ensures forall|cs: Seq<Cycle>, n: usize| cs.len() == 1 ==> #[trigger] pmap(cs, n) == cmap(cs[0].data@, n)
{ assert forall|cs: Seq<Cycle>, n: usize| cs.len() == 1 implies #[trigger] pmap(cs, n) == cmap(cs[0].data@, n) by { assert(pmap(cs.drop_first(), n) == n); } }
proof fn lemma_two() ensures forall|c: Seq<usize>, n: usize| c.len() == 2 && c[0] != c[1] ==> #[trigger] cmap(c, n) == tr(c[0], c[1], n), forall|c: Seq<usize>| c.len() == 2 && c[0] != c[1] ==> #[trigger] distinct(c)
{
    assert forall|c: Seq<usize>, n: usize| c.len() == 2 && c[0] != c[1] implies #[trigger] cmap(c, n) == tr(c[0], c[1], n) by {
        assert(distinct(c)); lemma_at(c, 0); lemma_at(c, 1); if memb(c, n) { let i = at(c, n); lemma_at(c, i); } }
}
proof fn lemma_one_prod() ensures forall|r: Seq<Permutation>, n: usize| r.len() == 1 ==> #[trigger] pprod(r, 1, n) == r[0].f(n)
{ assert forall|r: Seq<Permutation>, n: usize| r.len() == 1 implies #[trigger] pprod(r, 1, n) == r[0].f(n) by { assert(pprod(r, 0, n) == n); } }
proof fn lemma_pprod_ext(a: Seq<Permutation>, b: Seq<Permutation>, k: int, n: usize) requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures pprod(a, k, n) == pprod(b, k, n) decreases k
{ if k > 0 { lemma_pprod_ext(a, b, k - 1, n); } }
impl Permutation {
//@file alg/src/non_commutative.rs
//@fn Group::inverse key=Group::inverse Self=Permutation product_fn=Permutation::product clone_owned method:clone=&p_copy
//@.spec
    requires self.wf(),
    ensures r.wf(), forall|n: usize| #[trigger] r.f(self.f(n)) == n, forall|n: usize| self.f(#[trigger] r.f(n)) == n,
//@.entry
    let ghost me = self;
//@.loop 0
    invariant 0 <= __i0 <= gens@.len(), __a0@.len() == __i0, all_pwf(__a0@), forall|i: int| 0 <= i < gens@.len() ==> is_gen(#[trigger] gens@[i]), all_pwf(gens@),
        forall|i: int, x: usize| 0 <= i < __a0@.len() ==> #[trigger] __a0@[i].f(x) == gens@[gens@.len() - 1 - i].f(x),
    decreases gens@.len() - __i0,
//@.loop 0 begin
    let ghost old_a = __a0@;
    proof { assert(pwf(gens@[gens@.len() - 1 - __j0].cycles@)); }
//@.loop 0 end
    proof { assert(__a0@ == old_a.push(__a0@.last())); }
//@.loop 0 after
    proof {
        let (g, t) = (gens@, __a0@); let k = gens@.len() as int;
        assert forall|n: usize| #[trigger] pprod(t, t.len() as int, self.f(n)) == n by { lemma_rev(g, t, k, self.f(n)); assert(pprod(g, k, n) == self.f(n)); lemma_rprod(g, k, n); }
        assert forall|n: usize| self.f(#[trigger] pprod(t, t.len() as int, n)) == n by { lemma_rev(g, t, k, n); lemma_rprod(g, k, n); let m = pprod(t, k, n); assert(pprod(g, k, m) == self.f(m)); }
    }
//@end
}
proof fn lemma_iter_shift(p: Seq<Cycle>, k: int, n: usize) requires k >= 1 ensures iter_f(p, k, n) == iter_f(p, k - 1, pmap(p, n)) decreases k
{ if k > 1 { lemma_iter_shift(p, k - 1, n); } else { assert(iter_f(p, 0, n) == n); assert(iter_f(p, 1, n) == pmap(p, iter_f(p, 0, n))); } }
proof fn lemma_iter_inv(p: Seq<Cycle>, q: Seq<Cycle>, k: int, n: usize)
    requires k >= 0, forall|n: usize| #[trigger] pmap(q, pmap(p, n)) == n,
    ensures iter_f(q, k, iter_f(p, k, n)) == n, decreases k,
{ if k > 0 { lemma_iter_inv(p, q, k - 1, n); lemma_iter_shift(q, k, iter_f(p, k, n)); } }
proof fn lemma_all_same(s: Seq<Permutation>, p: Permutation, k: int, n: usize)
    requires 0 <= k <= s.len(), forall|i: int, x: usize| 0 <= i < s.len() ==> #[trigger] s[i].f(x) == p.f(x),
    ensures pprod(s, k, n) == iter_f(p.cycles@, k, n), decreases k,
{ if k > 0 { lemma_all_same(s, p, k - 1, n); assert(s[k - 1].f(pprod(s, k - 1, n)) == p.f(pprod(s, k - 1, n))); } }
impl Permutation {
//@file alg/src/non_commutative/permutation.rs
//@fn <Permutation as BitXor>::bitxor params=power Self::Output=Permutation product_fn=Permutation::product method:clone=&p_copy method:unsigned_abs=i_uabs nodebug
//@.spec
    requires self.wf(), power < i64::MAX,
    ensures r.wf(), power >= 0 ==> forall|n: usize| #[trigger] r.f(n) == iter_f(self.cycles@, power as int, n),
        power < 0 ==> forall|n: usize| iter_f(self.cycles@, -power as int, #[trigger] r.f(n)) == n,
        power < 0 ==> forall|n: usize| #[trigger] r.f(iter_f(self.cycles@, -power as int, n)) == n,
//@.exit
    proof { if power == 0 { assert forall|n: usize| #[trigger] __ret.f(n) == iter_f(self.cycles@, 0, n) by { } } }
//@.loop 0
    invariant 1 <= __i0 <= power + 1, __h0 == power, power < i64::MAX, __a0@.len() == __i0 - 1, self.wf(), all_pwf(__a0@),
        forall|i: int, x: usize| 0 <= i < __a0@.len() ==> #[trigger] __a0@[i].f(x) == self.f(x),
    decreases power + 1 - __i0,
//@.loop 0 begin
    let ghost old_a = __a0@;
//@.loop 0 end
    proof { assert(__a0@ == old_a.push(__a0@.last())); }
//@.loop 0 after
    proof { let t = __a0@; assert forall|n: usize| #[trigger] pprod(t, t.len() as int, n) == iter_f(self.cycles@, power as int, n) by { lemma_all_same(t, self, t.len() as int, n); } }
//@.loop 1
    invariant 0 <= __i1 <= __h1, __h1 == -power, __a1@.len() == __i1, inv.wf(), all_pwf(__a1@),
        forall|i: int, x: usize| 0 <= i < __a1@.len() ==> #[trigger] __a1@[i].f(x) == inv.f(x),
    decreases __h1 - __i1,
//@.loop 1 begin
    let ghost old_a = __a1@;
//@.loop 1 end
    proof { assert(__a1@ == old_a.push(__a1@.last())); }
//@.loop 1 after
    proof { let t = __a1@; let k = -power as int; let (p, q) = (self.cycles@, inv.cycles@);
        assert forall|n: usize| #[trigger] pmap(q, pmap(p, n)) == n by { assert(inv.f(self.f(n)) == n); }
        assert forall|n: usize| #[trigger] pmap(p, pmap(q, n)) == n by { assert(self.f(inv.f(n)) == n); }
        assert forall|n: usize| iter_f(p, k, #[trigger] pprod(t, t.len() as int, n)) == n by { lemma_all_same(t, inv, k, n); lemma_iter_inv(q, p, k, n); }
        assert forall|n: usize| #[trigger] pprod(t, t.len() as int, iter_f(p, k, n)) == n by { lemma_all_same(t, inv, k, iter_f(p, k, n)); lemma_iter_inv(p, q, k, n); } }
//@end
}
// where the exchange of [a,b) and [c,d), b <= c, sends n; what is between them keeps its order
pub open spec fn swp(a: usize, b: usize, c: usize, d: usize, n: usize) -> int
{ if a <= n < b { n + d - b } else if b <= n < c { n + (d - c) - (b - a) } else if c <= n < d { a + (n - c) } else { n as int } }
pub open spec fn is_pair(c: Seq<usize>, x: usize, y: usize) -> bool { c.len() == 2 && c[0] == x && c[1] == y && x != y }
fn r_empty(r: &std::ops::Range<usize>) -> (b: bool) ensures b == !(r.start < r.end) { !(r.start < r.end) }
pub open spec fn swp2(a: usize, b: usize, c: usize, d: usize, n: usize) -> int { if b <= c { swp(a, b, c, d, n) } else { swp(c, d, a, b, n) } }
impl Permutation {
//@fn Permutation::swap_ranges_of_the_same_length params=r1,r2 ranges=r1,r2 acc0=Vec<Cycle>
//@.spec
    requires r1.start < r1.end, r1.end <= r2.start, r2.start < r2.end, r1.end - r1.start == r2.end - r2.start,
    ensures r.wf(), forall|n: usize| #[trigger] r.f(n) == swp(r1.start, r1.end, r2.start, r2.end, n),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __n0 == r1.end - r1.start, __a0@.len() == __i0, forall|i: int| 0 <= i < __a0@.len() ==> is_pair(#[trigger] __a0@[i].data@, (r1.start + i) as usize, (r2.start + i) as usize),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost old_a = __a0@;
    proof { lemma_two(); }
//@.loop 0 end
    proof {
        assert(__a0@ == old_a.push(__a0@.last())); let c = __a0@.last().data@; let (x, y) = ((r1.start + __j0) as usize, (r2.start + __j0) as usize);
        lemma_at(c, 0); lemma_at(c, 1);
        assert(cmap(c, x) == y);
    }
//@.exit
    proof {
        let cs = __ret.cycles@; let m = r1.end - r1.start;
        lemma_two();
        assert forall|i: int, n: usize| #[trigger] inn(cs, i, n) implies n == r1.start + i || n == r2.start + i by { assert(is_pair(cs[i].data@, (r1.start + i) as usize, (r2.start + i) as usize)); }
        assert forall|i: int| 0 <= i < cs.len() implies cyc_wf(#[trigger] cs[i].data@) by { assert(is_pair(cs[i].data@, (r1.start + i) as usize, (r2.start + i) as usize)); }
        assert forall|i: int, j: int| 0 <= i < j < cs.len() implies cs[i].data@[0] < cs[j].data@[0] by { assert(is_pair(cs[i].data@, (r1.start + i) as usize, (r2.start + i) as usize)); assert(is_pair(cs[j].data@, (r1.start + j) as usize, (r2.start + j) as usize)); }
        assert(disj(cs)); assert(no_empty(cs)); 
        assert forall|n: usize| #[trigger] __ret.f(n) == swp(r1.start, r1.end, r2.start, r2.end, n) by {
            lemma_pmap(cs, n);
            if r1.start <= n < r1.end { let i = n - r1.start; assert(is_pair(cs[i].data@, (r1.start + i) as usize, (r2.start + i) as usize)); assert(cs[i].data@[0] == n); assert(inn(cs, i, n)); }
            else if r2.start <= n < r2.end { let i = n - r2.start; assert(is_pair(cs[i].data@, (r1.start + i) as usize, (r2.start + i) as usize)); assert(cs[i].data@[1] == n); assert(inn(cs, i, n)); }
        }
    }
//@end
//@fn Permutation::swap params=r1,r2 ranges=r1,r2 op:*=Permutation::mul method:is_empty=&r_empty maypanic
//@.spec
    requires r1.start <= r1.end, r2.start <= r2.end,
    ensures r.wf(), r1.start < r1.end && r2.start < r2.end ==> forall|n: usize| #[trigger] r.f(n) == swp2(r1.start, r1.end, r2.start, r2.end, n),
        !(r1.start < r1.end && r2.start < r2.end) ==> forall|n: usize| #[trigger] r.f(n) == n,
    decreases (if r1.end > r2.end { r1.end as int } else { r2.end as int }) - (if r1.start < r2.start { r1.start as int } else { r2.start as int }), (if r1.end <= r2.start { 0int } else { 1int }),
//@end
}
// i64::unsigned_abs
fn i_uabs(a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int }) { if a == i64::MIN { 9223372036854775808u64 } else if a < 0 { (-a) as u64 } else { a as u64 } }
// a module of its own: the solver's context of the functions above stays as it is
pub mod act {
use super::*;
// the slice swap, written with the two assignments it consists of
fn v_swap(v: &mut Vec<i64>, i: usize, j: usize)
    requires i < old(v).len(), j < old(v).len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
{ let a = v[i]; let b = v[j]; v[i] = b; v[j] = a; }
pub open spec fn moves_below(p: Permutation, l: int) -> bool { forall|n: usize| #[trigger] p.f(n) != n ==> n < l }
// v1 is v0 with the entry at i moved to f(i)
pub open spec fn acted(v0: Seq<i64>, v1: Seq<i64>, p: Permutation) -> bool { v1.len() == v0.len() && forall|i: usize| i < v0.len() ==> #[trigger] p.f(i) < v0.len() && v1[p.f(i) as int] == v0[i as int] }
//@fn <Vec as Gset>::gen_action_by self_as=Vec<i64> T=i64 G=Permutation name=gen_action_by params=elem op:===&p_eq iters=unfixed_indeces_iter method:swap=~v_swap nodebug
//@.spec
    requires is_gen(elem), moves_below(elem, old(self_)@.len() as int),
    ensures acted(old(self_)@, final(self_)@, elem),
//@.entry
    let ghost fl = flat(elem.cycles@);
    proof {
        lemma_gen(elem); let cs = elem.cycles@; assert(cs.drop_first().len() == 0); assert(flat(cs.drop_first()) =~= Seq::empty()); assert(fl =~= cs[0].data@);
        if cs[0].data@.len() == 2 { let (a, b) = (cs[0].data@[0], cs[0].data@[1]); assert(elem.f(a) == b && elem.f(b) == a); assert(a < self_@.len() && b < self_@.len()); }
        else { assert(cs[0].data@ =~= Seq::<usize>::empty()); }
    }
//@.loop 0
    invariant_except_break __it0.ok(), __a0@ + __it0.rest() == fl,
    ensures __a0@ == fl,
    decreases fl.len() - __a0@.len(),
//@.loop 0 begin
    proof { assert(__a0@ + (seq![__x0] + __it0.rest()) =~= __a0@.push(__x0) + __it0.rest()); }
//@end
//@file alg/src/non_commutative.rs
//@fn Gset::action_by self_as=Vec<i64> G=Permutation name=action_by params=elem clone_owned method:clone=&p_copy method:gen_action_by=~gen_action_by
//@.spec
    requires elem.wf(), moves_below(elem, old(self_)@.len() as int),
    ensures acted(old(self_)@, final(self_)@, elem),
//@.entry
    let ghost v0 = self_@;
//@.loop 0
    invariant 0 <= __i0 <= gens@.len(), self_@.len() == v0.len(), all_pwf(gens@), forall|i: int| 0 <= i < gens@.len() ==> is_gen(#[trigger] gens@[i]),
        forall|i: int| 0 <= i < gens@.len() ==> moves_below(#[trigger] gens@[i], v0.len() as int),
        forall|i: usize| i < v0.len() ==> #[trigger] pprod(gens@, __i0 as int, i) < v0.len() && self_@[pprod(gens@, __i0 as int, i) as int] == v0[i as int],
    decreases gens@.len() - __i0,
//@.loop 0 begin
    let ghost (k, v1, g) = (__j0 as int, self_@, gens@[__j0 as int]);
    proof { assert(is_gen(g)); assert(moves_below(g, v0.len() as int)); }
//@.loop 0 end
    proof {
        assert(acted(v1, self_@, gen));
        assert forall|i: usize| i < v0.len() implies #[trigger] pprod(gens@, k + 1, i) < v0.len() && self_@[pprod(gens@, k + 1, i) as int] == v0[i as int] by {
            let m = pprod(gens@, k, i);
            assert(gen.f(m) == g.f(m));
        }
    }
//@.loop 0 after
    proof { assert forall|i: usize| i < v0.len() implies #[trigger] elem.f(i) < v0.len() && self_@[elem.f(i) as int] == v0[i as int] by { assert(pprod(gens@, gens@.len() as int, i) == elem.f(i)); } }
//@end
//@file alg/src/non_commutative/permutation.rs
//@fn <Vec as Shl>::shl self_as=Vec<i64> T=i64 name=shl params=elem method:action_by=~action_by Self::Output=Vec<i64>
//@.spec
    requires elem.wf(), moves_below(elem, self_@.len() as int),
    ensures acted(self_@, r@, elem),
//@end
//@fn <Vec as ShlAssign>::shl_assign self_as=Vec<i64> T=i64 name=shl_assign params=elem method:action_by=~action_by
//@.spec
    requires elem.wf(), moves_below(elem, old(self_)@.len() as int),
    ensures acted(old(self_)@, final(self_)@, elem),
//@end
}
} // verus!
