//@include prelude.inc
verus! {
//@file util/src/lib.rs
// ------------------------------------------------------------------ specification
// a k-combination of 0..n: a strictly increasing sequence of indices below n
pub open spec fn comb(c: Seq<usize>, n: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i] < c[j]
    &&& forall|i: int| 0 <= i < c.len() ==> c[i] < n
}
// lexicographic order
pub open spec fn lex_lt(a: Seq<usize>, b: Seq<usize>) -> bool {
    exists|p: int| lex_at(a, b, p)
}
pub open spec fn lex_at(a: Seq<usize>, b: Seq<usize>, p: int) -> bool {
    0 <= p < a.len() && 0 <= p < b.len() && a[p] < b[p] && forall|i: int| 0 <= i < p ==> a[i] == b[i]
}
pub open spec fn lex_le(a: Seq<usize>, b: Seq<usize>) -> bool { a == b || lex_lt(a, b) }
// c is followed by d: at p the index grows by one, what follows is consecutive, what preceded was exhausted
pub open spec fn succ_at(c: Seq<usize>, d: Seq<usize>, n: int, p: int) -> bool {
    &&& 0 <= p < c.len() && d.len() == c.len()
    &&& forall|i: int| 0 <= i < p ==> d[i] == c[i]
    &&& forall|i: int| p <= i < c.len() ==> d[i] == c[p] + 1 + (i - p)
    &&& forall|i: int| p < i < c.len() ==> c[i] == n - c.len() + i
}
pub open spec fn succ(c: Seq<usize>, d: Seq<usize>, n: int) -> bool { exists|p: int| succ_at(c, d, n, p) }
// the last combination
pub open spec fn is_last(c: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < c.len() ==> c[i] == n - c.len() + i }
pub open spec fn is_first(c: Seq<usize>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[i] == i }

proof fn lemma_comb_room(c: Seq<usize>, n: int, i: int)
    requires comb(c, n), 0 <= i < c.len(),
    ensures c[i] <= n - c.len() + i, decreases c.len() - i
{ if i + 1 < c.len() { lemma_comb_room(c, n, i + 1); } }
proof fn lemma_comb_low(c: Seq<usize>, n: int, i: int)
    requires comb(c, n), 0 <= i < c.len(),
    ensures c[i] >= i, decreases i
{ if i > 0 { lemma_comb_low(c, n, i - 1); } }
proof fn lemma_comb_step(c: Seq<usize>, n: int, i: int, j: int)
    requires comb(c, n), 0 <= i <= j < c.len(),
    ensures c[j] >= c[i] + (j - i), decreases j - i
{ if i < j { lemma_comb_step(c, n, i, j - 1); } }

// ---- property lemmas -------------------------------------------------------------------------
// THEOREM (start) the iteration starts with the lexicographically least combination
proof fn theorem_first(c: Seq<usize>, e: Seq<usize>, n: int)
    requires is_first(c), comb(e, n), e.len() == c.len(),
    ensures lex_le(c, e),
{
    if c != e {
        let p = first_diff(c, e, 0);
        lemma_first_diff(c, e, 0);
        lemma_comb_low(e, n, p);
        assert(lex_at(c, e, p));
    }
}
spec fn first_diff(a: Seq<usize>, b: Seq<usize>, k: int) -> int decreases a.len() - k
{ if k < 0 || k >= a.len() || k >= b.len() || a[k] != b[k] { k } else { first_diff(a, b, k + 1) } }
proof fn lemma_first_diff(a: Seq<usize>, b: Seq<usize>, k: int)
    requires a.len() == b.len(), a != b, 0 <= k <= a.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures k <= first_diff(a, b, k) < a.len(), a[first_diff(a, b, k)] != b[first_diff(a, b, k)],
        forall|i: int| 0 <= i < first_diff(a, b, k) ==> a[i] == b[i],
    decreases a.len() - k
{ if k == a.len() { assert(a =~= b); } else if a[k] == b[k] { lemma_first_diff(a, b, k + 1); } }
// THEOREM (step) the successor is a combination, is greater, and no combination lies strictly between
proof fn theorem_succ(c: Seq<usize>, d: Seq<usize>, e: Seq<usize>, n: int)
    requires comb(c, n), comb(d, n), succ(c, d, n), comb(e, n), e.len() == c.len(),
    ensures lex_lt(c, d), lex_lt(c, e) ==> lex_le(d, e),
{
    let p = choose|p: int| succ_at(c, d, n, p);
    assert(lex_at(c, d, p));
    if lex_lt(c, e) {
        let q = choose|q: int| lex_at(c, e, q);
        if q > p { lemma_comb_room(e, n, q); assert(false); }
        if q < p { assert(lex_at(d, e, q)); }
        else if d != e {
            lemma_first_diff(d, e, 0);
            let w = first_diff(d, e, 0);
            if w < p { assert(d[w] == c[w] && e[w] == c[w]); }
            lemma_comb_step(e, n, p, w);
            assert(lex_at(d, e, w));
        }
    }
}
// THEOREM (end) the last combination is the greatest
proof fn theorem_last(c: Seq<usize>, e: Seq<usize>, n: int)
    requires comb(c, n), is_last(c, n), comb(e, n), e.len() == c.len(),
    ensures !lex_lt(c, e),
{
    if lex_lt(c, e) { let q = choose|q: int| lex_at(c, e, q); lemma_comb_room(e, n, q); }
}

//@struct TupleIterator
impl<'a, T> TupleIterator<'a, T> {
    // between two calls
    pub open spec fn wf(&self) -> bool {
        &&& self.indeces.len() >= 1
        &&& self.curr_idx == self.indeces.len() - 1 || self.is_done
        &&& !self.is_done ==> comb(self.indeces@, self.data@.len() as int) && self.indeces.len() <= self.data@.len()
    }
}
impl<'a, T> TupleIterator<'a, T> {
//@fn TupleIterator::new acc0=Vec<usize>
//@.spec
    requires size >= 1,
    ensures r.wf(), r.data@ == data@, r.indeces.len() == size, is_first(r.indeces@),
        // done at once exactly when there is no combination
        r.is_done <==> data@.len() < size,
//@.loop 0
    invariant __a0.len() == __i0, __i0 <= size, forall|i: int| 0 <= i < __i0 ==> __a0[i] == i,
    decreases size - __i0,
//@end
//@fn TupleIterator::is_blocked
//@.spec
    requires self.curr_idx < self.indeces.len(), comb(self.indeces@, self.data@.len() as int),
    ensures r <==> (if self.curr_idx == self.indeces.len() - 1 { self.indeces@[self.curr_idx as int] == self.data@.len() - 1 }
                    else { self.indeces@[self.curr_idx as int] + 1 == self.indeces@[self.curr_idx + 1] }),
//@end
// `next` returns the current combination and moves to its lexicographic successor
//@fn <TupleIterator as Iterator>::next Self::Item=Vec<&'a~T> acc0=Vec<&'a~T>
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).data@ == old(self).data@, final(self).indeces.len() == old(self).indeces.len(),
        ({ let n = old(self).data@.len() as int; let c = old(self).indeces@; let d = final(self).indeces@;
        if old(self).is_done { r is None && final(self).is_done }
        else {
            &&& r is Some && r->0.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> *(#[trigger] r->0@[i]) == old(self).data@[c[i] as int]
            &&& final(self).is_done ==> is_last(c, n)
            &&& !final(self).is_done ==> comb(d, n) && succ(c, d, n)
        } }),
//@.loop 0
    invariant __a0.len() == __i0, __i0 <= self.indeces.len(), *self == *old(self), !self.is_done,
        comb(self.indeces@, self.data@.len() as int),
        forall|i: int| 0 <= i < __i0 ==> *(#[trigger] __a0@[i]) == self.data@[self.indeces@[i] as int],
    decreases self.indeces.len() - __i0,
//@.loop 1
    invariant self.indeces@ == old(self).indeces@, self.data@ == old(self).data@, !self.is_done, self.curr_idx < self.indeces.len(),
        comb(self.indeces@, self.data@.len() as int), old(self).wf(), !old(self).is_done,
        self.indeces@[self.indeces.len() - 1] == self.data@.len() - 1,
        forall|i: int| self.curr_idx <= i < self.indeces.len() ==> self.indeces@[i] == self.data@.len() - self.indeces.len() + i,
    decreases self.curr_idx,
//@.loop 1 after
    proof { if self.curr_idx > 0 { lemma_comb_room(self.indeces@, self.data@.len() as int, self.curr_idx as int - 1); } }
    let ghost p = self.curr_idx as int - 1;
//@.loop 2
    invariant
        p >= 0, p == self.curr_idx - 1, 0 < self.curr_idx <= __i2 <= self.indeces.len(), self.indeces.len() == old(self).indeces.len(),
        !self.is_done, self.data@ == old(self).data@, old(self).wf(), !old(self).is_done,
        forall|i: int| 0 <= i < p ==> self.indeces@[i] == old(self).indeces@[i],
        self.indeces@[p] == old(self).indeces@[p] + 1,
        diff == old(self).indeces@[p + 1] - (old(self).indeces@[p] + 1) - 1,
        forall|i: int| p < i < self.indeces.len() ==> old(self).indeces@[i] == self.data@.len() - self.indeces.len() + i,
        forall|i: int| p < i < __i2 ==> self.indeces@[i] == old(self).indeces@[p] + 1 + (i - p),
        forall|i: int| __i2 <= i < self.indeces.len() ==> self.indeces@[i] == old(self).indeces@[i],
    decreases self.indeces.len() - __i2,
//@.loop 2 after
    proof { assert(succ_at(old(self).indeces@, self.indeces@, self.data@.len() as int, p)); }
//@.exit
    proof {
        let n = old(self).data@.len() as int; let c = old(self).indeces@; let d = self.indeces@;
        if !self.is_done && c[c.len() - 1] < n - 1 { assert(succ_at(c, d, n, c.len() - 1)); }
    }
//@end
}
} // verus!
fn main() {}
