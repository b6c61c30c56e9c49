//@include prelude.inc
verus! {
// ------------------------------------------------------------------------------------------------
// Moves are letters; disjoint moves commute, a move and its reverse cancel.
pub type L = (usize, usize);
pub open spec fn lt(m: [usize; 2]) -> L { (m[0], m[1]) }
pub open spec fn inv(m: L) -> L { (m.1, m.0) }
pub open spec fn comm(x: L, y: L) -> bool { x.0 != y.0 && x.0 != y.1 && x.1 != y.0 && x.1 != y.1 }
pub open spec fn word(s: Seq<[usize; 2]>) -> Seq<L> { Seq::new(s.len(), |i: int| lt(s[i])) }
pub open spec fn lay(p: Seq<Vec<[usize; 2]>>) -> Seq<Seq<L>> { Seq::new(p.len(), |i: int| word(p[i]@)) }
pub open spec fn cat(o: Seq<Seq<L>>) -> Seq<L> decreases o.len() { if o.len() == 0 { Seq::empty() } else { cat(o.drop_last()) + o.last() } }
pub open spec fn inv_word(w: Seq<L>) -> Seq<L> { Seq::new(w.len(), |i: int| inv(w[w.len() - 1 - i])) }

// ---- elementary moves on words: exchange two neighbours that commute, drop two that cancel
pub open spec fn swapped(a: Seq<L>, i: int) -> Seq<L> { a.update(i, a[i + 1]).update(i + 1, a[i]) }
pub open spec fn dropped(a: Seq<L>, i: int) -> Seq<L> { a.take(i) + a.skip(i + 2) }
pub open spec fn step_at(a: Seq<L>, b: Seq<L>, i: int) -> bool {
    0 <= i && i + 1 < a.len() && ((comm(a[i], a[i + 1]) && b == swapped(a, i)) || (a[i] == inv(a[i + 1]) && b == dropped(a, i)))
}
pub open spec fn step1(a: Seq<L>, b: Seq<L>) -> bool { exists|i: int| step_at(a, b, i) }
pub open spec fn red(n: nat, a: Seq<L>, b: Seq<L>) -> bool decreases n { a == b || (n > 0 && exists|c: Seq<L>| #[trigger] step1(a, c) && red((n - 1) as nat, c, b)) }
/// b comes from a by exchanging disjoint neighbours and dropping pairs that cancel
#[verifier::opaque]
pub open spec fn reduces(a: Seq<L>, b: Seq<L>) -> bool { exists|n: nat| red(n, a, b) }

proof fn lemma_red_refl(a: Seq<L>) ensures reduces(a, a) { reveal(reduces); assert(red(0, a, a)); }
proof fn lemma_red_n(n: nat, m: nat, a: Seq<L>, b: Seq<L>, c: Seq<L>) requires red(n, a, b), red(m, b, c), ensures red(n + m, a, c) decreases n {
    if a == b { lemma_red_more(m, n + m, a, c); } else {
        let d = choose|d: Seq<L>| #[trigger] step1(a, d) && red((n - 1) as nat, d, b);
        lemma_red_n((n - 1) as nat, m, d, b, c);
        assert(step1(a, d) && red((n + m - 1) as nat, d, c));
    }
}
proof fn lemma_red_more(n: nat, m: nat, a: Seq<L>, b: Seq<L>) requires red(n, a, b), n <= m, ensures red(m, a, b) decreases n {
    if a != b { let d = choose|d: Seq<L>| #[trigger] step1(a, d) && red((n - 1) as nat, d, b); lemma_red_more((n - 1) as nat, (m - 1) as nat, d, b); assert(step1(a, d) && red((m - 1) as nat, d, b)); }
}
proof fn lemma_red_trans(a: Seq<L>, b: Seq<L>, c: Seq<L>) requires reduces(a, b), reduces(b, c), ensures reduces(a, c) {
    reveal(reduces);
    let n = choose|n: nat| red(n, a, b); let m = choose|m: nat| red(m, b, c);
    lemma_red_n(n, m, a, b, c);
}
proof fn lemma_step(a: Seq<L>, b: Seq<L>, i: int) requires step_at(a, b, i), ensures reduces(a, b) {
    reveal(reduces); assert(step1(a, b)); assert(red(0, b, b)); assert(red(1, a, b));
}
proof fn lemma_step_ctx(p: Seq<L>, a: Seq<L>, b: Seq<L>, s: Seq<L>) requires step1(a, b), ensures step1(p + a + s, p + b + s) {
    let i = choose|i: int| step_at(a, b, i);
    let (x, y) = (p + a + s, p + b + s);
    let j = p.len() + i;
    assert(x[j] == a[i] && x[j + 1] == a[i + 1]);
    if comm(a[i], a[i + 1]) && b == swapped(a, i) { assert(y =~= swapped(x, j)); } else { assert(y =~= dropped(x, j)); }
    assert(step_at(x, y, j));
}
proof fn lemma_ctx_n(n: nat, p: Seq<L>, a: Seq<L>, b: Seq<L>, s: Seq<L>) requires red(n, a, b), ensures red(n, p + a + s, p + b + s) decreases n {
    if a != b {
        let d = choose|d: Seq<L>| #[trigger] step1(a, d) && red((n - 1) as nat, d, b);
        lemma_step_ctx(p, a, d, s); lemma_ctx_n((n - 1) as nat, p, d, b, s);
        assert(step1(p + a + s, p + d + s));
    }
}
proof fn lemma_ctx(p: Seq<L>, a: Seq<L>, b: Seq<L>, s: Seq<L>) requires reduces(a, b), ensures reduces(p + a + s, p + b + s) {
    reveal(reduces); let n = choose|n: nat| red(n, a, b); lemma_ctx_n(n, p, a, b, s);
}
// a letter slides to the left past letters that commute with it
proof fn lemma_slide(b: Seq<L>, x: L) requires forall|k: int| 0 <= k < b.len() ==> comm(#[trigger] b[k], x), ensures reduces(b.push(x), seq![x] + b) decreases b.len() {
    if b.len() == 0 { assert(b.push(x) =~= seq![x] + b); lemma_red_refl(b.push(x)); } else {
        let c = b.drop_last(); let z = b.last();
        let w0 = b.push(x); let w1 = c.push(x).push(z);
        assert(w1 =~= swapped(w0, c.len() as int));
        assert(comm(b[b.len() - 1], x));
        assert(step_at(w0, w1, c.len() as int));
        lemma_step(w0, w1, c.len() as int);
        lemma_slide(c, x);
        lemma_ctx(Seq::empty(), c.push(x), seq![x] + c, seq![z]);
        assert(Seq::<L>::empty() + c.push(x) + seq![z] =~= w1);
        assert(Seq::<L>::empty() + (seq![x] + c) + seq![z] =~= seq![x] + b);
        lemma_red_trans(w0, w1, seq![x] + b);
    }
}
// the same, with the word before it
proof fn lemma_slide_in(a: Seq<L>, b: Seq<L>, x: L) requires forall|k: int| 0 <= k < b.len() ==> comm(#[trigger] b[k], x), ensures reduces((a + b).push(x), a.push(x) + b) {
    lemma_slide(b, x); lemma_ctx(a, b.push(x), seq![x] + b, Seq::empty());
    assert(a + b.push(x) + Seq::<L>::empty() =~= (a + b).push(x));
    assert(a + (seq![x] + b) + Seq::<L>::empty() =~= a.push(x) + b);
}
// ... and cancels against its reverse
proof fn lemma_cancel_in(a: Seq<L>, q: Seq<L>, y: L) requires forall|k: int| 0 <= k < q.len() ==> comm(#[trigger] q[k], y), ensures reduces((a.push(inv(y)) + q).push(y), a + q) {
    let a1 = a.push(inv(y));
    lemma_slide_in(a1, q, y);
    let w = a1.push(y) + q;
    let i = a.len() as int;
    assert(a + q =~= dropped(w, i));
    assert(w[i] == inv(y) && w[i + 1] == y);
    assert(step_at(w, a + q, i));
    lemma_step(w, a + q, i);
    lemma_red_trans((a1 + q).push(y), w, a + q);
}

// ---- layers
pub open spec fn split(o: Seq<Seq<L>>, k: int) -> bool { cat(o) == cat(o.take(k)) + cat(o.skip(k)) }
proof fn lemma_split(o: Seq<Seq<L>>, k: int) requires 0 <= k <= o.len(), ensures cat(o) == cat(o.take(k)) + cat(o.skip(k)) decreases o.len() - k {
    if k == o.len() { assert(o.take(k) =~= o); assert(o.skip(k).len() == 0); assert(cat(o) =~= cat(o.take(k)) + cat(o.skip(k))); } else {
        let d = o.drop_last();
        lemma_split(d, k);
        assert(d.take(k) =~= o.take(k));
        assert(d.skip(k) =~= o.skip(k).drop_last());
        assert(o.skip(k).last() == o.last());
        assert(cat(o) =~= cat(o.take(k)) + cat(o.skip(k)));
    }
}
proof fn lemma_take1(o: Seq<Seq<L>>, k: int) requires 0 <= k < o.len(), ensures cat(o.take(k + 1)) == cat(o.take(k)) + o[k] {
    assert(o.take(k + 1).drop_last() =~= o.take(k)); assert(o.take(k + 1).last() == o[k]);
}
// o = o[..k], o[k], o[k+1..]
proof fn lemma_split3(o: Seq<Seq<L>>, k: int) requires 0 <= k < o.len(), ensures cat(o) == cat(o.take(k)) + o[k] + cat(o.skip(k + 1)) { lemma_take1(o, k); lemma_split(o, k + 1); }
pub open spec fn commutes(s: Seq<L>, x: L) -> bool { forall|k: int| 0 <= k < s.len() ==> comm(#[trigger] s[k], x) }
proof fn lemma_cat_comm(o: Seq<Seq<L>>, x: L) requires forall|k: int| 0 <= k < o.len() ==> commutes(#[trigger] o[k], x), ensures commutes(cat(o), x) decreases o.len() {
    if o.len() > 0 {
        let d = o.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies commutes(#[trigger] d[k], x) by { assert(d[k] == o[k]); }
        lemma_cat_comm(d, x);
        assert(commutes(o[o.len() - 1], x));
        assert forall|k: int| 0 <= k < cat(o).len() implies comm(#[trigger] cat(o)[k], x) by { if k < cat(d).len() { assert(cat(o)[k] == cat(d)[k]); } else { assert(cat(o)[k] == o.last()[k - cat(d).len()]); } }
    }
}
/// moves of one layer are pairwise disjoint
pub open spec fn disjoint(s: Seq<L>) -> bool { forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b ==> comm(#[trigger] s[a], #[trigger] s[b]) }
pub open spec fn blocked(s: Seq<L>, x: L) -> bool { !commutes(s, x) }
pub open spec fn no_inverse(s: Seq<L>, x: L) -> bool { forall|b: int| 0 <= b < s.len() ==> #[trigger] s[b] != inv(x) }
pub open spec fn layered(o: Seq<Seq<L>>) -> bool { forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]).len() > 0 && disjoint(o[k]) }
/// every move after the first layer is held back by a move of the layer before it and cancels with none of that layer
pub open spec fn held(s: Seq<L>, t: Seq<L>) -> bool { forall|a: int| 0 <= a < t.len() ==> blocked(s, #[trigger] t[a]) && no_inverse(s, t[a]) }
pub open spec fn tight(o: Seq<Seq<L>>) -> bool { forall|k: int| 0 < k < o.len() ==> held(o[k - 1], #[trigger] o[k]) }
pub open spec fn normal(o: Seq<Seq<L>>) -> bool { layered(o) && tight(o) }

// where a new last move x goes: i is the last layer that does not commute with it (-1: none)
pub open spec fn last_blocked(o: Seq<Seq<L>>, x: L, i: int) -> bool {
    -1 <= i < o.len() && (i >= 0 ==> blocked(o[i], x)) && (forall|k: int| i < k < o.len() ==> commutes(#[trigger] o[k], x))
}
pub open spec fn pushed(o: Seq<Seq<L>>, x: L, k: int) -> Seq<Seq<L>> { if k == o.len() { o.push(seq![x]) } else { o.update(k, o[k].push(x)) } }
proof fn lemma_disjoint_push(s: Seq<L>, x: L) requires disjoint(s), commutes(s, x), ensures disjoint(s.push(x)) {}
proof fn lemma_pushed(o: Seq<Seq<L>>, x: L, i: int)
    requires layered(o), last_blocked(o, x, i),
    ensures layered(pushed(o, x, i + 1)), reduces(cat(o).push(x), cat(pushed(o, x, i + 1))), cat(pushed(o, x, i + 1)).len() == cat(o).len() + 1,
        tight(o) && (i >= 0 ==> no_inverse(o[i], x)) ==> tight(pushed(o, x, i + 1)),
{
    let k = i + 1;
    let q = pushed(o, x, k);
    if k == o.len() {
        assert(q.drop_last() =~= o); assert(cat(q) =~= cat(o).push(x)); lemma_red_refl(cat(q));
        assert(disjoint(seq![x]));
    } else {
        lemma_split3(o, k); lemma_split3(q, k);
        assert(q.take(k) =~= o.take(k)); assert(q.skip(k + 1) =~= o.skip(k + 1));
        let (a, b) = (cat(o.take(k)) + o[k], cat(o.skip(k + 1)));
        assert forall|j: int| 0 <= j < o.skip(k + 1).len() implies commutes(#[trigger] o.skip(k + 1)[j], x) by { assert(o.skip(k + 1)[j] == o[j + k + 1]); }
        lemma_cat_comm(o.skip(k + 1), x);
        lemma_slide_in(a, b, x);
        assert(a.push(x) + b =~= cat(q));
        lemma_disjoint_push(o[k], x);
    }
    assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).len() > 0 && disjoint(q[j]) by { if j < o.len() { assert(o[j].len() > 0 && disjoint(o[j])); } }
    if tight(o) && (i >= 0 ==> no_inverse(o[i], x)) {
        assert forall|j: int| 0 < j < q.len() implies held(q[j - 1], #[trigger] q[j]) by {
            if j == k {
                assert(q[j - 1] == o[i]);
                if j < o.len() { assert(held(o[j - 1], o[j])); }
                assert forall|a: int| 0 <= a < q[j].len() implies blocked(q[j - 1], #[trigger] q[j][a]) && no_inverse(q[j - 1], q[j][a]) by { if j < o.len() && a < o[j].len() { assert(q[j][a] == o[j][a]); } else { assert(q[j][a] == x); } }
            } else if j == k + 1 {
                assert(q[j] == o[j]); assert(held(o[j - 1], o[j]));
                assert(commutes(o[j], x));
                assert forall|a: int| 0 <= a < q[j].len() implies blocked(q[j - 1], #[trigger] q[j][a]) && no_inverse(q[j - 1], q[j][a]) by {
                    let y = o[j][a];
                    assert(comm(y, x));
                    assert(blocked(o[j - 1], y));
                    let m = choose|m: int| 0 <= m < o[j - 1].len() && !comm(#[trigger] o[j - 1][m], y);
                    assert(q[j - 1][m] == o[j - 1][m]);
                    assert forall|b: int| 0 <= b < q[j - 1].len() implies #[trigger] q[j - 1][b] != inv(y) by { if b < o[j - 1].len() { assert(q[j - 1][b] == o[j - 1][b]); } }
                }
            } else { assert(q[j] == o[j] && q[j - 1] == o[j - 1]); assert(held(o[j - 1], o[j])); }
        }
    }
}
pub open spec fn taken(o: Seq<Seq<L>>, i: int, a: int) -> Seq<Seq<L>> { if o[i].len() == 1 { o.remove(i) } else { o.update(i, o[i].remove(a)) } }
proof fn lemma_taken(o: Seq<Seq<L>>, x: L, i: int, a: int)
    requires layered(o), last_blocked(o, x, i), i >= 0, 0 <= a < o[i].len(), o[i][a] == inv(x),
    ensures layered(taken(o, i, a)), reduces(cat(o).push(x), cat(taken(o, i, a))), cat(taken(o, i, a)).len() + 1 == cat(o).len(),
{
    let s = o[i];
    assert(disjoint(s));
    let q = taken(o, i, a);
    let rest = s.skip(a + 1) + cat(o.skip(i + 1));
    let front = cat(o.take(i)) + s.take(a);
    lemma_split3(o, i);
    assert(cat(o) =~= front.push(inv(x)) + rest);
    assert forall|j: int| 0 <= j < o.skip(i + 1).len() implies commutes(#[trigger] o.skip(i + 1)[j], x) by { assert(o.skip(i + 1)[j] == o[j + i + 1]); }
    lemma_cat_comm(o.skip(i + 1), x);
    assert forall|k: int| 0 <= k < rest.len() implies comm(#[trigger] rest[k], x) by {
        if k < s.skip(a + 1).len() { assert(rest[k] == s[k + a + 1]); assert(comm(s[k + a + 1], s[a])); } else { assert(rest[k] == cat(o.skip(i + 1))[k - s.skip(a + 1).len()]); }
    }
    lemma_cancel_in(front, rest, x);
    let t = s.remove(a);
    assert(t =~= s.take(a) + s.skip(a + 1));
    if s.len() == 1 {
        lemma_split(q, i);
        assert(q.take(i) =~= o.take(i)); assert(q.skip(i) =~= o.skip(i + 1));
        assert(cat(q) =~= front + rest);
    } else {
        lemma_split3(q, i);
        assert(q.take(i) =~= o.take(i)); assert(q.skip(i + 1) =~= o.skip(i + 1));
        assert(cat(q) =~= front + rest);
        assert(disjoint(t)) by { assert forall|u: int, v: int| 0 <= u < t.len() && 0 <= v < t.len() && u != v implies comm(#[trigger] t[u], #[trigger] t[v]) by { let (u1, v1) = (if u < a { u } else { u + 1 }, if v < a { v } else { v + 1 }); assert(t[u] == s[u1] && t[v] == s[v1]); } }
    }
    assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).len() > 0 && disjoint(q[j]) by {
        if s.len() == 1 { let j1 = if j < i { j } else { j + 1 }; assert(q[j] == o[j1]); } else if j != i { assert(q[j] == o[j]); }
    }
}
} // verus!
verus! {
// ------------------------------------------------------------------------------------------------
// Piles: a concrete action of words in which no normal form but the empty one acts trivially. One stack per move in
// canonical direction; a move puts itself on its own stack and a blank on every stack it does not commute with, or
// takes these off again when its reverse is on top.
pub type P = spec_fn(L) -> Seq<Option<L>>;
pub open spec fn key(l: L) -> L { if l.0 <= l.1 { l } else { inv(l) } }
pub open spec fn none() -> P { |g: L| Seq::<Option<L>>::empty() }
pub open spec fn put1(l: L, g: L, s: Seq<Option<L>>) -> Seq<Option<L>> { if g == key(l) { s.push(Some(l)) } else if !comm(g, l) { s.push(None) } else { s } }
pub open spec fn put(l: L, p: P) -> P { |g: L| put1(l, g, p(g)) }
pub open spec fn take1(l: L, g: L, s: Seq<Option<L>>) -> Seq<Option<L>> { if !comm(g, l) && s.len() > 0 { s.drop_last() } else { s } }
pub open spec fn take(l: L, p: P) -> P { |g: L| take1(l, g, p(g)) }
pub open spec fn on_top(p: P, l: L) -> bool { p(key(l)).len() > 0 && p(key(l)).last() == Some(l) }
pub open spec fn act(l: L, p: P) -> P { if on_top(p, inv(l)) { take(l, p) } else { put(l, p) } }
pub open spec fn acts(w: Seq<L>, p: P) -> P decreases w.len() { if w.len() == 0 { p } else { act(w.last(), acts(w.drop_last(), p)) } }
pub open spec fn trivial(w: Seq<L>) -> bool { acts(w, none()) == none() }
pub open spec fn pile(w: Seq<L>) -> P decreases w.len() { if w.len() == 0 { none() } else { put(w.last(), pile(w.drop_last())) } }
pub open spec fn puts(w: Seq<L>) -> bool decreases w.len() { w.len() == 0 || (puts(w.drop_last()) && !on_top(pile(w.drop_last()), inv(w.last()))) }
pub open spec fn is_pile(p: P) -> bool { exists|w: Seq<L>| puts(w) && p == #[trigger] pile(w) }

proof fn lemma_puts_acts(w: Seq<L>) requires puts(w), ensures acts(w, none()) == pile(w) decreases w.len() { if w.len() > 0 { lemma_puts_acts(w.drop_last()); } }
// the reverse of a on top can be brought to the end
proof fn lemma_pull(w: Seq<L>, a: L) -> (v: Seq<L>)
    requires puts(w), on_top(pile(w), inv(a)),
    ensures puts(v), pile(w) == put(inv(a), pile(v)), take(a, pile(w)) == pile(v), !on_top(pile(v), a), v.len() + 1 == w.len(),
    decreases w.len(),
{
    let b = w.last(); let u = w.drop_last();
    let (pu, pw) = (pile(u), pile(w));
    let k = key(a);
    assert(key(inv(a)) == k);
    assert(pw(k) == put1(b, k, pu(k)));
    if b == inv(a) {
        assert(inv(b) == a);
        assert forall|g: L| #[trigger] take(a, pw)(g) == pu(g) by { assert(pw(g) == put1(b, g, pu(g))); if !comm(g, a) { assert(put1(b, g, pu(g)).drop_last() =~= pu(g)); } }
        assert(take(a, pw) =~= pu);
        u
    } else {
        assert(comm(k, b));
        assert(pw(k) == pu(k));
        let v0 = lemma_pull(u, a);
        let pv = pile(v0);
        let v = v0.push(b);
        assert(v.drop_last() =~= v0);
        assert(key(b) != k && comm(key(b), inv(a)));
        assert(pu(key(b)) == put1(inv(a), key(b), pv(key(b))));
        assert(pu(key(b)) == pv(key(b)));
        assert(key(inv(b)) == key(b));
        assert(puts(v));
        let q = pile(v);
        assert(q == put(b, pv));
        assert forall|g: L| #[trigger] pw(g) == put(inv(a), q)(g) by {
            assert(pw(g) == put1(b, g, put1(inv(a), g, pv(g))));
            assert(put(inv(a), q)(g) == put1(inv(a), g, put1(b, g, pv(g))));
        }
        assert(pw =~= put(inv(a), q));
        assert forall|g: L| #[trigger] take(a, pw)(g) == q(g) by { assert(pw(g) == put1(inv(a), g, q(g))); if !comm(g, a) { assert(pw(g).drop_last() =~= q(g)); } }
        assert(take(a, pw) =~= q);
        assert(q(k) == pv(k));
        v
    }
}
proof fn lemma_act_pile(l: L, p: P) requires is_pile(p), ensures is_pile(act(l, p)), act(inv(l), act(l, p)) == p {
    let w = choose|w: Seq<L>| puts(w) && p == #[trigger] pile(w);
    assert(inv(inv(l)) == l);
    assert(key(inv(l)) == key(l));
    if on_top(p, inv(l)) {
        let v = lemma_pull(w, l);
        assert(act(l, p) == pile(v));
        assert(act(inv(l), pile(v)) == put(inv(l), pile(v)));
    } else {
        let v = w.push(l);
        assert(v.drop_last() =~= w);
        assert(puts(v) && pile(v) == put(l, p));
        let q = put(l, p);
        assert(q(key(l)).last() == Some(l));
        assert forall|g: L| #[trigger] take(inv(l), q)(g) == p(g) by { assert(q(g) == put1(l, g, p(g))); if !comm(g, l) { assert(q(g).drop_last() =~= p(g)); } }
        assert(take(inv(l), q) =~= p);
    }
}
proof fn lemma_act_comm(a: L, b: L, p: P) requires is_pile(p), comm(a, b), ensures act(a, act(b, p)) == act(b, act(a, p)) {
    let w = choose|w: Seq<L>| puts(w) && p == #[trigger] pile(w);
    let (x, y) = (act(a, act(b, p)), act(b, act(a, p)));
    assert(key(inv(a)) == key(a) && key(inv(b)) == key(b));
    assert(comm(key(a), b) && comm(key(b), a) && key(a) != key(b));
    assert(act(b, p)(key(a)) == p(key(a)) && act(a, p)(key(b)) == p(key(b)));
    let (ta, tb) = (on_top(p, inv(a)), on_top(p, inv(b)));
    assert(on_top(act(b, p), inv(a)) == ta && on_top(act(a, p), inv(b)) == tb);
    let mut va = w; if ta { va = lemma_pull(w, a); }
    let mut vb = w; if tb { vb = lemma_pull(w, b); }
    let (pa, pb) = (pile(va), pile(vb));
    assert forall|g: L| #[trigger] x(g) == y(g) by {
        let s = p(g);
        if ta && !comm(g, a) && g != key(a) { assert(p(g) == put1(inv(a), g, pa(g))); assert(s.len() > 0 && s.last() is None); assert(s.drop_last().push(None) =~= s); }
        if tb && !comm(g, b) && g != key(b) { assert(p(g) == put1(inv(b), g, pb(g))); assert(s.len() > 0 && s.last() is None); assert(s.drop_last().push(None) =~= s); }
        assert(s.push(None).drop_last() =~= s);
        let fa = |t: Seq<Option<L>>| if ta { take1(a, g, t) } else { put1(a, g, t) };
        let fb = |t: Seq<Option<L>>| if tb { take1(b, g, t) } else { put1(b, g, t) };
        assert(x(g) == fa(fb(s)));
        assert(y(g) == fb(fa(s)));
    }
    assert(x =~= y);
}
proof fn lemma_acts_cat(a: Seq<L>, b: Seq<L>, p: P) ensures acts(a + b, p) == acts(b, acts(a, p)) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_acts_cat(a, b.drop_last(), p); }
}
proof fn lemma_acts_pile(w: Seq<L>, p: P) requires is_pile(p), ensures is_pile(acts(w, p)) decreases w.len() { if w.len() > 0 { lemma_acts_pile(w.drop_last(), p); lemma_act_pile(w.last(), acts(w.drop_last(), p)); } }
proof fn lemma_none_pile() ensures is_pile(none()) { let e = Seq::<L>::empty(); assert(puts(e) && pile(e) == none()); }
proof fn lemma_acts2(a: L, b: L, p: P) ensures acts(seq![a, b], p) == act(b, act(a, p)) {
    let s = seq![a, b]; assert(s.drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= Seq::<L>::empty());
    assert(acts(seq![a], p) == act(a, acts(Seq::<L>::empty(), p)));
}
proof fn lemma_step_acts(a: Seq<L>, b: Seq<L>, p: P) requires step1(a, b), is_pile(p), ensures acts(a, p) == acts(b, p) {
    let i = choose|i: int| step_at(a, b, i);
    let (x, y) = (a[i], a[i + 1]);
    let (h, t) = (a.take(i), a.skip(i + 2));
    assert(a =~= h + seq![x, y] + t);
    let q = acts(h, p);
    lemma_acts_pile(h, p);
    lemma_acts_cat(h, seq![x, y], p); lemma_acts_cat(h + seq![x, y], t, p);
    lemma_acts2(x, y, q);
    if comm(x, y) && b == swapped(a, i) {
        assert(b =~= h + seq![y, x] + t);
        lemma_acts_cat(h, seq![y, x], p); lemma_acts_cat(h + seq![y, x], t, p);
        lemma_acts2(y, x, q);
        lemma_act_comm(x, y, q);
    } else {
        lemma_acts_cat(h, t, p);
        lemma_act_pile(x, q);
        assert(inv(x) == y);
    }
}
proof fn lemma_red_acts_n(n: nat, a: Seq<L>, b: Seq<L>, p: P) requires red(n, a, b), is_pile(p), ensures acts(a, p) == acts(b, p) decreases n {
    if a != b { let d = choose|d: Seq<L>| #[trigger] step1(a, d) && red((n - 1) as nat, d, b); lemma_step_acts(a, d, p); lemma_red_acts_n((n - 1) as nat, d, b, p); }
}
/// reducing does not change how a word acts
pub proof fn lemma_red_acts(a: Seq<L>, b: Seq<L>, p: P) requires reduces(a, b), is_pile(p), ensures acts(a, p) == acts(b, p) {
    reveal(reduces); let n = choose|n: nat| red(n, a, b); lemma_red_acts_n(n, a, b, p);
}
// a letter is untouched by letters that commute with it
proof fn lemma_untouched(w: Seq<L>, v: Seq<L>, y: L) requires commutes(v, y), ensures pile(w + v)(key(y)) == pile(w)(key(y)) decreases v.len() {
    if v.len() == 0 { assert(w + v =~= w); } else {
        let d = v.drop_last();
        assert((w + v).drop_last() =~= w + d);
        assert(commutes(d, y)) by { assert forall|k: int| 0 <= k < d.len() implies comm(#[trigger] d[k], y) by { assert(d[k] == v[k]); } }
        lemma_untouched(w, d, y);
        assert(comm(v[v.len() - 1], y));
    }
}
proof fn lemma_covered(w: Seq<L>, v: Seq<L>, y: L) requires blocked(v, y), no_inverse(v, y), ensures !on_top(pile(w + v), inv(y)) decreases v.len() {
    let d = v.drop_last(); let z = v.last();
    assert(key(inv(y)) == key(y));
    assert((w + v).drop_last() =~= w + d);
    assert(z != inv(y)) by { assert(v[v.len() - 1] != inv(y)); }
    let s = pile(w + d)(key(y));
    assert(pile(w + v)(key(y)) == put1(z, key(y), s));
    if comm(z, y) {
        assert(blocked(d, y)) by { let b = choose|b: int| 0 <= b < v.len() && !comm(#[trigger] v[b], y); assert(d[b] == v[b]); }
        assert(no_inverse(d, y)) by { assert forall|b: int| 0 <= b < d.len() implies #[trigger] d[b] != inv(y) by { assert(d[b] == v[b]); } }
        lemma_covered(w, d, y);
    }
}
proof fn lemma_normal_puts(o: Seq<Seq<L>>, k: int, a: int) requires normal(o), 0 <= k < o.len(), 0 <= a <= o[k].len(), ensures puts(cat(o.take(k)) + o[k].take(a)) decreases k, a {
    let w = cat(o.take(k)) + o[k].take(a);
    if a == 0 {
        assert(w =~= cat(o.take(k)));
        if k > 0 { lemma_normal_puts(o, k - 1, o[k - 1].len() as int); lemma_take1(o, k - 1); assert(o[k - 1].take(o[k - 1].len() as int) =~= o[k - 1]); } else { assert(o.take(0).len() == 0); }
    } else {
        lemma_normal_puts(o, k, a - 1);
        let y = o[k][a - 1];
        let v = o[k].take(a - 1);
        assert(w.drop_last() =~= cat(o.take(k)) + v);
        assert(w.last() == y);
        assert(disjoint(o[k]));
        assert(commutes(v, y)) by { assert forall|j: int| 0 <= j < v.len() implies comm(#[trigger] v[j], y) by { assert(v[j] == o[k][j]); } }
        lemma_untouched(cat(o.take(k)), v, y);
        assert(key(inv(y)) == key(y));
        if k == 0 { assert(o.take(0).len() == 0); assert(pile(cat(o.take(k)))(key(y)).len() == 0); } else {
            lemma_take1(o, k - 1);
            assert(held(o[k - 1], o[k]));
            lemma_covered(cat(o.take(k - 1)), o[k - 1], y);
        }
    }
}
/// the only normal form that acts trivially is the empty one
pub proof fn lemma_normal_trivial(o: Seq<Seq<L>>) requires normal(o), trivial(cat(o)), ensures o.len() == 0 {
    if o.len() > 0 {
        let k = o.len() - 1; let a = o[k].len() as int;
        lemma_normal_puts(o, k, a);
        let w = cat(o);
        assert(o[k].take(a) =~= o[k]); assert(o.drop_last() =~= o.take(k));
        lemma_puts_acts(w);
        assert(o[k].len() > 0);
        let l = w.last();
        assert(pile(w)(key(l)).len() > 0);
    }
}
proof fn lemma_inverse_acts(w: Seq<L>, p: P) requires is_pile(p), ensures acts(inv_word(w), acts(w, p)) == p decreases w.len() {
    if w.len() == 0 { assert(inv_word(w).len() == 0); } else {
        let d = w.drop_last(); let l = w.last();
        assert(inv_word(w) =~= seq![inv(l)] + inv_word(d));
        let q = acts(d, p);
        lemma_acts_pile(d, p);
        lemma_act_pile(l, q);
        lemma_acts_cat(seq![inv(l)], inv_word(d), acts(w, p));
        assert(seq![inv(l)].drop_last() =~= Seq::<L>::empty());
        assert(acts(seq![inv(l)], acts(w, p)) == act(inv(l), acts(Seq::<L>::empty(), acts(w, p))));
        lemma_inverse_acts(d, p);
    }
}
/// a word followed by its reverse acts trivially
pub proof fn lemma_there_and_back(w: Seq<L>) ensures trivial(w + inv_word(w)) { lemma_none_pile(); lemma_acts_cat(w, inv_word(w), none()); lemma_inverse_acts(w, none()); }
} // verus!
verus! {
// ------------------------------------------------------------------------------------------------
// Tokens: a configuration lists the vertex of each token; a move takes the token at its start to its end, which is free.
pub open spec fn go(m: L, v: usize) -> usize { if v == m.0 { m.1 } else if v == m.1 { m.0 } else { v } }
pub open spec fn mv(m: L, c: Seq<usize>) -> Seq<usize> { Seq::new(c.len(), |i: int| go(m, c[i])) }
pub open spec fn at(c: Seq<usize>, v: usize) -> bool { c.contains(v) }
/// a token at the start of the move and none at its end
pub open spec fn legal(m: L, c: Seq<usize>) -> bool { at(c, m.0) && !at(c, m.1) }
pub open spec fn run(w: Seq<L>, c: Seq<usize>) -> Seq<usize> decreases w.len() { if w.len() == 0 { c } else { mv(w.last(), run(w.drop_last(), c)) } }
pub open spec fn walk(w: Seq<L>, c: Seq<usize>) -> bool decreases w.len() { w.len() == 0 || (walk(w.drop_last(), c) && legal(w.last(), run(w.drop_last(), c))) }
pub open spec fn distinct(c: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j ==> c[i] != c[j] }
pub open spec fn base(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }

proof fn lemma_run_len(w: Seq<L>, c: Seq<usize>) ensures run(w, c).len() == c.len(), distinct(c) ==> distinct(run(w, c)) decreases w.len() { if w.len() > 0 { lemma_run_len(w.drop_last(), c); } }
proof fn lemma_run_cat(a: Seq<L>, b: Seq<L>, c: Seq<usize>) ensures run(a + b, c) == run(b, run(a, c)), walk(a + b, c) == (walk(a, c) && walk(b, run(a, c))) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_run_cat(a, b.drop_last(), c); }
}
proof fn lemma_at_mv(m: L, c: Seq<usize>, v: usize) requires v != m.0, v != m.1, ensures at(mv(m, c), v) == at(c, v) {
    if at(c, v) { let i = choose|i: int| 0 <= i < c.len() && c[i] == v; assert(mv(m, c)[i] == v); }
    if at(mv(m, c), v) { let i = choose|i: int| 0 <= i < c.len() && mv(m, c)[i] == v; assert(c[i] == v); }
}
proof fn lemma_run2(a: L, b: L, c: Seq<usize>) ensures run(seq![a, b], c) == mv(b, mv(a, c)), walk(seq![a, b], c) == (legal(a, c) && legal(b, mv(a, c))) {
    let s = seq![a, b]; assert(s.drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= Seq::<L>::empty());
    assert(run(seq![a], c) == mv(a, run(Seq::<L>::empty(), c)));
    assert(walk(Seq::<L>::empty(), c));
    assert(walk(seq![a], c) == legal(a, run(Seq::<L>::empty(), c)));
}
proof fn lemma_step_run(a: Seq<L>, b: Seq<L>, c: Seq<usize>) requires step1(a, b), ensures run(a, c) == run(b, c), walk(a, c) ==> walk(b, c) {
    let i = choose|i: int| step_at(a, b, i);
    let (x, y) = (a[i], a[i + 1]);
    let (h, t) = (a.take(i), a.skip(i + 2));
    assert(a =~= h + seq![x, y] + t);
    let q = run(h, c);
    lemma_run_cat(h, seq![x, y], c); lemma_run_cat(h + seq![x, y], t, c);
    lemma_run2(x, y, q);
    if comm(x, y) && b == swapped(a, i) {
        assert(b =~= h + seq![y, x] + t);
        lemma_run_cat(h, seq![y, x], c); lemma_run_cat(h + seq![y, x], t, c);
        lemma_run2(y, x, q);
        assert(mv(y, mv(x, q)) =~= mv(x, mv(y, q)));
        lemma_at_mv(x, q, y.0); lemma_at_mv(x, q, y.1); lemma_at_mv(y, q, x.0); lemma_at_mv(y, q, x.1);
    } else {
        lemma_run_cat(h, t, c);
        assert(mv(y, mv(x, q)) =~= q);
    }
}
proof fn lemma_red_run_n(n: nat, a: Seq<L>, b: Seq<L>, c: Seq<usize>) requires red(n, a, b), ensures run(a, c) == run(b, c), walk(a, c) ==> walk(b, c) decreases n {
    if a != b { let d = choose|d: Seq<L>| #[trigger] step1(a, d) && red((n - 1) as nat, d, b); lemma_step_run(a, d, c); lemma_red_run_n((n - 1) as nat, d, b, c); }
}
/// reducing keeps the motion of the tokens
pub proof fn lemma_red_run(a: Seq<L>, b: Seq<L>, c: Seq<usize>) requires reduces(a, b), ensures run(a, c) == run(b, c), walk(a, c) ==> walk(b, c) {
    reveal(reduces); let n = choose|n: nat| red(n, a, b); lemma_red_run_n(n, a, b, c);
}
/// the motion is one of vertices: composing paths composes the permutations
pub proof fn lemma_run_hom(w: Seq<L>, c: Seq<usize>, n: int) requires 0 <= n <= usize::MAX, forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] < n, ensures run(w, c).len() == c.len(), run(w, base(n)).len() == n, forall|i: int| 0 <= i < c.len() ==> #[trigger] run(w, c)[i] == run(w, base(n))[c[i] as int] decreases w.len() {
    if w.len() > 0 { lemma_run_hom(w.drop_last(), c, n); }
}
proof fn lemma_run_back(w: Seq<L>, c: Seq<usize>) ensures run(w + inv_word(w), c) == c decreases w.len() {
    if w.len() == 0 { assert(inv_word(w).len() == 0); assert(w + inv_word(w) =~= w); } else {
        let d = w.drop_last(); let l = w.last();
        assert(w + inv_word(w) =~= (d + seq![l, inv(l)]) + inv_word(d));
        lemma_run_cat(d + seq![l, inv(l)], inv_word(d), c); lemma_run_cat(d, seq![l, inv(l)], c); lemma_run2(l, inv(l), run(d, c));
        assert(mv(inv(l), mv(l, run(d, c))) =~= run(d, c));
        lemma_run_cat(d, inv_word(d), c);
        lemma_run_back(d, c);
    }
}
/// the moves of one step are pairwise disjoint
pub open spec fn steps_disjoint(o: Seq<Seq<L>>) -> bool { forall|k: int| 0 <= k < o.len() ==> disjoint(#[trigger] o[k]) }
// ---- steps: the tokens of a step move at the same time
/// where the step takes the token at v
pub open spec fn dest(w: Seq<L>, v: usize) -> usize decreases w.len() { if w.len() == 0 { v } else if w.last().0 == v { w.last().1 } else { dest(w.drop_last(), v) } }
pub open spec fn shift(w: Seq<L>, c: Seq<usize>) -> Seq<usize> { Seq::new(c.len(), |i: int| dest(w, c[i])) }
pub open spec fn flow(o: Seq<Seq<L>>, c: Seq<usize>) -> Seq<usize> decreases o.len() { if o.len() == 0 { c } else { shift(o.last(), flow(o.drop_last(), c)) } }
/// before each step no two tokens meet, and every move of the step starts at one of them
pub open spec fn starts(w: Seq<L>, c: Seq<usize>) -> bool { distinct(c) && forall|k: int| 0 <= k < w.len() ==> at(c, (#[trigger] w[k]).0) }
pub open spec fn motion(o: Seq<Seq<L>>, c: Seq<usize>) -> bool decreases o.len() { o.len() == 0 || (motion(o.drop_last(), c) && starts(o.last(), flow(o.drop_last(), c))) }
proof fn lemma_motion(o: Seq<Seq<L>>, k: int, c: Seq<usize>) requires motion(o, c), 0 <= k <= o.len(), ensures motion(o.take(k), c) decreases o.len() {
    if k == o.len() { assert(o.take(k) =~= o); } else { assert(o.drop_last().take(k) =~= o.take(k)); lemma_motion(o.drop_last(), k, c); }
}
// moving the tokens of a step of disjoint moves at the same time or one after the other is the same
proof fn lemma_shift_run(w: Seq<L>, c: Seq<usize>) requires disjoint(w), walk(w, c), distinct(c), ensures shift(w, c) == run(w, c), starts(w, c) decreases w.len() {
    if w.len() == 0 { assert(shift(w, c) =~= c); } else {
        let d = w.drop_last(); let y = w.last();
        assert(disjoint(d)) by { assert forall|a: int, b: int| 0 <= a < d.len() && 0 <= b < d.len() && a != b implies comm(#[trigger] d[a], #[trigger] d[b]) by { assert(d[a] == w[a] && d[b] == w[b]); } }
        assert(commutes(d, y)) by { assert forall|k: int| 0 <= k < d.len() implies comm(#[trigger] d[k], y) by { assert(d[k] == w[k]); assert(comm(w[k], w[w.len() - 1])); } }
        lemma_shift_run(d, c);
        lemma_run_other(d, c, y);
        let q = run(d, c);
        assert(shift(w, c) =~= run(w, c)) by {
            assert forall|i: int| 0 <= i < c.len() implies #[trigger] shift(w, c)[i] == run(w, c)[i] by {
                assert(q[i] == shift(d, c)[i]); assert(run(w, c)[i] == go(y, q[i]));
                assert((q[i] == y.0) == (c[i] == y.0));
                if q[i] == y.1 { assert(at(q, y.1)); }
            }
        }
        assert forall|k: int| 0 <= k < w.len() implies at(c, (#[trigger] w[k]).0) by {
            if k < d.len() { assert(w[k] == d[k]); } else { let i = choose|i: int| 0 <= i < q.len() && q[i] == y.0; assert(c[i] == y.0); }
        }
    }
}
/// for paths of disjoint moves the motion of the steps is the motion of the word
pub proof fn lemma_flow_run(o: Seq<Seq<L>>, c: Seq<usize>) requires steps_disjoint(o), walk(cat(o), c), distinct(c), ensures flow(o, c) == run(cat(o), c), motion(o, c) decreases o.len() {
    if o.len() > 0 {
        let d = o.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies disjoint(#[trigger] d[k]) by { assert(d[k] == o[k]); }
        lemma_run_cat(cat(d), o.last(), c);
        lemma_flow_run(d, c);
        lemma_run_len(cat(d), c);
        assert(disjoint(o[o.len() - 1]));
        lemma_shift_run(o.last(), run(cat(d), c));
    }
}
// within a step of disjoint moves
proof fn lemma_run_other(w: Seq<L>, c: Seq<usize>, y: L) requires commutes(w, y), ensures run(w, c).len() == c.len(), forall|i: int| 0 <= i < c.len() ==> ((#[trigger] run(w, c)[i] == y.0) == (c[i] == y.0)) && ((run(w, c)[i] == y.1) == (c[i] == y.1)) decreases w.len() {
    if w.len() > 0 {
        let d = w.drop_last();
        assert(comm(w[w.len() - 1], y));
        assert(commutes(d, y)) by { assert forall|k: int| 0 <= k < d.len() implies comm(#[trigger] d[k], y) by { assert(d[k] == w[k]); } }
        lemma_run_other(d, c, y);
    }
}
} // verus!
verus! {
// copies and in-place operations on one step, proved here
fn copy_step(v: &Vec<[usize; 2]>) -> (r: Vec<[usize; 2]>) ensures r@ == v@ {
    let mut r: Vec<[usize; 2]> = Vec::new();
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), r@ =~= v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; }
    assert(r@ =~= v@);
    r
}
fn rev_step(v: &mut Vec<[usize; 2]>) ensures final(v)@ == old(v)@.reverse() {
    let mut r: Vec<[usize; 2]> = Vec::new();
    let n = v.len();
    let mut i = n;
    while i > 0 invariant i <= n, n == v.len(), v@ == old(v)@, r.len() == n - i, forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == v[n - 1 - k] decreases i { i -= 1; r.push(v[i]); }
    assert(r@ =~= old(v)@.reverse());
    *v = r;
}
fn swap_ends(e: &mut [usize; 2], i: usize, j: usize) requires i == 0, j == 1 ensures lt(*final(e)) == inv(lt(*old(e))) { let t = e[0]; e[0] = e[1]; e[1] = t; }

// ---- the state of the reduction
pub open spec fn good(done: Seq<L>, o: Seq<Seq<L>>, canceled: bool) -> bool {
    layered(o) && reduces(done, cat(o)) && (if canceled { cat(o).len() < done.len() } else { cat(o).len() == done.len() && tight(o) })
}
proof fn lemma_good0(p: Seq<Seq<L>>, o: Seq<Seq<L>>) requires o.len() == 0, p.len() == 0, ensures good(cat(p), o, false) { assert(cat(o) =~= Seq::empty()); lemma_red_refl(Seq::<L>::empty()); }
proof fn lemma_good1(w: Seq<L>, o: Seq<Seq<L>>, c: bool) requires good(w, o, c), ensures reduces(w, cat(o)), c ==> cat(o).len() < w.len(), !c ==> normal(o) {}
proof fn lemma_next(done: Seq<L>, o: Seq<Seq<L>>, c: bool, x: L, i: int)
    requires good(done, o, c), last_blocked(o, x, i), i >= 0 ==> no_inverse(o[i], x),
    ensures good(done.push(x), pushed(o, x, i + 1), c),
{
    lemma_pushed(o, x, i);
    lemma_ctx(Seq::empty(), done, cat(o), seq![x]);
    assert(Seq::<L>::empty() + done + seq![x] =~= done.push(x)); assert(Seq::<L>::empty() + cat(o) + seq![x] =~= cat(o).push(x));
    lemma_red_trans(done.push(x), cat(o).push(x), cat(pushed(o, x, i + 1)));
}
proof fn lemma_next_cancel(done: Seq<L>, o: Seq<Seq<L>>, c: bool, x: L, i: int, a: int)
    requires good(done, o, c), last_blocked(o, x, i), i >= 0, 0 <= a < o[i].len(), o[i][a] == inv(x),
    ensures good(done.push(x), taken(o, i, a), true),
{
    lemma_taken(o, x, i, a);
    lemma_ctx(Seq::empty(), done, cat(o), seq![x]);
    assert(Seq::<L>::empty() + done + seq![x] =~= done.push(x)); assert(Seq::<L>::empty() + cat(o) + seq![x] =~= cat(o).push(x));
    lemma_red_trans(done.push(x), cat(o).push(x), cat(taken(o, i, a)));
}
proof fn lemma_lay(p: Seq<Vec<[usize; 2]>>, j: int) requires 0 <= j < p.len(), ensures lay(p).len() == p.len(), cat(lay(p).take(j + 1)) == cat(lay(p).take(j)) + word(p[j]@) { lemma_take1(lay(p), j); }
pub open spec fn flip(w: Seq<L>) -> Seq<L> { Seq::new(w.len(), |i: int| inv(w[i])) }
pub open spec fn rev_lay(o: Seq<Seq<L>>) -> Seq<Seq<L>> { Seq::new(o.len(), |i: int| inv_word(o[o.len() - 1 - i])) }
proof fn lemma_rev_lay(o: Seq<Seq<L>>) ensures cat(rev_lay(o)) == inv_word(cat(o)) decreases o.len() {
    let r = rev_lay(o);
    if o.len() == 0 { assert(cat(r) =~= inv_word(cat(o))); } else {
        let d = o.drop_last();
        lemma_rev_lay(d);
        lemma_split(r, 1);
        assert(r.skip(1) =~= rev_lay(d));
        assert(r.take(1).drop_last() =~= Seq::<Seq<L>>::empty());
        assert(r.take(1).last() == inv_word(o.last()));
        assert(cat(Seq::<Seq<L>>::empty()) =~= Seq::<L>::empty());
        assert(cat(r.take(1)) =~= inv_word(o.last()));
        assert(inv_word(cat(d) + o.last()) =~= inv_word(o.last()) + inv_word(cat(d)));
    }
}

//@file alg/src/non_commutative/permutation.rs
//@struct ConstPermutation @derive(Clone,Copy,PartialEq,Eq)
impl<const N: usize> ConstPermutation<N> {
//@fn <ConstPermutation as From>::from params=a
//@.spec
    ensures r.0@ == a@,
//@end
}
//@file topo_spaces/src/cubical.rs
//@struct EdgePath
impl EdgePath {
    pub open spec fn v(self) -> Seq<Seq<L>> { lay(self.0@) }
//@fn EdgePath::trivial_path
//@.spec
    ensures r.v().len() == 0,
//@end
//@fn <EdgePath as From>::from params=value
//@.spec
    ensures r.v() == lay(value@),
//@end
//@fn EdgePath::reduce_to_geodesic#commute params=v,w
//@.spec
    ensures r == commutes(word(v@), lt(*w)),
//@.loop 0
    invariant __i0 <= __n0, __n0 == v.len(), forall|k: int| 0 <= k < __i0 ==> comm(#[trigger] word(v@)[k], lt(*w)),
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { assert(word(v@)[__j0 as int] == lt(v[__j0 as int])); }
//@end
//@fn EdgePath::reduce_to_geodesic#composable params=v,w
//@.spec
    ensures r == commutes(word(v@), lt(*w)),
//@.loop 0
    invariant __i0 <= __n0, __n0 == v.len(), forall|k: int| 0 <= k < __i0 ==> comm(#[trigger] word(v@)[k], lt(*w)),
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { assert(word(v@)[__j0 as int] == lt(v[__j0 as int])); }
//@end
//@fn EdgePath::reduce_to_geodesic#cancelable params=v,w
//@.spec
    ensures r == (lt(*v) == inv(lt(*w))),
//@end
//@fn EdgePath::reduce_to_geodesic own0=& acc2=Option<usize> acc3=Option<usize>
//@.spec
    ensures normal(r.v()), reduces(cat(self.v()), cat(r.v())),
    decreases cat(self.v()).len(),
//@.entry
    hide(good); hide(layered); hide(tight); hide(held); hide(disjoint); hide(cat);
//@.loop 0 before
    proof { lemma_good0(self.v().take(0), lay(out@)); }
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.0.len(), good(cat(self.v().take(__i0 as int)), lay(out@), some_canceled),
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { lemma_lay(self.0@, __j0 as int); }
//@.loop 1 before
    let ghost before = cat(self.v().take(__j0 as int));
    proof { assert(before + word(f@).take(0) =~= before); }
//@.loop 1
    invariant __i1 <= __n1, __n1 == f.len(), good(before + word(f@).take(__i1 as int), lay(out@), some_canceled),
    decreases __n1 - __i1,
//@.loop 1 begin
    let ghost done = before + word(f@).take(__j1 as int);
    let ghost x = word(f@)[__j1 as int];
    let ghost o0 = lay(out@);
    let ghost c0 = some_canceled;
    let ghost mut gi: int = -1;
    let ghost mut ga: int = -1;
    proof { assert(before + word(f@).take(__i1 as int) =~= done.push(x)); }
//@.loop 1 end
    proof {
        if ga >= 0 {
            lemma_next_cancel(done, o0, c0, x, gi, ga);
            assert(lay(out@) =~~= taken(o0, gi, ga));
        } else {
            lemma_next(done, o0, c0, x, gi);
            assert(lay(out@) =~~= pushed(o0, x, gi + 1));
        }
    }
//@.loop 1 after
    proof { assert(word(f@).take(__n1 as int) =~= word(f@)); }
//@.loop 2
    invariant __i2 <= __h2, __h2 == out.len(), o0 == lay(out@), __a2 is None ==> (forall|k: int| __i2 <= k < o0.len() ==> commutes(#[trigger] o0[k], x)),
        __a2 matches Some(j) ==> j >= 0 && last_blocked(o0, x, j as int),
    decreases __i2,
//@.loop 2 begin
    proof { assert(o0[__j2 as int] == word(out@[__j2 as int]@)); }
//@.loop 2 after
    proof { gi = match __a2 { Some(j) => j as int, None => -1 }; assert(last_blocked(o0, x, gi)); }
//@.loop 3
    invariant __i3 <= __h3, __h3 == out[i as int].len(), o0 == lay(out@), __a3 is None ==> (forall|k: int| 0 <= k < __i3 ==> #[trigger] o0[i as int][k] != inv(x)),
        __a3 matches Some(j) ==> 0 <= j < o0[i as int].len() && o0[i as int][j as int] == inv(x),
    decreases __h3 - __i3,
//@.loop 3 begin
    proof { assert(o0[i as int] == word(out@[i as int]@)); }
//@.loop 3 after
    proof { ga = match __a3 { Some(j) => j as int, None => -1 }; }
//@.loop 0 after
    proof { assert(self.v().take(__n0 as int) =~= self.v()); lemma_good1(cat(self.v()), lay(out@), some_canceled); }
//@.exit
    proof { lemma_good1(cat(self.v()), lay(out@), some_canceled); if some_canceled { lemma_red_trans(cat(self.v()), cat(lay(out@)), cat(__ret.v())); } }
//@end
//@fn EdgePath::composed_with params=other
//@.spec
    ensures r.v() == self.v() + other.v(),
//@.entry
    let ghost oth = other.v();
//@.exit
    proof { assert(__ret.v() =~~= self.v() + oth); }
//@end
//@fn EdgePath::evaluate_permutation deref=self:0 acc3=Option<usize>
//@.spec
    requires motion(self.v(), base(N as int)),
    ensures r.0@ == flow(self.v(), base(N as int)),
//@.loop 0
    invariant 0 <= __i0 <= N, __h0 == N, forall|k: int| 0 <= k < __i0 ==> #[trigger] out[k] == k,
    decreases N - __i0,
//@.loop 1 before
    let ghost bs = base(N as int);
    proof { assert(out@ =~= bs); assert(self.v().take(0).len() == 0); }
//@.loop 1
    invariant __i1 <= __n1, __n1 == self.0.len(), out@ == flow(self.v().take(__i1 as int), bs),
    decreases __n1 - __i1,
//@.loop 1 begin
    let ghost w = word(self.0@[__j1 as int]@);
    proof {
        let o = self.v();
        lemma_motion(o, __i1 as int, bs);
        assert(o.take(__i1 as int).drop_last() =~= o.take(__j1 as int));
        assert(o.take(__i1 as int).last() == w);
    }
//@.loop 2 before
    proof { assert(next@ =~= shift(w.take(0), out@)); }
//@.loop 2
    invariant __i2 <= __n2, __n2 == step.len(), next@ == shift(w.take(__i2 as int), out@),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost y = w[__j2 as int];
    let ghost h = w.take(__j2 as int);
    proof {
        assert(w.take(__i2 as int).drop_last() =~= h);
        assert(w.take(__i2 as int).last() == y);
        assert(at(out@, y.0));
        let t = choose|t: int| 0 <= t < out@.len() && out@[t] == y.0;
    }
//@.loop 2 end
    proof {
        assert(w.take(__i2 as int) =~= h.push(y)); assert(h.push(y).drop_last() =~= h); assert(h.push(y).last() == y);
        assert forall|i: int| 0 <= i < N implies #[trigger] next@[i] == shift(h.push(y), out@)[i] by { assert(i != update_idx ==> out@[i] != out@[update_idx as int]); assert(shift(h, out@)[i] == dest(h, out@[i])); }
        assert(next@ =~= shift(h.push(y), out@));
    }
//@.loop 2 after
    proof { assert(w.take(__n2 as int) =~= w); }
//@.loop 3
    invariant 0 <= __i3 <= N, __h3 == N, __a3 is None ==> (forall|k: int| 0 <= k < __i3 ==> #[trigger] out[k] != edge[0]),
        __a3 matches Some(j) ==> 0 <= j < N && out[j as int] == edge[0],
    decreases N - __i3,
//@.loop 1 after
    proof { assert(self.v().take(__n1 as int) =~= self.v()); }
//@end
//@fn EdgePath::inverse own3=copy_step acc3=Vec<Vec<[usize;2]>> method:swap=~swap_ends method:reverse=~rev_step
//@.spec
    ensures normal(r.v()), reduces(inv_word(cat(self.v())), cat(r.v())),
//@.loop 0 before
    let ghost o = self.v();
    let ghost n = o.len();
//@.loop 0
    invariant __i0 <= __n0, __n0 == n, self_.0.len() == n, forall|k: int| 0 <= k < __i0 ==> #[trigger] word(self_.0@[k]@) == flip(o[k]), forall|k: int| __i0 <= k < n ==> #[trigger] word(self_.0@[k]@) == o[k],
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost s0 = self_.0@;
    let ghost l = o[__j0 as int];
    proof { assert(word(s0[__j0 as int]@) == l); }
//@.loop 1
    invariant __i1 <= __n1, __n1 == l.len(), self_.0.len() == n, self_.0@[__j0 as int].len() == l.len(), forall|k: int| 0 <= k < n && k != __j0 ==> #[trigger] self_.0@[k] == s0[k],
        forall|m: int| 0 <= m < __i1 ==> lt(#[trigger] self_.0@[__j0 as int]@[m]) == inv(l[m]), forall|m: int| __i1 <= m < l.len() ==> lt(#[trigger] self_.0@[__j0 as int]@[m]) == l[m],
    decreases __n1 - __i1,
//@.loop 1 after
    proof {
        assert(word(self_.0@[__j0 as int]@) =~= flip(l));
        assert forall|k: int| 0 <= k < n implies #[trigger] word(self_.0@[k]@) == if k < __i0 { flip(o[k]) } else { o[k] } by { if k != __j0 { assert(self_.0@[k] == s0[k]); assert(word(s0[k]@) == if k < __j0 { flip(o[k]) } else { o[k] }); } }
    }
//@.loop 2
    invariant __i2 <= __n2, __n2 == n, self_.0.len() == n, forall|k: int| 0 <= k < __i2 ==> #[trigger] word(self_.0@[k]@) == inv_word(o[k]), forall|k: int| __i2 <= k < n ==> #[trigger] word(self_.0@[k]@) == flip(o[k]),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost s0 = self_.0@;
    proof { assert(word(s0[__j2 as int]@) == flip(o[__j2 as int])); }
//@.loop 2 end
    proof {
        let l = o[__j2 as int];
        let t = s0[__j2 as int]@;
        assert(self_.0@[__j2 as int]@ == t.reverse());
        assert forall|m: int| 0 <= m < l.len() implies lt(#[trigger] t[m]) == inv(l[m]) by { assert(word(t)[m] == flip(l)[m]); }
        assert(word(t).len() == l.len());
        assert(word(t.reverse()) =~= inv_word(l));
        assert forall|k: int| 0 <= k < n implies #[trigger] word(self_.0@[k]@) == if k < __i2 { inv_word(o[k]) } else { flip(o[k]) } by { if k != __j2 { assert(self_.0@[k] == s0[k]); assert(word(s0[k]@) == if k < __j2 { inv_word(o[k]) } else { flip(o[k]) }); } }
    }
//@.loop 3
    invariant __i3 <= __n3, __n3 == n, self_.0.len() == n, __a3.len() == __i3, forall|k: int| 0 <= k < n ==> #[trigger] word(self_.0@[k]@) == inv_word(o[k]), forall|k: int| 0 <= k < __i3 ==> word(#[trigger] __a3@[k]@) == inv_word(o[n - 1 - k]),
    decreases __n3 - __i3,
//@.loop 3 begin
    proof { assert(word(self_.0@[n - 1 - __j3]@) == inv_word(o[n - 1 - __j3])); }
//@.loop 3 after
    proof { assert(lay(__a3@) =~= rev_lay(o)); lemma_rev_lay(o); }
//@end
}
// ---- what follows from the contracts, with no look at the bodies
/// a path followed by its inverse reduces to the trivial path
fn there_and_back(p: EdgePath, q: EdgePath) -> (r: EdgePath)
    requires p.v() == q.v(),
    ensures r.v().len() == 0,
{
    let i = q.inverse();
    let c = p.composed_with(i);
    let r = c.reduce_to_geodesic();
    proof {
        let w = cat(p.v());
        lemma_cat_cat(p.v(), i.v());
        lemma_ctx(w, inv_word(w), cat(i.v()), Seq::empty());
        assert(w + inv_word(w) + Seq::<L>::empty() =~= w + inv_word(w)); assert(w + cat(i.v()) + Seq::<L>::empty() =~= cat(c.v()));
        lemma_red_trans(w + inv_word(w), cat(c.v()), cat(r.v()));
        lemma_there_and_back(w);
        lemma_none_pile();
        lemma_red_acts(w + inv_word(w), cat(r.v()), none());
        lemma_normal_trivial(r.v());
    }
    r
}
proof fn lemma_cat_cat(a: Seq<Seq<L>>, b: Seq<Seq<L>>) ensures cat(a + b) == cat(a) + cat(b) {
    lemma_split(a + b, a.len() as int); assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b);
}
/// reducing keeps the permutation
fn same_permutation<const N: usize>(p: EdgePath, q: EdgePath) -> (r: (ConstPermutation<N>, ConstPermutation<N>))
    requires p.v() == q.v(), steps_disjoint(p.v()), walk(cat(p.v()), base(N as int)),
    ensures r.0.0@ == r.1.0@,
{
    let t = q.reduce_to_geodesic();
    proof {
        lemma_red_run(cat(p.v()), cat(t.v()), base(N as int));
        assert(steps_disjoint(t.v())) by { assert forall|k: int| 0 <= k < t.v().len() implies disjoint(#[trigger] t.v()[k]) by { assert(t.v()[k].len() > 0); } }
        lemma_flow_run(p.v(), base(N as int)); lemma_flow_run(t.v(), base(N as int));
    }
    (p.evaluate_permutation::<N>(), t.evaluate_permutation::<N>())
}
} // verus!
fn main() {}
