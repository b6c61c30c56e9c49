verus! {
// ------------------------------------------------------------------ specification
pub open spec fn bit(w: u64, b: int) -> bool { 0 <= b < 64 && (w >> (b as u64)) & 1 == 1 }
// number of set bits below k
pub open spec fn cnt(w: u64, k: int) -> int decreases k
{ if k <= 0 { 0 } else { cnt(w, k - 1) + if bit(w, k - 1) { 1int } else { 0 } } }
// membership of index i in the words d
pub open spec fn inw(d: Seq<u64>, i: int) -> bool { 0 <= i < 64 * d.len() && bit(d[i / 64], i % 64) }
// number of members below n
pub open spec fn card(d: Seq<u64>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { card(d, n - 1) + if inw(d, n - 1) { 1int } else { 0 } } }
pub open spec fn total(d: Seq<u64>, m: int) -> int decreases m
{ if m <= 0 { 0 } else { total(d, m - 1) + cnt(d[m - 1], 64) } }

proof fn lemma_low_step(w: u64, k: u64)
    requires k < 64, w != 0,
    ensures ({
        let v = w & ((w - 1) as u64);
        let z = w & (((1u64 << k) - 1) as u64) != 0;
        let z2 = if k == 63 { w != 0 } else { w & (((1u64 << ((k + 1) as u64)) - 1) as u64) != 0 };
        &&& z ==> (((v >> k) & 1 == 1) == ((w >> k) & 1 == 1)) && z2
        &&& !z ==> ((v >> k) & 1 == 0) && (z2 == ((w >> k) & 1 == 1))
    })
{
    let m1 = (w - 1) as u64;
    assert(1u64 << k >= 1) by(bit_vector) requires k < 64;
    assert(({
        let v = w & (sub(w, 1));
        let z = w & sub(1u64 << k, 1) != 0;
        let z2 = if k == 63 { w != 0 } else { w & sub(1u64 << add(k, 1), 1) != 0 };
        (z ==> (((v >> k) & 1 == 1) == ((w >> k) & 1 == 1)) && z2)
        && (!z ==> ((v >> k) & 1 == 0) && (z2 == ((w >> k) & 1 == 1)))
    })) by(bit_vector) requires k < 64, w != 0;
    if k < 63 { assert(1u64 << add(k, 1) >= 1) by(bit_vector) requires k < 63; }
}
proof fn lemma_cnt_low(w: u64, k: int)
    requires w != 0, 0 <= k <= 64,
    ensures cnt(w, k) == cnt(w & ((w - 1) as u64), k) + if (if k == 64 { w != 0 } else { w & (((1u64 << (k as u64)) - 1) as u64) != 0 }) { 1int } else { 0 },
    decreases k
{
    if k == 0 {
        assert(w & sub(1u64 << 0, 1) == 0) by(bit_vector);
        assert(1u64 << 0 == 1) by(bit_vector);
    } else {
        lemma_cnt_low(w, k - 1);
        lemma_low_step(w, (k - 1) as u64);
    }
}
proof fn lemma_clear_low(w: u64)
    requires w != 0,
    ensures cnt(w & ((w - 1) as u64), 64) == cnt(w, 64) - 1,
{ lemma_cnt_low(w, 64); }
proof fn lemma_cnt_zero(k: int)
    requires 0 <= k <= 64
    ensures cnt(0, k) == 0, decreases k
{ if k > 0 { lemma_cnt_zero(k - 1); let b = (k - 1) as u64; assert((0u64 >> b) & 1 == 0) by(bit_vector); } }
proof fn lemma_cnt_bound(w: u64, k: int)
    requires 0 <= k <= 64
    ensures 0 <= cnt(w, k) <= k, decreases k
{ if k > 0 { lemma_cnt_bound(w, k - 1); } }
proof fn lemma_cnt_ext(a: u64, b: u64, k: int)
    requires 0 <= k <= 64, forall|i: int| 0 <= i < k ==> bit(a, i) == bit(b, i),
    ensures cnt(a, k) == cnt(b, k), decreases k
{ if k > 0 { lemma_cnt_ext(a, b, k - 1); } }

proof fn lemma_card_bound(d: Seq<u64>, n: int)
    requires 0 <= n
    ensures 0 <= card(d, n) <= n, decreases n
{ if n > 0 { lemma_card_bound(d, n - 1); } }
proof fn lemma_card_mono(d: Seq<u64>, n: int, m: int)
    requires 0 <= n <= m
    ensures card(d, n) <= card(d, m), decreases m
{ if n < m { lemma_card_mono(d, n, m - 1); } }
proof fn lemma_card_ext(a: Seq<u64>, b: Seq<u64>, n: int)
    requires forall|i: int| 0 <= i < n ==> inw(a, i) == inw(b, i),
    ensures card(a, n) == card(b, n), decreases n
{ if n > 0 { lemma_card_ext(a, b, n - 1); } }
proof fn lemma_card_none(d: Seq<u64>, n: int, m: int)
    requires 0 <= n <= m, forall|i: int| n <= i < m ==> !inw(d, i),
    ensures card(d, n) == card(d, m), decreases m
{ if n < m { lemma_card_none(d, n, m - 1); } }
proof fn lemma_card_set(a: Seq<u64>, b: Seq<u64>, n: int, x: int)
    requires 0 <= x < n, !inw(a, x), inw(b, x), forall|i: int| i != x ==> inw(a, i) == inw(b, i),
    ensures card(b, n) == card(a, n) + 1, decreases n
{ if n - 1 == x { lemma_card_ext(a, b, n - 1); } else { lemma_card_set(a, b, n - 1, x); } }
proof fn lemma_card_full(d: Seq<u64>, n: int)
    requires 0 <= n, card(d, n) == n,
    ensures forall|i: int| 0 <= i < n ==> inw(d, i), decreases n
{ if n > 0 { lemma_card_bound(d, n - 1); lemma_card_full(d, n - 1); } }
proof fn lemma_card_all(d: Seq<u64>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> inw(d, i),
    ensures card(d, n) == n, decreases n
{ if n > 0 { lemma_card_all(d, n - 1); } }

// the words add up to the cardinality
proof fn lemma_word_card(d: Seq<u64>, m: int, k: int)
    requires 0 <= m < d.len(), 0 <= k <= 64,
    ensures card(d, 64 * m + k) == card(d, 64 * m) + cnt(d[m], k), decreases k
{ if k > 0 {
    lemma_word_card(d, m, k - 1);
    assert((64 * m + k - 1) / 64 == m && (64 * m + k - 1) % 64 == k - 1) by(nonlinear_arith) requires 0 < k <= 64, 0 <= m;
} }
proof fn lemma_total_card(d: Seq<u64>, m: int)
    requires 0 <= m <= d.len(),
    ensures card(d, 64 * m) == total(d, m), decreases m
{ if m > 0 { lemma_total_card(d, m - 1); lemma_word_card(d, m - 1, 64); } }

// a word is determined by its bits
proof fn lemma_word_eq_k(a: u64, b: u64, k: int)
    requires 0 <= k < 64, forall|i: int| 0 <= i < 64 ==> bit(a, i) == bit(b, i),
    ensures a & (((1u64 << (k as u64)) - 1) as u64) == b & (((1u64 << (k as u64)) - 1) as u64), decreases k
{
    let kk = k as u64;
    assert(1u64 << kk >= 1) by(bit_vector) requires kk < 64;
    if k == 0 { assert(1u64 << 0 == 1) by(bit_vector); assert(a & 0 == b & 0) by(bit_vector); }
    else {
        lemma_word_eq_k(a, b, k - 1);
        let j = (k - 1) as u64;
        assert(bit(a, k - 1) == bit(b, k - 1));
        assert(1u64 << j >= 1) by(bit_vector) requires j < 64;
        assert(((a >> j) & 1 == 1) == ((b >> j) & 1 == 1) && a & sub(1u64 << j, 1) == b & sub(1u64 << j, 1)
            ==> a & sub(1u64 << add(j, 1), 1) == b & sub(1u64 << add(j, 1), 1)) by(bit_vector) requires j < 63;
    }
}
proof fn lemma_word_eq(a: u64, b: u64)
    requires forall|i: int| 0 <= i < 64 ==> bit(a, i) == bit(b, i),
    ensures a == b,
{
    lemma_word_eq_k(a, b, 63);
    assert(bit(a, 63) == bit(b, 63));
    assert(1u64 << 63 >= 1) by(bit_vector);
    assert(((a >> 63) & 1 == 1) == ((b >> 63) & 1 == 1) && a & sub(1u64 << 63, 1) == b & sub(1u64 << 63, 1) ==> a == b) by(bit_vector);
}
// ---- single-word facts, by bit-vector reasoning
proof fn lemma_bit_or(w: u64, s: u64)
    requires s < 64,
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] bit(w | (1u64 << s), b) == (bit(w, b) || b == s),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(w | (1u64 << s), b) == (bit(w, b) || b == s) by {
        let c = b as u64;
        assert((((w | (1u64 << s)) >> c) & 1 == 1) == ((w >> c) & 1 == 1 || c == s)) by(bit_vector) requires c < 64, s < 64;
    }
}
proof fn lemma_bit_andnot(w: u64, s: u64)
    requires s < 64,
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] bit(w & !(1u64 << s), b) == (bit(w, b) && b != s),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(w & !(1u64 << s), b) == (bit(w, b) && b != s) by {
        let c = b as u64;
        assert((((w & !(1u64 << s)) >> c) & 1 == 1) == ((w >> c) & 1 == 1 && c != s)) by(bit_vector) requires c < 64, s < 64;
    }
}
proof fn lemma_bit_test(w: u64, s: u64)
    requires s < 64,
    ensures (w & (1u64 << s) == 1u64 << s) == bit(w, s as int), (w & (1u64 << s) != 0) == bit(w, s as int),
        ((w >> s) & 1 == 1) == bit(w, s as int),
{
    assert((w & (1u64 << s) == 1u64 << s) == ((w >> s) & 1 == 1)) by(bit_vector) requires s < 64;
    assert((w & (1u64 << s) != 0) == ((w >> s) & 1 == 1)) by(bit_vector) requires s < 64;
}
proof fn lemma_bit_or2(x: u64, y: u64)
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] bit(x | y, b) == (bit(x, b) || bit(y, b)),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(x | y, b) == (bit(x, b) || bit(y, b)) by {
        let c = b as u64;
        assert((((x | y) >> c) & 1 == 1) == ((x >> c) & 1 == 1 || (y >> c) & 1 == 1)) by(bit_vector) requires c < 64;
    }
}
proof fn lemma_bit_and2(x: u64, y: u64)
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] bit(x & y, b) == (bit(x, b) && bit(y, b)),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] bit(x & y, b) == (bit(x, b) && bit(y, b)) by {
        let c = b as u64;
        assert((((x & y) >> c) & 1 == 1) == ((x >> c) & 1 == 1 && (y >> c) & 1 == 1)) by(bit_vector) requires c < 64;
    }
}
proof fn lemma_bit_subset(x: u64, y: u64)
    ensures (x & y == x) <==> (forall|b: int| 0 <= b < 64 && bit(x, b) ==> #[trigger] bit(y, b)),
{
    lemma_bit_and2(x, y);
    if x & y == x {} else {
        if forall|b: int| 0 <= b < 64 && bit(x, b) ==> #[trigger] bit(y, b) {
            assert forall|b: int| 0 <= b < 64 implies bit(x & y, b) == bit(x, b) by { assert(bit(x, b) ==> bit(y, b)); }
            lemma_word_eq(x & y, x);
        }
    }
}
proof fn lemma_bit0()
    ensures forall|b: int| !#[trigger] bit(0u64, b),
{
    assert forall|b: int| !#[trigger] bit(0u64, b) by { if 0 <= b < 64 { let c = b as u64; assert((0u64 >> c) & 1 == 0) by(bit_vector); } }
}

} // verus!
