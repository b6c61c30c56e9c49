verus! {
// ------------------------------------------------------------------ elementary number theory (specification and lemmas)
pub open spec fn dvd(d: int, n: int) -> bool { exists|k: int| #[trigger] (d * k) == n }
pub open spec fn bez(g: int, a: int, b: int, x: int, y: int) -> bool { x * a + y * b == g }
// g is the greatest common divisor of a and b: a non-negative common divisor that every common divisor divides
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    g >= 0 && dvd(g, a) && dvd(g, b) && exists|x: int, y: int| bez(g, a, b, x, y)
}
pub open spec fn coprime(a: int, b: int) -> bool { exists|x: int, y: int| bez(1, a, b, x, y) }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }

// Euclidean quotient and remainder of |a| by d, in the form the machine operators are specified with
pub proof fn lemma_div_facts(a: int, d: int)
    requires d != 0,
    ensures ({ let m = if a >= 0 { a } else { -a };
        &&& m == d * (m / d) + m % d && 0 <= m % d < iabs(d)
        &&& -m <= m / d <= m
        &&& iabs(d) >= 2 ==> 2 * iabs(m / d) <= m
        &&& (m / d) * d == d * (m / d) && (-(m / d)) * d == -(d * (m / d)) && (-(m / d) - 1) * d == -(d * (m / d)) - d && (-(m / d) + 1) * d == -(d * (m / d)) + d
    }),
{
    let m = if a >= 0 { a } else { -a };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, d);
    assert(0 <= m % d < iabs(d)) by { if d > 0 { vstd::arithmetic::div_mod::lemma_mod_bound(m, d); } }
    let q = m / d; let r = m % d;
    assert(-m <= q <= m) by(nonlinear_arith) requires m == d * q + r, 0 <= r < iabs(d), m >= 0, d != 0;
    if iabs(d) >= 2 { assert(2 * iabs(q) <= m) by(nonlinear_arith) requires m == d * q + r, 0 <= r < iabs(d), m >= 0, iabs(d) >= 2; }
    assert(q * d == d * q && (-q) * d == -(d * q) && (-q - 1) * d == -(d * q) - d && (-q + 1) * d == -(d * q) + d) by(nonlinear_arith);
}
pub proof fn lemma_dvd_intro(d: int, k: int) ensures dvd(d, d * k) {}
pub proof fn lemma_dvd_mod(d: int, n: int)
    requires d != 0, ensures dvd(d, n) <==> n % d == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
    if n % d == 0 { assert(d * (n / d) == n); }
    if dvd(d, n) {
        let k = choose|k: int| #[trigger] (d * k) == n;
        lemma_mod_unique(n, d, k);
    }
}
pub proof fn lemma_mod_unique(n: int, d: int, k: int)
    requires d != 0, d * k == n, ensures n % d == 0,
{
    // Euclidean: n == d*(n/d) + n%d with 0 <= n%d < |d|
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
    let m = n % d;
    assert(0 <= m < iabs(d)) by { if d > 0 { vstd::arithmetic::div_mod::lemma_mod_bound(n, d); } }
    assert(d * (k - n / d) == m) by(nonlinear_arith) requires d * k == n, n == d * (n / d) + m;
    let q = k - n / d;
    if q != 0 { assert(iabs(d * q) >= iabs(d)) by(nonlinear_arith) requires q != 0; }
    else { assert(d * q == 0) by(nonlinear_arith) requires q == 0; }
}
pub proof fn lemma_dvd_sum(d: int, a: int, b: int, x: int, y: int)
    requires dvd(d, a), dvd(d, b), ensures dvd(d, x * a + y * b),
{
    let i = choose|k: int| #[trigger] (d * k) == a;
    let j = choose|k: int| #[trigger] (d * k) == b;
    assert(d * (x * i + y * j) == x * a + y * b) by(nonlinear_arith) requires d * i == a, d * j == b;
}
pub proof fn lemma_dvd_trans(a: int, b: int, c: int)
    requires dvd(a, b), dvd(b, c), ensures dvd(a, c),
{
    let i = choose|k: int| #[trigger] (a * k) == b;
    let j = choose|k: int| #[trigger] (b * k) == c;
    assert(a * (i * j) == c) by(nonlinear_arith) requires a * i == b, b * j == c;
}
// every common divisor divides the gcd
pub proof fn lemma_gcd_greatest(g: int, a: int, b: int, d: int)
    requires is_gcd(g, a, b), dvd(d, a), dvd(d, b), ensures dvd(d, g),
{
    let (x, y) = choose|x: int, y: int| bez(g, a, b, x, y);
    lemma_dvd_sum(d, a, b, x, y);
}
pub proof fn lemma_dvd_le(d: int, n: int)
    requires dvd(d, n), n != 0, ensures d != 0, iabs(d) <= iabs(n),
{
    let k = choose|k: int| #[trigger] (d * k) == n;
    assert(d != 0 && iabs(d) <= iabs(n)) by(nonlinear_arith) requires d * k == n, n != 0;
}
pub proof fn lemma_dvd_antisym(a: int, b: int)
    requires a >= 0, b >= 0, dvd(a, b), dvd(b, a), ensures a == b,
{
    if b == 0 { let k = choose|k: int| #[trigger] (b * k) == a; }
    else if a == 0 { let k = choose|k: int| #[trigger] (a * k) == b; }
    else { lemma_dvd_le(a, b); lemma_dvd_le(b, a); }
}
pub proof fn lemma_gcd_unique(g: int, h: int, a: int, b: int)
    requires is_gcd(g, a, b), is_gcd(h, a, b), ensures g == h,
{ lemma_gcd_greatest(g, a, b, h); lemma_gcd_greatest(h, a, b, g); lemma_dvd_antisym(g, h); }
pub proof fn lemma_euclid_rem(n: int, d: int, q: int, r: int)
    requires d != 0, n == q * d + r, 0 <= r < iabs(d), ensures dvd(d, n) <==> r == 0,
{
    if r == 0 { assert(d * q == n) by(nonlinear_arith) requires n == q * d; }
    if dvd(d, n) {
        let k = choose|k: int| #[trigger] (d * k) == n;
        assert(r == d * (k - q)) by(nonlinear_arith) requires d * k == n, n == q * d + r;
        let e = k - q;
        assert(r == 0) by(nonlinear_arith) requires r == d * e, 0 <= r < iabs(d);
    }
}
// Euclid's lemma
pub proof fn lemma_euclid(d: int, a: int, b: int)
    requires coprime(d, a), dvd(d, a * b), ensures dvd(d, b),
{
    let (x, y) = choose|x: int, y: int| bez(1, d, a, x, y);
    let k = choose|k: int| #[trigger] (d * k) == a * b;
    assert(d * (x * b + y * k) == b) by(nonlinear_arith) requires x * d + y * a == 1, d * k == a * b;
}
// dividing by the gcd leaves coprime numbers
pub proof fn lemma_reduce(g: int, a: int, b: int, a1: int, b1: int)
    requires is_gcd(g, a, b), g > 0, a == g * a1, b == g * b1, ensures coprime(a1, b1),
{
    let (x, y) = choose|x: int, y: int| bez(g, a, b, x, y);
    assert(x * a1 + y * b1 == 1) by(nonlinear_arith) requires x * a + y * b == g, a == g * a1, b == g * b1, g > 0;
    assert(bez(1, a1, b1, x, y));
}
// a fraction in lowest terms with a positive denominator is determined by its value
pub proof fn lemma_lowest_unique(n1: int, d1: int, n2: int, d2: int)
    requires d1 > 0, d2 > 0, coprime(n1, d1), coprime(n2, d2), n1 * d2 == n2 * d1,
    ensures n1 == n2, d1 == d2,
{
    let (x, y) = choose|x: int, y: int| bez(1, n1, d1, x, y);
    let (u, v) = choose|x: int, y: int| bez(1, n2, d2, x, y);
    assert(bez(1, d1, n1, y, x)); assert(bez(1, d2, n2, v, u));
    assert(dvd(d1, n1 * d2)) by { assert(d1 * n2 == n1 * d2) by(nonlinear_arith) requires n1 * d2 == n2 * d1; }
    lemma_euclid(d1, n1, d2);
    assert(dvd(d2, n2 * d1)) by { assert(d2 * n1 == n2 * d1) by(nonlinear_arith) requires n1 * d2 == n2 * d1; }
    lemma_euclid(d2, n2, d1);
    lemma_dvd_antisym(d1, d2);
    assert(n1 == n2) by(nonlinear_arith) requires n1 * d2 == n2 * d1, d1 == d2, d1 > 0;
}
} // verus!
