//@include prelude.inc
//@include numth.inc
//@include chk.inc
verus! {
//@file alg/src/commutative.rs
// ------------------------------------------------------------------ specification
pub open spec fn is_prime(n: int) -> bool { n >= 2 && forall|d: int| 2 <= d < n ==> #[trigger] (n % d) != 0 }
// multiplicity of x in n
pub open spec fn mult(n: int, x: int) -> int decreases n
{ if x >= 2 && n >= 1 && n % x == 0 && n / x < n { 1 + mult(n / x, x) } else { 0 } }
// number of prime factors below m, with multiplicity
pub open spec fn npf_below(n: int, m: int) -> int decreases m
{ if m <= 0 { 0 } else { npf_below(n, m - 1) + if is_prime(m - 1) { mult(n, m - 1) } else { 0 } } }
// number of prime factors of n, with multiplicity
pub open spec fn npf(n: int) -> int { npf_below(n, n + 1) }

proof fn lemma_mult_none(n: int, x: int) requires n % x != 0 || n < 1 ensures mult(n, x) == 0 {}
proof fn lemma_mult_nonneg(n: int, x: int) ensures mult(n, x) >= 0 decreases n
{ if x >= 2 && n >= 1 && n % x == 0 && n / x < n { lemma_mult_nonneg(n / x, x); } }
proof fn lemma_below_none(n: int, m: int)
    requires n >= 2, m <= n, forall|d: int| 2 <= d < m ==> #[trigger] (n % d) != 0,
    ensures npf_below(n, m) == 0, decreases m
{ if m > 0 { lemma_below_none(n, m - 1); if is_prime(m - 1) { assert(n % (m - 1) != 0); lemma_mult_none(n, m - 1); } } }
// a prime has exactly one prime factor
proof fn lemma_npf_prime(n: int)
    requires is_prime(n), ensures npf(n) == 1,
{
    lemma_below_none(n, n);
    assert(n % n == 0 && n / n == 1) by(nonlinear_arith) requires n >= 2;
    assert(1int % n == 1) by { vstd::arithmetic::div_mod::lemma_small_mod(1, n as nat); }
    lemma_mult_none(1, n);
    assert(mult(n, n) == 1 + mult(n / n, n));
}
// a number that is not prime is not one of its own prime factors
proof fn lemma_npf_top(n: int)
    requires n >= 1, !is_prime(n), ensures npf(n) == npf_below(n, n),
{}
proof fn lemma_mult_step(n: int, x: int)
    requires x >= 2, n >= 1, n % x == 0, ensures 1 <= n / x < n, mult(n, x) == 1 + mult(n / x, x),
{
    assert(1 <= n / x < n) by(nonlinear_arith) requires x >= 2, n >= 1, n % x == 0;
}

// Euclidean division step (a named predicate, so that the arguments below do not depend on names of locals)
pub open spec fn edm(n: int, d: int, q: int, r: int) -> bool { n == q * d + r && 0 <= r < iabs(d) }
//@foreach T isize i8 i16 i32 i64 i128
//@fn <__mac_t as PID>::euclid_div key=PID@T@::euclid_div macro=pid_impl $t=@T@ Self=@T@ self_as=@T@ name=euclid_div_@T@ params=d
//@.spec
    requires d != 0, !(self_ == @T@::MIN && d == -1),
    ensures edm(self_ as int, d as int, r.0 as int, r.1 as int),
        r.1 == 0 <==> dvd(d as int, self_ as int),
//@.entry
    proof { lemma_div_facts(self_ as int, d as int); }
//@.exit
    proof { lemma_euclid_rem(self_ as int, d as int, __ret.0 as int, __ret.1 as int); }
//@end
//@fn <__mac_t as PID>::simplify key=PID@T@::simplify macro=pid_impl $t=@T@ Self=@T@ self_as=@T@ name=simplify_@T@
//@.spec
    requires self_ > @T@::MIN,
    ensures r.0 == 1 || r.0 == -1, r.1 == r.0 * self_, r.1 == iabs(self_ as int),
//@end
//@fn <__mac_t as Zero>::zero key=Zero@T@::zero macro=zero_impl $t=@T@ Self=@T@ self_as=@T@ name=zero_@T@
//@.spec
    ensures r == 0,
//@end
//@fn <__mac_t as One>::one key=One@T@::one macro=one_impl $t=@T@ Self=@T@ self_as=@T@ name=one_@T@
//@.spec
    ensures r == 1,
//@end
//@fn PID::divides key=PID@T@::divides Self=@T@ self_as=@T@ name=divides_@T@ params=n method:euclid_div=euclid_div_@T@ call:@T@::zero=zero_@T@
//@.spec
    requires self_ != 0, !(n == @T@::MIN && self_ == -1),
    ensures r <==> dvd(self_ as int, n as int),
//@end
//@fn <__mac_t as PID>::is_prime key=PID@T@::is_prime macro=pid_impl $t=@T@ Self=@T@ self_as=@T@ name=is_prime_@T@ call:@T@::zero=zero_@T@ call:@T@::one=one_@T@
//@.spec
    requires self_ >= 0,
    ensures r <==> is_prime(self_ as int),
//@.loop 0
    invariant 2 <= __i0 <= self_, self_ >= 2, __a0 <==> forall|d: int| 2 <= d < __i0 ==> #[trigger] (self_ as int % d) != 0,
    ensures __a0 ==> __i0 == self_,
    decreases self_ - __i0,
//@end
//@fn <__mac_t as PID>::n_prime_factors key=PID@T@::n_prime_factors macro=pid_impl $t=@T@ Self=@T@ self_as=@T@ name=n_prime_factors_@T@ method:is_prime=is_prime_@T@ op:+==u_inc
//@.spec
    requires self_ >= 1,
    ensures r == npf(self_ as int),
//@.entry
    proof { if is_prime(self_ as int) { lemma_npf_prime(self_ as int); } else { lemma_npf_top(self_ as int); } }
//@.loop 0
    invariant 0 <= __i0 <= self_, count == npf_below(self_ as int, __i0 as int), self_ >= 1, npf(self_ as int) == npf_below(self_ as int, self_ as int),
    ensures __i0 == self_,
    decreases self_ - __i0,
//@.loop 1
    invariant num >= 1, x >= 2, x == __j0, count + mult(num as int, x as int) == npf_below(self_ as int, __j0 as int) + mult(self_ as int, x as int),
    decreases num,
//@.loop 1 begin
    proof { lemma_mult_step(num as int, x as int); }
//@.loop 1 after
    proof { lemma_mult_none(num as int, x as int); }
//@end
//@endfor

// ------------------------------------------------------------------ gcd and Bezout, generic code at T = i64
pub open spec fn lin(x: int, y: int, v: int, a: int, b: int) -> bool { x * a + y * b == v }
// euclid_div behind the machine's own guard: dividing by zero and MIN / -1 panic
pub fn euclid_div_chk(n: i64, d: i64) -> (r: (i64, i64))
    ensures d != 0, edm(n as int, d as int, r.0 as int, r.1 as int), d == 1 || d == -1 ==> r.0 == n * d && r.1 == 0, n == 0 ==> r.0 == 0,
{
    if d == 0 || (n == i64::MIN && d == -1) { vx_may_panic() } else {
        let r = euclid_div_i64(n, d);
        proof {
            let q = r.0 as int; let dd = d as int;
            assert(d == 1 || d == -1 ==> q == n * d && r.1 == 0) by(nonlinear_arith) requires n == q * dd + r.1, 0 <= r.1 < iabs(dd), dd == d;
            if n == 0 { assert(q == 0) by(nonlinear_arith) requires 0 == q * dd + r.1, 0 <= r.1 < iabs(dd); }
        }
        r
    }
}
proof fn lemma_dvd_refl(a: int) ensures dvd(a, a), dvd(a, 0), dvd(1, a), dvd(iabs(a), a), dvd(iabs(a), 0), a * 1 == a
{ assert(a * 1 == a && a * 0 == 0 && 1 * a == a); assert(iabs(a) * 0 == 0); if a < 0 { assert(iabs(a) * (-1) == a); } else { assert(iabs(a) * 1 == a); } }
proof fn lemma_gcd_base(b: int) ensures is_gcd(iabs(b), 0, b)
{ lemma_dvd_refl(b); assert(bez(iabs(b), 0, b, 0, if b < 0 { -1 } else { 1 })) by(nonlinear_arith); }
proof fn lemma_gcd_step(a: int, b: int, q: int, r: int, g: int)
    requires edm(b, a, q, r), is_gcd(g, r, a), ensures is_gcd(g, a, b),
{
    let (x, y) = choose|x: int, y: int| bez(g, r, a, x, y);
    assert(bez(g, a, b, y - x * q, x)) by(nonlinear_arith) requires x * r + y * a == g, b == q * a + r;
    let i = choose|k: int| #[trigger] (g * k) == r;
    let j = choose|k: int| #[trigger] (g * k) == a;
    assert(g * (q * j + i) == b) by(nonlinear_arith) requires g * i == r, g * j == a, b == q * a + r;
}
//@fn gcd key=gcd T=i64 params=a,b method:simplify=simplify_i64 method:euclid_div=euclid_div_i64 call:i64::zero=zero_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires a > i64::MIN, b > i64::MIN,
    ensures is_gcd(r as int, a as int, b as int),
    decreases iabs(a as int),
//@.entry
    proof {
        lemma_gcd_base(b as int);
        assert forall|q: int, rr: int, g: int| #![trigger dvd(g, rr), edm(b as int, a as int, q, rr)] edm(b as int, a as int, q, rr) && is_gcd(g, rr, a as int) implies is_gcd(g, a as int, b as int) by { lemma_gcd_step(a as int, b as int, q, rr, g); }
    }
//@end
//@fn bezout_identity_rec key=bezout_identity_rec T=i64 params=a,b,x1,x2,y1,y2 method:simplify=simplify_chk method:euclid_div=euclid_div_chk call:i64::zero=zero_i64 op:-=e_sub op:*=e_mul op:+=e_add op:+==e_add op:-==e_sub op:*==e_mul op:u-=e_neg
//@.spec
    ensures is_gcd(r.0 as int, a as int, b as int),
        forall|p: int, q: int| lin(x1 as int, y1 as int, a as int, p, q) && lin(x2 as int, y2 as int, b as int, p, q)
            ==> #[trigger] lin(r.1 as int, r.2 as int, r.0 as int, p, q),
    decreases iabs(a as int),
//@.entry
    proof {
        lemma_gcd_base(b as int);
        assert forall|q: int, rr: int, g: int| #![trigger dvd(g, rr), edm(b as int, a as int, q, rr)] edm(b as int, a as int, q, rr) && is_gcd(g, rr, a as int) implies is_gcd(g, a as int, b as int) by { lemma_gcd_step(a as int, b as int, q, rr, g); }
        assert forall|q: int, rr: int, nx: int, ny: int, s: int, t: int| #![trigger lin(nx, ny, rr, s, t), edm(b as int, a as int, q, rr)]
            edm(b as int, a as int, q, rr) && lin(x1 as int, y1 as int, a as int, s, t) && lin(x2 as int, y2 as int, b as int, s, t)
            && nx == x2 - x1 * q && ny == y2 - y1 * q implies lin(nx, ny, rr, s, t) by {
            assert((x2 - x1 * q) * s + (y2 - y1 * q) * t == rr) by(nonlinear_arith)
                requires b == q * a + rr, x1 * s + y1 * t == a, x2 * s + y2 * t == b;
        }
        assert forall|u: int, s: int, t: int| #![trigger lin(x2 * u, y2 * u, b * u, s, t)] lin(x2 as int, y2 as int, b as int, s, t) implies lin(x2 * u, y2 * u, b * u, s, t) by { assert(x2 * u * s + y2 * u * t == b * u) by(nonlinear_arith) requires x2 * s + y2 * t == b; }
    }
//@end
pub fn simplify_chk(n: i64) -> (r: (i64, i64))
    ensures r.0 == 1 || r.0 == -1, r.1 == n * r.0, r.1 == iabs(n as int),
{ if n == i64::MIN { vx_may_panic() } else { simplify_i64(n) } }
//@fn bezout_identity key=bezout_identity T=i64 params=a,b call:i64::zero=zero_i64 call:i64::one=one_i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures is_gcd(r.0 as int, a as int, b as int), r.1 * a + r.2 * b == r.0,
//@.exit
    proof { assert(lin(1, 0, a as int, a as int, b as int)); assert(lin(0, 1, b as int, a as int, b as int)); assert(lin(__ret.1 as int, __ret.2 as int, __ret.0 as int, a as int, b as int)); }
//@end
} // verus!
fn main() {}
