use crate::chk;
use crate::rt::*;
use alg::commutative::*;
use std::cmp::Ordering;

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

macro_rules! ints { ($mac:ident, $($a:tt)*) => { $mac!(i8, $($a)*); $mac!(i16, $($a)*); $mac!(i32, $($a)*); $mac!(i64, $($a)*); $mac!(i128, $($a)*); $mac!(isize, $($a)*); } }

fn sample(rng: &mut Rng, bits: u32) -> i128 {
    // biased towards small values, powers of two and the ends of the type
    let max: i128 = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
    let min = -max - 1;
    match rng.below(6) {
        0 => rng.range(-12, 12) as i128,
        1 => if rng.chance(1, 2) { max - rng.below(4) as i128 } else { min + rng.below(4) as i128 },
        2 => { let s = rng.below(bits as usize - 1); let v = 1i128 << s; let v = v + rng.range(-1, 1) as i128; if rng.chance(1, 2) { -v } else { v } }
        3 => { let v = rng.range(-2000, 2000) as i128; v.clamp(min, max) }
        _ => { let v = ((rng.next() as u128) << 64 | rng.next() as u128) as i128; let sh = 128 - bits; (v << sh) >> sh >> rng.below(bits as usize) }
    }
}

// n == q d + r, 0 <= r < |d|, without overflow of the checking arithmetic itself
fn euclid_ok(n: i128, d: i128, q: i128, r: i128) -> bool {
    r >= 0 && (r as u128) < d.unsigned_abs() && q.wrapping_mul(d).wrapping_add(r) == n && (q == 0 || n != 0 || r == 0)
        && (q == 0 || (q.unsigned_abs() - 1).checked_mul(d.unsigned_abs()).map_or(false, |m| m <= n.unsigned_abs()))
}

fn p04_one<const B: u32>(c: &mut Ctx, a: i128, b: i128) {
    macro_rules! go { ($t:ty) => {{
        let (n, d) = (a as $t, b as $t);
        c.case(stringify!($t), || format!("n {n} d {d}"), || {
            if d != 0 && !(n == <$t>::MIN && d == -1) {
                let (q, r) = n.euclid_div(d);
                chk!(euclid_ok(n as i128, d as i128, q as i128, r as i128), "euclid_div({n},{d}) = ({q},{r})");
                let e = d.divides(n);
                chk!(e == ((n as i128).wrapping_rem(d as i128) == 0), "({d}).divides({n}) = {e}");
            }
            if n != <$t>::MIN {
                let (u, m) = n.simplify();
                chk!((u == 1 || u == -1) && m >= 0 && u * m == n && m as u128 == (n as i128).unsigned_abs(), "simplify({n}) = ({u},{m})");
            }
            Ok(())
        });
    }} }
    match B { 8 => go!(i8), 16 => go!(i16), 32 => go!(i32), 64 => { go!(i64); go!(isize) } _ => go!(i128) }
}

pub fn p04(c: &mut Ctx) {
    for a in -128..=127i128 { for b in -128..=127i128 { if a.abs() % 7 == 0 || b.abs() < 9 || a.abs() > 120 { p04_one::<8>(c, a, b); } } }
    for a in -9..=9i128 { for b in -9..=9i128 { p04_one::<16>(c, a, b); p04_one::<32>(c, a, b); p04_one::<64>(c, a, b); p04_one::<128>(c, a, b); } }
    macro_rules! zo { ($t:ty, $x:tt) => { c.case("zero/one", || stringify!($t).into(), || { chk!(<$t>::zero() == 0 && <$t>::one() == 1, "zero() = {}, one() = {}", <$t>::zero(), <$t>::one()); Ok(()) }); } }
    ints!(zo, 0);
    while c.more() {
        macro_rules! one { ($($b:literal)*) => { $( { let a = sample(&mut c.rng, $b); let b = sample(&mut c.rng, $b); p04_one::<$b>(c, a, b); } )* } }
        one!(8 16 32 64 128);
    }
}

fn prime(n: i128) -> bool { if n < 2 { return false; } let mut d = 2; while d * d <= n { if n % d == 0 { return false; } d += 1; } true }
fn omega(mut n: i128) -> usize { let mut k = 0; let mut d = 2; while d * d <= n { while n % d == 0 { n /= d; k += 1; } d += 1; } if n > 1 { k + 1 } else { k } }

pub fn p05(c: &mut Ctx) {
    fn one(c: &mut Ctx, n: i128, fact: bool) {
        macro_rules! go { ($t:ty, $x:tt) => { if let Ok(m) = <$t>::try_from(n) {
            c.case(stringify!($t), || format!("{n}"), || {
                let p = m.is_prime();
                chk!(p == prime(n), "is_prime({n}) = {p}");
                if n >= 1 && fact { let k = m.n_prime_factors(); chk!(k == omega(n), "n_prime_factors({n}) = {k}, expected {}", omega(n)); }
                Ok(())
            });
        } } }
        ints!(go, 0);
    }
    for n in 0..=260 { one(c, n, true); }
    for n in [289, 361, 512, 529, 625, 841, 961, 1024, 2187, 1331, 1369, 2310, 3125, 2401] { one(c, n, true); }
    for n in [32749, 32761, 16129, 16381, 32767, 65537, 65536, 10007 * 3] { one(c, n, false); }
    while c.more() {
        let n = if c.rng.chance(1, 3) { let p = c.rng.range(2, 60); let q = c.rng.range(2, 60); p * q } else { c.rng.range(0, 3000) };
        one(c, n as i128, n < 1500);
    }
}

pub fn p06(c: &mut Ctx) {
    fn one(c: &mut Ctx, a: i128, b: i128) {
        macro_rules! go { ($t:ty, $x:tt) => { if let (Ok(x), Ok(y)) = (<$t>::try_from(a), <$t>::try_from(b)) {
            c.case(stringify!($t), || format!("a {a} b {b}"), || {
                // coefficients of the classical size always fit unless an operand is near the ends of the type
                let easy = a.unsigned_abs() < (<$t>::MAX as u128) / 2 && b.unsigned_abs() < (<$t>::MAX as u128) / 2;
                let r = guard(|| bezout_identity(x, y));
                let (g, s, t) = match r { Ok(v) => v, Err(e) => { chk!(!easy, "bezout_identity({a},{b}) {e}"); return Ok(()) } };
                chk!(g as i128 == gcd(a, b), "bezout_identity({a},{b}) = ({g},{s},{t}), the gcd is {}", gcd(a, b));
                chk!((s as i128).wrapping_mul(a).wrapping_add((t as i128).wrapping_mul(b)) == g as i128, "bezout_identity({a},{b}) = ({g},{s},{t}): not a combination");
                Ok(())
            });
        } } }
        ints!(go, 0);
    }
    for a in -40..=40 { for b in -40..=40 { one(c, a, b); } }
    while c.more() {
        let bits = *c.rng.pick(&[8u32, 16, 32, 64, 100]);
        let (mut a, mut b) = (sample(&mut c.rng, bits), sample(&mut c.rng, bits));
        if c.rng.chance(1, 3) { let k = c.rng.range(-9, 9) as i128; a = a / 16 * k; b = b / 16 * k; }
        if a.unsigned_abs() < 1 << 120 && b.unsigned_abs() < 1 << 120 { one(c, a, b); }
    }
}

// ---------------------------------------------------------------------------------------- rationals
type Q = (i128, i128);
fn norm(n: i128, d: i128) -> Q { let g = gcd(n, d); let s = if d < 0 { -1 } else { 1 }; (s * n / g, s * d / g) }
fn cmpq(a: Q, b: Q) -> Ordering { (a.0 * b.1).cmp(&(b.0 * a.1)) }
fn rat(rng: &mut Rng, big: bool) -> (i64, i64) {
    let m = if big { (1i64 << 31) - 1 } else { *rng.pick(&[3i64, 12, 60, 5000]) };
    let n = rng.range(-m, m); let mut d = rng.range(-m, m); if d == 0 { d = 1; }
    if rng.chance(1, 4) { let k = rng.range(1, if big { 1000 } else { 12 }); return (n / k * k, if d / k == 0 { k } else { d / k * k }); }
    if rng.chance(1, 8) { (0, d) } else if rng.chance(1, 8) { (n, if rng.chance(1, 2) { 1 } else { -1 }) } else { (n, d) }
}
fn sign(r: &Rational) -> i128 { if format!("{:?}", r).starts_with('-') { -1 } else { 1 } }
// representation through the public interface
fn look(r: &Rational) -> Q { (sign(r) * r.get_numerator() as i128, r.get_denominator() as i128) }
fn same(r: Rational, n: i128, d: i128, what: &str) -> R {
    let e = norm(n, d);
    chk!(look(&r) == e, "{what} = {:?} ({}/{}), expected {}/{}", r, r.get_numerator(), r.get_denominator(), e.0, e.1);
    if let (Ok(p), Ok(q)) = (i64::try_from(e.0), i64::try_from(e.1)) {
        let c = Rational::new(p, q);
        chk!(c == r && r == c, "{what} = {:?} is not == to {:?}", r, c);
        chk!(c.cmp(&r) == Ordering::Equal, "{what} = {:?} does not compare equal to {:?}", r, c);
    }
    let s = if e.1 == 1 { format!("{}", e.0) } else { format!("{}/{}", e.0, e.1) };
    chk!(format!("{}", r) == s && format!("{:?}", r) == s, "{what}: displayed as {} / {:?}, expected {s}", r, r);
    Ok(())
}
fn arith(a: (i64, i64), b: (i64, i64)) -> R {
    let (an, ad, bn, bd) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128);
    let (x, y) = (Rational::new(a.0, a.1), Rational::new(b.0, b.1));
    same(x, an, ad, "new")?;
    same(x.abs(), an.abs(), ad.abs(), "abs")?;
    same(-x, -an, ad, "neg")?;
    same(x + y, an * bd + bn * ad, ad * bd, "a + b")?;
    same(x - y, an * bd - bn * ad, ad * bd, "a - b")?;
    same(x * y, an * bn, ad * bd, "a * b")?;
    if bn != 0 { same(x / y, an * bd, ad * bn, "a / b")?; } else { chk!(panics(|| x / y), "division by zero accepted: {:?}", x / y); }
    let mut z = x; z += y; same(z, an * bd + bn * ad, ad * bd, "a += b")?;
    let mut z = x; z -= y; same(z, an * bd - bn * ad, ad * bd, "a -= b")?;
    let mut z = x; z *= y; same(z, an * bn, ad * bd, "a *= b")?;
    if bn != 0 { let mut z = x; z /= y; same(z, an * bd, ad * bn, "a /= b")?; }
    let (u, m) = x.simplify();
    chk!(u * m == x, "simplify");
    if bn != 0 { let (q, r) = x.euclid_div(y); chk!(r == Rational::zero() && q * y == x, "euclid_div = ({:?},{:?})", q, r); chk!(y.divides(x), "divides"); }
    Ok(())
}
pub fn p07(c: &mut Ctx) {
    c.case("constants", || "".into(), || {
        same(Rational::zero(), 0, 1, "zero")?; same(Rational::one(), 1, 1, "one")?;
        chk!(panics(|| Rational::new(3, 0)), "zero denominator accepted");
        chk!(panics(|| Rational::new(0, 0)), "zero denominator accepted"); Ok(())
    });
    for n in -7..=7i64 { for d in -7..=7i64 { if d == 0 { continue; } for m in -4..=4i64 { for e in [-6i64, -4, -1, 1, 2, 3, 6] {
        c.case("small", || format!("{n}/{d} {m}/{e}"), || arith((n, d), (m, e)));
    } } } }
    for n in [i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX] { for d in [i64::MIN, i64::MIN + 1, -1, 1, 2, i64::MAX] {
        c.case("ends", || format!("{n}/{d}"), || { let r = Rational::new(n, d); let e = norm(n as i128, d as i128); chk!(look(&r) == e, "new = {:?}", r); chk!(look(&-r) == (-e.0, e.1), "neg = {:?}", -r); chk!(look(&r.abs()) == (e.0.abs(), e.1), "abs"); Ok(()) });
    } }
    while c.more() {
        let big = c.rng.chance(1, 3);
        let (a, b) = (rat(&mut c.rng, big), rat(&mut c.rng, big));
        c.case("arith", || format!("{}/{} {}/{}", a.0, a.1, b.0, b.1), || if big {
            let (an, ad, bn, bd) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128);
            let (x, y) = (Rational::new(a.0, a.1), Rational::new(b.0, b.1));
            let l = |r: Rational, e: Q, w: &str| -> R { chk!(look(&r) == e, "{w} = {:?}, expected {:?}", r, e); Ok(()) };
            l(x * y, norm(an * bn, ad * bd), "a * b")?;
            if bn != 0 { l(x / y, norm(an * bd, ad * bn), "a / b")?; }
            l(x + y, norm(an * bd + bn * ad, ad * bd), "a + b")?;
            l(x - y, norm(an * bd - bn * ad, ad * bd), "a - b")
        } else { arith(a, b) });
        let n = c.rng.below(6);
        let v: Vec<(i64, i64)> = (0..n).map(|_| { let x = rat(&mut c.rng, false); (x.0 % 13, x.1 % 13) }).map(|(a, b)| (a, if b == 0 { 5 } else { b })).collect();
        c.case("folds", || format!("{:?}", v), || {
            let w: Vec<Rational> = v.iter().map(|x| Rational::new(x.0, x.1)).collect();
            let s = v.iter().fold((0i128, 1i128), |a, x| norm(a.0 * x.1 as i128 + x.0 as i128 * a.1, a.1 * x.1 as i128));
            let p = v.iter().fold((1i128, 1i128), |a, x| norm(a.0 * x.0 as i128, a.1 * x.1 as i128));
            same(w.iter().cloned().sum(), s.0, s.1, "sum")?;
            same(w.iter().cloned().product(), p.0, p.1, "product")
        });
    }
}
pub fn p08(c: &mut Ctx) {
    fn one(a: (i64, i64), b: (i64, i64), d: (i64, i64)) -> R {
        let q = |x: (i64, i64)| norm(x.0 as i128, x.1 as i128);
        let (x, y, z) = (Rational::new(a.0, a.1), Rational::new(b.0, b.1), Rational::new(d.0, d.1));
        for (s, t, e) in [(x, y, cmpq(q(a), q(b))), (y, x, cmpq(q(b), q(a))), (y, z, cmpq(q(b), q(d))), (x, x, Ordering::Equal)] {
            chk!(s.cmp(&t) == e, "cmp({:?},{:?}) = {:?}", s, t, s.cmp(&t));
            chk!(s.partial_cmp(&t) == Some(e), "partial_cmp({:?},{:?})", s, t);
            chk!((s < t) == (e == Ordering::Less) && (s <= t) == (e != Ordering::Greater) && (s > t) == (e == Ordering::Greater) && (s >= t) == (e != Ordering::Less), "comparison operators on {:?},{:?}", s, t);
            chk!((s == t) == (e == Ordering::Equal), "== on {:?},{:?}", s, t);
        }
        let mut v = vec![x, y, z]; v.sort();
        chk!(v[0] <= v[1] && v[1] <= v[2] && v[0] <= v[2], "sorted {:?}", v);
        Ok(())
    }
    let small: Vec<(i64, i64)> = (-4..=4).flat_map(|n| [1i64, 2, 3, -4].map(|d| (n, d))).collect();
    for &a in &small { for &b in &small { c.case("small", || format!("{:?} {:?}", a, b), || one(a, b, (1, 3))); } }
    while c.more() {
        let big = c.rng.chance(1, 2);
        let a = rat(&mut c.rng, big); let mut b = rat(&mut c.rng, big); let d = rat(&mut c.rng, big);
        if c.rng.chance(1, 4) { b = (a.0 + c.rng.range(-1, 1), if a.1 + 1 != 0 { a.1 + c.rng.range(0, 1) } else { a.1 }); if b.0.abs() > 2147483647 || b.1.abs() > 2147483647 { b = a; } }
        c.case("order", || format!("{:?} {:?} {:?}", a, b, d), || one(a, b, d));
    }
}
