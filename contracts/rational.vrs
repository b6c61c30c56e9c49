//@include prelude.inc
//@include numth.inc
//@include chk.inc
verus! {
use core::cmp::Ordering;
//@file alg/src/commutative/rational_impl.rs
global size_of usize == 8;
//@struct Rational file=alg/src/commutative.rs derives:PartialEq,Eq,Copy,Clone @derive(Clone,Copy,PartialEq,Eq,Structural)
impl Rational {
    // numerator with its sign
    pub open spec fn n(self) -> int { if self.sign { self.numerator as int } else { -self.numerator } }
    pub open spec fn d(self) -> int { self.denominator as int }
    // canonical form: lowest terms, positive denominator, one zero
    pub open spec fn wf(self) -> bool {
        &&& self.denominator > 0
        &&& coprime(self.numerator as int, self.denominator as int)
        &&& self.numerator == 0 ==> self.sign && self.denominator == 1
    }
    // has the value p/q
    pub open spec fn val(self, p: int, q: int) -> bool { self.n() * q == p * self.d() }
}
// sum and product of a sequence of rationals, as fractions that are not reduced
pub open spec fn q_sum(s: Seq<Rational>) -> (int, int) decreases s.len()
{ if s.len() == 0 { (0, 1) } else { let (p, q) = q_sum(s.drop_last()); (p * s.last().d() + s.last().n() * q, q * s.last().d()) } }
pub open spec fn q_prod(s: Seq<Rational>) -> (int, int) decreases s.len()
{ if s.len() == 0 { (1, 1) } else { let (p, q) = q_prod(s.drop_last()); (p * s.last().n(), q * s.last().d()) } }

// equal values have equal representations, so the derived == decides equality of values
pub proof fn lemma_canonical(a: Rational, b: Rational)
    requires a.wf(), b.wf(), a.val(b.n(), b.d()), ensures a == b,
{
    assert(a.n() * b.d() == b.n() * a.d());
    let (an, ad, bn, bd) = (a.numerator as int, a.d(), b.numerator as int, b.d());
    if a.sign == b.sign {
        assert(an * bd == bn * ad) by(nonlinear_arith) requires a.n() * bd == b.n() * ad, (a.n() == an && b.n() == bn) || (a.n() == -an && b.n() == -bn);
        lemma_lowest_unique(an, ad, bn, bd);
    } else {
        assert(an == 0 && bn == 0) by(nonlinear_arith) requires a.n() * bd == b.n() * ad, (a.n() == an && b.n() == -bn) || (a.n() == -an && b.n() == bn), ad > 0, bd > 0, an >= 0, bn >= 0;
    }
}
// p/q == p2/q2 and v == p/q give v == p2/q2
proof fn lemma_val_trans(v: Rational, p: int, q: int, p2: int, q2: int)
    requires v.val(p, q), p * q2 == p2 * q, q != 0, ensures v.val(p2, q2),
{
    let (n, d) = (v.n(), v.d());
    assert(n * q2 == p2 * d) by(nonlinear_arith) requires n * q == p * d, p * q2 == p2 * q, q != 0;
}
// ---- trusted: the greatest common divisor of the num crate
#[verifier::external_body]
fn gcd(a: u64, b: u64) -> (r: u64) ensures is_gcd(r as int, a as int, b as int) { unimplemented!() }
// ---- core's default >= and its cmp and max, written out
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == iabs(a as int);
fn b_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
fn u_max(a: u64, b: u64) -> (r: u64) ensures r == if a < b { b } else { a } { if b < a { a } else { b } }
fn u_cmp(a: u64, b: &u64) -> (r: Ordering) ensures r == ord(a as int, *b as int) { if a < *b { Ordering::Less } else if a == *b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
fn rat_ge(a: Rational, b: Rational) -> (r: bool)
    requires a.wf(), b.wf(), ensures r == (a.n() * b.d() >= b.n() * a.d()),
{ match a.partial_cmp(&b) { Some(Ordering::Greater) => true, Some(Ordering::Equal) => true, _ => false } }

proof fn lemma_gcd_pos(g: int, a: int, b: int) requires is_gcd(g, a, b), a != 0 || b != 0 ensures g > 0
{ if g == 0 { let i = choose|k: int| #[trigger] (g * k) == a; let j = choose|k: int| #[trigger] (g * k) == b; assert(g * i == 0 && g * j == 0) by(nonlinear_arith) requires g == 0; } }
proof fn lemma_exact(g: int, a: int) requires g > 0, dvd(g, a) ensures a == g * (a / g), a >= 0 ==> a / g >= 0, a > 0 ==> a / g > 0
{
    lemma_dvd_mod(g, a); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, g);
    let q = a / g;
    assert((a >= 0 ==> q >= 0) && (a > 0 ==> q > 0)) by(nonlinear_arith) requires a == g * q, g > 0;
}
proof fn lemma_reduced(n: int, d: int, g: int)
    requires is_gcd(g, n, d), n >= 0, d > 0,
    ensures g > 0, n / g >= 0, d / g > 0, n > 0 ==> n / g > 0, n / g <= n, d / g <= d, coprime(n / g, d / g), (n / g) * d == n * (d / g), (-(n / g)) * d == (-n) * (d / g),
{
    lemma_gcd_pos(g, n, d); lemma_exact(g, n); lemma_exact(g, d);
    lemma_reduce(g, n, d, n / g, d / g);
    let (x, y) = (n / g, d / g);
    assert(x * d == n * y && (-x) * d == (-n) * y && x <= n && y <= d) by(nonlinear_arith) requires n == g * x, d == g * y, g > 0, x >= 0, y >= 0;
}
proof fn lemma_zero_one() ensures coprime(0, 1) { assert(bez(1, 0, 1, 0, 1)); }
impl Rational {
//@fn Rational::optimize
//@.spec
    requires old(self).denominator > 0,
    ensures final(self).wf(), final(self).val(old(self).n(), old(self).d()),
        final(self).sign == (old(self).sign || old(self).numerator == 0),
//@.entry
    proof {
        lemma_zero_one();
        assert(0 * self.denominator == 0);
        assert forall|g: int| #[trigger] is_gcd(g, self.numerator as int, self.denominator as int) implies
            g > 0 && self.numerator as int / g >= 0 && self.denominator as int / g > 0 && (self.numerator > 0 ==> self.numerator as int / g > 0)
            && self.numerator as int / g <= self.numerator && self.denominator as int / g <= self.denominator
            && coprime(self.numerator as int / g, self.denominator as int / g)
            && (self.numerator as int / g) * self.denominator as int == self.numerator as int * (self.denominator as int / g)
            && (-(self.numerator as int / g)) * self.denominator as int == (-(self.numerator as int)) * (self.denominator as int / g)
        by { lemma_reduced(self.numerator as int, self.denominator as int, g); }
    }
//@end
//@fn Rational::new params=n,d
//@.spec
    requires d != 0,
    ensures r.wf(), r.val(n as int, d as int),
//@.exit
    proof {
        let (an, ad) = (iabs(n as int), iabs(d as int));
        let sg = (n >= 0) == (d >= 0);
        let m = if sg { an } else { -an };
        let (rn, rd) = (__ret.n(), __ret.d());
        assert(rn * ad == m * rd);
        assert(rn * d == n * rd) by(nonlinear_arith)
            requires rn * ad == m * rd, (d > 0 && ad == d && m == n) || (d < 0 && ad == -d && m == -n), m == if sg { an } else { -an };
    }
//@end
//@fn Rational::from params=n
//@.spec
    ensures r.wf(), r.val(n as int, 1),
//@end
//@fn Rational::abs
//@.spec
    requires self.wf(),
    ensures r.wf(), r.n() == iabs(self.n()), r.d() == self.d(),
//@end
//@fn Rational::get_numerator
//@.spec
    ensures r == iabs(self.n()),
//@end
//@fn Rational::get_denominator
//@.spec
    ensures r == self.d(),
//@end
//@fn <Rational as Zero>::zero
//@.spec
    ensures r.wf(), r.n() == 0, r.d() == 1,
//@end
//@fn <Rational as One>::one
//@.spec
    ensures r.wf(), r.n() == 1, r.d() == 1,
//@.exit
    proof { lemma_val_one(__ret); }
//@end
}
proof fn lemma_val_one(r: Rational) requires r.wf(), r.val(1, 1) ensures r.n() == 1, r.d() == 1
{
    assert(bez(1, 1, 1, 1, 0));
    assert(r.numerator * 1 == 1 * r.d()) by(nonlinear_arith) requires r.n() * 1 == 1 * r.d(), r.d() > 0, r.n() == r.numerator || r.n() == -r.numerator, r.numerator >= 0;
    lemma_lowest_unique(r.numerator as int, r.d(), 1, 1);
}

// ------------------------------------------------------------------ order
proof fn lemma_cross(an: int, ad: int, bn: int, bd: int, gn: int, gd: int, a1: int, b1: int, ad1: int, bd1: int)
    requires gn > 0, gd > 0, an == gn * a1, bn == gn * b1, ad == gd * ad1, bd == gd * bd1,
    ensures an * bd == (gn * gd) * (a1 * bd1), bn * ad == (gn * gd) * (b1 * ad1),
        a1 * bd1 < b1 * ad1 <==> an * bd < bn * ad, a1 * bd1 == b1 * ad1 <==> an * bd == bn * ad,
{
    assert(an * bd == (gn * gd) * (a1 * bd1)) by(nonlinear_arith) requires an == gn * a1, bd == gd * bd1;
    assert(bn * ad == (gn * gd) * (b1 * ad1)) by(nonlinear_arith) requires bn == gn * b1, ad == gd * ad1;
    let (k, u, v) = (gn * gd, a1 * bd1, b1 * ad1);
    assert(k > 0) by(nonlinear_arith) requires gn > 0, gd > 0, k == gn * gd;
    assert((u < v <==> k * u < k * v) && (u == v <==> k * u == k * v)) by(nonlinear_arith) requires k > 0;
}
proof fn lemma_signs(a: Rational, b: Rational)
    requires a.wf(), b.wf(),
    ensures
        a.sign && b.sign ==> ord(a.n() * b.d(), b.n() * a.d()) == ord(a.numerator * b.d(), b.numerator * a.d()),
        !a.sign && !b.sign ==> ord(a.n() * b.d(), b.n() * a.d()) == ord(b.numerator * a.d(), a.numerator * b.d()),
        a.sign && !b.sign ==> a.n() * b.d() > b.n() * a.d(),
        !a.sign && b.sign ==> a.n() * b.d() < b.n() * a.d(),
{
    let (an, ad, bn, bd) = (a.numerator as int, a.d(), b.numerator as int, b.d());
    assert((-an) * bd == -(an * bd) && (-bn) * ad == -(bn * ad)) by(nonlinear_arith);
    if a.sign && !b.sign { assert(bn * ad > 0) by(nonlinear_arith) requires bn > 0, ad > 0; assert(an * bd >= 0) by(nonlinear_arith) requires an >= 0, bd > 0; }
    if !a.sign && b.sign { assert(an * bd > 0) by(nonlinear_arith) requires an > 0, bd > 0; assert(bn * ad >= 0) by(nonlinear_arith) requires bn >= 0, ad > 0; }
}
proof fn lemma_gcd_quot(g: int, a: int, b: int)
    requires is_gcd(g, a, b), a >= 0, b >= 0,
    ensures g >= 0, g > 0 ==> a == g * (a / g) && b == g * (b / g) && a / g >= 0 && b / g >= 0 && a / g <= a && b / g <= b && (a > 0 ==> a / g > 0) && (b > 0 ==> b / g > 0),
        g == 0 ==> a == 0 && b == 0, (a > 0 || b > 0) ==> g > 0,
{
    if a != 0 || b != 0 { lemma_gcd_pos(g, a, b); }
    if g > 0 {
        lemma_exact(g, a); lemma_exact(g, b);
        let (x, y) = (a / g, b / g);
        assert(x <= a && y <= b) by(nonlinear_arith) requires a == g * x, b == g * y, g > 0, x >= 0, y >= 0;
    }
}
impl Rational {
//@fn <Rational as Ord>::cmp params=rhs method:cmp=u_cmp method:max=u_max op:*=m_mul op:&=b_and
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r == ord(self.n() * rhs.d(), rhs.n() * self.d()),
//@.entry
    proof {
        lemma_signs(*self, *rhs);
        assert forall|g: int, h: int| #![trigger is_gcd(g, self.numerator as int, rhs.numerator as int), is_gcd(h, self.denominator as int, rhs.denominator as int)]
            is_gcd(g, self.numerator as int, rhs.numerator as int) && is_gcd(h, self.denominator as int, rhs.denominator as int) implies g >= 0 && h > 0 && ({
                let k = if g < 1 { 1 } else { g };
                let u = (self.numerator as int / k) * (rhs.denominator as int / h);
                let v = (rhs.numerator as int / k) * (self.denominator as int / h);
                (u < v <==> self.numerator * rhs.denominator < rhs.numerator * self.denominator) && (u == v <==> self.numerator * rhs.denominator == rhs.numerator * self.denominator)
            }) by {
            lemma_gcd_quot(g, self.numerator as int, rhs.numerator as int);
            lemma_gcd_quot(h, self.denominator as int, rhs.denominator as int);
            let k = if g < 1 { 1 } else { g };
            lemma_cross(self.numerator as int, self.denominator as int, rhs.numerator as int, rhs.denominator as int, k, h,
                self.numerator as int / k, rhs.numerator as int / k, self.denominator as int / h, rhs.denominator as int / h);
        }
    }
//@end
//@fn <Rational as PartialOrd>::partial_cmp params=rhs
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r == Some(ord(self.n() * rhs.d(), rhs.n() * self.d())),
//@end
}
// the order is total, antisymmetric with ==, and transitive
pub open spec fn le(a: Rational, b: Rational) -> bool { a.n() * b.d() <= b.n() * a.d() }
proof fn lemma_total_order(a: Rational, b: Rational, c: Rational)
    requires a.wf(), b.wf(), c.wf(),
    ensures le(a, b) || le(b, a), le(a, b) && le(b, a) ==> a == b, le(a, b) && le(b, c) ==> le(a, c), a == b ==> ord(a.n() * b.d(), b.n() * a.d()) == Ordering::Equal,
{
    if le(a, b) && le(b, a) { lemma_canonical(a, b); }
    if le(a, b) && le(b, c) {
        let (an, ad, bn, bd, cn, cd) = (a.n(), a.d(), b.n(), b.d(), c.n(), c.d());
        assert((an * bd) * cd <= (bn * ad) * cd) by(nonlinear_arith) requires an * bd <= bn * ad, cd > 0;
        assert((bn * cd) * ad <= (cn * bd) * ad) by(nonlinear_arith) requires bn * cd <= cn * bd, ad > 0;
        assert((an * cd) * bd <= (cn * ad) * bd) by(nonlinear_arith) requires (an * bd) * cd <= (bn * ad) * cd, (bn * cd) * ad <= (cn * bd) * ad;
        assert(an * cd <= cn * ad) by(nonlinear_arith) requires (an * cd) * bd <= (cn * ad) * bd, bd > 0;
    }
}
// ------------------------------------------------------------------ field operations
// s/t is a sum of magnitudes a/d + b/d' brought to the common denominator
proof fn lemma_add_val(an: int, ad: int, bn: int, bd: int, g: int, a1: int, b1: int)
    requires ad == g * a1, bd == g * b1, g > 0,
    ensures (an * b1 + a1 * bn) * (ad * bd) == (an * bd + bn * ad) * (ad * b1),
{
    assert(a1 * bd == ad * b1) by(nonlinear_arith) requires ad == g * a1, bd == g * b1;
    assert((an * b1) * (ad * bd) == (an * bd) * (ad * b1)) by(nonlinear_arith);
    assert((a1 * bn) * (ad * bd) == (bn * ad) * (a1 * bd)) by(nonlinear_arith);
    let (u, v, w, x, y, z) = (an * b1, a1 * bn, ad * bd, an * bd, bn * ad, ad * b1);
    assert((u + v) * w == (x + y) * z) by(nonlinear_arith) requires u * w == x * z, v * w == y * z;
}
impl Rational {
//@fn <Rational as Add>::add params=rhs Self::Output=Rational op:>==rat_ge op:+=m_add op:*=m_mul
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), r.val(self.n() * rhs.d() + rhs.n() * self.d(), self.d() * rhs.d()),
//@.entry
    proof {
        assert forall|h: int| #[trigger] is_gcd(h, self.denominator as int, rhs.denominator as int) implies ({
                let (an, ad, bn, bd) = (self.numerator as int, self.denominator as int, rhs.numerator as int, rhs.denominator as int);
                let (a1, b1) = (ad / h, bd / h);
                &&& h > 0 && a1 > 0 && b1 > 0 && a1 <= ad && b1 <= bd
                &&& an * bd >= bn * ad <==> an * b1 >= a1 * bn
                &&& ad * b1 > 0 && a1 * bn >= 0 && an * b1 >= 0
                &&& (an * b1 + a1 * bn) * (ad * bd) == (an * bd + bn * ad) * (ad * b1)
                &&& (an * b1 - a1 * bn) * (ad * bd) == (an * bd - bn * ad) * (ad * b1)
                &&& (a1 * bn - an * b1) * (ad * bd) == (bn * ad - an * bd) * (ad * b1)
                &&& (-(an * b1 + a1 * bn)) * (ad * bd) == ((-an) * bd + (-bn) * ad) * (ad * b1)
                &&& (-(an * b1 - a1 * bn)) * (ad * bd) == ((-an) * bd + bn * ad) * (ad * b1)
                &&& (-(a1 * bn - an * b1)) * (ad * bd) == (an * bd + (-bn) * ad) * (ad * b1)
            }) by {
            lemma_gcd_quot(h, self.denominator as int, rhs.denominator as int);
            let (an, ad, bn, bd) = (self.numerator as int, self.denominator as int, rhs.numerator as int, rhs.denominator as int);
            let (a1, b1) = (ad / h, bd / h);
            lemma_add_val(an, ad, bn, bd, h, a1, b1);
            lemma_add_val(an, ad, -bn, bd, h, a1, b1);
            lemma_add_val(-an, ad, bn, bd, h, a1, b1);
            lemma_add_val(-an, ad, -bn, bd, h, a1, b1);
            assert(a1 * (-bn) == -(a1 * bn) && (-an) * b1 == -(an * b1) && (-an) * bd == -(an * bd) && (-bn) * ad == -(bn * ad)) by(nonlinear_arith);
            assert(an * bd == h * (an * b1) && bn * ad == h * (a1 * bn)) by(nonlinear_arith) requires ad == h * a1, bd == h * b1;
            let (u, v) = (an * b1, a1 * bn);
            assert(h * u >= h * v <==> u >= v) by(nonlinear_arith) requires h > 0;
            assert(ad * b1 > 0 && v >= 0 && u >= 0) by(nonlinear_arith) requires ad > 0, b1 > 0, a1 > 0, bn >= 0, an >= 0, v == a1 * bn, u == an * b1;
        }
        assert forall|v: Rational, p: int, q: int| #[trigger] v.val(p, q) && q != 0 && p * (self.d() * rhs.d()) == (self.n() * rhs.d() + rhs.n() * self.d()) * q
            implies v.val(self.n() * rhs.d() + rhs.n() * self.d(), self.d() * rhs.d()) by {
            lemma_val_trans(v, p, q, self.n() * rhs.d() + rhs.n() * self.d(), self.d() * rhs.d());
        }
    }
//@end
//@fn <Rational as Sub>::sub params=rhs Self::Output=Rational op:+=Rational::add op:*=Rational::mul op:u-=Rational::neg
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), r.val(self.n() * rhs.d() - rhs.n() * self.d(), self.d() * rhs.d()),
//@.entry
    proof {
        let w = Rational { numerator: rhs.numerator, denominator: rhs.denominator, sign: !rhs.sign || rhs.numerator == 0 };
        let (rn, sd) = (rhs.n(), self.d());
        assert((-rn) * sd == -(rn * sd)) by(nonlinear_arith);
        assert(rn * (-1) == -rn);
        assert forall|v: Rational| #[trigger] v.wf() && v.val(-rhs.n(), rhs.d()) implies v == w by { lemma_canonical(v, w); }
    }
//@end
//@fn <Rational as Mul>::mul params=rhs Self::Output=Rational op:*=m_mul
//@.spec
    requires self.wf(), rhs.wf(),
    ensures r.wf(), r.val(self.n() * rhs.n(), self.d() * rhs.d()),
//@.entry
    proof {
        let (an, ad, bn, bd) = (self.numerator as int, self.d(), rhs.numerator as int, rhs.d());
        assert(ad * bd > 0) by(nonlinear_arith) requires ad > 0, bd > 0;
        assert((-an) * bn == -(an * bn) && an * (-bn) == -(an * bn) && (-an) * (-bn) == an * bn) by(nonlinear_arith);
    }
//@end
//@fn <Rational as Div>::div params=rhs Self::Output=Rational op:*=m_mul
//@.spec
    requires self.wf(), rhs.wf(), rhs.n() != 0,
    ensures r.wf(), r.val(self.n() * rhs.d(), self.d() * rhs.n()),
//@.entry
    proof {
        let (an, ad, bn, bd) = (self.numerator as int, self.d(), rhs.numerator as int, rhs.d());
        assert(ad * bn > 0) by(nonlinear_arith) requires ad > 0, bn > 0;
        assert((-an) * bd == -(an * bd) && ad * (-bn) == -(ad * bn)) by(nonlinear_arith);
        let (u, w) = (an * bd, ad * bn);
        assert forall|v: Rational| #![trigger v.wf()] v.val(u, w) implies v.val(-u, -w) by
        { let (p, q) = (v.n(), v.d()); assert(p * (-w) == (-u) * q) by(nonlinear_arith) requires p * w == u * q; }
        assert forall|v: Rational| #![trigger v.wf()] v.val(-u, w) implies v.val(u, -w) by
        { let (p, q) = (v.n(), v.d()); assert(p * (-w) == u * q) by(nonlinear_arith) requires p * w == (-u) * q; }
    }
//@end
//@fn <Rational as Neg>::neg Self::Output=Rational
//@.spec
    requires self.wf(),
    ensures r.wf(), r.n() == -self.n(), r.d() == self.d(),
//@end
}

// ------------------------------------------------------------------ folds
proof fn lemma_q_step(s: Seq<Rational>, k: int, v: Rational, w: Rational)
    requires 0 <= k < s.len(), v.wf(), s[k].wf(),
    ensures
        q_sum(s.take(0)) == (0int, 1int), q_prod(s.take(0)) == (1int, 1int),
        q_sum(s.take(k)).1 > 0 && v.val(q_sum(s.take(k)).0, q_sum(s.take(k)).1) && w.val(v.n() * s[k].d() + s[k].n() * v.d(), v.d() * s[k].d())
            ==> q_sum(s.take(k + 1)).1 > 0 && w.val(q_sum(s.take(k + 1)).0, q_sum(s.take(k + 1)).1),
        q_prod(s.take(k)).1 > 0 && v.val(q_prod(s.take(k)).0, q_prod(s.take(k)).1) && w.val(v.n() * s[k].n(), v.d() * s[k].d())
            ==> q_prod(s.take(k + 1)).1 > 0 && w.val(q_prod(s.take(k + 1)).0, q_prod(s.take(k + 1)).1),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
    let (p, q) = q_sum(s.take(k)); let (p2, q2) = q_prod(s.take(k));
    let (n, d, vn, vd) = (s[k].n(), s[k].d(), v.n(), v.d());
    assert(vd > 0 && d > 0 && vd * d > 0) by(nonlinear_arith) requires vd > 0, d > 0;
    if q > 0 && v.val(p, q) && w.val(vn * d + n * vd, vd * d) {
        assert(q * d > 0) by(nonlinear_arith) requires q > 0, d > 0;
        // (vn d + n vd) (q d) == (p d + n q) (vd d)   from   vn q == p vd
        assert((vn * d) * (q * d) == (p * d) * (vd * d)) by {
            assert((vn * d) * (q * d) == (vn * q) * (d * d)) by(nonlinear_arith);
            assert((p * d) * (vd * d) == (p * vd) * (d * d)) by(nonlinear_arith);
        }
        assert((n * vd) * (q * d) == (n * q) * (vd * d)) by(nonlinear_arith);
        let (a, b, c, e, f, g) = (vn * d, n * vd, q * d, p * d, n * q, vd * d);
        assert((a + b) * c == (e + f) * g) by(nonlinear_arith) requires a * c == e * g, b * c == f * g;
        lemma_val_trans(w, a + b, g, e + f, c);
    }
    if q2 > 0 && v.val(p2, q2) && w.val(vn * n, vd * d) {
        assert(q2 * d > 0) by(nonlinear_arith) requires q2 > 0, d > 0;
        assert((vn * n) * (q2 * d) == (p2 * n) * (vd * d)) by {
            assert((vn * n) * (q2 * d) == (vn * q2) * (n * d)) by(nonlinear_arith);
            assert((p2 * n) * (vd * d) == (p2 * vd) * (n * d)) by(nonlinear_arith);
        }
        lemma_val_trans(w, vn * n, vd * d, p2 * n, q2 * d);
    }
}
impl Rational {
//@fn <Rational as Sum>::sum params=iter seqs=iter I=Vec<Rational> op:+=Rational::add
//@.spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    ensures r.wf(), q_sum(iter@).1 > 0, r.val(q_sum(iter@).0, q_sum(iter@).1),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), __n0 == iter.len(), __a0.wf(), q_sum(iter@.take(__i0 as int)).1 > 0, __a0.val(q_sum(iter@.take(__i0 as int)).0, q_sum(iter@.take(__i0 as int)).1),
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    decreases iter.len() - __i0,
//@.loop 0 begin
    proof { let v = __a0; assert forall|w: Rational| #[trigger] w.wf() implies ({
        w.val(v.n() * iter@[__j0 as int].d() + iter@[__j0 as int].n() * v.d(), v.d() * iter@[__j0 as int].d()) ==> q_sum(iter@.take(__j0 + 1)).1 > 0 && w.val(q_sum(iter@.take(__j0 + 1)).0, q_sum(iter@.take(__j0 + 1)).1) }) by { lemma_q_step(iter@, __j0 as int, v, w); } }
//@.loop 0 after
    proof { assert(iter@.take(iter.len() as int) =~= iter@); }
//@end
//@fn <Rational as Product>::product params=iter seqs=iter I=Vec<Rational> op:*=Rational::mul
//@.spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    ensures r.wf(), q_prod(iter@).1 > 0, r.val(q_prod(iter@).0, q_prod(iter@).1),
//@.loop 0
    invariant 0 <= __i0 <= iter.len(), __n0 == iter.len(), __a0.wf(), q_prod(iter@.take(__i0 as int)).1 > 0, __a0.val(q_prod(iter@.take(__i0 as int)).0, q_prod(iter@.take(__i0 as int)).1),
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).wf(),
    decreases iter.len() - __i0,
//@.loop 0 begin
    proof { let v = __a0; assert forall|w: Rational| #[trigger] w.wf() implies ({
        w.val(v.n() * iter@[__j0 as int].n(), v.d() * iter@[__j0 as int].d()) ==> q_prod(iter@.take(__j0 + 1)).1 > 0 && w.val(q_prod(iter@.take(__j0 + 1)).0, q_prod(iter@.take(__j0 + 1)).1) }) by { lemma_q_step(iter@, __j0 as int, v, w); } }
//@.loop 0 after
    proof { assert(iter@.take(iter.len() as int) =~= iter@); }
//@end
}
} // verus!
fn main() {}
