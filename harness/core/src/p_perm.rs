use crate::chk;
use crate::rt::*;
use alg::non_commutative::permutation::*;
use alg::non_commutative::*;
use alg::permutation;

// the cycles of a table, each starting with its least entry, in increasing order of those
fn cycles(t: &[usize]) -> Vec<Vec<usize>> {
    let mut seen = vec![false; t.len()];
    let mut out = vec![];
    for i in 0..t.len() {
        if seen[i] || t[i] == i { continue; }
        let mut c = vec![]; let mut j = i;
        while !seen[j] { seen[j] = true; c.push(j); j = t[j]; }
        out.push(c);
    }
    out
}
fn build(t: &[usize], off: usize, rng: &mut Rng) -> Permutation {
    let mut cs = cycles(t);
    rng.shuffle(&mut cs);
    Permutation::from_disjoint_cycles(cs.into_iter().map(|mut c| { let k = rng.below(c.len()); c.rotate_left(k); Cycle::from(c.into_iter().map(|x| x + off).collect()) }).collect())
}
// p is the canonical representation of the table t (shifted by off)
fn is(p: &Permutation, t: &[usize], off: usize, what: &str) -> R {
    for i in 0..t.len() + off + 3 {
        let e = if i < off || i >= off + t.len() { i } else { t[i - off] + off };
        chk!(p.map(i) == e, "{what}: {:?} sends {i} to {} instead of {e}", p, p.map(i));
    }
    let got: Vec<Vec<usize>> = p.iter().map(|c| c.to_vec()).collect();
    let mut want: Vec<Vec<usize>> = cycles(t).into_iter().map(|c| c.into_iter().map(|x| x + off).collect()).collect();
    if want.is_empty() { want.push(vec![]); }
    chk!(got == want, "{what}: stored cycles {:?}, canonical {:?}", got, want);
    let un: Vec<usize> = p.unfixed_indeces_iter().collect();
    chk!(un == want.concat(), "{what}: unfixed indices {:?}, expected {:?}", un, want.concat());
    Ok(())
}
fn mul(p: &[usize], q: &[usize]) -> Vec<usize> { (0..p.len()).map(|i| p[q[i]]).collect() }
fn inv(p: &[usize]) -> Vec<usize> { let mut o = vec![0; p.len()]; for i in 0..p.len() { o[p[i]] = i; } o }
fn id(n: usize) -> Vec<usize> { (0..n).collect() }
fn power(p: &[usize], k: i64) -> Vec<usize> { let b = if k < 0 { inv(p) } else { p.to_vec() }; (0..k.abs()).fold(id(p.len()), |a, _| mul(&b, &a)) }

fn one(p: &[usize], q: &[usize], r: &[usize], off: usize, k: i64, rng: &mut Rng) -> R {
    let (x, y, z) = (build(p, off, rng), build(q, off, rng), build(r, off, rng));
    is(&x, p, off, "from_disjoint_cycles")?;
    is(&(x.clone() * y.clone()), &mul(p, q), off, "p * q")?;
    is(&((x.clone() * y.clone()) * z.clone()), &mul(&mul(p, q), r), off, "(p * q) * r")?;
    chk!((x.clone() * y.clone()) * z.clone() == x.clone() * (y.clone() * z.clone()), "not associative");
    is(&x.clone().inverse(), &inv(p), off, "inverse")?;
    chk!(x.clone() * x.clone().inverse() == Permutation::identity() && x.clone().inverse() * x.clone() == Permutation::identity(), "p * p^-1 is not the identity");
    is(&(x.clone() ^ k), &power(p, k), off, "power")?;
    let g = x.clone().in_terms_of_gens();
    chk!(g.iter().all(|t| t.unfixed_indeces_iter().count() == 2) || g == vec![Permutation::identity()], "a generator is not a transposition: {:?}", g);
    for t in &g { chk!(t.clone().inverse_of_gen() == t.clone().inverse(), "inverse_of_gen"); }
    is(&g.into_iter().product(), p, off, "product of the generators")?;
    is(&vec![x.clone(), y.clone(), z.clone()].into_iter().product(), &mul(r, &mul(q, p)), off, "product")?;
    is(&Vec::<Permutation>::new().into_iter().product(), &id(p.len()), off, "empty product")?;
    chk!((x == y) == (p == q) && x == x.clone() && build(p, off, rng) == x, "== disagrees with equality of the maps: {:?} {:?}", x, y);
    Ok(())
}
fn swap_table(n: usize, a: std::ops::Range<usize>, b: std::ops::Range<usize>) -> Vec<usize> {
    if a.start >= a.end || b.start >= b.end { return id(n); }
    let (a, b) = if a.end <= b.start { (a, b) } else { (b, a) };
    let order: Vec<usize> = (0..a.start).chain(b.clone()).chain(a.end..b.start).chain(a.clone()).chain(b.end..n).collect();
    inv(&order) // order[k] is the element that ends at k
}
fn all_perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut o = vec![];
    for p in all_perms(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); o.push(q); } }
    o
}
pub fn p09(c: &mut Ctx) {
    c.case("macro", || "".into(), || {
        is(&permutation! { (4, 1, 3) (0, 2) }, &[2, 3, 0, 4, 1], 0, "permutation!")?;
        is(&Permutation::identity(), &id(4), 0, "identity")?;
        is(&permutation! { (7) }, &id(9), 0, "(7)")?;
        is(&Permutation::from_disjoint_cycles(vec![]), &id(3), 0, "no cycles")?;
        is(&Permutation::from_cycle(Cycle::from(vec![2, 0, 1])), &[1, 2, 0], 0, "from_cycle")?;
        chk!(panics(|| Cycle::from(vec![1, 2, 1])), "a cycle with a repeated entry is accepted");
        chk!(panics(|| Permutation::from_disjoint_cycles(vec![Cycle::from(vec![0, 1]), Cycle::from(vec![2, 1])])), "overlapping cycles are accepted");
        chk!(panics(|| Permutation::from_disjoint_cycles(vec![Cycle::from(vec![5, 9, 7]), Cycle::from(vec![1, 3]), Cycle::from(vec![2, 7])])), "overlapping cycles are accepted");
        Ok(())
    });
    for a in 0..9 { for b in a..9 { c.case("cyclic", || format!("{a}..{b}"), || {
        let mut t = id(10); for i in a..b { t[i] = if i + 1 < b { i + 1 } else { a }; }
        let p = Permutation::cyclic_from(a..b);
        for i in 0..12 { let e = if i < 10 { t[i] } else { i }; chk!(p.map(i) == e, "cyclic_from sends {i} to {}", p.map(i)); }
        is(&(p ^ 1), &t, 0, "cyclic_from")
    }); } }
    for a in 0..6 { for b in a..6 { for x in 0..7 { for y in x..7 {
        c.case("swap", || format!("{a}..{b} {x}..{y}"), || {
            let nonempty = a < b && x < y;
            if nonempty && !(b <= x || y <= a) { chk!(panics(|| Permutation::swap(a..b, x..y)), "overlapping ranges accepted"); return Ok(()); }
            is(&Permutation::swap(a..b, x..y), &swap_table(8, a..b, x..y), 0, "swap")
        });
    } } } }
    let ps = all_perms(4);
    let mut rng = Rng(5);
    for p in &ps { for q in &ps { c.case("S4", || format!("{:?} {:?}", p, q), || one(p, q, &[1, 2, 0, 3], 0, 3, &mut rng)); } }
    while c.more() {
        let n = if c.rng.chance(1, 12) { 1 + c.rng.below(80) } else { 1 + c.rng.below(12) };
        let mut g = |r: &mut Rng| { let mut t = id(n); let s = r.below(n + 1); let mut idx = r.perm(n); idx.truncate(s); let im = r.perm(s); for i in 0..s { t[idx[i]] = idx[im[i]]; } t };
        let (p, q, r) = (g(&mut c.rng), g(&mut c.rng), g(&mut c.rng));
        let q = if c.rng.chance(1, 5) { inv(&p) } else { q };
        let off = if c.rng.chance(1, 3) { c.rng.below(100) } else { 0 };
        let k = c.rng.range(-9, 9);
        let mut rng = Rng(c.rng.next());
        c.case("group", || format!("{:?} {:?} {:?} +{off} ^{k}", p, q, r), || one(&p, &q, &r, off, k, &mut rng));
        let (a, l1, g1, l2) = (c.rng.below(9), c.rng.below(14), c.rng.below(6), c.rng.below(14));
        let (r1, r2) = (a..a + l1, a + l1 + g1..a + l1 + g1 + l2);
        let (r1, r2) = if c.rng.chance(1, 2) { (r1, r2) } else { (r2, r1) };
        c.case("swap", || format!("{:?} {:?}", r1, r2), || is(&Permutation::swap(r1.clone(), r2.clone()), &swap_table(50, r1.clone(), r2.clone()), 0, "swap"));
    }
}
fn act(p: &[usize], q: &[usize], rng: &mut Rng) -> R {
    let n = p.len();
    let v: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let (x, y) = (build(p, 0, rng), build(q, 0, rng));
    let w = v.clone() << x.clone();
    chk!(w.len() == n && (0..n).all(|i| w[p[i]] == v[i]), "{:?} << {:?} = {:?}", v, x, w);
    let mut u = v.clone(); u <<= x.clone();
    chk!(u == w, "<<= gives {:?}, << gives {:?}", u, w);
    let mut a = v.clone(); a.action_by(x.clone());
    chk!(a == w, "action_by gives {:?}, << gives {:?}", a, w);
    chk!((w.clone() << y.clone()) == (v.clone() << (y.clone() * x.clone())), "v << p << q differs from v << q*p: {:?} {:?}", x, y);
    chk!((w << x.clone().inverse()) == v, "v << p << p^-1 is not v");
    chk!((v.clone() << Permutation::identity()) == v, "the identity moves something");
    for i in 0..n { for j in 0..i { let mut g = v.clone(); g.gen_action_by(Permutation::from_cycle(Cycle::from(vec![j, i]))); let mut e = v.clone(); e.swap(i, j); chk!(g == e, "gen_action_by ({j} {i}): {:?}", g); } }
    Ok(())
}
pub fn p10(c: &mut Ctx) {
    let mut rng = Rng(6);
    for n in 0..5 { for p in all_perms(n) { for q in [id(n), inv(&p), p.clone()] { c.case("small", || format!("{:?} {:?}", p, q), || act(&p, &q, &mut rng)); } } }
    for a in 0..5 { for b in a..5 { for x in b..7 { for y in x..7 { c.case("swap", || format!("{a}..{b} {x}..{y}"), || {
        let v: Vec<usize> = id(8);
        let w = v.clone() << Permutation::swap(a..b, x..y);
        let e: Vec<usize> = if a == b || x == y { v } else { (0..a).chain(x..y).chain(b..x).chain(a..b).chain(y..8).collect() };
        chk!(w == e, "v << swap({a}..{b}, {x}..{y}) = {:?}", w); Ok(())
    }); } } } }
    while c.more() {
        let n = if c.rng.chance(1, 6) { c.rng.below(90) } else { c.rng.below(14) };
        let (p, q) = (if c.rng.chance(1, 4) { let mut t: Vec<usize> = (1..n).collect(); if n > 0 { t.push(0); } t } else { c.rng.perm(n) }, c.rng.perm(n));
        let mut rng = Rng(c.rng.next());
        c.case("action", || format!("{:?} {:?}", p, q), || act(&p, &q, &mut rng));
    }
}
fn order(p: &[usize]) -> usize { fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } } cycles(p).iter().fold(1, |l, c| l / gcd(l, c.len()) * c.len()) }
fn vp(p: &[usize]) -> VecPermutation { match p.len() {
    0 => VecPermutation::from([]), 1 => VecPermutation::from([p[0]]), 2 => VecPermutation::from([p[0], p[1]]), 3 => VecPermutation::from([p[0], p[1], p[2]]),
    4 => VecPermutation::from(ConstPermutation::from([p[0], p[1], p[2], p[3]])), 5 => VecPermutation::from([p[0], p[1], p[2], p[3], p[4]]),
    _ => { let mut a = [0; 8]; for i in 0..8 { a[i] = if i < p.len() { p[i] } else { i }; } VecPermutation::from(a) } } }
fn vis(x: &VecPermutation, t: &[usize], what: &str) -> R { for i in 0..12 { let e = if i < t.len() { t[i] } else { i }; chk!(x.eval(i) == e, "{what}: {:?} sends {i} to {} instead of {e}", x, x.eval(i)); } Ok(()) }
fn padto(p: &[usize], n: usize) -> Vec<usize> { let mut q = p.to_vec(); while q.len() < n { q.push(q.len()); } q }
fn consts<const N: usize>(p: &[usize], q: &[usize], r: &[usize]) -> R {
    let a = |t: &[usize]| -> [usize; N] { t.try_into().unwrap() };
    let (x, y, z) = (ConstPermutation::from(a(p)), ConstPermutation::from(a(q)), ConstPermutation::from(a(r)));
    let k = |x: ConstPermutation<N>, t: &[usize], w: &str| -> R { chk!(x == ConstPermutation::from(a(t)), "{w}: {:?}, expected {:?}", x, t); vis(&VecPermutation::from(x), t, w) };
    k(x * y, &mul(p, q), "p * q")?;
    let mut m = x; m *= y; k(m, &mul(p, q), "p *= q")?;
    k((x * y) * z, &mul(&mul(p, q), r), "(p * q) * r")?;
    k(x.inverse(), &inv(p), "inverse")?; k(x.inverse_of_gen(), &inv(p), "inverse_of_gen")?;
    k(ConstPermutation::<N>::identity(), &id(N), "identity")?;
    k([x, y, z].into_iter().product(), &mul(r, &mul(q, p)), "product")?;
    k(x.in_terms_of_gens().into_iter().product(), p, "product of the generators")?;
    chk!(x.order() == order(p), "order of {:?} is {}, expected {}", x, x.order(), order(p));
    Ok(())
}
fn vecs(p: &[usize], q: &[usize], r: &[usize]) -> R {
    let n = p.len().max(q.len()).max(r.len());
    let (x, y, z) = (vp(p), vp(q), vp(r));
    let (p, q, r) = (padto(p, n), padto(q, n), padto(r, n));
    vis(&x, &p, "from")?;
    vis(&(x.clone() * y.clone()), &mul(&p, &q), "p * q")?;
    let mut m = x.clone(); m *= y.clone(); vis(&m, &mul(&p, &q), "p *= q")?;
    vis(&((x.clone() * y.clone()) * z.clone()), &mul(&mul(&p, &q), &r), "(p * q) * r")?;
    vis(&x.clone().inverse(), &inv(&p), "inverse")?; vis(&x.clone().inverse_of_gen(), &inv(&p), "inverse_of_gen")?;
    vis(&VecPermutation::identity(), &id(n), "identity")?;
    vis(&vec![x.clone(), y, z].into_iter().product(), &mul(&r, &mul(&q, &p)), "product")?;
    chk!(x.clone().order() == order(&p), "order of {:?} is {}, expected {}", x, x.clone().order(), order(&p));
    Ok(())
}
pub fn p11(c: &mut Ctx) {
    for n in 0..4 { for p in all_perms(n) { for m in 0..4 { for q in all_perms(m) { c.case("vec small", || format!("{:?} {:?}", p, q), || vecs(&p, &q, &[1, 0])); } } } }
    for p in all_perms(4) { for q in all_perms(4) { c.case("const 4", || format!("{:?} {:?}", p, q), || consts::<4>(&p, &q, &[3, 0, 2, 1])); } }
    c.case("const 0, 1", || "".into(), || { consts::<0>(&[], &[], &[])?; consts::<1>(&[0], &[0], &[0]) });
    while c.more() {
        let g = |r: &mut Rng| r.perm(7);
        let (p, q, r) = (g(&mut c.rng), g(&mut c.rng), g(&mut c.rng));
        c.case("const 7", || format!("{:?} {:?} {:?}", p, q, r), || consts::<7>(&p, &q, &r));
        let g = |r: &mut Rng| { let n = r.below(9); r.perm(n) };
        let (p, q, r) = (g(&mut c.rng), g(&mut c.rng), g(&mut c.rng));
        c.case("vec", || format!("{:?} {:?} {:?}", p, q, r), || vecs(&p, &q, &r));
    }
}
