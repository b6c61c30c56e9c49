use crate::chk;
use crate::rt::*;
use alg::commutative::{Rational, PID, Zero, One};
use alg::lin_alg::matrix_impl::ModifiedUsizeRangeBounds;
use alg::lin_alg::*;
use alg::{matrix, rational};
use std::collections::BTreeMap;

type M = Vec<Vec<i64>>;
fn mx(n: usize, m: usize, f: impl Fn(usize, usize) -> i64) -> M { (0..n).map(|i| (0..m).map(|j| f(i, j)).collect()).collect() }
fn val(rng: &mut Rng) -> i64 { match rng.below(6) { 0 => 0, 1 => 1, 2 => -1, 3 => rng.range(-3, 3), _ => rng.range(-50, 50) } }
fn rnd(rng: &mut Rng, n: usize, m: usize) -> M { (0..n).map(|_| (0..m).map(|_| val(rng)).collect()).collect() }
fn tr(a: &M) -> M { if a.is_empty() { return vec![]; } mx(a[0].len(), a.len(), |i, j| a[j][i]) }
fn mmul(a: &M, b: &M) -> M { mx(a.len(), b[0].len(), |i, j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum()) }
// a Matrix with the entries of a, built directly or as the transpose of the transposed entries
fn build(a: &M, t: bool) -> Matrix<i64> { if t { Matrix::from_array(tr(a)).transpose() } else { Matrix::from_array(a.clone()) } }
fn same(x: &SubMatrix<i64>, a: &M, what: &str) -> R {
    let m = if a.is_empty() { x.size().1 } else { a[0].len() };
    chk!(x.size() == (a.len(), m), "{what}: size {:?}, expected {:?}", x.size(), (a.len(), m));
    for i in 0..a.len() { for j in 0..m { chk!(x[(i, j)] == a[i][j], "{what}: entry ({i},{j}) is {}, expected {}; expected matrix {:?}", x[(i, j)], a[i][j], a); } }
    Ok(())
}

// ------------------------------------------------------------------ P12
fn qv(x: i64, y: i64) -> Rational { Rational::new(x, y) }
macro_rules! cv { ($rng:expr, $n:literal) => {{
    let rng: &mut Rng = $rng;
    let a: [i64; $n] = std::array::from_fn(|_| val(rng)); let b: [i64; $n] = std::array::from_fn(|_| val(rng)); let k = val(rng);
    let d = { let d = val(rng); if d == 0 { 7 } else { d } };
    (format!("ConstVector<{}> {:?} {:?} {}", $n, a, b, k), move || -> R {
        let (x, y) = (ConstVector::from(a), ConstVector::from(b));
        let eq = |v: &ConstVector<i64, $n>, f: &dyn Fn(usize) -> i64, w: &str| -> R { for i in 0..$n { chk!(v[i] == f(i), "{w}: entry {i} is {} instead of {}", v[i], f(i)); } Ok(()) };
        eq(&x, &|i| a[i], "from")?;
        eq(&(x + y), &|i| a[i] + b[i], "+")?;
        eq(&(x - y), &|i| a[i] - b[i], "-")?;
        eq(&(-x), &|i| -a[i], "neg")?;
        eq(&(x * k), &|i| a[i] * k, "* scalar")?;
        let mut z = x; z += y; eq(&z, &|i| a[i] + b[i], "+=")?;
        let mut z = x; z -= y; eq(&z, &|i| a[i] - b[i], "-=")?;
        let mut z = x; z *= k; eq(&z, &|i| a[i] * k, "*=")?;
        eq(&ConstVector::<i64, $n>::zero(), &|_| 0, "zero")?;
        chk!(x.dot(y) == (0..$n).map(|i| a[i] * b[i]).sum::<i64>(), "dot is {}", x.dot(y));
        chk!((x == y) == (a == b) && x == x, "==");
        if $n > 0 { let mut z = x; z[$n - 1] = 77; eq(&z, &|i| if i + 1 == $n { 77 } else { a[i] }, "index assignment")?; eq(&x, &|i| a[i], "copy is independent")?; }
        let r = ConstVector::from(a.map(|v| qv(v, 1)));
        let r2 = r / qv(d, 3); let mut r3 = r; r3 /= qv(d, 3);
        for i in 0..$n { chk!(r2[i] == qv(a[i] * 3, d) && r3[i] == r2[i], "/: entry {i} is {}", r2[i]); }
        let f = ConstVector::from(a.map(|v| v as f64));
        let s: i64 = a.iter().map(|v| v * v).sum();
        chk!((f.two_norm() - (s as f64).sqrt()).abs() <= 1e-9 * (1.0 + s as f64), "two_norm {}", f.two_norm());
        Ok(())
    })
}}; }
macro_rules! cm { ($rng:expr, $n:literal, $m:literal) => {{
    let rng: &mut Rng = $rng;
    let a: [[i64; $m]; $n] = std::array::from_fn(|_| std::array::from_fn(|_| val(rng))); let b: [[i64; $m]; $n] = std::array::from_fn(|_| std::array::from_fn(|_| val(rng))); let k = val(rng);
    let d = { let d = val(rng); if d == 0 { 7 } else { d } };
    (format!("ConstMatrix<{},{}> {:?} {:?} {}", $n, $m, a, b, k), move || -> R {
        let (x, y) = (ConstMatrix::from(a), ConstMatrix::from(b));
        let eq = |v: &ConstMatrix<i64, $n, $m>, f: &dyn Fn(usize, usize) -> i64, w: &str| -> R { for i in 0..$n { for j in 0..$m { chk!(v[i][j] == f(i, j), "{w}: entry ({i},{j}) is {} instead of {}", v[i][j], f(i, j)); } } Ok(()) };
        eq(&x, &|i, j| a[i][j], "from rows")?;
        let mut z = x; z += y; eq(&z, &|i, j| a[i][j] + b[i][j], "+=")?;
        let mut z = x; z -= y; eq(&z, &|i, j| a[i][j] - b[i][j], "-=")?;
        let mut z = x; z *= k; eq(&z, &|i, j| a[i][j] * k, "*=")?;
        eq(&(-x), &|i, j| -a[i][j], "neg")?;
        eq(&(x * k), &|i, j| a[i][j] * k, "* scalar")?;
        eq(&ConstMatrix::<i64, $n, $m>::zero(), &|_, _| 0, "zero")?;
        chk!((x == y) == (a == b) && x == x, "==");
        let cols: [ConstVector<i64, $n>; $m] = std::array::from_fn(|j| ConstVector::from(std::array::from_fn(|i| a[i][j])));
        eq(&ConstMatrix::from(cols), &|i, j| a[i][j], "from columns")?;
        let r = ConstMatrix::from(a.map(|r| r.map(|v| qv(v, 1))));
        let r2 = r / qv(d, 3); let mut r3 = r; r3 /= qv(d, 3);
        for i in 0..$n { for j in 0..$m { chk!(r2[i][j] == qv(a[i][j] * 3, d) && r3[i][j] == r2[i][j], "/: entry ({i},{j}) is {}", r2[i][j]); } }
        Ok(())
    })
}}; }
macro_rules! cid { ($ctx:expr, $($n:literal)*) => { $( $ctx.case("identity", || format!("ConstMatrix identity {}", $n), || { let m = ConstMatrix::<i64, $n, $n>::identity(); for i in 0..$n { for j in 0..$n { chk!(m[i][j] == (i == j) as i64, "identity: entry ({i},{j}) is {}", m[i][j]); } } Ok(()) }); )* } }
pub fn p12(ctx: &mut Ctx) {
    cid!(ctx, 1 2 3 4 5 7 12 17 33 70);
    macro_rules! v { ($($n:literal)*) => { $( { let (d, f) = cv!(&mut ctx.rng, $n); ctx.case("vector", || d, f); } )* } }
    macro_rules! m { ($($n:literal $m:literal,)*) => { $( { let (d, f) = cm!(&mut ctx.rng, $n, $m); ctx.case("matrix", || d, f); } )* } }
    while ctx.more() {
        v!(0 1 2 3 4 5 7 8 9 13 16 17 32 33 40 65 100);
        m!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 3 7, 7 3, 5 5, 8 9, 9 8, 1 17, 17 1, 16 17, 20 3, 3 20,);
    }
}

// ------------------------------------------------------------------ P13
#[derive(Clone, Debug)]
enum Rg { A(std::ops::Range<usize>), B(std::ops::RangeFrom<usize>), C(std::ops::RangeFull), D(std::ops::RangeInclusive<usize>), E(std::ops::RangeTo<usize>), F(std::ops::RangeToInclusive<usize>), G(usize) }
impl Rg {
    fn lim(&self, n: usize) -> (usize, usize) { match self { Rg::A(r) => (r.start, r.end), Rg::B(r) => (r.start, n), Rg::C(_) => (0, n), Rg::D(r) => (*r.start(), *r.end() + 1), Rg::E(r) => (0, r.end), Rg::F(r) => (0, r.end + 1), Rg::G(x) => (*x, *x + 1) } }
    // a valid, non-empty range below n
    fn gen(rng: &mut Rng, n: usize) -> Rg {
        let a = rng.below(n); let b = a + 1 + rng.below(n - a);
        match rng.below(7) { 0 => Rg::A(a..b), 1 => Rg::B(a..), 2 => Rg::C(..), 3 => Rg::D(a..=b - 1), 4 => Rg::E(..b), 5 => Rg::F(..=b - 1), _ => Rg::G(a) }
    }
    fn bad(rng: &mut Rng, n: usize) -> Rg {
        let o = 1 + rng.below(3);
        match rng.below(6) { 0 => Rg::A(rng.below(n)..n + o), 1 => Rg::D(rng.below(n)..=n + o - 1), 2 => Rg::E(..n + o), 3 => Rg::F(..=n + o - 1), 4 => Rg::G(n + o - 1), _ => Rg::A(1..0) }
    }
}
// the submatrix a pair of ranges selects, through every one of the 48 Index impls
fn view<'a>(m: &'a SubMatrix<i64>, r: &Rg, c: &Rg) -> &'a SubMatrix<i64> {
    macro_rules! inner { ($rr:expr) => { match c.clone() { Rg::A(c) => &m[($rr, c)], Rg::B(c) => &m[($rr, c)], Rg::C(c) => &m[($rr, c)], Rg::D(c) => &m[($rr, c)], Rg::E(c) => &m[($rr, c)], Rg::F(c) => &m[($rr, c)], Rg::G(c) => &m[($rr, c)] } } }
    match r.clone() { Rg::A(r) => inner!(r), Rg::B(r) => inner!(r), Rg::C(r) => inner!(r), Rg::D(r) => inner!(r), Rg::E(r) => inner!(r), Rg::F(r) => inner!(r), Rg::G(r) => match c.clone() { Rg::A(c) => &m[(r, c)], Rg::B(c) => &m[(r, c)], Rg::C(c) => &m[(r, c)], Rg::D(c) => &m[(r, c)], Rg::E(c) => &m[(r, c)], Rg::F(c) => &m[(r, c)], Rg::G(c) => &m[(r, c..=c)] } }
}
fn view_mut<'a>(m: &'a mut SubMatrix<i64>, r: &Rg, c: &Rg) -> &'a mut SubMatrix<i64> {
    macro_rules! inner { ($rr:expr) => { match c.clone() { Rg::A(c) => &mut m[($rr, c)], Rg::B(c) => &mut m[($rr, c)], Rg::C(c) => &mut m[($rr, c)], Rg::D(c) => &mut m[($rr, c)], Rg::E(c) => &mut m[($rr, c)], Rg::F(c) => &mut m[($rr, c)], Rg::G(c) => &mut m[($rr, c)] } } }
    match r.clone() { Rg::A(r) => inner!(r), Rg::B(r) => inner!(r), Rg::C(r) => inner!(r), Rg::D(r) => inner!(r), Rg::E(r) => inner!(r), Rg::F(r) => inner!(r), Rg::G(r) => match c.clone() { Rg::A(c) => &mut m[(r, c)], Rg::B(c) => &mut m[(r, c)], Rg::C(c) => &mut m[(r, c)], Rg::D(c) => &mut m[(r, c)], Rg::E(c) => &mut m[(r, c)], Rg::F(c) => &mut m[(r, c)], Rg::G(c) => &mut m[(r, c..=c)] } }
}
macro_rules! with_sub { ($m:expr, $r:expr, $c:expr, |$x:ident| $body:expr) => {{ let $x = view(&$m, &$r, &$c); $body }}; }
macro_rules! with_sub_mut { ($m:expr, $r:expr, $c:expr, |$x:ident| $body:expr) => {{ let $x = view_mut(&mut *$m, &$r, &$c); $body }}; }
fn sub(a: &M, r: (usize, usize), c: (usize, usize)) -> M { a[r.0..r.1].iter().map(|x| x[c.0..c.1].to_vec()).collect() }

#[derive(Clone, Debug)]
enum Op { SwapR(usize, usize), SwapC(usize, usize), RowOp(usize, usize, i64), ColOp(usize, usize, i64), Set(usize, usize, i64), Write(M, bool), WriteMove(M), Scale(i64) }
fn gen_op(rng: &mut Rng, n: usize, m: usize) -> Op {
    match rng.below(8) {
        0 => Op::SwapR(rng.below(n), rng.below(n)), 1 => Op::SwapC(rng.below(m), rng.below(m)),
        2 => Op::RowOp(rng.below(n), rng.below(n), rng.range(-3, 3)), 3 => Op::ColOp(rng.below(m), rng.below(m), rng.range(-3, 3)),
        4 => Op::Set(rng.below(n), rng.below(m), val(rng)), 5 => Op::Write(rnd(rng, n, m), rng.chance(1, 2)), 6 => Op::WriteMove(rnd(rng, n, m)), _ => Op::Scale(rng.range(-2, 2)),
    }
}
fn do_model(a: &mut M, r0: usize, c0: usize, n: usize, m: usize, o: &Op) {
    match o {
        Op::SwapR(x, y) => for j in 0..m { let t = a[r0 + x][c0 + j]; a[r0 + x][c0 + j] = a[r0 + y][c0 + j]; a[r0 + y][c0 + j] = t; },
        Op::SwapC(x, y) => for i in 0..n { let t = a[r0 + i][c0 + x]; a[r0 + i][c0 + x] = a[r0 + i][c0 + y]; a[r0 + i][c0 + y] = t; },
        Op::RowOp(x, y, k) => { let v: Vec<i64> = (0..m).map(|j| a[r0 + y][c0 + j] * k).collect(); for j in 0..m { a[r0 + x][c0 + j] += v[j]; } }
        Op::ColOp(x, y, k) => { let v: Vec<i64> = (0..n).map(|i| a[r0 + i][c0 + y] * k).collect(); for i in 0..n { a[r0 + i][c0 + x] += v[i]; } }
        Op::Set(i, j, v) => a[r0 + i][c0 + j] = *v,
        Op::Write(b, _) | Op::WriteMove(b) => for i in 0..n { for j in 0..m { a[r0 + i][c0 + j] = b[i][j]; } },
        Op::Scale(k) => for i in 0..n { for j in 0..m { a[r0 + i][c0 + j] *= k; } },
    }
}
fn do_real(x: &mut SubMatrix<i64>, o: &Op) {
    match o {
        Op::SwapR(p, q) => x.swap_rows(*p, *q), Op::SwapC(p, q) => x.swap_cols(*p, *q),
        Op::RowOp(p, q, k) => x.row_operation(*p, *q, *k), Op::ColOp(p, q, k) => x.col_operation(*p, *q, *k),
        Op::Set(i, j, v) => x[(*i, *j)] = *v, Op::Write(b, t) => x.write(&build(b, *t)), Op::WriteMove(b) => x.write_and_move(Matrix::from_array(b.clone())), Op::Scale(k) => *x *= *k,
    }
}
fn do_matrix(x: &mut Matrix<i64>, o: &Op) {
    match o {
        Op::SwapR(p, q) => x.swap_rows(*p, *q), Op::SwapC(p, q) => x.swap_cols(*p, *q),
        Op::RowOp(p, q, k) => x.row_operation(*p, *q, *k), Op::ColOp(p, q, k) => x.col_operation(*p, *q, *k),
        Op::Scale(k) => *x *= *k, o => do_real(&mut *x, o),
    }
}
fn size(rng: &mut Rng) -> usize { match rng.below(10) { 0 => 1, 1 => 2, 2 => 6 + rng.below(12), 3 if rng.chance(1, 4) => 20 + rng.below(60), _ => 1 + rng.below(6) } }
fn p13_case(a: &M, t: bool, steps: &[(Rg, Rg, Rg, Rg, bool, bool, Op)]) -> R {
    let mut a = a.clone(); let mut x = build(&a, t);
    same(&x, &a, "construction")?;
    for (k, (r1, c1, r2, c2, nest, whole, o)) in steps.iter().enumerate() {
        let w = format!("step {k} ({:?},{:?}) ({:?},{:?}) {:?}", r1, c1, r2, c2, o);
        if *whole { do_model(&mut a, 0, 0, x.size_as_range().0.end, x.size_as_range().1.end, o); do_matrix(&mut x, o); same(&x, &a, &w)?; continue; }
        let (rl, cl) = (r1.lim(a.len()), c1.lim(a[0].len()));
        let s = sub(&a, rl, cl);
        with_sub!(x, r1, c1, |v| { same(v, &s, &format!("{w}: submatrix"))?; same(v.transpose(), &tr(&s), &format!("{w}: transposed view"))?; same(&v.as_matrix(), &s, &format!("{w}: as_matrix"))?; same(&v.as_matrix().transpose(), &tr(&s), &w)?; chk!(v.size_as_range() == (0..s.len(), 0..s[0].len()), "{w}: size_as_range"); });
        if *nest {
            let (rl2, cl2) = (r2.lim(s.len()), c2.lim(s[0].len()));
            let s2 = sub(&s, rl2, cl2);
            with_sub!(x, r1, c1, |v| { with_sub!(v, r2, c2, |u| { same(u, &s2, &format!("{w}: nested submatrix"))?; same(u.transpose(), &tr(&s2), &w)?; });
                let vt = v.transpose(); with_sub!(vt, c2, r2, |u| same(u, &tr(&s2), &format!("{w}: submatrix of the transposed view"))?); });
            do_model(&mut a, rl.0 + rl2.0, cl.0 + cl2.0, s2.len(), s2[0].len(), o);
            with_sub_mut!(x, r1, c1, |v| with_sub_mut!(v, r2, c2, |u| do_real(u, o)));
        } else {
            do_model(&mut a, rl.0, cl.0, s.len(), s[0].len(), o);
            with_sub_mut!(x, r1, c1, |v| do_real(v, o));
        }
        same(&x, &a, &w)?;
    }
    let y = x.clone();
    same(&y, &a, "clone")?;
    x[(0, 0)] = 12345; same(&y, &a, "clone is independent")?;
    Ok(())
}
fn sub_size(r: &Rg, n: usize) -> usize { let l = r.lim(n); l.1 - l.0 }
pub fn p13(ctx: &mut Ctx) {
    let _ = <usize as ModifiedUsizeRangeBounds>::modified_start_bound;
    ctx.case("constructors", || "from_array, matrix!, zero, identity".into(), || {
        same(&matrix!(i64; [[1, 2, 3], [4, 5, 6]]), &vec![vec![1, 2, 3], vec![4, 5, 6]], "matrix!")?;
        for (n, m) in [(1, 1), (1, 5), (5, 1), (3, 4), (40, 70), (256, 3), (3, 300), (1, 5000), (5000, 1)] { same(&Matrix::<i64>::zero(n, m), &mx(n, m, |_, _| 0), "zero")?; }
        for n in [1, 2, 5, 40, 130] { same(&Matrix::<i64>::identity(n), &mx(n, n, |i, j| (i == j) as i64), "identity")?; }
        for v in [vec![vec![1i64, 2], vec![3]], vec![vec![1], vec![2, 3]], vec![], vec![vec![]], vec![vec![1], vec![]], vec![vec![1, 2], vec![3, 4], vec![5, 6, 7]], vec![vec![1, 2], vec![3, 4], vec![5]], vec![vec![1, 2], vec![3, 4, 5], vec![5, 6]]] {
            let w = format!("{:?}", v);
            chk!(panics(|| Matrix::<i64>::from_array(v)), "from_array accepts {w}");
        }
        for (n, m) in [(0, 1), (1, 0), (0, 0)] { chk!(panics(|| Matrix::<i64>::zero(n, m)), "zero({n},{m}) accepted"); }
        chk!(panics(|| Matrix::<i64>::identity(0)), "identity(0) accepted");
        Ok(())
    });
    ctx.case("large dimensions", || "1 x 70000".into(), || {
        for (n, m) in [(1usize, 65535usize), (65535, 1), (1, 65536), (65536, 1), (1, 70000), (2, 65537), (70000, 1)] {
            let ok = guard(|| -> R { let mut x = Matrix::<i64>::zero(n, m); x[(n - 1, m - 1)] = 5; chk!((*x).size() == (n, m) && x[(n - 1, m - 1)] == 5 && x[(n - 1, 0)] == if m == 1 { 5 } else { 0 } && x[(0, m - 1)] == if n == 1 { 5 } else { 0 }, "matrix {n} x {m} is corrupt: size {:?}", (*x).size()); Ok(()) });
            if n < 65536 && m < 65536 { ok.map_err(|e| format!("{n} x {m}: {e}"))??; } else if let Ok(r) = ok { r?; }
        }
        Ok(())
    });
    for n in [31usize, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 2047, 4095, 4096, 4097, 8191, 8192, 16383, 32767, 32768, 65535] {
        ctx.case("long strides", || format!("{n} x 3 and 3 x {n}, transposed and not"), || {
            for (r, c) in [(n, 3usize), (3usize, n)] {
                let f = |i: usize, j: usize| (i * 3 + j * 7 + 1) as i64;
                let mut x = Matrix::<i64>::zero(r, c);
                for i in 0..r { for j in 0..c { x[(i, j)] = f(i, j); } }
                let (pi, pj) = (r - 1, c - 1);
                let pts = |g: &dyn Fn(usize, usize) -> Result<(), String>| -> R { for i in [0, 1, 2, r / 2, r.saturating_sub(2), pi] { for j in [0, 1, 2, c / 2, c.saturating_sub(2), pj] { g(i.min(pi), j.min(pj))?; } } Ok(()) };
                pts(&|i, j| { chk!(x[(i, j)] == f(i, j), "({i},{j}) of {r}x{c}: {}", x[(i, j)]); Ok(()) })?;
                { let t = (*x).transpose(); pts(&|i, j| { chk!(t[(j, i)] == f(i, j), "({j},{i}) of the transposed view of {r}x{c}: {}", t[(j, i)]); let l = &t[(j, ..)]; chk!(l.size() == (1, r) && l[(0, i)] == f(i, j), "row {j} of the transposed view"); Ok(()) })?; }
                let mut y = x.transpose();
                pts(&|i, j| { chk!(y[(j, i)] == f(i, j), "({j},{i}) of the transposed {r}x{c}: {}", y[(j, i)]); Ok(()) })?;
                y[(pj, pi)] = -5; y[(0, pi)] -= 1;
                chk!(y[(pj, pi)] == -5 && y[(0, pi)] == f(pi, 0) - 1 && y[(pj, 0)] == f(0, pj), "writes through the transposed {r}x{c}");
            }
            Ok(())
        });
    }
    ctx.case("empty submatrices", || "empty ranges".into(), || {
        let x = Matrix::from_array(mx(3, 4, |i, j| (i * 4 + j) as i64));
        for k in 0..=3 { let e = &x[(k..k, ..)]; chk!(e.size() == (0, 4), "size of an empty submatrix {:?}", e.size()); chk!(e[(.., 1..3)].size() == (0, 2) && e.transpose().size() == (4, 0), "submatrix of an empty submatrix"); }
        for k in 0..=4 { let e = &x[(1.., k..k)]; chk!(e.size() == (2, 0), "size of an empty submatrix {:?}", e.size()); chk!(e[(1, ..)].size() == (1, 0), "row of an empty submatrix"); }
        Ok(())
    });
    while ctx.more() {
        let (n, m) = (size(&mut ctx.rng), size(&mut ctx.rng));
        let a = rnd(&mut ctx.rng, n, m); let t = ctx.rng.chance(1, 2);
        let rng = &mut ctx.rng;
        let steps: Vec<_> = (0..1 + rng.below(6)).map(|_| {
            let (r1, c1) = (Rg::gen(rng, n), Rg::gen(rng, m)); let (sn, sm) = (sub_size(&r1, n), sub_size(&c1, m));
            let (r2, c2) = (Rg::gen(rng, sn), Rg::gen(rng, sm)); let (nest, whole) = (rng.chance(1, 3), rng.chance(1, 4));
            let o = if whole { gen_op(rng, n, m) } else if nest { gen_op(rng, sub_size(&r2, sn), sub_size(&c2, sm)) } else { gen_op(rng, sn, sm) };
            (r1, c1, r2, c2, nest, whole, o)
        }).collect();
        let desc = format!("{:?} transposed={} {:?}", a, t, steps);
        ctx.case("views", || desc, || p13_case(&a, t, &steps));
        // rejected accesses leave everything unchanged
        let rng = &mut ctx.rng;
        let (r1, c1) = (Rg::gen(rng, n), Rg::gen(rng, m)); let (sn, sm) = (sub_size(&r1, n), sub_size(&c1, m));
        let (br, bc) = match rng.below(3) { 0 => (Rg::bad(rng, sn), Rg::gen(rng, sm)), 1 => (Rg::gen(rng, sn), Rg::bad(rng, sm)), _ => (Rg::bad(rng, sn), Rg::bad(rng, sm)) };
        let (bi, bj) = match rng.below(3) { 0 => (sn + rng.below(3), rng.below(sm)), 1 => (rng.below(sn), sm + rng.below(3)), _ => (sn + rng.below(9), sm + rng.below(9)) };
        let desc = format!("{:?} transposed={} ({:?},{:?}) then ({:?},{:?}) and ({bi},{bj})", a, t, r1, c1, br, bc);
        ctx.case("rejected", || desc, || {
            let mut x = build(&a, t);
            with_sub!(x, r1, c1, |v| {
                chk!(panics(|| with_sub!(v, br, bc, |u| { let _ = u.size(); })), "out-of-range submatrix accepted");
                chk!(panics(|| { let _ = v[(bi, bj)]; }), "out-of-range read of ({bi},{bj}) accepted");
            });
            chk!(panics(|| with_sub_mut!(x, r1, c1, |v| with_sub_mut!(v, br, bc, |u| { let _ = u.size(); }))), "out-of-range mutable submatrix accepted");
            chk!(panics(|| with_sub_mut!(x, r1, c1, |v| v[(bi, bj)] = 99)), "out-of-range write to ({bi},{bj}) accepted");
            chk!(panics(|| with_sub_mut!(x, r1, c1, |v| v.write(&Matrix::<i64>::zero(sn + 1, sm)))) && panics(|| with_sub_mut!(x, r1, c1, |v| v.write(&Matrix::<i64>::zero(sn, sm + 1)))), "write of a matrix of another size accepted");
            same(&x, &a, "after rejected accesses")
        });
    }
}

// ------------------------------------------------------------------ P14
fn p14_case(a: &M, b: &M, c: &M, k: i64, t: (bool, bool, bool)) -> R {
    let (n, m, p) = (a.len(), a[0].len(), c[0].len());
    let (x, y, z) = (build(a, t.0), build(b, t.1), build(c, t.2));
    let add = mx(n, m, |i, j| a[i][j] + b[i][j]); let sb = mx(n, m, |i, j| a[i][j] - b[i][j]); let sc = mx(n, m, |i, j| a[i][j] * k); let pr = mmul(a, c);
    same(&(&*x + &*y), &add, "&a + &b")?; same(&(x.clone() + &*y), &add, "a + &b")?; same(&(&*x + y.clone()), &add, "&a + b")?; same(&(x.clone() + y.clone()), &add, "a + b")?;
    same(&(&*x - &*y), &sb, "&a - &b")?; same(&(x.clone() - &*y), &sb, "a - &b")?; same(&(&*x - y.clone()), &sb, "&a - b")?; same(&(x.clone() - y.clone()), &sb, "a - b")?;
    let mut w = build(a, t.0); w += &*y; same(&w, &add, "+= &b")?; let mut w = build(a, t.0); w += y.clone(); same(&w, &add, "+= b")?;
    let mut w = build(a, t.0); w -= &*y; same(&w, &sb, "-= &b")?; let mut w = build(a, t.0); w -= build(b, t.1); same(&w, &sb, "-= b")?;
    same(&(build(a, t.0) + build(b, t.1)), &add, "a + b")?; same(&(build(a, t.0) - build(b, t.1)), &sb, "a - b")?;
    same(&(&*x * &*z), &pr, "&a * &c")?; same(&(build(a, t.0) * &*z), &pr, "a * &c")?; same(&(&*x * build(c, t.2)), &pr, "&a * c")?; same(&(build(a, t.0) * build(c, t.2)), &pr, "a * c")?;
    same(&(&*x * k), &sc, "&a * k")?; same(&(build(a, t.0) * k), &sc, "a * k")?; same(&(k * &*x), &sc, "k * &a")?; let mut w = build(a, t.0); w *= k; same(&w, &sc, "a *= k")?;
    same(&x, a, "operands unchanged")?; same(&y, b, "operands unchanged")?; same(&z, c, "operands unchanged")?;
    same((*x).transpose(), &tr(a), "transposed view")?; same(&build(a, t.0).transpose(), &tr(a), "transpose")?; same(&build(a, t.0).transpose().transpose(), a, "double transpose")?;
    same(&((*z).transpose() * (*x).transpose()), &tr(&pr), "product of the transposes")?;
    same(&x.as_matrix(), a, "as_matrix")?; same(&x.clone(), a, "clone")?;
    chk!((x == y) == (a == b) && (*x == *y) == (a == b) && x == build(a, !t.0) && (*x == y) == (a == b), "==");
    if a != b { chk!(x != y, "!="); }
    for i in 0..n { for j in 0..p { chk!(x[(i, ..)].dot(&z[(.., j)]) == pr[i][j], "dot of row {i} and column {j}"); } }
    // a single changed entry is seen
    let (i, j) = (n - 1, m - 1); let mut w = build(a, t.1); w[(i, j)] += 1; chk!(w != x && *x != w, "== ignores entry ({i},{j})"); let mut w = build(a, t.1); w[(0, j)] -= 1; chk!(w != x, "== ignores (0,{j})"); let mut w = build(a, t.1); w[(i, 0)] -= 1; chk!(w != x, "== ignores ({i},0)");
    // fields
    let q = |a: &M| Matrix::from_array(a.iter().map(|r| r.iter().map(|&v| qv(v, 2)).collect()).collect::<Vec<Vec<Rational>>>());
    let d = if k == 0 { 5 } else { k };
    let (q1, q2, q3) = (&*q(a) / qv(d, 1), q(a) / qv(d, 1), { let mut w = q(a); w /= qv(d, 1); w });
    for i in 0..n { for j in 0..m { let e = qv(a[i][j], 2 * d); chk!(q1[(i, j)] == e && q2[(i, j)] == e && q3[(i, j)] == e, "/ scalar at ({i},{j})"); } }
    let qp = q(a) * q(c); for i in 0..n { for j in 0..p { chk!(qp[(i, j)] == qv(pr[i][j], 4), "product of rational matrices at ({i},{j})"); } }
    // change of basis
    let basis: Vec<Vector<i64, usize>> = (0..m).map(|j| Vector::from(j)).collect();
    let _ = basis;
    Ok(())
}
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Bs(i64);
impl std::fmt::Display for Bs { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "e{}", self.0) } }
alg::formal_sum_impl! { Bs }
pub fn p14(ctx: &mut Ctx) {
    ctx.case("sizes", || "operands of different sizes".into(), || {
        let z = |n, m| Matrix::<i64>::zero(n, m);
        for (s, t) in [((2, 3), (3, 2)), ((2, 3), (2, 4)), ((2, 3), (3, 3)), ((1, 4), (4, 1)), ((1, 1), (1, 2))] {
            chk!(panics(|| &*z(s.0, s.1) + &*z(t.0, t.1)) && panics(|| z(s.0, s.1) + z(t.0, t.1)) && panics(|| z(s.0, s.1) - z(t.0, t.1)) && panics(|| &*z(s.0, s.1) - &*z(t.0, t.1)) && panics(|| z(s.0, s.1) + &*z(t.0, t.1)) && panics(|| &*z(s.0, s.1) - z(t.0, t.1)), "sum of {:?} and {:?} accepted", s, t);
            chk!(panics(|| { let mut a = z(s.0, s.1); a += z(t.0, t.1); }) && panics(|| { let mut a = z(s.0, s.1); a -= &*z(t.0, t.1); }), "+= of {:?} and {:?} accepted", s, t);
            chk!(z(s.0, s.1) != z(t.0, t.1) && *z(s.0, s.1) != *z(t.0, t.1), "matrices of sizes {:?} and {:?} are equal", s, t);
        }
        for (s, t) in [((2, 3), (2, 3)), ((2, 3), (4, 3)), ((1, 1), (2, 1)), ((3, 2), (3, 3))] { chk!(panics(|| z(s.0, s.1) * z(t.0, t.1)) && panics(|| &*z(s.0, s.1) * &*z(t.0, t.1)), "product of {:?} and {:?} accepted", s, t); }
        chk!(panics(|| z(2, 2).dot(&z(2, 1))) && panics(|| z(1, 2).dot(&z(1, 2))) && panics(|| z(1, 2).dot(&z(3, 1))), "dot of wrong shapes accepted");
        Ok(())
    });
    while ctx.more() {
        let (n, m, p) = (size(&mut ctx.rng), size(&mut ctx.rng), size(&mut ctx.rng));
        if n * m * p > 20000 { continue; }
        let rng = &mut ctx.rng;
        let a = rnd(rng, n, m); let b = if rng.chance(1, 8) { a.clone() } else { rnd(rng, n, m) }; let c = rnd(rng, m, p); let k = val(rng);
        let t = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
        let d = format!("a={:?} b={:?} c={:?} k={k} stored transposed={:?}", a, b, c, t);
        ctx.case("algebra", || d, || p14_case(&a, &b, &c, k, t));
        if n * m <= 64 {
            let rng = &mut ctx.rng; let v: Vec<i64> = (0..m).map(|_| rng.range(0, 9)).collect();
            let d = format!("{:?} * basis {:?}", a, v);
            ctx.case("change of basis", || d, || {
                let out = build(&a, t.0) * v.iter().map(|x| Bs(*x)).collect::<Vec<_>>();
                chk!(out.len() == n, "{} rows", out.len());
                for i in 0..n { let mut e: BTreeMap<i64, i64> = BTreeMap::new(); for j in 0..m { *e.entry(v[j]).or_insert(0) += a[i][j]; } e.retain(|_, c| *c != 0);
                    let got: Vec<(i64, i64)> = out[i].iter().map(|(c, b)| (b.0, *c)).collect(); chk!(got == e.clone().into_iter().collect::<Vec<_>>(), "row {i}: {:?} expected {:?}", got, e); }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ P15
fn mat(x: &Matrix<i64>) -> M { let s = (**x).size(); mx(s.0, s.1, |i, j| x[(i, j)]) }
fn p15_case(a: &M, t: bool) -> R {
    let (n, m) = (a.len(), a[0].len());
    let res = guard(|| build(a, t).smith_normal_form());
    let (ri, r, d, c, ci) = match res { Ok(x) => x, Err(e) => { chk!(e.contains("overflow") && n.min(m) > 3, "{e}"); return Ok(()); } };
    let (ri, r, d, c, ci) = (mat(&ri), mat(&r), mat(&d), mat(&c), mat(&ci));
    let big = |x: &M| x.iter().map(|r| r.iter().map(|v| *v as i128).collect::<Vec<_>>()).collect::<Vec<_>>();
    let mul = |x: &Vec<Vec<i128>>, y: &Vec<Vec<i128>>| -> Result<Vec<Vec<i128>>, String> { let mut o = vec![vec![0i128; y[0].len()]; x.len()]; for i in 0..x.len() { for j in 0..y[0].len() { for k in 0..y.len() { o[i][j] = x[i][k].checked_mul(y[k][j]).and_then(|v| v.checked_add(o[i][j])).ok_or("oracle overflow")?; } } } Ok(o) };
    chk!(ri.len() == n && r.len() == n && c.len() == m && ci.len() == m && d.len() == n && d[0].len() == m, "sizes of the results");
    let (bri, br, bd, bc, bci, ba) = (big(&ri), big(&r), big(&d), big(&c), big(&ci), big(a));
    let id = |k: usize| (0..k).map(|i| (0..k).map(|j| (i == j) as i128).collect::<Vec<_>>()).collect::<Vec<_>>();
    chk!(mul(&br, &bri)? == id(n) && mul(&bri, &br)? == id(n), "row operation {:?} and {:?} are not inverse", r, ri);
    chk!(mul(&bc, &bci)? == id(m) && mul(&bci, &bc)? == id(m), "column operation {:?} and {:?} are not inverse", c, ci);
    chk!(mul(&mul(&br, &ba)?, &bc)? == bd, "R*A*C is not the normal form {:?}", d);
    chk!(mul(&mul(&bri, &bd)?, &bci)? == ba, "R^-1*D*C^-1 is not the input");
    for i in 0..n { for j in 0..m { chk!(i == j || d[i][j] == 0, "not diagonal: {:?}", d); } }
    for i in 1..n.min(m) { let (p, q) = (d[i - 1][i - 1], d[i][i]); chk!(if p == 0 { q == 0 } else { q % p == 0 }, "the diagonal {:?} is not a divisibility chain", (0..n.min(m)).map(|i| d[i][i]).collect::<Vec<_>>()); }
    Ok(())
}
fn snf_gen(rng: &mut Rng) -> M {
    let (n, m) = (1 + rng.below(6), 1 + rng.below(6));
    match rng.below(7) {
        0 => { let v = *rng.pick(&[1i64, 2, 5]); mx(n, m, |_, _| 0).into_iter().map(|r| r.into_iter().map(|_| rng.range(-v, v)).collect()).collect() }
        1 => { let z: Vec<i64> = (0..n.min(m)).map(|_| *rng.pick(&[0i64, 1, -1, 2, -2, 3, 4, 6, 10, 12, 15, -6])).collect(); let (p, q) = (rng.perm(n), rng.perm(m)); mx(n, m, |i, j| if p[i] == q[j] { z[p[i]] } else { 0 }) }   // permuted diagonal
        2 => { let d = rng.below(4); let (x, y) = (rnd_s(rng, n, d, 3), rnd_s(rng, d, m, 3)); if d == 0 { mx(n, m, |_, _| 0) } else { mmul(&x, &y) } }                         // low rank
        3 => { let mut a = mx(n, m, |_, _| 0); for _ in 0..1 + rng.below(4) { a[rng.below(n)][rng.below(m)] = rng.range(-12, 12); } a }      // sparse
        4 => { let mut a = rnd_s(rng, n, m, 2); let (r, c) = (rng.below(n), rng.below(m)); for j in 0..m { a[r][j] = 0; } if rng.chance(1, 2) { for i in 0..n { a[i][c] = 0; } } a } // zero rows/columns
        5 => { let k = rng.range(2, 6); rnd_s(rng, n, m, 3).into_iter().map(|r| r.into_iter().map(|v| v * k).collect()).collect() }
        _ => { // incidence matrix of a random graph
            let mut a = mx(n, m, |_, _| 0); for j in 0..m { let (u, v) = (rng.below(n), rng.below(n)); if u != v { a[u][j] = 1; a[v][j] = -1; } } a }
    }
}
fn rnd_s(rng: &mut Rng, n: usize, m: usize, v: i64) -> M { (0..n).map(|_| (0..m).map(|_| rng.range(-v, v)).collect()).collect() }
pub fn p15(ctx: &mut Ctx) {
    // all small matrices
    for (n, m, v) in [(1usize, 1usize, 6i64), (1, 2, 4), (2, 1, 4), (2, 2, 3), (1, 3, 3), (3, 1, 3), (2, 3, 1), (3, 2, 1)] {
        let w = (2 * v + 1) as usize; let tot = w.pow((n * m) as u32);
        for x in 0..tot { let mut y = x; let a = { let mut a = mx(n, m, |_, _| 0); for i in 0..n { for j in 0..m { a[i][j] = (y % w) as i64 - v; y /= w; } } a }; ctx.case("small", || format!("{:?}", a), || p15_case(&a, false)); }
    }
    while ctx.more() { let a = snf_gen(&mut ctx.rng); let t = ctx.rng.chance(1, 3); ctx.case("random", || format!("{:?} stored transposed={t}", a), || p15_case(&a, t)); }
}

// ------------------------------------------------------------------ P16
const PR: i128 = 1_000_000_007;
fn rank_mod(a: &M) -> usize {
    let mut a: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|v| (*v as i128).rem_euclid(PR)).collect()).collect();
    let (n, m) = (a.len(), a[0].len()); let mut r = 0;
    for c in 0..m {
        let Some(p) = (r..n).find(|&i| a[i][c] != 0) else { continue };
        a.swap(r, p);
        let mut e = PR - 2; let mut b = a[r][c]; let mut iv = 1; while e > 0 { if e & 1 == 1 { iv = iv * b % PR; } b = b * b % PR; e >>= 1; }
        for i in r + 1..n { let f = a[i][c] * iv % PR; if f != 0 { for j in c..m { a[i][j] = (a[i][j] + (PR - f) * a[r][j]) % PR; } } }
        r += 1; if r == n { break; }
    }
    r
}
fn p16_case(a: &M, den: i64, t: bool) -> R {
    let q = |a: &M| Matrix::from_array(a.iter().map(|r| r.iter().map(|&v| qv(v, den)).collect()).collect::<Vec<Vec<Rational>>>());
    let x = if t { q(&tr(a)).transpose() } else { q(a) };
    let want = rank_mod(a);
    let got = match guard(|| x.rank_as_linear_map()) { Ok(g) => g, Err(e) => { chk!((e.contains("overflow") || e.contains("fit")) && a.len().min(a[0].len()) > 4, "{e}"); return Ok(()); } };
    chk!(got == want, "rank {got}, expected {want}");
    for i in 0..a.len() { for j in 0..a[0].len() { chk!(x[(i, j)] == qv(a[i][j], den), "the matrix was changed"); } }
    let f = Matrix::from_array(a.iter().map(|r| r.iter().map(|&v| v as f64).collect()).collect::<Vec<Vec<f64>>>());
    let _ = f;
    Ok(())
}
pub fn p16(ctx: &mut Ctx) {
    for (n, m, v) in [(1usize, 1usize, 2i64), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 3, 1), (3, 1, 1), (2, 3, 1), (3, 2, 1), (1, 4, 1), (4, 1, 1)] {
        let w = (2 * v + 1) as usize; let tot = w.pow((n * m) as u32);
        for x in 0..tot { let mut y = x; let a = { let mut a = mx(n, m, |_, _| 0); for i in 0..n { for j in 0..m { a[i][j] = (y % w) as i64 - v; y /= w; } } a }; ctx.case("small", || format!("{:?}", a), || p16_case(&a, 1, false)); }
    }
    for x in 0..512u32 { let a = mx(3, 3, |i, j| (x >> (3 * i + j) & 1) as i64); ctx.case("3x3 zero-one", || format!("{:?}", a), || p16_case(&a, 1, false)); }
    while ctx.more() {
        let rng = &mut ctx.rng;
        let a = if rng.chance(1, 6) { let n = 5 + rng.below(12); let m = 5 + rng.below(12); let mut a = mx(n, m, |_, _| 0); let (p, q) = (rng.perm(n), rng.perm(m)); for i in 0..rng.below(n.min(m) + 1) { a[p[i]][q[i]] = rng.range(1, 5); } // partial permutation
                if rng.chance(1, 2) { for _ in 0..3 { let (x, y) = (rng.below(n), rng.below(n)); if x != y { for j in 0..m { a[x][j] += a[y][j]; } } } } a } else { snf_gen(rng) };
        let den = *rng.pick(&[1i64, 1, 2, 3]); let t = rng.chance(1, 3);
        ctx.case("random", || format!("{:?} / {den} stored transposed={t}", a), || p16_case(&a, den, t));
    }
}

// ------------------------------------------------------------------ P17
type F = BTreeMap<i64, i64>;
fn norm(f: &F) -> F { f.iter().filter(|x| *x.1 != 0).map(|(a, b)| (*a, *b)).collect() }
fn fs(v: &Vector<i64, Bs>, e: &F, what: &str) -> R {
    let e = norm(e);
    let got: Vec<(i64, i64)> = v.iter().map(|(c, b)| (b.0, *c)).collect();
    let want: Vec<(i64, i64)> = e.into_iter().collect();
    chk!(got == want, "{what}: terms {:?}, expected {:?}", got, want);
    chk!(v.len() == want.len(), "{what}: len");
    for (b, c) in &want { chk!(v[&Bs(*b)] == *c, "{what}: coefficient of {b}"); }
    Ok(())
}
fn term(rng: &mut Rng) -> (i64, i64) { let k = *rng.pick(&[2i64, 5, 12, 40]); (rng.range(0, k), rng.range(-3, 3)) }
#[derive(Clone, Debug)]
enum Ex { Zero, B(i64), Arr(Vec<i64>), It(Vec<i64>), Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Neg(Box<Ex>), Mul(Box<Ex>, i64), Left(i64, i64), AddB(Box<Ex>, i64), SubB(Box<Ex>, i64), BAdd(i64, Box<Ex>), BSub(i64, Box<Ex>), Sum(Vec<Ex>), BB(i64, i64), BmB(i64, i64), NegB(i64) }
fn gex(rng: &mut Rng, d: usize) -> Ex {
    if d == 0 || rng.chance(1, 5) {
        return match rng.below(8) { 0 => Ex::Zero, 1 => Ex::B(term(rng).0), 2 => { let n = rng.below(6); Ex::Arr((0..n).map(|_| term(rng).0).collect()) } 3 => { let n = rng.below(9); Ex::It((0..n).map(|_| term(rng).0).collect()) } 4 => Ex::Left(rng.range(-3, 3), term(rng).0), 5 => Ex::BB(term(rng).0, term(rng).0), 6 => Ex::BmB(term(rng).0, term(rng).0), _ => Ex::NegB(term(rng).0) };
    }
    match rng.below(9) {
        0 => Ex::Add(Box::new(gex(rng, d - 1)), Box::new(gex(rng, d - 1))), 1 => Ex::Sub(Box::new(gex(rng, d - 1)), Box::new(gex(rng, d - 1))), 2 => Ex::Neg(Box::new(gex(rng, d - 1))),
        3 => Ex::Mul(Box::new(gex(rng, d - 1)), rng.range(-2, 2)), 4 => Ex::AddB(Box::new(gex(rng, d - 1)), term(rng).0), 5 => Ex::SubB(Box::new(gex(rng, d - 1)), term(rng).0),
        6 => Ex::BAdd(term(rng).0, Box::new(gex(rng, d - 1))), 7 => Ex::BSub(term(rng).0, Box::new(gex(rng, d - 1))), _ => { let n = rng.below(8); Ex::Sum((0..n).map(|_| gex(rng, d - 1)).collect()) }
    }
}
fn ad(a: &F, b: &F, s: i64) -> F { let mut o = a.clone(); for (k, v) in b { *o.entry(*k).or_insert(0) += s * v; } o }
fn one(b: i64) -> F { [(b, 1)].into_iter().collect() }
fn many(v: &[i64]) -> F { let mut o = F::new(); for b in v { *o.entry(*b).or_insert(0) += 1; } o }
fn ev(e: &Ex) -> (Vector<i64, Bs>, F) {
    match e {
        Ex::Zero => (Vector::zero(), F::new()), Ex::B(b) => (Vector::from(Bs(*b)), one(*b)),
        Ex::Arr(v) => { let b: Vec<Bs> = v.iter().map(|x| Bs(*x)).collect(); (match b.len() { 2 => Vector::from([b[0].clone(), b[1].clone()]), 3 => Vector::from([b[0].clone(), b[1].clone(), b[2].clone()]), _ => Vector::from(b) }, many(v)) }
        Ex::It(v) => (v.iter().map(|x| Bs(*x)).collect(), many(v)),
        Ex::Add(a, b) => { let ((x, f), (y, g)) = (ev(a), ev(b)); (x + y, ad(&f, &g, 1)) } Ex::Sub(a, b) => { let ((x, f), (y, g)) = (ev(a), ev(b)); (x - y, ad(&f, &g, -1)) }
        Ex::Neg(a) => { let (x, f) = ev(a); (-x, ad(&F::new(), &f, -1)) } Ex::Mul(a, k) => { let (x, f) = ev(a); (x * *k, ad(&F::new(), &f, *k)) }
        Ex::Left(k, b) => (*k * Bs(*b), ad(&F::new(), &one(*b), *k)), Ex::AddB(a, b) => { let (x, f) = ev(a); (x + Bs(*b), ad(&f, &one(*b), 1)) } Ex::SubB(a, b) => { let (x, f) = ev(a); (x - Bs(*b), ad(&f, &one(*b), -1)) }
        Ex::BAdd(b, a) => { let (x, f) = ev(a); (Bs(*b) + x, ad(&f, &one(*b), 1)) } Ex::BSub(b, a) => { let (x, f) = ev(a); (Bs(*b) - x, ad(&one(*b), &f, -1)) }
        Ex::Sum(v) => { let w: Vec<_> = v.iter().map(ev).collect(); let f = w.iter().fold(F::new(), |a, b| ad(&a, &b.1, 1)); (w.into_iter().map(|x| x.0).sum(), f) }
        Ex::BB(a, b) => (Bs(*a) + Bs(*b), ad(&one(*a), &one(*b), 1)), Ex::BmB(a, b) => (Bs(*a) - Bs(*b), ad(&one(*a), &one(*b), -1)), Ex::NegB(a) => (-Bs(*a), ad(&F::new(), &one(*a), -1)),
    }
}
fn p17_case(e: &Ex, e2: &Ex) -> R {
    let ((x, f), (y, g)) = (ev(e), ev(e2));
    fs(&x, &f, "value")?; fs(&y, &g, "value")?;
    chk!((x == y) == (norm(&f) == norm(&g)), "== of {x} and {y}");
    fs(&(x.clone() + y.clone()), &ad(&f, &g, 1), "+")?; chk!(x.clone() + y.clone() == y.clone() + x.clone(), "+ is not commutative");
    fs(&(x.clone() - x.clone()), &F::new(), "x - x")?;
    for b in 0..3 { if !norm(&f).contains_key(&b) { chk!(panics(|| x[&Bs(b)]), "coefficient of an absent basis element"); } }
    let d = format!("{x}");
    let t: Vec<(i64, i64)> = norm(&f).into_iter().collect();
    let want = if t.is_empty() { "0".to_string() } else { t.iter().enumerate().map(|(i, (b, c))| if i > 0 { format!(" + ({c})·e{b}") } else if *c == 1 { format!("e{b}") } else if *c == -1 { format!("-e{b}") } else { format!("{c}·e{b}") }).collect() };
    chk!(d == want, "displayed as {d}, expected {want}");
    let back: Vec<(i64, i64)> = x.clone().into_iter().map(|(c, b)| (b.0, c)).collect(); chk!(back == t, "into_iter");
    if !t.is_empty() { let mut z = x.clone(); let k = t.len() / 2; let (c, b) = z.remove(k); chk!((b.0, c) == t[k], "remove({k})"); let mut h = norm(&f); h.remove(&b.0); fs(&z, &h, "after remove")?; }
    // rational coefficients
    let q: Vector<Rational, Bs> = t.iter().map(|(b, c)| Vector::<Rational, Bs>::from(Bs(*b)) * qv(*c, 1)).sum();
    let h: Vec<(Rational, i64)> = (q / qv(3, 2)).into_iter().map(|(c, b)| (c, b.0)).collect();
    chk!(h == t.iter().map(|(b, c)| (qv(2 * c, 3), *b)).collect::<Vec<_>>(), "division by 3/2");
    Ok(())
}
pub fn p17(ctx: &mut Ctx) {
    ctx.case("rational", || "zero scalar".into(), || { let v = Vector::<Rational, Bs>::from(Bs(1)); chk!(v.clone() * Rational::zero() == Vector::zero() && v.clone() * Rational::one() == v && panics(|| v / Rational::zero()), "scalars"); let _ = rational!(1); Ok(()) });
    while ctx.more() {
        let rng = &mut ctx.rng; let d = rng.below(4);
        let e = gex(rng, d); let e2 = if rng.chance(1, 4) { e.clone() } else { gex(rng, d) };
        ctx.case("expression", || format!("{:?} ; {:?}", e, e2), || p17_case(&e, &e2));
        // many long summands
        let rng = &mut ctx.rng; let n = 2 + rng.below(9); let k = *rng.pick(&[4i64, 15, 60]);
        let s = Ex::Sum((0..n).map(|_| { let l = rng.below(12); let v: Vec<i64> = (0..l).map(|_| rng.range(0, k)).collect(); Ex::Mul(Box::new(Ex::It(v)), rng.range(-2, 3)) }).collect());
        ctx.case("sum", || format!("{:?}", s), || p17_case(&s, &Ex::Zero));
    }
}

// ------------------------------------------------------------------ P18
fn sp(a: &M, stored: &Vec<Vec<bool>>) -> SparseMatrix<i64> { let (n, m) = (a.len(), a[0].len()); let a = a.clone(); let s = stored.clone(); SparseMatrix::from(((n, m), move |(i, j): (usize, usize)| if s[i][j] { Some(a[i][j]) } else { None })) }
fn sp_t(a: &M, st: &Vec<Vec<bool>>, t: bool) -> SparseMatrix<i64> { if t { let b: Vec<Vec<bool>> = (0..st[0].len()).map(|j| (0..st.len()).map(|i| st[i][j]).collect()).collect(); sp(&tr(a), &b).transpose() } else { sp(a, st) } }
fn iters(x: &SparseMatrix<i64>, a: &M, st: &Vec<Vec<bool>>, what: &str) -> R {
    let (n, m) = (a.len(), a[0].len());
    chk!(x.size() == (n, m), "{what}: size {:?}", x.size());
    for i in 0..n { let g: Vec<(usize, i64)> = x.row_iter(i).map(|(j, v)| (j, *v)).collect(); let e: Vec<(usize, i64)> = (0..m).filter(|&j| st[i][j]).map(|j| (j, a[i][j])).collect(); chk!(g == e, "{what}: row {i} is {:?}, expected {:?}", g, e); let mut it = x.row_iter(i); for _ in 0..e.len() { it.next(); } chk!(it.next().is_none() && it.next().is_none(), "{what}: row {i} goes on"); }
    for j in 0..m { let g: Vec<(usize, i64)> = x.col_iter(j).map(|(i, v)| (i, *v)).collect(); let e: Vec<(usize, i64)> = (0..n).filter(|&i| st[i][j]).map(|i| (i, a[i][j])).collect(); chk!(g == e, "{what}: column {j} is {:?}, expected {:?}", g, e); }
    Ok(())
}
fn p18_case(a: &M, sa: &Vec<Vec<bool>>, b: &M, sb: &Vec<Vec<bool>>, t: (bool, bool, bool)) -> R {
    let (n, m, p) = (a.len(), a[0].len(), b[0].len());
    let (x, y) = (sp_t(a, sa, t.0), sp_t(b, sb, t.1));
    iters(&x, a, sa, "sparse")?;
    let st: Vec<Vec<bool>> = (0..m).map(|j| (0..n).map(|i| sa[i][j]).collect()).collect();
    iters(&x.clone().transpose(), &tr(a), &st, "transpose")?; iters(&x.clone().transpose().transpose(), a, sa, "double transpose")?;
    chk!(x == build(a, t.2), "== to the dense matrix");
    for (i, j) in [(0, 0), (n - 1, m - 1), (n / 2, m / 2), (0, m - 1), (n - 1, 0)] { let mut w = build(a, t.2); w[(i, j)] += 1; chk!(!(x == w), "== ignores entry ({i},{j})"); }
    chk!(!(x == Matrix::<i64>::zero(n + 1, m)) && !(x == Matrix::<i64>::zero(n, m + 1)), "== ignores the size");
    let pr = mmul(a, b);
    same(&(x.clone() * y.clone()), &pr, "sparse * sparse")?;
    same(&(x.clone() * build(b, t.2)), &pr, "sparse * dense")?;
    same(&(build(a, t.2) * y.clone()), &pr, "dense * sparse")?;
    same(&(y.clone().transpose() * x.clone().transpose()), &tr(&pr), "product of the transposes")?;
    let d = format!("{x}"); let want: String = (0..n).flat_map(|i| (0..m).filter(move |&j| sa[i][j]).map(move |j| format!("({i}, {j}): {}\n", a[i][j]))).collect();
    chk!(d == want, "displayed as {:?}", d);
    chk!(panics(|| x.clone() * sp(&mx(m + 1, p, |_, _| 1), &vec![vec![true; p]; m + 1])) && panics(|| x.clone() * Matrix::<i64>::zero(m + 1, p)) && panics(|| Matrix::<i64>::zero(p, n + 1) * x.clone()), "product of incompatible sizes accepted");
    Ok(())
}
pub fn p18(ctx: &mut Ctx) {
    while ctx.more() {
        let rng = &mut ctx.rng;
        let (n, m, p) = (size(rng), size(rng), size(rng)); if n * m * p > 30000 { continue; }
        let mut gen = |n: usize, m: usize| { let den = *rng.pick(&[0usize, 1, 2, 4, 8, 10]); let zero = rng.chance(1, 4); let er = rng.chance(1, 4);
            let mut st: Vec<Vec<bool>> = (0..n).map(|_| (0..m).map(|_| rng.chance(den, 10)).collect()).collect(); if er { let r = rng.below(n); st[r] = vec![false; m]; let c = rng.below(m); for i in 0..n { st[i][c] = false; } }
            let a = mx(n, m, |_, _| 0).into_iter().enumerate().map(|(i, r)| (0..r.len()).map(|j| if !st[i][j] { 0 } else { let v = val(rng); if v == 0 && !zero { 3 } else { v } }).collect()).collect::<M>(); (a, st) };
        let ((a, sa), (b, sb)) = (gen(n, m), gen(m, p));
        let t = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
        ctx.case("sparse", || format!("{:?} stored {:?} ; {:?} stored {:?} ; {:?}", a, sa, b, sb, t), || p18_case(&a, &sa, &b, &sb, t));
    }
    let _ = <i64 as PID>::divides;
}
