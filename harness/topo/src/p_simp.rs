use crate::chk;
use crate::rt::*;
use alg::commutative::Rational;
use alg::lin_alg::{Matrix, Vector};
use alg::{formal_sum_impl, rational};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use topo_spaces::simplicial::*;
use topo_spaces::*;

pub type S = BTreeSet<usize>;
type M = Vec<Vec<i128>>;

/// the complex generated by a list of simplices, as a mathematical object
struct Model { order: Vec<usize>, gens: Vec<S> }
impl Model {
    fn new() -> Self { Model { order: vec![], gens: vec![] } }
    fn attach(&mut self, s: &[usize]) {
        for v in s { if !self.order.contains(v) { self.order.push(*v); self.gens.push([*v].into()); } }
        self.gens.push(s.iter().copied().collect());
    }
    fn maximal(&self) -> Vec<S> {
        let mut out: Vec<S> = vec![];
        for g in &self.gens { if out.iter().any(|o| g.is_subset(o)) { continue; } out.retain(|o| !o.is_subset(g)); out.push(g.clone()); }
        out
    }
    fn cells(&self, k: usize) -> BTreeSet<S> {
        let mut out = BTreeSet::new();
        for g in self.maximal() {
            let v: Vec<usize> = g.into_iter().collect();
            if v.len() < k + 1 { continue; }
            let mut idx: Vec<usize> = (0..k + 1).collect();
            loop {
                out.insert(idx.iter().map(|&i| v[i]).collect());
                let Some(p) = (0..=k).rev().find(|&p| idx[p] + (k + 1 - p) < v.len()) else { break };
                idx[p] += 1; for q in p + 1..=k { idx[q] = idx[q - 1] + 1; }
            }
        }
        out
    }
    fn connected(&self) -> bool {
        if self.order.is_empty() { return true; }
        let mut comp: S = [self.order[0]].into();
        loop { let n = comp.len(); for g in &self.gens { if !g.is_disjoint(&comp) { comp.extend(g.iter()); } } if comp.len() == n { break; } }
        comp.len() == self.order.len()
    }
    fn dim(&self) -> usize { self.gens.iter().map(|g| g.len() - 1).max().unwrap() }
}

fn binom(n: usize, k: usize) -> u128 { if k > n { return 0; } let mut r = 1u128; for i in 0..k { r = match r.checked_mul((n - k + i + 1) as u128) { Some(x) => x / (i + 1) as u128, None => return 1 << 100 }; } r }

fn random_simplices(rng: &mut Rng, nv: usize, n: usize, maxd: usize) -> Vec<Vec<usize>> {
    (0..n).map(|_| { let mut p = rng.perm(nv); let k = 1 + rng.below(maxd.min(nv)); p.truncate(k); p }).collect()
}
// a path or cycle through many vertices plus a few random simplices: wide vertex sets with few overlaps
fn wide(rng: &mut Rng) -> Vec<Vec<usize>> {
    let nv = *rng.pick(&[62, 63, 64, 65, 66, 127, 128, 129, 130, 192, 193]);
    let p = rng.perm(nv);
    let mut out: Vec<Vec<usize>> = vec![];
    let step = 1 + rng.below(9); let gap = rng.below(6) == 0;
    let mut i = 0;
    while i + 1 < nv { let j = (i + step).min(nv - 1); if !(gap && i * 2 < nv && (i + step) * 2 >= nv) { let mut s: Vec<usize> = p[i..=j].to_vec(); if rng.chance(1, 2) { rng.shuffle(&mut s); } out.push(s); } i = j; }
    if rng.chance(1, 2) { rng.shuffle(&mut out); }
    out
}

fn check_complex<T: VertexLabel + std::fmt::Debug>(c: &SimplicialCplx<T>, m: &Model, lab: &dyn Fn(usize) -> T, full: bool) -> R {
    let want: Vec<T> = m.order.iter().map(|&v| lab(v)).collect();
    chk!(c.get_labeled_zero_skeleton() == &want, "vertices {:?}, expected {:?}", c.get_labeled_zero_skeleton(), want);
    chk!(c.n_vertices() == want.len(), "n_vertices {} instead of {}", c.n_vertices(), want.len());
    chk!(c.dim() == m.dim(), "dim {} instead of {}", c.dim(), m.dim());
    chk!(c.is_connected() == m.connected(), "is_connected {} instead of {}", c.is_connected(), m.connected());
    if full { for k in 0..=m.dim() + 1 {
        let n = m.cells(k).len();
        chk!(c.n_cells_of_dim(k) == n, "n_cells_of_dim({k}) is {} instead of {n}", c.n_cells_of_dim(k));
    } }
    Ok(())
}

pub fn p19(cx: &mut Ctx) {
    // exhaustive: all sequences of up to three simplices on four vertices
    let subs: Vec<Vec<usize>> = (1..16usize).map(|b| (0..4).filter(|i| b >> i & 1 == 1).collect()).collect();
    for a in 0..15 { for b in 0..15 { for c in 0..16 {
        let mut l = vec![subs[a].clone(), subs[b].clone()]; if c < 15 { l.push(subs[c].clone()); }
        cx.case("small complexes", || format!("attach {:?}", l), || {
            let mut x = SimplicialCplx::<usize>::new(); let mut m = Model::new();
            for s in &l { x.attach(Simplex::from(s.clone())); m.attach(s); check_complex(&x, &m, &|v| v, true)?; }
            Ok(())
        });
    } } }
    for n in [1usize, 2, 3, 5, 20, 63, 64, 65, 66, 128, 130] {
        cx.case("one simplex", || format!("one simplex with {n} vertices"), || {
            let s = Simplex::from((0..n).collect::<Vec<usize>>());
            chk!(s.dim == n - 1, "dim of the simplex {}", s.dim);
            let x = SimplicialCplx::new_from(s); let mut m = Model::new(); m.attach(&(0..n).collect::<Vec<_>>());
            check_complex(&x, &m, &|v| v, false)?;
            for k in (0..n.min(40)).chain(n.saturating_sub(4)..n + 2) { let b = binom(n, k + 1); if b < 1 << 50 { chk!(x.n_cells_of_dim(k) as u128 == b, "n_cells_of_dim({k}) is {} instead of {b}", x.n_cells_of_dim(k)); } }
            Ok(())
        });
        cx.case("zero skeleton", || format!("new_from_zero_skeleton with {n} labels, then an edge"), || {
            let mut x = SimplicialCplx::new_from_zero_skeleton((0..n).map(|i| i.to_string()).collect::<Vec<_>>());
            let mut m = Model::new(); for i in 0..n { m.attach(&[i]); }
            check_complex(&x, &m, &|v| v.to_string(), n < 10)?;
            x.attach(simplex!(n - 1, n)); m.attach(&[n - 1, n]);
            check_complex(&x, &m, &|v| v.to_string(), n < 10)?;
            for i in 0..n { x.attach(Simplex::from(vec![i.to_string(), (i + 1).to_string()])); m.attach(&[i, i + 1]); }
            check_complex(&x, &m, &|v| v.to_string(), n < 10)
        });
    }
    cx.case("empty", || "the empty complex".into(), || { let x = SimplicialCplx::<String>::new(); chk!(x.n_vertices() == 0 && x.is_connected() && x.get_labeled_zero_skeleton().is_empty() && x.n_cells_of_dim(0) == 0, "empty complex"); Ok(()) });
    cx.case("rejected", || "a simplex with a repeated vertex".into(), || { chk!(panics(|| SimplicialCplx::new_from(Simplex::from(vec![1usize, 2, 1]))), "accepted"); Ok(()) });
    while cx.more() {
        let l = { let rng = &mut cx.rng; match rng.below(4) {
            0 => { let (v, n) = (3 + rng.below(6), 1 + rng.below(7)); random_simplices(rng, v, n, 5) }
            1 => { let (v, n) = (60 + rng.below(75), 1 + rng.below(8)); random_simplices(rng, v, n, 9) }
            2 => { let v = 60 + rng.below(75); let mut l = vec![rng.perm(v)]; l[0].truncate(v - rng.below(3)); let n = rng.below(6); l.extend(random_simplices(rng, v + 4, n, 4)); if rng.chance(1, 2) { rng.shuffle(&mut l); } l }
            _ => wide(rng),
        } };
        let big = l.iter().any(|s| s.len() > 14) || l.len() > 40;
        cx.case("histories of attach", || format!("attach {:?}", l), || {
            let mut x = SimplicialCplx::<String>::new(); let mut m = Model::new();
            for (i, s) in l.iter().enumerate() {
                x.attach(Simplex::from(s.iter().map(|v| v.to_string()).collect())); m.attach(s);
                let last = i + 1 == l.len();
                if last || l.len() < 10 || i % 16 == 3 { check_complex(&x, &m, &|v| v.to_string(), !big && (last || i == 1))?; }
                if last && l.len() > 40 { for k in 0..2 { let n = m.cells(k).len(); chk!(x.n_cells_of_dim(k) == n, "n_cells_of_dim({k}) is {} instead of {n}", x.n_cells_of_dim(k)); } }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ P20
fn get(m: &Matrix<i64>, i: usize, j: usize) -> i128 { m[(i, j)] as i128 }
fn check_boundary(x: &SimplicialCplx<usize>, m: &Model) -> R {
    let bm = x.boundary_map();
    chk!(bm.len() == m.dim() + 1, "{} boundary maps, expected {}", bm.len(), m.dim() + 1);
    for k in 0..=m.dim() {
        let (mat, basis) = &bm[k];
        let want = m.cells(k);
        let got: BTreeSet<S> = basis.iter().map(|s| s.vertices_labels.iter().copied().collect()).collect();
        chk!(basis.iter().all(|s| s.dim == k && s.vertices_labels.len() == k + 1), "a basis element of dimension {k} with a wrong dimension or number of labels: {:?}", basis);
        chk!(got == want && basis.len() == want.len(), "basis of dimension {k}: {:?}, expected each of {:?} once", basis, want);
        if k == 0 { chk!(mat.size() == (1, basis.len()) && (0..basis.len()).all(|j| mat[(0, j)] == 0), "the map of dimension 0 is not a zero row"); continue; }
        let lower = &bm[k - 1].1;
        chk!(mat.size() == (lower.len(), basis.len()), "size of map {k}: {:?}", mat.size());
        for j in 0..basis.len() { let c: S = basis[j].vertices_labels.iter().copied().collect(); for i in 0..lower.len() {
            let f: S = lower[i].vertices_labels.iter().copied().collect();
            let e = mat[(i, j)];
            chk!(if f.is_subset(&c) { e == 1 || e == -1 } else { e == 0 }, "entry ({:?}, {:?}) of map {k} is {e}", f, c);
        } }
        if k >= 2 {
            let l = &bm[k - 1].0;
            for j in 0..basis.len() {
                let nz: Vec<usize> = (0..lower.len()).filter(|&t| mat[(t, j)] != 0).collect();
                for i in 0..bm[k - 2].1.len() {
                    let s: i128 = nz.iter().map(|&t| get(l, i, t) * get(mat, t, j)).sum();
                    chk!(s == 0, "boundary of the boundary of {:?} has coefficient {s} at {:?}", basis[j], bm[k - 2].1[i]);
                }
            }
        }
    }
    Ok(())
}
fn build(l: &[Vec<usize>]) -> (SimplicialCplx<usize>, Model) {
    let mut x = SimplicialCplx::<usize>::new(); let mut m = Model::new();
    for s in l { x.attach(Simplex::from(s.clone())); m.attach(s); }
    (x, m)
}
pub fn p20(cx: &mut Ctx) {
    let subs: Vec<Vec<usize>> = (1..16usize).map(|b| (0..4).filter(|i| b >> i & 1 == 1).collect()).collect();
    for a in 0..15 { for b in a..15 { for c in b..16 {
        let mut l = vec![subs[a].clone(), subs[b].clone()]; if c < 15 { l.push(subs[c].clone()); }
        cx.case("small complexes", || format!("attach {:?}", l), || { let (x, m) = build(&l); check_boundary(&x, &m) });
    } } }
    cx.case("orientation", || "one triangle".into(), || {
        let (x, _) = build(&[vec![0, 1, 2]]); let b = x.boundary_map();
        let s: Vec<i64> = (0..3).map(|i| b[2].0[(i, 0)]).collect();
        chk!(s == vec![1, -1, 1], "signs {:?}", s); Ok(())
    });
    while cx.more() {
        let l = { let rng = &mut cx.rng; match rng.below(4) {
            0 => { let (v, n) = (3 + rng.below(6), 1 + rng.below(9)); random_simplices(rng, v, n, 5) }
            1 => { let (v, n) = (60 + rng.below(75), 1 + rng.below(6)); random_simplices(rng, v, n, 6) }
            2 => { // a few simplices whose vertices were registered far apart
                let v = 66 + rng.below(70); let mut l: Vec<Vec<usize>> = (0..v).map(|i| vec![i]).collect(); let n = 1 + rng.below(4); l.extend(random_simplices(rng, v, n, 5)); l }
            _ => wide(rng),
        } };
        if l.iter().any(|s| s.len() > 9) { continue; }
        cx.case("random complexes", || format!("attach {:?}", l), || { let (x, m) = build(&l); check_boundary(&x, &m) });
    }
}

// ------------------------------------------------------------------ P21
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cell(usize, usize);
impl Display for Cell { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "e{}_{}", self.0, self.1) } }
formal_sum_impl! { Cell }
struct Chain { maps: Vec<M>, n: Vec<usize>, rev: bool }
impl Chain { fn label(&self, k: usize, i: usize) -> Cell { Cell(k, if self.rev { self.n[k] - 1 - i } else { i }) } }
impl Complex for Chain {
    type Cell = Cell;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Cell>)> {
        (0..self.n.len()).map(|k| (Matrix::from_array(self.maps[k].iter().map(|r| r.iter().map(|&x| x as i64).collect::<Vec<i64>>()).collect::<Vec<_>>()), (0..self.n[k]).map(|i| self.label(k, i)).collect())).collect()
    }
}
impl HomologyWithFieldCoefficients<Rational> for Chain {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.maps.iter().map(|m| Matrix::from_array(m.iter().map(|r| r.iter().map(|&x| rational!(x as i64; 1)).collect::<Vec<_>>()).collect::<Vec<_>>())).collect() }
}
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
/// the non-zero invariant factors of an integer matrix
pub fn smith(mut a: M) -> Vec<i128> {
    let n = a.len(); if n == 0 { return vec![]; } let m = a[0].len(); let mut d = vec![]; let mut r = 0;
    while r < n && r < m {
        let Some((i, j)) = (r..n).flat_map(|i| (r..m).map(move |j| (i, j))).filter(|&(i, j)| a[i][j] != 0).min_by_key(|&(i, j)| a[i][j].abs()) else { break };
        a.swap(r, i); for row in a.iter_mut() { row.swap(r, j); }
        let p = a[r][r]; let mut clean = true;
        for i in r + 1..n { let q = a[i][r] / p; if q != 0 { for j in r..m { let x = a[r][j]; a[i][j] -= q * x; } } clean &= a[i][r] == 0; }
        for j in r + 1..m { let q = a[r][j] / p; if q != 0 { for i in r..n { let x = a[i][r]; a[i][j] -= q * x; } } clean &= a[r][j] == 0; }
        if clean { d.push(p.abs()); r += 1; }
    }
    for i in 0..d.len() { for j in i + 1..d.len() { let g = gcd(d[i], d[j]); let l = d[i] / g * d[j]; d[i] = g; d[j] = l; } }
    d
}
/// row Hermite normal form without zero rows
fn hermite(mut a: M) -> M {
    let n = a.len(); if n == 0 { return a; } let m = a[0].len(); let mut r = 0;
    for j in 0..m {
        if r == n { break; }
        loop {
            let Some(i) = (r..n).filter(|&i| a[i][j] != 0).min_by_key(|&i| a[i][j].abs()) else { break };
            a.swap(r, i); let mut done = true;
            for i in r + 1..n { let q = a[i][j] / a[r][j]; if q != 0 { for k in 0..m { let x = a[r][k]; a[i][k] -= q * x; } } done &= a[i][j] == 0; }
            if done { break; }
        }
        if a[r][j] == 0 { continue; }
        if a[r][j] < 0 { for x in a[r].iter_mut() { *x = -*x; } }
        for i in 0..r { let q = a[i][j].div_euclid(a[r][j]); if q != 0 { for k in 0..m { let x = a[r][k]; a[i][k] -= q * x; } } }
        r += 1;
    }
    a.truncate(r); a
}
fn tr(a: &M, m: usize) -> M { (0..m).map(|j| a.iter().map(|r| r[j]).collect()).collect() }
fn module(free: usize, d: &[i128]) -> String {
    let mut parts: Vec<String> = vec![]; let d: Vec<i128> = d.iter().copied().filter(|&x| x != 1).collect();
    if free == 1 { parts.push("Z".into()); } else if free > 1 { parts.push(format!("Z^{free}")); }
    let mut i = 0; while i < d.len() { let c = d[i..].iter().take_while(|&&x| x == d[i]).count(); parts.push(if c == 1 { format!("Z_{}", d[i]) } else { format!("(Z_{})^{c}", d[i]) }); i += c; }
    if parts.is_empty() { "0".into() } else { parts.join(" + ") }
}
/// expected text of the homology of a chain complex: maps[k] : C_k -> C_{k-1}
fn expected(n: &[usize], maps: &[M], max: Option<usize>) -> (String, Vec<usize>) {
    let d: Vec<Vec<i128>> = maps.iter().map(|m| smith(m.clone())).collect();
    let betti: Vec<usize> = (0..n.len()).map(|k| n[k] - d[k].len() - d.get(k + 1).map_or(0, |x| x.len())).collect();
    let mut out: Vec<String> = (0..n.len()).map(|k| module(betti[k], d.get(k + 1).map_or(&[][..], |x| x))).collect();
    if let Some(m) = max { out.truncate(m + 1); }
    while out.last().map_or(false, |s| s == "0") { out.pop(); }
    (out.iter().enumerate().map(|(i, s)| format!("dim {i}: {s},\n")).collect(), betti)
}
fn parse(desc: &str, what: &str, c: &Chain) -> Result<Vec<M>, String> {
    let mut out: Vec<M> = vec![];
    for line in desc.lines() {
        if line.starts_with('\t') {
            let k = out.len().checked_sub(1).ok_or("no heading")?;
            let mut v = vec![0i128; c.n[k]]; let body = line.trim().trim_end_matches(',');
            if body != "0" { for t in body.split(" + ") {
                let (co, ce) = match t.split_once('·') { Some((a, b)) => (a.trim_matches(|x| x == '(' || x == ')').parse::<i128>().map_err(|e| format!("{e}: {t}"))?, b), None => if let Some(b) = t.strip_prefix('-') { (-1, b) } else { (1, t) } };
                let (a, b) = ce.strip_prefix('e').and_then(|s| s.split_once('_')).ok_or(format!("cell {ce}"))?;
                chk2(a.parse::<usize>().ok() == Some(k), || format!("a {what} of dimension {k} mentions {ce}"))?;
                let b: usize = b.parse().map_err(|_| "cell".to_string())?;
                v[if c.rev { c.n[k] - 1 - b } else { b }] += co;
            } }
            out[k].push(v);
        } else {
            chk2(line.trim() == format!("{}-{what}:", out.len()), || format!("heading {line}"))?; out.push(vec![]);
        }
    }
    Ok(out)
}
fn chk2(b: bool, m: impl FnOnce() -> String) -> R { if b { Ok(()) } else { Err(m()) } }

fn check_chain(c: &Chain, max: Option<usize>) -> R {
    let h = IntegralHomology::new(c, max);
    let (want, betti) = expected(&c.n, &c.maps, max);
    chk!(h.to_string() == want, "homology {:?}, expected {:?}", h.to_string(), want);
    let field: Vec<usize> = HomologyWithFieldCoefficients::<Rational>::homology(c);
    chk!(field == betti, "dimensions over the rationals {:?}, expected {:?}", field, betti);
    let (cy, bo) = (parse(&h.get_description_of_cycles(), "cycles", c)?, parse(&h.get_description_of_boundaries(), "boundaries", c)?);
    let dims = want.lines().count();
    chk!(cy.len() == dims && bo.len() == dims, "cycles for {} and boundaries for {} dimensions, expected {dims}", cy.len(), bo.len());
    for k in 0..dims {
        let r = smith(c.maps[k].clone()).len();
        chk!(cy[k].len() == c.n[k] - r, "{} {k}-cycles, expected {}", cy[k].len(), c.n[k] - r);
        for z in &cy[k] { for row in &c.maps[k] { let s: i128 = (0..c.n[k]).map(|t| row[t] * z[t]).sum(); chk!(s == 0, "the {k}-cycle {:?} has a non-zero boundary", z); } }
        let d = smith(cy[k].clone());
        chk!(d.len() == cy[k].len() && d.iter().all(|&x| x == 1), "the {k}-cycles {:?} are not a basis of the cycles (divisors {:?})", cy[k], d);
        let im: M = c.maps.get(k + 1).map_or(vec![], |m| tr(m, c.n[k + 1]));
        chk!(hermite(bo[k].clone()) == hermite(im.clone()) && bo[k].len() == hermite(im.clone()).len(), "the {k}-boundaries {:?} are not a basis of the boundaries {:?}", bo[k], im);
    }
    Ok(())
}
fn unimodular(rng: &mut Rng, n: usize, steps: usize) -> (M, M) {
    let id: M = (0..n).map(|i| (0..n).map(|j| (i == j) as i128).collect()).collect();
    let (mut u, mut v) = (id.clone(), id);
    for _ in 0..steps { if n < 2 { break; }
        let i = rng.below(n); let j = (i + 1 + rng.below(n - 1)) % n; let f = *rng.pick(&[1i128, -1, 1, -1, 2]);
        match rng.below(4) {
            0 => { u.swap(i, j); for r in v.iter_mut() { r.swap(i, j); } }
            1 => { for x in u[i].iter_mut() { *x = -*x; } for r in v.iter_mut() { r[i] = -r[i]; } }
            _ => { for k in 0..n { let x = u[j][k]; u[i][k] += f * x; } for k in 0..n { let x = v[k][i]; v[k][j] -= f * x; } }
        }
    }
    (u, v)
}
fn mul(a: &M, b: &M) -> M { a.iter().map(|r| (0..b[0].len()).map(|j| (0..b.len()).map(|k| r[k] * b[k][j]).sum()).collect()).collect() }
fn random_chain(rng: &mut Rng) -> Chain {
    let top = rng.below(4);
    let r: Vec<usize> = (0..top + 2).map(|k| if k == 0 || k == top + 1 { 0 } else { rng.below(4) }).collect();
    let n: Vec<usize> = (0..=top).map(|k| { let b = rng.below(3); (b + r[k] + r[k + 1]).max(1) }).collect();
    let steps = *rng.pick(&[0usize, 1, 3, 6]);
    let us: Vec<(M, M)> = n.iter().map(|&k| unimodular(rng, k, steps)).collect();
    let mut maps = vec![vec![vec![0; n[0]]]];
    for k in 1..=top {
        let mut d: M = vec![vec![0; n[k]]; n[k - 1]];
        for i in 0..r[k] { d[n[k - 1] - 1 - i][i] = *rng.pick(&[1i128, 1, 1, -1, 2, -2, 3, 4, 6, -6, 5]); }
        maps.push(mul(&mul(&us[k - 1].0, &d), &us[k].1));
    }
    // maps[k] C_k -> C_{k-1}: the image of maps[k] sits in the last r[k] coordinates, maps[k-1] reads the first r[k-1]
    Chain { maps, n, rev: rng.chance(1, 3) }
}
/// boundary matrices of the simplicial complex with the standard orientation
fn standard(m: &Model) -> (Vec<usize>, Vec<M>) {
    let cells: Vec<Vec<S>> = (0..=m.dim()).map(|k| m.cells(k).into_iter().collect()).collect();
    let maps = (0..=m.dim()).map(|k| if k == 0 { vec![vec![0; cells[0].len()]] } else {
        let mut a = vec![vec![0i128; cells[k].len()]; cells[k - 1].len()];
        let pos: BTreeMap<&S, usize> = cells[k - 1].iter().enumerate().map(|(i, s)| (s, i)).collect();
        for (j, c) in cells[k].iter().enumerate() { for (t, v) in c.iter().enumerate() { let mut f = c.clone(); f.remove(v); a[pos[&f]][j] = if t % 2 == 0 { 1 } else { -1 }; } }
        a
    }).collect();
    (cells.iter().map(|c| c.len()).collect(), maps)
}
fn spaces() -> Vec<(&'static str, Vec<Vec<usize>>, &'static str)> {
    vec![
        ("circle", vec![vec![1, 2], vec![2, 3], vec![1, 3]], "dim 0: Z,\ndim 1: Z,\n"),
        ("sphere", vec![vec![0, 1, 2], vec![0, 2, 3], vec![0, 3, 1], vec![4, 1, 2], vec![4, 2, 3], vec![4, 3, 1]], "dim 0: Z,\ndim 1: 0,\ndim 2: Z,\n"),
        ("torus", (0..7).flat_map(|i| [vec![i, (i + 1) % 7, (i + 3) % 7], vec![i, (i + 2) % 7, (i + 3) % 7]]).collect(), "dim 0: Z,\ndim 1: Z^2,\ndim 2: Z,\n"),
        ("projective plane", vec![vec![1, 3, 4], vec![2, 3, 4], vec![1, 4, 5], vec![2, 4, 6], vec![4, 5, 6], vec![1, 2, 6], vec![1, 3, 6], vec![3, 5, 6], vec![2, 3, 5], vec![1, 2, 5]], "dim 0: Z,\ndim 1: Z_2,\n"),
        ("two points", vec![vec![0], vec![1]], "dim 0: Z^2,\n"),
        ("solid", vec![vec![0, 1, 2, 3, 4]], "dim 0: Z,\n"),
        ("3-sphere", (0..5).map(|i| (0..5).filter(|&j| j != i).collect()).collect(), "dim 0: Z,\ndim 1: 0,\ndim 2: 0,\ndim 3: Z,\n"),
    ]
}
fn homology_text(x: &SimplicialCplx<usize>, max: Option<usize>) -> String {
    let c = Simp { maps: x.boundary_map() };
    IntegralHomology::new(&c, max).to_string()
}
// the complex as the library computes it, with cells that can be summed
struct Simp { maps: Vec<(Matrix<i64>, Vec<Simplex<usize>>)> }
impl Complex for Simp {
    type Cell = Cell;
    fn boundary_map(&self) -> Vec<(Matrix<i64>, Vec<Cell>)> { self.maps.iter().enumerate().map(|(k, (m, b))| (m.clone(), (0..b.len()).map(|i| Cell(k, i)).collect())).collect() }
}
pub fn p21(cx: &mut Ctx) {
    for (name, l, want) in spaces() {
        for rep in 0..8 {
            let mut l = l.clone();
            if rep > 0 { let p = cx.rng.perm(12); for s in l.iter_mut() { for v in s.iter_mut() { *v = p[*v]; } cx.rng.shuffle(s); } cx.rng.shuffle(&mut l); }
            cx.case("known spaces", || format!("{name} {:?}", l), || {
                let (x, m) = build(&l);
                let t = homology_text(&x, None);
                chk!(t == want, "homology {:?}, expected {:?}", t, want);
                let mut y = SimplicialCplx::<String>::new(); for s in &l { y.attach(Simplex::from(s.iter().map(|v| v.to_string()).collect())); }
                let t = IntegralHomology::new(&y, None).to_string();
                chk!(t == want, "homology {:?}, expected {:?}", t, want);
                for d in 0..=m.dim() { let (n, maps) = standard(&m); let w = expected(&n, &maps, Some(d)).0; let t = IntegralHomology::new(&y, Some(d)).to_string(); chk!(t == w, "homology up to {d}: {:?}, expected {:?}", t, w); }
                Ok(())
            });
        }
    }
    // all 1x1 and small diagonal maps
    for a in -6i128..7 { for b in -6i128..7 { for (n0, n1, f) in [(1usize, 1usize, 0), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2)] {
        let mut m = vec![vec![0i128; n1]; n0]; m[0][0] = a; if f >= 1 { m[1][1] = b; } if f == 2 { m[0][1] = a; }
        let c = Chain { n: vec![n0, n1], maps: vec![vec![vec![0; n0]], m], rev: false };
        cx.case("small maps", || format!("C_1 -> C_0 with matrix {:?}", c.maps[1]), || check_chain(&c, None));
    } } }
    while cx.more() {
        if cx.rng.chance(1, 3) {
            let l = { let rng = &mut cx.rng; let (v, n) = (3 + rng.below(5), 1 + rng.below(10)); random_simplices(rng, v, n, 4) };
            let max = if cx.rng.chance(1, 4) { Some(cx.rng.below(4)) } else { None };
            cx.case("random simplicial complexes", || format!("attach {:?}, up to {:?}", l, max), || {
                let (x, m) = build(&l); let (n, maps) = standard(&m); let (want, betti) = expected(&n, &maps, max);
                let t = homology_text(&x, max);
                chk!(t == want, "homology {:?}, expected {:?}", t, want);
                let _ = betti; Ok(())
            });
        } else {
            let c = random_chain(&mut cx.rng);
            let max = if cx.rng.chance(1, 4) { Some(cx.rng.below(4)) } else { None };
            cx.case("random chain complexes", || format!("sizes {:?}, maps {:?}, labels reversed: {}, up to {:?}", c.n, c.maps, c.rev, max), || check_chain(&c, max));
        }
    }
}
