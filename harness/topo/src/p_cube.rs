use crate::chk;
use crate::p_graph::*;
use crate::rt::*;
use alg::lin_alg::{Matrix, Vector};
use alg::non_commutative::permutation::ConstPermutation;
use alg::non_commutative::Group;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topo_spaces::cubical::*;
use topo_spaces::graph::*;
use topo_spaces::*;
use CubeFactor::{Edge, Vertex};

pub type C = Vec<CubeFactor>;
fn verts(f: &CubeFactor) -> Vec<usize> { match f { Edge([a, b]) => vec![*a, *b], Vertex(a) => vec![*a] } }
fn dim(c: &[CubeFactor]) -> usize { c.iter().filter(|f| matches!(f, Edge(_))).count() }
fn k(c: &[CubeFactor]) -> Vec<(usize, usize)> { c.iter().map(|f| match f { Edge([a, b]) => (*a, *b), Vertex(a) => (*a, *a) }).collect() }
type K = Vec<(usize, usize)>;
/// all sets of n pairwise disjoint factors, each listed by its first vertices
fn all_cubes(nv: usize, a: &[Vec<usize>], n: usize) -> Vec<C> {
    fn go(from: usize, left: usize, nv: usize, a: &[Vec<usize>], used: &mut Vec<bool>, cur: &mut C, out: &mut Vec<C>) {
        if left == 0 { out.push(cur.clone()); return; }
        for v in from..nv {
            if used[v] { continue; }
            used[v] = true;
            cur.push(Vertex(v)); go(v + 1, left - 1, nv, a, used, cur, out); cur.pop();
            for &w in &a[v] { if w > v && !used[w] { used[w] = true; cur.push(Edge([v, w])); go(v + 1, left - 1, nv, a, used, cur, out); cur.pop(); used[w] = false; } }
            used[v] = false;
        }
    }
    let mut out = vec![]; go(0, n, nv, a, &mut vec![false; nv], &mut vec![], &mut out); out
}
fn sorted(mut c: C) -> C { c.sort_by_key(|f| verts(f)[0]); c }
/// boundary: edges in order with alternating signs, first end minus second end
fn boundary(c: &C) -> Vec<(i64, C)> {
    let mut out = vec![]; let mut s = 1;
    for i in 0..c.len() { if let Edge([x, y]) = c[i] {
        for (v, t) in [(x, s), (y, -s)] { let mut d = c.clone(); d[i] = Vertex(v); out.push((t, sorted(d))); }
        s = -s;
    } }
    out
}
/// critical in the sense of Farley and Sabalka
fn critical(c: &C, par: &[Option<usize>]) -> bool {
    let occ: BTreeSet<usize> = c.iter().flat_map(|f| verts(f)).collect();
    c.iter().all(|f| match f {
        Vertex(v) => *v == 0 || occ.contains(&par[*v].unwrap()),
        Edge([i, j]) => par[*j] != Some(*i) || c.iter().any(|g| matches!(g, Vertex(v) if *v < *j && par[*v] == Some(*i))),
    })
}
/// rank over the field with p elements of the matrix with the given columns
fn rank(cols: &[Vec<(usize, i64)>], p: i64) -> usize {
    fn pw(mut b: i64, mut e: i64, p: i64) -> i64 { let mut r = 1; b = b.rem_euclid(p); while e > 0 { if e & 1 == 1 { r = r * b % p; } b = b * b % p; e >>= 1; } r }
    let mut piv: HashMap<usize, BTreeMap<usize, i64>> = HashMap::new();
    for c in cols {
        let mut v: BTreeMap<usize, i64> = BTreeMap::new();
        for &(i, x) in c { let e = v.entry(i).or_insert(0); *e = (*e + x).rem_euclid(p); }
        v.retain(|_, x| *x != 0);
        while let Some((&i, &x)) = v.iter().next_back() {
            match piv.get(&i) {
                None => { let inv = pw(x, p - 2, p); for y in v.values_mut() { *y = *y * inv % p; } piv.insert(i, v.clone()); break; }
                Some(q) => { for (&t, &y) in q { let e = v.entry(t).or_insert(0); *e = (*e - x * y % p).rem_euclid(p); if *e == 0 { v.remove(&t); } } }
            }
        }
    }
    piv.len()
}
const PRIMES: [i64; 3] = [2, 3, 1000003];
fn columns(m: &Matrix<i64>) -> Vec<Vec<(usize, i64)>> { (0..m.size().1).map(|j| (0..m.size().0).filter(|&i| m[(i, j)] != 0).map(|i| (i, m[(i, j)])).collect()).collect() }
/// dimensions of the homology modulo each prime, trailing zeros dropped
fn betti(maps: &[Vec<Vec<(usize, i64)>>], n: &[usize]) -> Vec<Vec<usize>> {
    PRIMES.iter().map(|&p| {
        let r: Vec<usize> = maps.iter().map(|m| rank(m, p)).collect();
        let mut b: Vec<usize> = (0..n.len()).map(|d| n[d] - (if d == 0 { 0 } else { r[d] }) - r.get(d + 1).copied().unwrap_or(0)).collect();
        while b.last() == Some(&0) { b.pop(); } b
    }).collect()
}
fn udc_betti(cubes: &[C]) -> Vec<Vec<usize>> {
    let top = cubes.iter().map(|c| dim(c)).max().unwrap();
    let mut ix: Vec<HashMap<K, usize>> = vec![HashMap::new(); top + 1];
    for c in cubes { let d = dim(c); let l = ix[d].len(); ix[d].insert(k(c), l); }
    let mut maps: Vec<Vec<Vec<(usize, i64)>>> = vec![vec![]; top + 1];
    for c in cubes { let d = dim(c); if d == 0 { continue; } maps[d].push(boundary(c).iter().map(|(s, f)| (ix[d - 1][&k(f)], *s)).collect()); }
    betti(&maps, &ix.iter().map(|m| m.len()).collect::<Vec<_>>())
}
fn lib_betti(bm: &[(Matrix<i64>, Vec<Cube>)]) -> Vec<Vec<usize>> {
    betti(&bm.iter().map(|(m, _)| columns(m)).collect::<Vec<_>>(), &bm.iter().map(|(m, _)| m.size().1).collect::<Vec<_>>())
}
/// the text of IntegralHomology agrees with the dimensions modulo the primes
fn text_matches(t: &str, b: &[Vec<usize>]) -> R {
    // dim i: Z^a + Z_m + (Z_m)^k
    let mut mods: Vec<(usize, Vec<(i64, usize)>)> = vec![];
    for l in t.lines() {
        let (_, body) = l.split_once(": ").ok_or("line")?; let mut free = 0; let mut tor = vec![];
        for x in body.trim_end_matches(',').split(" + ") {
            if x == "0" { } else if x == "Z" { free += 1 } else if let Some(r) = x.strip_prefix("Z^") { free += r.parse::<usize>().map_err(|_| x.to_string())? }
            else if let Some(r) = x.strip_prefix("Z_") { tor.push((r.parse().map_err(|_| x.to_string())?, 1)) }
            else if let Some((q, e)) = x.strip_prefix("(Z_").and_then(|r| r.split_once(")^")) { tor.push((q.parse().map_err(|_| x.to_string())?, e.parse().map_err(|_| x.to_string())?)) } else { return Err(format!("term {x}")); }
        }
        mods.push((free, tor));
    }
    for (q, &p) in PRIMES.iter().enumerate() {
        let tor = |d: usize| mods.get(d).map_or(0, |m| m.1.iter().filter(|x| x.0 % p == 0).map(|x| x.1).sum::<usize>());
        let mut w: Vec<usize> = (0..mods.len() + 1).map(|d| mods.get(d).map_or(0, |m| m.0) + tor(d) + if d > 0 { tor(d - 1) } else { 0 }).collect();
        while w.last() == Some(&0) { w.pop(); }
        chk!(w == b[q], "homology {:?} has dimensions {:?} modulo {p}, expected {:?}", t, w, b[q]);
    }
    Ok(())
}
fn zero_product(bm: &[(Matrix<i64>, Vec<Cube>)]) -> R {
    for d in 1..bm.len() {
        let (l, m) = (&bm[d - 1].0, &bm[d].0);
        chk!(l.size().1 == m.size().0, "sizes of maps {} and {d}: {:?} {:?}", d - 1, l.size(), m.size());
        let lc = columns(l);
        for (j, c) in columns(m).iter().enumerate() { let mut s: BTreeMap<usize, i64> = BTreeMap::new(); for &(i, x) in c { for &(t, y) in &lc[i] { *s.entry(t).or_insert(0) += x * y; } } chk!(s.values().all(|&x| x == 0), "the boundary of the boundary of {} is {:?}", bm[d].1.get(j).map_or("?".into(), |c| c.to_string()), s); }
    }
    Ok(())
}
fn pick_graph(rng: &mut Rng, max_cubes: usize, nmax: usize) -> Option<(L, usize)> {
    for _ in 0..50 {
        let nv = 1 + rng.below(6); let ex = rng.below(4); let l = random_graph(rng, nv, ex); let n = 1 + rng.below(nmax);
        if !has_base_point(&l, n) { continue; }
        let (v, e) = subdivision(&l, n); let f = v.len() + e.len(); let mut b = 1usize; for i in 0..n { b = b.saturating_mul(f - i) / (i + 1); }
        if b <= max_cubes { return Some((l, n)); }
    }
    None
}
fn fit(l: &L, n: usize, max: usize) -> bool { let (v, e) = subdivision(l, n); let f = v.len() + e.len(); if f < n { return true; } let mut b = 1usize; for i in 0..n { b = b.saturating_mul(f - i) / (i + 1); } b <= max }

// ------------------------------------------------------------------ P25
fn check_udc(l: &L, n: usize) -> R {
    let g = graph_of(l);
    let s = SimpleGraph::subdivided_graph_from(&g, n); let a = adj(s.n_vertices(), &edges_of(&s));
    let cubes = all_cubes(s.n_vertices(), &a, n);
    let x = guard(|| CubicalCplx::udc(&g, n))?;
    chk!(x.n_cells() == cubes.len(), "{} cells instead of {}", x.n_cells(), cubes.len());
    let top = cubes.iter().map(|c| dim(c)).max().unwrap();
    let bm = guard(|| x.boundary_map())?;
    chk!(bm.len() == top + 1, "{} boundary maps, expected {}", bm.len(), top + 1);
    // the cells as printed
    let text = x.to_string(); let mut at = 0;
    let mut printed: Vec<BTreeSet<String>> = vec![]; let mut cnt = vec![];
    for line in text.lines() {
        if line.ends_with("-cells:") { chk!(line == format!("{at}-cells:"), "heading {line}"); at += 1; printed.push(BTreeSet::new()); cnt.push(0); }
        else if !line.trim().is_empty() { printed[at - 1].insert(line.trim().trim_end_matches(", ").trim_end_matches(',').to_string()); cnt[at - 1] += 1; }
    }
    for d in 0..=top {
        let want: BTreeSet<K> = cubes.iter().filter(|c| dim(c) == d).map(|c| k(c)).collect();
        let shown: BTreeSet<String> = cubes.iter().filter(|c| dim(c) == d).map(|c| format!("{{{}}}", c.iter().map(|f| format!("{f}, ")).collect::<String>())).collect();
        chk!(printed.get(d) == Some(&shown) && cnt[d] == shown.len(), "printed {d}-cells {:?}, expected {:?}", printed.get(d), shown);
        let (m, b) = &bm[d];
        let got: BTreeSet<K> = b.iter().map(|c| k(c)).collect();
        chk!(got == want && b.len() == want.len(), "the basis of dimension {d} has {} elements, expected the {} cells", b.len(), want.len());
        if d == 0 { chk!(m.size() == (1, b.len()) && (0..b.len()).all(|j| m[(0, j)] == 0), "the map of dimension 0 is not a zero row"); continue; }
        let lower: HashMap<K, usize> = bm[d - 1].1.iter().enumerate().map(|(i, c)| (k(c), i)).collect();
        chk!(m.size() == (lower.len(), b.len()), "size of map {d}: {:?}", m.size());
        for (j, c) in columns(m).iter().enumerate() {
            let mut w: Vec<(usize, i64)> = boundary(&b[j].to_vec()).iter().map(|(s, f)| (lower[&k(f)], *s)).collect(); w.sort();
            chk!(&w == c, "boundary of {}: {:?}, expected {:?}", b[j], c, w);
        }
    }
    zero_product(&bm)?;
    if cubes.len() <= 120 { let h = guard(|| IntegralHomology::new(&x, None).to_string())?; text_matches(&h, &udc_betti(&cubes))?; }
    Ok(())
}
pub fn p25(cx: &mut Ctx) {
    for (what, l) in fixed_graphs() { for n in 1..5 { if fit(&l, n, 4000) { cx.case("known graphs", || format!("{what} {:?} with {n} marked points", l), || check_udc(&l, n)); } } }
    while cx.more() {
        let Some((l, n)) = pick_graph(&mut cx.rng, 6000, 4) else { continue };
        cx.case("random graphs", || format!("edges {:?} with {n} marked points", l), || check_udc(&l, n));
    }
}

// ------------------------------------------------------------------ P26
fn to_map(v: Vector<i64, Cube>) -> BTreeMap<K, i64> { v.into_iter().map(|(x, c)| (k(&c), x)).collect() }
fn factor_laws(x: CubeFactor, y: CubeFactor) -> R {
    let (a, b) = (verts(&x), verts(&y)); let dis = a.iter().all(|v| !b.contains(v));
    chk!(x.is_disjoint_from(y) == dis, "is_disjoint_from");
    let want = if x == y { Some(std::cmp::Ordering::Equal) } else if dis { Some(a[0].cmp(&b[0])) } else { None };
    chk!(x.partial_cmp(&y) == want, "order {:?}, expected {:?}", x.partial_cmp(&y), want);
    chk!((x == y) == (k(&[x]) == k(&[y]) && a.len() == b.len()), "==");
    chk!(x.is_edge() == (a.len() == 2) && x.is_vertex() != x.is_edge() && x.get_order() == a[0], "kind or number of {x}");
    if a.len() == 2 {
        chk!(x.edge() == [a[0], a[1]] && x.terminal() == Vertex(a[0]) && x.initial() == Vertex(a[1]) && x.is_order_respecting() == (a[1] == a[0] + 1) && panics(|| x.vertex()), "ends of {x}");
        chk!(x.to_string() == format!("[{} {}]", a[0], a[1]), "Display");
    } else {
        chk!(x.vertex() == a[0] && panics(|| x.edge()) && x.to_string() == a[0].to_string(), "vertex {x}");
        if b.len() == 2 { chk!(x.is_disrespected_by(y) == (b[0] < a[0] && a[0] < b[1]), "is_disrespected_by"); }
    }
    Ok(())
}
fn check_boundary(c: &C) -> R {
    let cube = Cube::from(c.clone());
    chk!(cube.to_string() == format!("{{{}}}", c.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(", ")), "Display {}", cube);
    let mut want: BTreeMap<K, i64> = BTreeMap::new(); for (s, f) in boundary(c) { *want.entry(k(&f)).or_insert(0) += s; }
    let b = cube.get_boundary();
    chk!(b.iter().all(|(_, f)| k(f) == k(&sorted(f.to_vec()))), "a face is not listed by its first vertices");
    let got = to_map(b.clone());
    chk!(got == want, "boundary {:?}, expected {:?}", got, want);
    let bb = b.into_iter().map(|(x, f)| f.get_boundary() * x).sum::<Vector<i64, _>>();
    chk!(bb == Vector::zero(), "the boundary of the boundary is {}", bb);
    if dim(c) == 1 {
        let e = cube.get_ends(); let mut w = [c.clone(), c.clone()];
        for i in 0..c.len() { if let Edge([x, y]) = c[i] { w[0][i] = Vertex(x); w[1][i] = Vertex(y); } }
        chk!(e[0].to_vec() == w[0] && e[1].to_vec() == w[1], "ends {} {}", e[0], e[1]);
    } else { chk!(panics(|| cube.get_ends()), "ends of a cube that is not an edge"); }
    Ok(())
}
fn flow_sum(v: Vector<i64, Cube>, s: &RawSimpleGraph) -> Vector<i64, Cube> { v.into_iter().map(|(x, c)| c.flow(s) * x).sum() }
fn check_flow(l: &L, n: usize, picks: &mut Rng) -> R {
    let s = SimpleGraph::subdivided_graph_from(&graph_of(l), n); let a = adj(s.n_vertices(), &edges_of(&s)); let par = parents(&a);
    let cubes = all_cubes(s.n_vertices(), &a, n);
    let step = (cubes.len() / 150).max(1); let mut i = picks.below(step);
    while i < cubes.len() {
        let c = &cubes[i]; i += 1 + picks.below(2 * step - 1 + 1).min(2 * step - 1);
        for f in c { if let Vertex(v) = f { let occ: BTreeSet<usize> = c.iter().flat_map(|f| verts(f)).collect(); let w = *v == 0 || occ.contains(&par[*v].unwrap()); chk!(f.is_blocked(c, &s) == w, "is_blocked of {v} in {:?} is {}", c, !w); } }
        let cube = Cube::from(c.clone());
        let fl = guard(|| cube.clone().flow(&s)).map_err(|e| format!("flow of {cube}: {e}"))?;
        for (_, d) in fl.iter() { chk!(critical(&d.to_vec(), &par), "the flow of {cube} has the cube {d}, which is not critical"); chk!(dim(d) == dim(c), "dimension of a term"); }
        if critical(c, &par) { chk!(fl == Vector::from(cube.clone()), "the flow of the critical cube {cube} is {fl}"); }
        if dim(c) == 0 { chk!(fl == Vector::from(Cube::from((0..n).map(Vertex).collect::<Vec<_>>())), "the flow of the configuration {cube} is {fl}"); }
        let lhs = flow_sum(fl.into_iter().map(|(x, d)| d.get_boundary() * x).sum::<Vector<i64, _>>(), &s);
        let rhs = flow_sum(cube.get_boundary(), &s);
        chk!(lhs == rhs, "flow of the boundary of {cube}: {rhs}, boundary of its flow: {lhs}");
    }
    Ok(())
}
pub fn p26(cx: &mut Ctx) {
    let fs: Vec<CubeFactor> = (0..4).map(Vertex).chain((0..5).flat_map(|j| (0..j).map(move |i| Edge([i, j])))).collect();
    for &x in &fs { for &y in &fs { cx.case("factors", || format!("{x} and {y}"), || factor_laws(x, y)); } }
    for (what, l) in fixed_graphs() { for n in 2..5 { if fit(&l, n, 20000) { let s = cx.rng.next(); cx.case("known graphs", || format!("{what} {:?} with {n} marked points", l), || check_flow(&l, n, &mut Rng(s))); } } }
    while cx.more() {
        if cx.rng.chance(1, 2) {
            // a random cube on any number of vertices
            let rng = &mut cx.rng; let m = 1 + rng.below(9); let nv = 2 * m + rng.below(60); let p = rng.perm(nv); let mut c: C = vec![]; let mut t = 0;
            for _ in 0..m { if rng.chance(1, 2) { c.push(Vertex(p[t])); t += 1; } else { c.push(Edge([p[t].min(p[t + 1]), p[t].max(p[t + 1])])); t += 2; } }
            let c = sorted(c);
            cx.case("cubes", || format!("{:?}", c), || check_boundary(&c));
            let (x, y) = (c[0], Vertex(cx.rng.below(nv))); cx.case("factors", || format!("{x} and {y}"), || { factor_laws(x, y)?; factor_laws(y, x) });
        } else {
            let Some((l, n)) = pick_graph(&mut cx.rng, 20000, 4) else { continue }; let s = cx.rng.next();
            cx.case("random graphs", || format!("edges {:?} with {n} marked points", l), || check_flow(&l, n, &mut Rng(s)));
        }
    }
}

// ------------------------------------------------------------------ P27
fn check_morse(l: &L, n: usize, upper: Option<usize>) -> R {
    let g = graph_of(l);
    let x = guard(|| UdnMorseCplx::new(&g, n, upper))?;
    let s = &x.factor_pool; let a = adj(s.n_vertices(), &edges_of(s)); let par = parents(&a);
    let cubes = all_cubes(s.n_vertices(), &a, n);
    let crit: Vec<&C> = cubes.iter().filter(|c| critical(c, &par)).collect();
    let up = upper.unwrap_or(usize::MAX);
    for d in 0..=n + 1 {
        let want: BTreeSet<K> = crit.iter().filter(|c| dim(c) == d && d <= up).map(|c| k(c)).collect();
        let cells = x.get_cells_of_dim(d); let got: BTreeSet<K> = cells.iter().map(|c| k(c)).collect();
        chk!(got == want && cells.len() == want.len(), "{d}-cells {:?}, expected each of {:?} once, in the graph {:?}", cells.iter().map(|c| c.to_string()).collect::<Vec<_>>(), want, edges_of(s));
    }
    let bm = guard(|| x.boundary_map())?;
    let top = crit.iter().map(|c| dim(c)).filter(|&d| d <= up).max().unwrap();
    chk!(bm.len() == top + 1, "{} boundary maps, expected {}", bm.len(), top + 1);
    for d in 0..=top { let c = x.get_cells_of_dim(d); chk!(bm[d].1 == c && bm[d].0.size() == (if d == 0 { 1 } else { bm[d - 1].1.len() }, c.len()), "basis or size of map {d}"); }
    zero_product(&bm)?;
    let mut want = udc_betti(&cubes); let mut got = lib_betti(&bm);
    if top < crit.iter().map(|c| dim(c)).max().unwrap() { for b in want.iter_mut().chain(got.iter_mut()) { b.truncate(top); while b.last() == Some(&0) { b.pop(); } } }
    chk!(got == want, "dimensions of the homology modulo 2, 3 and a large prime: {:?}, of the configuration space: {:?}; graph {:?}", got, want, edges_of(s));
    if upper.is_none() && crit.len() <= 60 { let h = guard(|| IntegralHomology::new(&x, None).to_string())?; text_matches(&h, &want)?; }
    Ok(())
}
pub fn p27(cx: &mut Ctx) {
    for (what, l) in fixed_graphs() { for n in 1..6 { if fit(&l, n, 12000) { cx.case("known graphs", || format!("{what} {:?} with {n} marked points", l), || check_morse(&l, n, None)); for u in 0..3 { if n > 1 { cx.case("truncated", || format!("{what} {:?} with {n} marked points up to dimension {u}", l), || check_morse(&l, n, Some(u))); } } } } }
    for (what, l, n, want) in [("K5", (0..5).flat_map(|j| (0..j).map(move |i| (i, j))).collect::<L>(), 2, "dim 0: Z,\ndim 1: Z^6 + Z_2,\n"), ("K4", (0..4).flat_map(|j| (0..j).map(move |i| (i, j))).collect(), 3, "dim 0: Z,\ndim 1: Z^4,\ndim 2: Z^3,\n"), ("K33", (0..3).flat_map(|i| (3..6).map(move |j| (i, j))).collect(), 2, "dim 0: Z,\ndim 1: Z^4 + Z_2,\n")] {
        for _ in 0..4 { let mut l = l.clone(); let p = cx.rng.perm(6); for e in l.iter_mut() { *e = (p[e.0], p[e.1]); } cx.rng.shuffle(&mut l);
            cx.case("known groups", || format!("{what} as {:?}, {n} marked points", l), || { let h = IntegralHomology::new(&UdnMorseCplx::new(&graph_of(&l), n, None), None).to_string(); chk!(h == want, "homology {:?}, expected {:?}", h, want); Ok(()) }); }
    }
    while cx.more() {
        let Some((l, n)) = pick_graph(&mut cx.rng, 12000, 5) else { continue };
        let up = if cx.rng.chance(1, 4) { Some(cx.rng.below(4)) } else { None };
        cx.case("random graphs", || format!("edges {:?} with {n} marked points, up to dimension {:?}", l, up), || check_morse(&l, n, up));
    }
}

// ------------------------------------------------------------------ P28
type M = [usize; 2];
fn far(a: &M, b: &M) -> bool { !a.contains(&b[0]) && !a.contains(&b[1]) }
/// cancel inverse moves that can be brought together, then gather moves into steps as early as possible
fn normal(p: &[Vec<M>]) -> Vec<BTreeSet<M>> {
    let mut w: Vec<M> = p.concat();
    'o: loop { for i in 0..w.len() { for j in i + 1..w.len() { if w[j] == [w[i][1], w[i][0]] { w.remove(j); w.remove(i); continue 'o; } if !far(&w[i], &w[j]) { break; } } } break; }
    let mut out: Vec<BTreeSet<M>> = vec![];
    for m in w { let i = (0..out.len()).rev().find(|&i| out[i].iter().any(|x| !far(x, &m))).map_or(0, |i| i + 1); if i == out.len() { out.push(BTreeSet::new()); } out[i].insert(m); }
    out
}
fn table<const N: usize>(v: &[usize]) -> ConstPermutation<N> { let mut a = [0; N]; a.copy_from_slice(v); ConstPermutation::from(a) }
fn layers(p: &EdgePath) -> Vec<BTreeSet<M>> { p.iter().map(|s| s.iter().copied().collect()).collect() }
/// follow the path: positions of the tokens at the end
fn run_path(p: &EdgePath, mut at: Vec<usize>, e: &E) -> Result<Vec<usize>, String> {
    for s in p.iter() {
        let old = at.clone(); let mut busy: BTreeSet<usize> = old.iter().copied().collect();
        for m in s {
            chk!(e.contains(&key(m[0], m[1])), "the move {:?} is not along an edge", m);
            let t = old.iter().position(|&x| x == m[0]).ok_or(format!("no token at {} for the move {:?} of {:?}", m[0], m, p))?;
            chk!(at[t] == old[t], "two moves of a token in one step {:?}", s);
            chk!(busy.insert(m[1]), "the move {:?} of the step {:?} meets another token", m, s);
            at[t] = m[1];
        }
    }
    Ok(at)
}
/// the canonical path to the base configuration: always move the smallest unblocked token towards the base point
fn home(mut c: Vec<usize>, par: &[Option<usize>]) -> Vec<M> {
    let mut out = vec![];
    loop {
        let Some(&v) = c.iter().filter(|&&v| v != 0 && !c.contains(&par[v].unwrap())).min() else { return out };
        let w = par[v].unwrap(); let i = c.iter().position(|&x| x == v).unwrap(); c[i] = w; out.push([v, w]);
    }
}
fn inv_word(w: &[M]) -> Vec<M> { w.iter().rev().map(|m| [m[1], m[0]]).collect() }
fn steps(w: &[M]) -> Vec<Vec<M>> { w.iter().map(|m| vec![*m]).collect() }
fn check_path<const N: usize>(l: &L, rng: &mut Rng) -> R {
    let x = UdnMorseCplx::new(&graph_of(l), N, Some(1)); let s = &x.factor_pool; let e = edges_of(s); let a = adj(s.n_vertices(), &e); let par = parents(&a);
    let base: Vec<usize> = (0..N).collect();
    let mut loops = vec![EdgePath::trivial_path()];
    for c in x.get_cells_of_dim(1) {
        let p = guard(|| s.get_edge_path(c.clone())).map_err(|m| format!("path of {c}: {m}"))?;
        let end = run_path(&p, base.clone(), &e).map_err(|m| format!("path {:?} of {c}: {m}", p))?;
        let set: BTreeSet<usize> = end.iter().copied().collect();
        chk!(set == base.iter().copied().collect(), "the path of {c} ends at {:?}", end);
        let q = p.evaluate_permutation::<N>();
        chk!(q == table::<N>(&end), "the permutation of {c} is {:?}, the tokens end at {:?}", q, end);
        // crossing the edge between the canonical paths
        let (lo, hi): (Vec<usize>, Vec<usize>) = (c.iter().map(|f| verts(f)[0]).collect(), c.iter().map(|f| *verts(f).last().unwrap()).collect());
        let ed = c.iter().find(|f| f.is_edge()).unwrap().edge();
        let mut w = inv_word(&home(hi, &par)); w.push([ed[1], ed[0]]); w.extend(home(lo, &par));
        chk!(layers(&p) == normal(&steps(&w)), "path of {c}: {:?}, expected {:?}", p, normal(&steps(&w)));
        loops.push(p);
    }
    // words in the loops
    for _ in 0..6 {
        let m = 1 + rng.below(4); let mut p = EdgePath::trivial_path(); let mut at = base.clone(); let mut q = ConstPermutation::<N>::identity();
        for _ in 0..m {
            let mut y = rng.pick(&loops).clone(); if rng.chance(1, 2) { let z = y.clone().inverse(); chk!(layers(&z) == normal(&y.iter().rev().map(|s| inv_word(s)).collect::<Vec<_>>()), "inverse of {:?} is {:?}", y, z); y = z; }
            let r = y.evaluate_permutation::<N>(); q = r * q; at = run_path(&y, at, &e)?; p = p.composed_with(y);
        }
        chk!(run_path(&p, base.clone(), &e)? == at, "composed_with");
        let r = p.evaluate_permutation::<N>(); chk!(r == q && r == table::<N>(&at), "the permutation of the composition {:?} is {:?}, expected {:?}", p, r, q);
        let red = guard(|| p.clone().reduce_to_geodesic()).map_err(|m| format!("reducing {:?}: {m}", p))?;
        check_reduced(&p, &red)?;
        chk!(run_path(&red, base.clone(), &e)? == at && red.evaluate_permutation::<N>() == q, "reduction changes the permutation of {:?}: {:?}", p, red);
        let i = guard(|| p.clone().inverse())?; chk!(i.evaluate_permutation::<N>() == q.inverse(), "permutation of the inverse");
        let t = guard(|| p.clone().composed_with(i.clone()).reduce_to_geodesic()).map_err(|m| format!("reducing {:?} and its inverse: {m}", p))?;
        chk!(t == EdgePath::trivial_path(), "a path followed by its inverse reduces to {:?}", t);
    }
    // canonical paths of configurations
    for _ in 0..4 {
        let mut c = rng.perm(s.n_vertices()); c.truncate(N); c.sort();
        let h = home(c.clone(), &par); let cube = Cube::from(c.iter().map(|&v| Vertex(v)).collect::<Vec<_>>());
        let p = guard(|| s.get_edge_path_to_from_base_pt(cube.clone(), true))?; chk!(layers(&p) == normal(&steps(&h)), "path of {cube} to the base: {:?}", p);
        let end: BTreeSet<usize> = run_path(&p, c.clone(), &e)?.into_iter().collect(); chk!(end == base.iter().copied().collect(), "the path of {cube} ends at {:?}", end);
        let p = guard(|| s.get_edge_path_to_from_base_pt(cube.clone(), false))?; chk!(layers(&p) == normal(&steps(&inv_word(&h))), "path of {cube} from the base: {:?}", p);
    }
    Ok(())
}
fn check_reduced(p: &EdgePath, red: &EdgePath) -> R {
    let want = normal(p);
    chk!(layers(red) == want && red.iter().map(|s| s.len()).sum::<usize>() == want.iter().map(|s| s.len()).sum::<usize>(), "{:?} reduces to {:?}, expected {:?}", p, red, want);
    chk!(red.clone().reduce_to_geodesic() == *red, "the reduced path {:?} reduces further", red);
    Ok(())
}
/// tokens on a random graph making random moves, sometimes taking moves back
fn random_walk(rng: &mut Rng) -> (usize, E, Vec<usize>, Vec<Vec<M>>) {
    let nv = 3 + rng.below(9); let mut e: E = (1..nv).map(|v| key(rng.below(v), v)).collect(); for _ in 0..rng.below(6) { let i = rng.below(nv); let j = (i + 1 + rng.below(nv - 1)) % nv; e.insert(key(i, j)); }
    let a = adj(nv, &e); let n = 1 + rng.below(nv.min(5) - 1); let mut start = rng.perm(nv); start.truncate(n); let mut at = start.clone(); let mut p: Vec<Vec<M>> = vec![];
    for _ in 0..1 + if rng.chance(1, 4) { rng.below(50) } else { rng.below(14) } {
        if rng.chance(1, 3) && !p.is_empty() { // take back some of the last moves
            let back: Vec<M> = p[p.len() - 1].iter().map(|m| [m[1], m[0]]).collect(); let back: Vec<M> = back.into_iter().filter(|_| rng.chance(3, 4)).collect();
            let occ: BTreeSet<usize> = at.iter().copied().collect();
            if !back.is_empty() && back.iter().all(|m| occ.contains(&m[0]) && !occ.contains(&m[1])) { for m in &back { let t = at.iter().position(|&x| x == m[0]).unwrap(); at[t] = m[1]; } p.push(back); continue; }
        }
        let mut step: Vec<M> = vec![]; let mut used: BTreeSet<usize> = at.iter().copied().collect();
        for t in 0..n { if rng.chance(1, 2) { let w = *rng.pick(&a[at[t]]); if used.insert(w) { step.push([at[t], w]); } } }
        for m in &step { let t = at.iter().position(|&x| x == m[0]).unwrap(); at[t] = m[1]; }
        if !step.is_empty() { p.push(step); }
    }
    (nv, e, start, p)
}
/// any word of moves in any grouping into steps: reduction is about which moves are disjoint, not about tokens
fn random_word(rng: &mut Rng) -> Vec<Vec<M>> {
    let nv = 4 + rng.below(7); let es: Vec<M> = (0..2 + rng.below(9)).map(|_| { let a = rng.below(nv); [a, (a + 1 + rng.below(nv - 1)) % nv] }).collect();
    let n = if rng.chance(1, 4) { 20 + rng.below(40) } else { rng.below(12) };
    let mut p: Vec<Vec<M>> = vec![];
    while p.iter().map(|s| s.len()).sum::<usize>() < n {
        let k = 1 + rng.below(5);
        p.push((0..k).map(|_| { let m = *rng.pick(&es); if rng.chance(1, 2) { m } else { [m[1], m[0]] } }).collect());
        if rng.chance(1, 4) { let b: Vec<M> = inv_word(&p[rng.below(p.len())]); p.push(b); }
    }
    p
}
/// the tokens of a step move at the same time, each into a free vertex or one a token leaves in that step
fn together<const N: usize>(rng: &mut Rng) -> R {
    let nv = N + rng.below(5); let mut at: Vec<usize> = (0..N).collect(); let mut p: Vec<Vec<M>> = vec![];
    for _ in 0..rng.below(6) {
        let mut next = rng.perm(nv); next.truncate(N);
        for t in 0..N { if rng.chance(1, 3) && !next.contains(&at[t]) { next[t] = at[t]; } }
        let order = rng.perm(N);
        p.push(order.into_iter().filter(|&t| next[t] != at[t]).map(|t| [at[t], next[t]]).collect()); at = next;
    }
    let q = guard(|| EdgePath::from(p.clone()).evaluate_permutation::<N>()).map_err(|m| format!("{:?}: {m}", p))?;
    chk!(q == table::<N>(&at), "{:?} moves the tokens to {:?}, expected {:?}", p, q, at);
    Ok(())
}
pub fn p28(cx: &mut Ctx) {
    cx.case("trivial", || "the trivial path".into(), || { let t = EdgePath::trivial_path(); chk!(t.is_empty() && t.clone().reduce_to_geodesic() == t && t.clone().inverse() == t && t.evaluate_permutation::<3>() == ConstPermutation::identity(), "trivial path"); Ok(()) });
    for (what, l) in fixed_graphs() { for n in 2..5 { let s = cx.rng.next(); cx.case("known graphs", || format!("{what} {:?} with {n} marked points", l), || { let r = &mut Rng(s); match n { 2 => check_path::<2>(&l, r), 3 => check_path::<3>(&l, r), _ => check_path::<4>(&l, r) } }); } }
    while cx.more() {
        if cx.rng.chance(1, 6) {
            let s = cx.rng.next();
            cx.case("simultaneous moves", || format!("seed {s}"), || { let r = &mut Rng(s); match r.below(4) { 0 => together::<2>(r), 1 => together::<3>(r), 2 => together::<4>(r), _ => together::<6>(r) } });
        } else if cx.rng.chance(1, 4) {
            let p = random_word(&mut cx.rng);
            cx.case("random words", || format!("{:?}", p), || {
                let red = guard(|| EdgePath::from(p.clone()).reduce_to_geodesic())?; check_reduced(&EdgePath::from(p.clone()), &red)?;
                let i = guard(|| EdgePath::from(p.clone()).inverse())?; let back: Vec<Vec<M>> = p.iter().rev().map(|s| inv_word(s)).collect();
                chk!(layers(&i) == normal(&back), "inverse is {:?}, expected {:?}", i, normal(&back));
                chk!(EdgePath::from(p.clone()).composed_with(i).reduce_to_geodesic() == EdgePath::trivial_path(), "path and inverse do not cancel");
                Ok(())
            });
        } else if cx.rng.chance(3, 4) {
            let (_, e, start, p) = random_walk(&mut cx.rng);
            cx.case("random walks", || format!("tokens at {:?}, path {:?}", start, p), || {
                let p = EdgePath::from(p.clone()); let end = run_path(&p, start.clone(), &e)?;
                let red = p.clone().reduce_to_geodesic(); check_reduced(&p, &red)?;
                chk!(run_path(&red, start.clone(), &e)? == end, "the reduced path {:?} leads elsewhere", red);
                let i = p.clone().inverse(); chk!(run_path(&i, end.clone(), &e)? == start, "the inverse {:?} does not lead back", i);
                chk!(p.clone().composed_with(i).reduce_to_geodesic() == EdgePath::trivial_path(), "path and inverse do not cancel");
                Ok(())
            });
        } else {
            let Some((l, n)) = pick_graph(&mut cx.rng, 60000, 5) else { continue }; let s = cx.rng.next();
            cx.case("random graphs", || format!("edges {:?} with {n} marked points", l), || { let r = &mut Rng(s); match n { 1 | 2 => check_path::<2>(&l, r), 3 => check_path::<3>(&l, r), 4 => check_path::<4>(&l, r), _ => check_path::<5>(&l, r) } });
        }
    }
}
