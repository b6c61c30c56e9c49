use crate::chk;
use crate::rt::*;
use alg::commutative::Rational;
use alg::lin_alg::ConstVector;
use alg::non_commutative::permutation::*;
use alg::rational;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topo_spaces::graph::*;

pub type E = BTreeSet<(usize, usize)>;
pub fn key(a: usize, b: usize) -> (usize, usize) { (a.min(b), a.max(b)) }
pub fn adj(n: usize, e: &E) -> Vec<Vec<usize>> {
    let mut a = vec![vec![]; n];
    for &(x, y) in e { a[x].push(y); a[y].push(x); }
    for l in a.iter_mut() { l.sort(); }
    a
}
pub fn reach(a: &[Vec<usize>], from: usize, without: Option<usize>) -> usize {
    let mut seen = vec![false; a.len()]; let mut st = vec![from]; seen[from] = true; let mut c = 1;
    while let Some(v) = st.pop() { for &w in &a[v] { if Some(w) != without && !seen[w] { seen[w] = true; c += 1; st.push(w); } } }
    c
}
pub fn perm_of(t: &[usize], rng: &mut Rng) -> Permutation {
    let mut seen = vec![false; t.len()]; let mut cs = vec![];
    for i in 0..t.len() { if seen[i] || t[i] == i { continue; } let mut c = vec![]; let mut j = i; while !seen[j] { seen[j] = true; c.push(j); j = t[j]; } cs.push(c); }
    rng.shuffle(&mut cs);
    Permutation::from_disjoint_cycles(cs.into_iter().map(Cycle::from).collect())
}

fn check_raw(g: &RawSimpleGraph, n: usize, e: &E, deep: bool) -> R {
    chk!(g.n_vertices() == n, "n_vertices {} instead of {n}", g.n_vertices());
    chk!(g.n_edges() == e.len(), "n_edges {} instead of {}", g.n_edges(), e.len());
    for j in 0..n { for i in 0..j { chk!(g.contains(i, j) == e.contains(&(i, j)), "contains({i}, {j}) is {}", g.contains(i, j)); } }
    let a = adj(n, e);
    for v in 0..n {
        let l: Vec<usize> = g.adjacent_vertices_iter(v).collect();
        chk!(l == a[v], "neighbours of {v}: {:?}, expected {:?}", l, a[v]);
        chk!(g.degree_of(v) == a[v].len() && g.get_adjacent_vertices(v) == a[v], "degree of {v}: {}, neighbours {:?}", g.degree_of(v), g.get_adjacent_vertices(v));
    }
    if n >= 2 { let c = reach(&a, 0, None) == n; chk!(g.is_connected() == c, "is_connected {} instead of {c}", g.is_connected()); }
    if deep {
        let vs: Vec<CubeFactor> = (0..n).map(CubeFactor::Vertex).collect();
        let es: BTreeSet<(usize, usize)> = g.edge_iter().map(|f| { let [x, y] = f.edge(); (x, y) }).collect();
        chk!(&es == e && g.edge_iter().count() == e.len(), "edge_iter {:?}, expected each of {:?} once", g.edge_iter().collect::<Vec<_>>(), e);
        chk!(g.vertex_iter().collect::<Vec<_>>() == vs, "vertex_iter");
        let mut all = vs; all.extend(g.edge_iter());
        chk!(g.iter().collect::<Vec<_>>() == all, "iter is not the vertices followed by the edges");
        let mut s = String::new(); for j in 1..n { for i in 0..j { s.push(if e.contains(&(i, j)) { '1' } else { '0' }); } s.push('\n'); }
        chk!(g.to_string() == s, "Display");
    }
    Ok(())
}
pub fn p22(cx: &mut Ctx) {
    // all graphs on up to four vertices, with all transpositions
    for n in 0..=4usize {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
        for b in 0..1usize << pairs.len() {
            let e: E = pairs.iter().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|(_, p)| *p).collect();
            cx.case("small graphs", || format!("{n} vertices, edges {:?}", e), || {
                let mut g = RawSimpleGraph::new(n); for &(i, j) in &e { g.add_edge(i, j); }
                check_raw(&g, n, &e, true)?;
                for &(i, j) in &pairs {
                    let mut h = g.clone(); h.swap(i, j);
                    let t = |v: usize| if v == i { j } else if v == j { i } else { v };
                    let f: E = e.iter().map(|&(x, y)| key(t(x), t(y))).collect();
                    check_raw(&h, n, &f, true)?;
                    let k = g.clone() << Permutation::from_cycle(Cycle::from(vec![j, i]));
                    chk!(k == h, "the action of the transposition ({i} {j}) is not swap");
                    let mut k = g.clone(); k.remove_edge(i, j); let mut f = e.clone(); f.remove(&(i, j)); check_raw(&k, n, &f, true)?;
                }
                Ok(())
            });
        }
    }
    while cx.more() {
        let rng = &mut cx.rng;
        let n = match rng.below(5) { 0 => 1 + rng.below(6), 1 => 9 + rng.below(6), 2 => *rng.pick(&[11, 12, 16, 17, 63, 64, 65, 66]), _ => 2 + rng.below(24) };
        // an operation list: (kind, i, j)
        let m = 1 + rng.below(if n > 30 { 60 } else { 40 });
        let mut ops: Vec<(usize, usize, usize)> = vec![];
        if n >= 2 && rng.chance(1, 3) { let p = rng.perm(n); for w in p.windows(2) { if rng.chance(39, 40) { let (i, j) = key(w[0], w[1]); ops.push((0, i, j)); } } }
        if n >= 2 { for _ in 0..m { let i = rng.below(n); let j = (i + 1 + rng.below(n - 1)) % n; let (i, j) = key(i, j); ops.push((*rng.pick(&[0, 0, 0, 0, 1, 2]), i, j)); } }
        let p = if rng.chance(2, 3) { rng.perm(n) } else { let mut p: Vec<usize> = (0..n).collect(); for _ in 0..2 { let (a, b) = (rng.below(n), rng.below(n)); p.swap(a, b); } p };
        let seed = rng.next();
        cx.case("histories", || format!("{n} vertices, operations {:?} (0 add, 1 remove, 2 swap), permutation {:?}", ops, p), || {
            let mut rng = Rng(seed);
            let mut g = RawSimpleGraph::new(n); let mut e = E::new();
            for (t, &(o, i, j)) in ops.iter().enumerate() {
                match o {
                    0 => { g.add_edge(i, j); e.insert((i, j)); }
                    1 => { g.remove_edge(i, j); e.remove(&(i, j)); }
                    _ => { g.swap(i, j); e = e.iter().map(|&(x, y)| { let t = |v| if v == i { j } else if v == j { i } else { v }; key(t(x), t(y)) }).collect(); }
                }
                if n < 12 || t % 16 == 3 { check_raw(&g, n, &e, n < 10)?; }
            }
            check_raw(&g, n, &e, true)?;
            let f: E = e.iter().map(|&(x, y)| key(p[x], p[y])).collect();
            let h = g.clone() << perm_of(&p, &mut rng);
            check_raw(&h, n, &f, true)?;
            let mut k = g.clone(); k <<= perm_of(&p, &mut rng); chk!(k == h, "<<= differs from <<");
            let mut inv = vec![0; n]; for i in 0..n { inv[p[i]] = i; }
            k <<= perm_of(&inv, &mut rng); chk!(k == g, "the inverse permutation does not bring the graph back");
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ P23, P24
pub type L = Vec<(usize, usize)>;
pub fn name(v: usize) -> String { format!("v{v}") }
pub fn graph_of(l: &L) -> Graph<i64> { Graph::<i64>::from(l.iter().map(|&(a, b)| (name(a), name(b))).collect()) }
pub struct Count { pub order: Vec<usize>, pub non_loop: usize, pub simple: usize, pub loops: usize }
pub fn count(l: &L) -> Count {
    let mut order = vec![]; for &(a, b) in l { for v in [a, b] { if !order.contains(&v) { order.push(v); } } }
    let s: E = l.iter().filter(|(a, b)| a != b).map(|&(a, b)| key(a, b)).collect();
    Count { order, non_loop: l.iter().filter(|(a, b)| a != b).count(), simple: s.len(), loops: l.iter().filter(|(a, b)| a == b).count() }
}
fn frac(a: usize, b: usize) -> String { let mut x = a; let mut y = b; while y != 0 { let r = x % y; x = y; y = r; } if b == x { format!("{}", a / x) } else { format!("{}/{}", a / x, b / x) } }
/// labels and edges of the subdivision
pub fn subdivision(l: &L, n: usize) -> (BTreeSet<String>, BTreeSet<(String, String)>) {
    let n = n.max(2); let c = count(l); let pos = |v: usize| c.order.iter().position(|&x| x == v).unwrap();
    let mut vs: BTreeSet<String> = c.order.iter().map(|&v| name(v)).collect(); let mut es = BTreeSet::new();
    let mut mult: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for &(a, b) in l {
        let (a, b) = if pos(a) <= pos(b) { (a, b) } else { (b, a) };
        let k = { let k = mult.entry((a, b)).or_insert(0); *k += 1; *k - 1 };
        let mids = if a == b { n } else { (n - 2).max(1) };
        let lab = |t: usize| if t == 0 { name(a) } else if t == mids + 1 { name(b) } else { format!("({})({}, {}){}", frac(t, mids + 1), name(a), name(b), if k == 0 { String::new() } else { k.to_string() }) };
        for t in 1..=mids { vs.insert(lab(t)); }
        for t in 0..=mids { let (x, y) = (lab(t), lab(t + 1)); es.insert(if x <= y { (x, y) } else { (y, x) }); }
    }
    (vs, es)
}
/// is there a vertex the maximal tree may start from?
pub fn has_base_point(l: &L, n: usize) -> bool {
    let (vs, es) = subdivision(l, n); let ix: Vec<&String> = vs.iter().collect(); let p = |s: &String| ix.binary_search(&s).unwrap();
    let e: E = es.iter().map(|(x, y)| key(p(x), p(y))).collect(); let a = adj(vs.len(), &e);
    (0..a.len()).any(|v| a[v].len() == 1 || a[v].len() >= 3 && reach(&a, a[v][0], Some(v)) == a.len() - 1)
}
pub fn connected_list(l: &L) -> bool {
    let c = count(l); let e: E = l.iter().map(|&(a, b)| key(a, b)).collect(); let m = c.order.iter().max().unwrap() + 1;
    reach(&adj(m, &e), c.order[0], None) == c.order.len()
}
/// a random connected multigraph with loops: a random tree plus extra edges, listed in random order and direction
pub fn random_graph(rng: &mut Rng, nv: usize, extra: usize) -> L {
    let mut l: L = (1..nv).map(|v| (rng.below(v), v)).collect();
    if rng.chance(1, 3) { l = (1..nv).map(|v| (v - 1, v)).collect(); }
    for _ in 0..extra { let a = rng.below(nv); let b = if rng.chance(1, 6) { a } else { rng.below(nv) }; l.push((a, b)); }
    if l.is_empty() { l.push((0, 0)); }
    let p = rng.perm(nv);
    for e in l.iter_mut() { *e = (p[e.0], p[e.1]); if rng.chance(1, 2) { *e = (e.1, e.0); } }
    rng.shuffle(&mut l); l
}
pub fn edges_of(g: &RawSimpleGraph) -> E { let n = g.n_vertices(); (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|&(i, j)| g.contains(i, j)).collect() }

fn check_counts(l: &L) -> R {
    let g = graph_of(l); let c = count(l);
    let got = (g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops());
    let want = (c.order.len(), c.non_loop, c.simple, c.loops);
    chk!(got == want, "(vertices, non-loop edges, up to multiplicity, loops) {:?} instead of {:?}", got, want);
    Ok(())
}
fn check_subdivision(l: &L, n: usize) -> R {
    let g = graph_of(l); let c = count(l);
    let s = if n == 0 { SimpleGraph::from(&g) } else { SimpleGraph::subdivided_graph_from(&g, n) };
    let (vs, es) = subdivision(l, n);
    let labels: Vec<String> = s.vertices_list().iter().map(|v| v.to_string()).collect();
    chk!(labels.len() == vs.len() && s.n_vertices() == vs.len() && (**(&s)).n_vertices() == vs.len(), "{} vertices ({} in the list), expected {}", s.n_vertices(), labels.len(), vs.len());
    let got: BTreeSet<String> = labels.iter().cloned().collect();
    chk!(got == vs, "vertices {:?}, expected {:?}", got, vs);
    for i in 0..labels.len() { chk!(s[i] == s.vertices_list()[i], "Index"); match &s[i] {
        SimpleVertex::Essential(x) => chk!(c.order.iter().any(|&v| &name(v) == x), "essential vertex {x}"),
        SimpleVertex::Redundant(v) => chk!(labels[i].starts_with('(') && c.order.iter().any(|&x| name(x) == v.start) && c.order.iter().any(|&x| name(x) == v.end), "redundant vertex {}", labels[i]),
    } }
    chk!(s.n_essential_vertices() == c.order.len(), "n_essential_vertices {}", s.n_essential_vertices());
    let e = edges_of(&s);
    let ge: BTreeSet<(String, String)> = e.iter().map(|&(i, j)| if labels[i] <= labels[j] { (labels[i].clone(), labels[j].clone()) } else { (labels[j].clone(), labels[i].clone()) }).collect();
    chk!(ge == es && e.len() == es.len(), "edges {:?}, expected {:?}", ge, es);
    let text = format!("vertices: {}\nedges: {}\n", labels.join(", "), s.edge_iter().map(|f| { let [v, w] = f.edge(); format!("[{}, {}]", labels[v], labels[w]) }).collect::<Vec<_>>().join(", "));
    chk!(s.to_string() == text, "Display {:?}, expected {:?}", s.to_string(), text);
    // positions in an embedding
    let at = |v: usize| -> [f64; 2] { [v as f64 * 3.0 + 1.0, (v * v) as f64] };
    let emb: HashMap<String, ConstVector<f64, 2>> = c.order.iter().map(|&v| (name(v), ConstVector::from(at(v)))).collect();
    let out = s.modify_embedding(emb);
    chk!(out.len() == vs.len(), "modify_embedding places {} of {} vertices", out.len(), vs.len());
    for v in s.vertices_list() {
        let p = *out.get(v).ok_or("a vertex without a place")?;
        let num = |x: &String| -> usize { x[1..].parse().unwrap() };
        let (x, y) = match v {
            SimpleVertex::Essential(x) => { let a = at(num(x)); (a[0], a[1]) }
            SimpleVertex::Redundant(r) => {
                // position from the label
                let s = v.to_string(); let f = &s[1..s.find(')').unwrap()]; let t = match f.split_once('/') { Some((a, b)) => a.parse::<f64>().unwrap() / b.parse::<f64>().unwrap(), None => f.parse().unwrap() };
                let (a, b) = (at(num(&r.start)), at(num(&r.end))); (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
            }
        };
        chk!((p[0] - x).abs() < 1e-9 && (p[1] - y).abs() < 1e-9, "{} is placed at ({}, {}) instead of ({x}, {y})", v, p[0], p[1]);
    }
    Ok(())
}
pub fn fixed_graphs() -> Vec<(&'static str, L)> {
    let complete = |n: usize| -> L { (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect() };
    vec![
        ("edge", vec![(0, 1)]), ("path", vec![(0, 1), (1, 2), (2, 3)]), ("Y", vec![(0, 1), (0, 2), (0, 3)]), ("star with 4 arms", vec![(0, 1), (0, 2), (0, 3), (0, 4)]), ("star with 5 arms", (1..6).map(|i| (0, i)).collect()),
        ("H", vec![(0, 1), (0, 2), (0, 3), (3, 4), (3, 5)]), ("lollipop", vec![(0, 1), (1, 1)]), ("two loops on a stick", vec![(0, 1), (1, 1), (1, 1)]), ("theta", vec![(0, 1), (0, 1), (1, 0)]), ("four parallel edges", vec![(0, 1); 4]),
        ("K4", complete(4)), ("K5", complete(5)), ("K33", (0..3).flat_map(|i| (3..6).map(move |j| (i, j))).collect()), ("circle with a tail", vec![(0, 1), (1, 2), (2, 0), (0, 3)]), ("dumbbell with a leaf", vec![(0, 0), (0, 1), (1, 1), (1, 2)]),
        ("wheel", (1..5).flat_map(|i| [(0, i), (i, i % 4 + 1)]).collect()), ("two triangles at a vertex with a leaf", vec![(0, 1), (1, 2), (2, 0), (0, 3), (3, 4), (4, 0), (0, 5)]),
        ("prism", vec![(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
    ]
}
pub fn p23(cx: &mut Ctx) {
    // all edge lists of length up to 4 on three vertices: the counts
    let pairs: Vec<(usize, usize)> = (0..3).flat_map(|i| (0..3).map(move |j| (i, j))).collect();
    for n in 1..=4u32 { for code in 0..9usize.pow(n) {
        let l: L = (0..n).map(|k| pairs[code / 9usize.pow(k) % 9]).collect();
        cx.case("counts", || format!("edges {:?}", l), || check_counts(&l));
    } }
    cx.case("counts", || "no edges".into(), || { let g = Graph::<i64>::from(vec![]); chk!(g.n_vertices() == 0 && g.n_loops() == 0 && g.n_non_loop_edges() == 0 && g.n_non_loop_edges_up_to_multiplicity() == 0, "empty graph"); Ok(()) });
    for (what, l) in fixed_graphs() { for n in 0..6 {
        cx.case("known graphs", || format!("{what} {:?} for {n} marked points", l), || { check_counts(&l)?; check_subdivision(&l, n) });
    } }
    while cx.more() {
        let rng = &mut cx.rng; let nv = 1 + rng.below(7); let ex = rng.below(6); let l = random_graph(rng, nv, ex); let n = rng.below(7);
        if !has_base_point(&l, n) { cx.case("counts", || format!("edges {:?}", l), || check_counts(&l)); continue; }
        cx.case("random graphs", || format!("edges {:?} for {n} marked points", l), || { check_counts(&l)?; check_subdivision(&l, n) });
    }
}

/// parent in the maximal tree: the largest smaller neighbour
pub fn parents(a: &[Vec<usize>]) -> Vec<Option<usize>> { (0..a.len()).map(|v| a[v].iter().copied().filter(|&w| w < v).max()).collect() }
fn check_tree(l: &L, n: usize) -> R {
    let g = graph_of(l);
    let s = guard(|| SimpleGraph::subdivided_graph_from(&g, n))?;
    let e = edges_of(&s); let nv = s.n_vertices(); let a = adj(nv, &e); let par = parents(&a);
    chk!(s.is_maximal_tree_chosen, "no maximal tree chosen");
    let d0 = a[0].len();
    chk!(d0 == 1 || d0 >= 3 && reach(&a, a[0][0], Some(0)) == nv - 1, "the base point has degree {d0} or separates the graph: {:?}", e);
    for v in 1..nv { chk!(par[v].is_some(), "vertex {v} has no smaller neighbour: {:?}", e); }
    for v in 2..nv { // the parent of v lies on the way from v - 1 to the root
        let mut w = v - 1; while w > par[v].unwrap() { w = par[w].unwrap(); }
        chk!(w == par[v].unwrap(), "vertex {v} is attached to {:?}, which is not above {}: not a depth first order in {:?}", par[v], v - 1, e);
    }
    let anc = |u: usize, v: usize| { let mut w = v; while w > u { w = par[w].unwrap(); } w == u };
    for &(i, j) in &e { chk!(anc(i, j), "the edge ({i}, {j}) joins two branches of the tree in {:?}", e); }
    for j in 0..nv { for i in 0..j {
        let t = par[j] == Some(i);
        chk!(s.maximal_tree_contains([i, j]) == t, "maximal_tree_contains([{i}, {j}]) is {} in {:?}", !t, e);
        if e.contains(&(i, j)) { chk!(CubeFactor::Edge([i, j]).is_in_maximal_tree(&s) == t, "is_in_maximal_tree"); }
    } }
    for v in 0..nv {
        let d = (1..nv).filter(|&w| par[w] == Some(v)).count() + (v > 0) as usize;
        chk!(s.degree_in_maximal_tree(v) == d, "degree_in_maximal_tree({v}) is {} instead of {d}", s.degree_in_maximal_tree(v));
        if v > 0 { chk!(CubeFactor::Vertex(v).flow(&s) == CubeFactor::Edge([par[v].unwrap(), v]), "flow({v})"); }
        chk!(CubeFactor::Vertex(v).is_in_maximal_tree(&s), "vertex not in the tree");
    }
    chk!(panics(|| CubeFactor::Vertex(0).flow(&s)), "flow from the base point");
    // the branches at v that reach above v come last
    for v in 1..nv {
        let ch: Vec<usize> = (1..nv).filter(|&w| par[w] == Some(v)).collect();
        if ch.len() < 2 { continue; }
        let back: Vec<bool> = ch.iter().map(|&c| (c..nv).filter(|&w| anc(c, w)).any(|w| a[w].iter().any(|&x| x < v))).collect();
        chk!(back.windows(2).all(|w| w[0] <= w[1]), "branches {:?} at {v}, reaching above it: {:?}, in {:?}", ch, back, e);
    }
    Ok(())
}
pub fn p24(cx: &mut Ctx) {
    for (what, l) in fixed_graphs() { for n in 1..6 { cx.case("known graphs", || format!("{what} {:?} for {n} marked points", l), || check_tree(&l, n)); } }
    for (what, l) in [("circle", vec![(0usize, 1usize), (1, 2), (2, 0)]), ("loop", vec![(0, 0)]), ("figure eight", vec![(0, 0), (0, 0)]), ("chain of two circles", vec![(0, 1), (1, 0), (1, 2), (2, 1)])] {
        for n in 1..5 { cx.case("rejected", || format!("{what} {:?} for {n} marked points", l), || { chk!(!has_base_point(&l, n), "oracle"); chk!(panics(|| SimpleGraph::subdivided_graph_from(&graph_of(&l), n)), "accepted"); Ok(()) }); }
    }
    while cx.more() {
        let rng = &mut cx.rng; let nv = 1 + rng.below(9); let ex = rng.below(7); let l = random_graph(rng, nv, ex); let n = 1 + rng.below(6);
        if !has_base_point(&l, n) { cx.case("rejected", || format!("edges {:?} for {n} marked points", l), || { chk!(panics(|| SimpleGraph::subdivided_graph_from(&graph_of(&l), n)), "accepted"); Ok(()) }); continue; }
        cx.case("random graphs", || format!("edges {:?} for {n} marked points", l), || check_tree(&l, n));
    }
}

// ------------------------------------------------------------------ P29
fn check_weighted(l: &[(usize, usize, i64)], div: i64) -> R {
    let mut order: Vec<usize> = vec![]; for &(a, b, _) in l { for v in [a, b] { if !order.contains(&v) { order.push(v); } } }
    let p = |v: usize| order.iter().position(|&x| x == v).unwrap(); let n = order.len();
    let mut w = vec![vec![0i64; n]; n]; for &(a, b, x) in l { w[p(a)][p(b)] = x; w[p(b)][p(a)] = x; }
    let g = WeightedSimpleGraph::<i64>::from(l.iter().map(|&(a, b, x)| (name(a), name(b), x)).collect());
    let names: Vec<String> = order.iter().map(|&v| name(v)).collect();
    chk!(g.vertices() == &names && g.n_vertices() == n, "vertices {:?}, expected {:?}", g.vertices(), names);
    chk!(g.data().size() == (n, n), "size of the weights");
    for i in 0..n { for j in 0..n { chk!(g.data()[(i, j)] == w[i][j], "weight ({i}, {j}) is {} instead of {}", g.data()[(i, j)], w[i][j]); } }
    let h = g.clone();
    let m = g.laplacian();
    chk!(m.size() == (n, n), "size of the Laplacian");
    for i in 0..n { for j in 0..n { let e = if i == j { w[i].iter().sum::<i64>() } else { -w[i][j] }; chk!(m[(i, j)] == e, "entry ({i}, {j}) of the Laplacian is {} instead of {e}", m[(i, j)]); } }
    chk!(h.n_vertices() == n, "clone");
    let r = WeightedSimpleGraph::<Rational>::from(l.iter().map(|&(a, b, x)| (name(a), name(b), rational!(x; div))).collect()).laplacian();
    for i in 0..n { for j in 0..n { let e = if i == j { w[i].iter().sum::<i64>() } else { -w[i][j] }; chk!(r[(i, j)] == rational!(e; div), "entry ({i}, {j}) of the rational Laplacian is {}", r[(i, j)]); } }
    Ok(())
}
pub fn p29(cx: &mut Ctx) {
    for w in -2..3i64 { for v in -2..3i64 { let l = vec![(3, 1, w), (1, 2, v), (2, 3, 1)]; cx.case("triangles", || format!("{:?}", l), || check_weighted(&l, 2)); } }
    cx.case("loop rejected", || "a loop".into(), || { chk!(panics(|| WeightedSimpleGraph::<i64>::from(vec![(name(1), name(1), 1)])), "accepted"); Ok(()) });
    while cx.more() {
        let rng = &mut cx.rng; let nv = 2 + rng.below(9); let m = 1 + rng.below(14);
        let l: Vec<(usize, usize, i64)> = (0..m).map(|_| { let a = rng.below(nv); (a, (a + 1 + rng.below(nv - 1)) % nv, rng.range(-9, 9)) }).collect();
        let d = 1 + rng.below(4) as i64;
        cx.case("random weighted graphs", || format!("{:?} over {d}", l), || check_weighted(&l, d));
    }
}
