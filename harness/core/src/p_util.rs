use crate::chk;
use crate::rt::*;
use std::collections::BTreeSet;
use util::*;

type M = BTreeSet<usize>;

fn agree(p: &BinaryPool, len: usize, m: &M) -> R {
    chk!(p.len() == len, "len() = {} expected {}", p.len(), len);
    chk!(p.n_elements() == m.len(), "n_elements() = {} expected {}", p.n_elements(), m.len());
    for i in 0..len { chk!(p.contains(i) == m.contains(&i), "contains({i}) = {}", p.contains(i)); }
    let v: Vec<usize> = p.iter().collect();
    let w: Vec<usize> = m.iter().cloned().collect();
    chk!(v == w, "iter() = {:?} expected {:?}", v, w);
    chk!(p.is_full() == (m.len() == len), "is_full() = {}", p.is_full());
    let q = BinaryPool::from(len, w.clone());
    chk!(*p == q && q == *p, "not equal to from({len}, {:?})", w);
    Ok(())
}

fn pool_of(rng: &mut Rng, len: usize) -> (BinaryPool, M) {
    let mut m = M::new();
    let mode = rng.below(4);
    let mut p = BinaryPool::new(len);
    match mode {
        0 => {}
        1 => { p.fill(); m = (0..len).collect(); }
        _ => { let n = rng.below(len + 1); for _ in 0..n { let i = rng.below(len); p.add(i); m.insert(i); } }
    }
    (p, m)
}

pub fn p01(c: &mut Ctx) {
    // population count
    for s in 0..64 { for d in [0u64, 1, 2] {
        let w = (1u64 << s).wrapping_sub(d);
        c.case("count_ones", || format!("{w}"), || { let n = bitwise::count_ones(w); chk!(n == w.count_ones() as usize, "count_ones = {n}"); Ok(()) });
    } }
    // exhaustive small pools: every subset, every single operation
    for len in 0..=7usize {
        for a in 0..(1u32 << len) {
            let m: M = (0..len).filter(|i| a >> i & 1 == 1).collect();
            c.case("small", || format!("len {len} set {:?}", m), || {
                let p = BinaryPool::from(len, m.iter().cloned().collect());
                agree(&p, len, &m)?;
                for i in 0..len {
                    let (mut q, mut n) = (p.clone(), m.clone());
                    q.add(i); n.insert(i); agree(&q, len, &n).map_err(|e| format!("add({i}): {e}"))?;
                    q.remove(i); n.remove(&i); agree(&q, len, &n).map_err(|e| format!("add({i}), remove({i}): {e}"))?;
                    let (mut q, mut n) = (p.clone(), m.clone());
                    q.remove(i); n.remove(&i); agree(&q, len, &n).map_err(|e| format!("remove({i}): {e}"))?;
                }
                for i in [len, len + 1, 64, 127] {
                    if i < len { continue; }
                    let mut q = p.clone();
                    chk!(panics(|| p.contains(i)), "contains({i}) accepted");
                    chk!(panics(|| q.add(i)), "add({i}) accepted");
                    chk!(panics(|| q.remove(i)), "remove({i}) accepted");
                    chk!(panics(|| BinaryPool::from(len, vec![i])), "from({len},[{i}]) accepted");
                }
                let mut q = p.clone(); q.fill(); agree(&q, len, &(0..len).collect())?;
                for b in 0..(1u32 << len) {
                    let n: M = (0..len).filter(|i| b >> i & 1 == 1).collect();
                    let q = BinaryPool::from(len, n.iter().cloned().collect());
                    chk!(p.is_subset_of(&q) == m.is_subset(&n), "is_subset_of {:?}: {}", n, p.is_subset_of(&q));
                    agree(&p.clone().union(q.clone()), len, &m.union(&n).cloned().collect()).map_err(|e| format!("union {:?}: {e}", n))?;
                    agree(&p.clone().intersection(q.clone()), len, &m.intersection(&n).cloned().collect()).map_err(|e| format!("intersection {:?}: {e}", n))?;
                    chk!((p == q) == (m == n), "== {:?}", n);
                }
                let q = BinaryPool::new(len + 1);
                chk!(panics(|| p.clone().union(q.clone())), "union of different lengths accepted");
                chk!(panics(|| p.clone().intersection(q.clone())), "intersection of different lengths accepted");
                chk!(panics(|| p.is_subset_of(&q)), "is_subset_of of different lengths accepted");
                Ok(())
            });
        }
    }
    // word boundaries: grow through every length
    for from in 0..=130usize { for to in [from, from + 1, 63, 64, 65, 127, 128, 129, 200] {
        c.case("resize", || format!("fill({from}) then resize({to})"), || {
            let mut p = BinaryPool::new(from); p.fill();
            p.resize(to);
            let l = from.max(to);
            agree(&p, l, &(0..from).collect())?;
            if l > 0 { p.add(l - 1); let mut m: M = (0..from).collect(); m.insert(l - 1); agree(&p, l, &m)?; }
            Ok(())
        });
    } }
    // random histories
    while c.more() {
        let len0 = match c.rng.below(5) { 0 => c.rng.below(8), 1 => 60 + c.rng.below(10), 2 => 124 + c.rng.below(10), 3 => c.rng.below(300), _ => 64 * c.rng.below(6) };
        let seed = c.rng.next();
        let steps = 1 + c.rng.below(25);
        c.case("history", || format!("len {len0} steps {steps} stream {seed:#x}"), || {
            let mut r = Rng(seed);
            let mut len = len0;
            let (mut p, mut m) = pool_of(&mut r, len);
            let mut log = vec![format!("start {:?}", m)];
            for _ in 0..steps {
                let op = r.below(9);
                match op {
                    0 | 1 if len > 0 => { let i = r.below(len); log.push(format!("add {i}")); p.add(i); m.insert(i); }
                    2 | 3 if len > 0 => { let i = r.below(len); log.push(format!("remove {i}")); p.remove(i); m.remove(&i); }
                    4 => { let (q, n) = pool_of(&mut r, len); log.push(format!("union {:?}", n)); p = p.union(q); m.extend(n); }
                    5 => { let (q, n) = pool_of(&mut r, len); log.push(format!("intersection {:?}", n)); p = p.intersection(q); m = m.intersection(&n).cloned().collect(); }
                    6 => { let n = match r.below(3) { 0 => r.below(len + 2), 1 => len + r.below(70), _ => (len / 64 + 1) * 64 - 1 + r.below(3) }; log.push(format!("resize {n}")); p.resize(n); if n >= len { len = n; } }
                    7 => { let (q, n) = pool_of(&mut r, len); log.push(format!("subset {:?}", n));
                           chk!(p.is_subset_of(&q) == m.is_subset(&n), "{:?}: is_subset_of = {}", log, p.is_subset_of(&q));
                           chk!(q.is_subset_of(&p) == n.is_subset(&m), "{:?}: converse is_subset_of = {}", log, q.is_subset_of(&p)); }
                    _ => { if r.chance(1, 6) { log.push("fill".into()); p.fill(); m = (0..len).collect(); } }
                }
                agree(&p, len, &m).map_err(|e| format!("{:?}: {e}", log))?;
            }
            Ok(())
        });
        let w = c.rng.next() & c.rng.next();
        c.case("count_ones", || format!("{w}"), || { chk!(bitwise::count_ones(w) == w.count_ones() as usize, "count_ones = {}", bitwise::count_ones(w)); Ok(()) });
    }
}

pub fn p02(c: &mut Ctx) {
    let mut first = true;
    while first || c.more() {
        first = false;
        let n = if c.rng.chance(1, 4) { 60 + c.rng.below(80) } else { c.rng.below(9) };
        let seed = c.rng.next();
        let steps = 1 + c.rng.below(30);
        c.case("history", || format!("{n} labels, {steps} steps, stream {seed:#x}"), || {
            let mut r = Rng(seed);
            let labels: Vec<String> = r.perm(n).into_iter().map(|i| format!("l{i}")).collect();
            let mut s = LabeledSet::new(labels.clone());
            let mut m = M::new();
            let mut log = vec![format!("labels {:?}", labels)];
            for _ in 0..steps {
                if n > 0 { let i = r.below(n);
                    if r.chance(3, 5) { log.push(format!("add {}", labels[i])); s.add(labels[i].clone()); m.insert(i); }
                    else { log.push(format!("remove {}", labels[i])); s.remove(labels[i].clone()); m.remove(&i); } }
                if n <= 8 || r.chance(1, 5) {
                    chk!(s.n_elements() == m.len(), "{:?}: n_elements {}", log, s.n_elements());
                    let got: Vec<String> = s.iter().cloned().collect();
                    let want: Vec<String> = m.iter().map(|&i| labels[i].clone()).collect();
                    chk!(got == want, "{:?}: iter {:?}", log, got);
                    chk!(format!("{}", s) == format!("{{{}}}", want.join(", ")), "{:?}: Display {}", log, s);
                    let mut t = LabeledSet::new(labels.clone());
                    let mut order: Vec<usize> = m.iter().cloned().collect(); r.shuffle(&mut order);
                    for i in order { t.add(labels[i].clone()); }
                    chk!(s == t, "{:?}: not equal to a set built afresh", log);
                    if n > 0 { let i = r.below(n); let mut u = s.clone(); if m.contains(&i) { u.remove(labels[i].clone()); } else { u.add(labels[i].clone()); } chk!(s != u, "{:?}: equal although {} differs", log, labels[i]); }
                }
            }
            let before: Vec<String> = s.iter().cloned().collect();
            chk!(panics(|| s.add("zz".into())), "add of an unregistered label accepted");
            chk!(panics(|| s.remove("zz".into())), "remove of an unregistered label accepted");
            chk!(s.iter().cloned().collect::<Vec<_>>() == before, "changed by a rejected label");
            Ok(())
        });
    }
}

fn next_comb(c: &mut Vec<usize>, n: usize) -> bool {
    let k = c.len();
    let mut i = k;
    while i > 0 { i -= 1; if c[i] < n - (k - i) { c[i] += 1; for j in i + 1..k { c[j] = c[j - 1] + 1; } return true; } }
    false
}

pub fn p03(c: &mut Ctx) {
    let top = if c.thorough { 16 } else { 12 };
    let mut todo: Vec<(usize, usize)> = vec![];
    for n in 0..=top { for k in 1..=n + 2 { todo.push((n, k)); } }
    todo.extend([(20, 2), (40, 2), (300, 1), (280, 2), (25, 3), (18, 17), (30, 29), (16, 5), (0, 50), (70, 70), (70, 69)]);
    for (n, k) in todo {
        c.case("tuples", || format!("slice of length {n}, size {k}"), || {
            let data: Vec<usize> = (0..n).map(|i| 7 * i + 3).collect();
            let mut it = data.tuple_iter(k);
            let mut cur: Vec<usize> = (0..k).collect();
            let mut live = k <= n;
            let mut count = 0;
            while live {
                let got = it.next();
                let want: Vec<&usize> = cur.iter().map(|&i| &data[i]).collect();
                chk!(got.as_ref() == Some(&want), "item {count}: {:?} expected {:?}", got, want);
                if let Some(g) = got { for (a, &i) in g.iter().zip(&cur) { chk!(std::ptr::eq(*a, &data[i]), "item {count} is not a reference into the slice"); } }
                count += 1;
                live = next_comb(&mut cur, n);
            }
            for _ in 0..3 { let g = it.next(); chk!(g.is_none(), "after {count} items: {:?}", g); }
            Ok(())
        });
    }
}
