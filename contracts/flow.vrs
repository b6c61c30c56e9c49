//@include prelude.inc
//@include chk.inc
//@include pool.inc
//@include graph.inc
verus! {
//@file topo_spaces/src/cubical.rs
use std::cmp::Ordering;
fn main() {}
//@struct MorseProp
//@struct Cube
pub type S = Seq<CubeFactor>;
// ------------------------------------------------------------------ sequences of factors
pub open spec fn pairwise(a: S) -> bool { forall|k: int, l: int| 0 <= k < a.len() && 0 <= l < a.len() && k != l ==> (#[trigger] a[k]).disjoint(#[trigger] a[l]) }
pub open spec fn allof(a: S, g: RawSimpleGraph) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).of(g) }
pub open spec fn ssorted(a: S) -> bool { forall|k: int, l: int| 0 <= k < l < a.len() ==> (#[trigger] a[k]).low() < (#[trigger] a[l]).low() }
pub open spec fn edges(a: S) -> int decreases a.len() { if a.len() == 0 { 0 } else { edges(a.drop_last()) + if a.last() is Edge { 1int } else { 0 } } }
// a cube of the graph: disjoint factors in increasing order
pub open spec fn cubeok(a: S, g: RawSimpleGraph) -> bool { allof(a, g) && pairwise(a) && ssorted(a) }
// arranged by the smaller vertices
pub open spec fn pos(a: S, f: CubeFactor) -> int decreases a.len() { if a.len() == 0 || a.last().low() <= f.low() { a.len() as int } else { pos(a.drop_last(), f) } }
pub open spec fn fsort(a: S) -> S decreases a.len() { if a.len() == 0 { a } else { let t = fsort(a.drop_last()); t.insert(pos(t, a.last()), a.last()) } }
proof fn lemma_edges_insert(a: S, p: int, f: CubeFactor) requires 0 <= p <= a.len(), ensures edges(a.insert(p, f)) == edges(a) + if f is Edge { 1int } else { 0 }, decreases a.len()
{
    if p == a.len() { assert(a.insert(p, f).drop_last() =~= a); }
    else { assert(a.insert(p, f).drop_last() =~= a.drop_last().insert(p, f)); lemma_edges_insert(a.drop_last(), p, f); }
}
proof fn lemma_edges_update(a: S, p: int, f: CubeFactor) requires 0 <= p < a.len(), ensures edges(a.update(p, f)) == edges(a) + (if f is Edge { 1int } else { 0 }) - if a[p] is Edge { 1int } else { 0 }, decreases a.len()
{
    if p == a.len() - 1 { assert(a.update(p, f).drop_last() =~= a.drop_last()); }
    else { assert(a.update(p, f).drop_last() =~= a.drop_last().update(p, f)); lemma_edges_update(a.drop_last(), p, f); }
}
proof fn lemma_edges_pos(a: S) ensures 0 <= edges(a) <= a.len(), edges(a) == 0 ==> forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] is Vertex, decreases a.len()
{ if a.len() > 0 { lemma_edges_pos(a.drop_last()); assert forall|k: int| edges(a) == 0 && 0 <= k < a.len() implies #[trigger] a[k] is Vertex by { if k < a.len() - 1 { assert(a.drop_last()[k] is Vertex); } } } }
proof fn lemma_low(f: CubeFactor) requires f.low() >= 0, ensures f.has(f.low()) { }
proof fn lemma_pos(a: S, f: CubeFactor)
    requires ssorted(a), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).low() != f.low(),
    ensures 0 <= pos(a, f) <= a.len(), forall|k: int| 0 <= k < pos(a, f) ==> (#[trigger] a[k]).low() < f.low(), forall|k: int| pos(a, f) <= k < a.len() ==> f.low() < (#[trigger] a[k]).low(),
    decreases a.len(),
{
    if a.len() > 0 {
        if a.last().low() <= f.low() { assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).low() < f.low() by { assert(a[a.len() - 1].low() != f.low()); } }
        else { let d = a.drop_last(); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).low() != f.low() by { assert(a[k].low() != f.low()); }
            assert(ssorted(d)) by { assert forall|k: int, l: int| 0 <= k < l < d.len() implies (#[trigger] d[k]).low() < (#[trigger] d[l]).low() by { assert(a[k].low() < a[l].low()); } }
            lemma_pos(d, f);
            assert forall|k: int| 0 <= k < pos(a, f) implies (#[trigger] a[k]).low() < f.low() by { assert(d[k].low() < f.low()); }
            assert forall|k: int| pos(a, f) <= k < a.len() implies f.low() < (#[trigger] a[k]).low() by { if k < d.len() { assert(f.low() < d[k].low()); } }
        }
    }
}
proof fn lemma_has_insert(t: S, p: int, f: CubeFactor) requires 0 <= p <= t.len(), ensures forall|x: CubeFactor| #[trigger] t.insert(p, f).contains(x) <==> t.contains(x) || x == f
{
    let r = t.insert(p, f);
    assert forall|x: CubeFactor| #[trigger] r.contains(x) <==> t.contains(x) || x == f by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i != p { assert(t[if i < p { i } else { i - 1 }] == x); } }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(r[if i < p { i } else { i + 1 }] == x); }
        if x == f { assert(r[p] == x); }
    }
}
proof fn lemma_has_last(a: S) requires a.len() > 0, ensures forall|x: CubeFactor| #[trigger] a.contains(x) <==> a.drop_last().contains(x) || x == a.last()
{ let d = a.drop_last(); assert forall|x: CubeFactor| #[trigger] a.contains(x) <==> d.contains(x) || x == a.last() by {
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if i < a.len() - 1 { assert(d[i] == x); } }
    if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(a[i] == x); } if x == a.last() { assert(a[a.len() - 1] == x); } } }
#[verifier::spinoff_prover]
proof fn lemma_fsort(a: S)
    requires pairwise(a),
    ensures fsort(a).len() == a.len(), ssorted(fsort(a)), pairwise(fsort(a)), edges(fsort(a)) == edges(a), forall|f: CubeFactor| #[trigger] fsort(a).contains(f) <==> a.contains(f),
    decreases a.len(),
{
    if a.len() > 0 {
        let d = a.drop_last(); let f = a.last(); let t = fsort(d); let r = fsort(a); let p = pos(t, f);
        assert(pairwise(d)) by { assert forall|k: int, l: int| 0 <= k < d.len() && 0 <= l < d.len() && k != l implies (#[trigger] d[k]).disjoint(#[trigger] d[l]) by { assert(a[k].disjoint(a[l])); } }
        lemma_fsort(d);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).disjoint(f) && f.disjoint(t[k]) && t[k].low() != f.low() by { assert(t.contains(t[k])); let m = choose|m: int| 0 <= m < d.len() && d[m] == t[k]; assert(a[m].disjoint(a[a.len() - 1])); assert(a[a.len() - 1].disjoint(a[m])); lemma_low(t[k]); lemma_low(f); }
        lemma_pos(t, f);
        lemma_edges_insert(t, p, f);
        assert forall|k: int, l: int| 0 <= k < l < r.len() implies (#[trigger] r[k]).low() < (#[trigger] r[l]).low() by { if k < p { if l < p {assert(t[k].low() < t[l].low());} else if l > p { assert(t[k].low() < t[l - 1].low()); } else { } } else if k > p { assert(t[k - 1].low() < t[l - 1].low()); } else { assert(f.low() < t[l - 1].low()); } }
        assert forall|k: int, l: int| 0 <= k < r.len() && 0 <= l < r.len() && k != l implies (#[trigger] r[k]).disjoint(#[trigger] r[l]) by {
            let k2 = if k < p { k } else { k - 1 }; let l2 = if l < p { l } else { l - 1 };
            if k != p && l != p { assert(t[k2].disjoint(t[l2])); } else if k != p { assert(t[k2].disjoint(f)); } else { assert(f.disjoint(t[l2])); } }
        lemma_has_insert(t, p, f); lemma_has_last(a);
        assert forall|x: CubeFactor| #[trigger] r.contains(x) <==> a.contains(x) by { assert(r.contains(x) <==> t.contains(x) || x == f); assert(a.contains(x) <==> d.contains(x) || x == f); assert(t.contains(x) <==> d.contains(x)); }
    }
}
// a strictly sorted sequence is determined by its elements
proof fn lemma_unique(a: S, b: S)
    requires ssorted(a), ssorted(b), forall|f: CubeFactor| #[trigger] a.contains(f) <==> b.contains(f),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let (x, y) = (a.last(), b.last()); assert(a.contains(x) && b.contains(y));
        assert(b.contains(x)); assert(a.contains(y) <==> b.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if x != y { assert(b[i].low() < b[b.len() - 1].low()); assert(a[j].low() < a[a.len() - 1].low()); }
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|f: CubeFactor| #[trigger] c.contains(f) <==> d.contains(f) by {
            if c.contains(f) { let m = choose|m: int| 0 <= m < c.len() && c[m] == f; assert(a[m] == f); assert(a[m].low() < a[a.len() - 1].low()); assert(a.contains(f)); let n = choose|n: int| 0 <= n < b.len() && b[n] == f; assert(d[n] == f); }
            if d.contains(f) { let m = choose|m: int| 0 <= m < d.len() && d[m] == f; assert(b[m] == f); assert(b[m].low() < b[b.len() - 1].low()); assert(b.contains(f)); assert(a.contains(f)); let n = choose|n: int| 0 <= n < a.len() && a[n] == f; assert(c[n] == f); }
        }
        lemma_unique(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}
// ------------------------------------------------------------------ formal sums of cubes
pub open spec fn coef(l: Seq<(int, S)>, b: S) -> int decreases l.len() { if l.len() == 0 { 0 } else { coef(l.drop_last(), b) + if l.last().1 == b { l.last().0 } else { 0 } } }
// the linear extension of F
pub open spec fn ext(l: Seq<(int, S)>, f: spec_fn(S) -> int) -> int decreases l.len() { if l.len() == 0 { 0 } else { ext(l.drop_last(), f) + l.last().0 * f(l.last().1) } }
proof fn lemma_push(l: Seq<(int, S)>, p: (int, S)) ensures forall|b: S| #[trigger] coef(l.push(p), b) == coef(l, b) + if p.1 == b { p.0 } else { 0 }
{ assert(l.push(p).drop_last() =~= l); }
proof fn lemma_one(c: S, f: spec_fn(S) -> int) ensures forall|b: S| #[trigger] coef(seq![(1int, c)], b) == one(c, b), ext(seq![(1int, c)], f) == f(c)
{ let o = seq![(1int, c)]; assert(o.drop_last() =~= Seq::empty()); assert(coef(o.drop_last(), c) == 0); assert(ext(o.drop_last(), f) == 0); assert forall|b: S| #[trigger] coef(o, b) == one(c, b) by { assert(coef(o.drop_last(), b) == 0); assert(o.last() == (1int, c)); } }
pub open spec fn canon(l: Seq<(int, S)>) -> bool { (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).1 != (#[trigger] l[j]).1) && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 != 0 }
proof fn lemma_absent(l: Seq<(int, S)>, b: S) requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1 != b, ensures coef(l, b) == 0, decreases l.len()
{ if l.len() > 0 { let d = l.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1 != b by { assert(l[i].1 != b); } lemma_absent(d, b); assert(l[l.len() - 1].1 != b); } }
proof fn lemma_at(l: Seq<(int, S)>, k: int) requires canon(l), 0 <= k < l.len(), ensures coef(l, l[k].1) == l[k].0, decreases l.len()
{
    let d = l.drop_last();
    if k == l.len() - 1 { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1 != l[k].1 by { assert(l[i].1 != l[k].1); } lemma_absent(d, l[k].1); }
    else { assert(canon(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).1 != (#[trigger] d[j]).1 by { assert(l[i].1 != l[j].1); } assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != 0 by { assert(l[i].0 != 0); } } lemma_at(d, k); assert(l[k].1 != l[l.len() - 1].1); }
}
pub open spec fn without(l: Seq<(int, S)>, b: S) -> Seq<(int, S)> decreases l.len() { if l.len() == 0 { l } else if l.last().1 == b { without(l.drop_last(), b) } else { without(l.drop_last(), b).push(l.last()) } }
proof fn lemma_without(l: Seq<(int, S)>, b: S, f: spec_fn(S) -> int)
    ensures ext(l, f) == ext(without(l, b), f) + coef(l, b) * f(b), without(l, b).len() <= l.len(), l.len() > 0 && l.last().1 == b ==> without(l, b).len() < l.len(),
        forall|x: S| #[trigger] coef(without(l, b), x) == if x == b { 0 } else { coef(l, x) },
    decreases l.len(),
{
    if l.len() > 0 {
        let d = l.drop_last(); lemma_without(d, b, f);
        let (q, y, z) = (coef(d, b), l.last().0, f(b));
        if l.last().1 == b { assert((q + y) * z == q * z + y * z) by(nonlinear_arith); }
        else { let w = without(d, b).push(l.last()); assert(w.drop_last() =~= without(d, b)); }
        assert forall|x: S| #[trigger] coef(without(l, b), x) == if x == b { 0 } else { coef(l, x) } by { assert(coef(without(d, b), x) == if x == b { 0 } else { coef(d, x) }); if l.last().1 != b { let w = without(d, b).push(l.last()); assert(w.drop_last() =~= without(d, b)); assert(w.last() == l.last()); } }
    } else { assert(0 * f(b) == 0); }
}
proof fn lemma_ext_zero(l: Seq<(int, S)>, f: spec_fn(S) -> int) requires forall|x: S| #[trigger] coef(l, x) == 0, ensures ext(l, f) == 0, decreases l.len()
{ if l.len() > 0 { let b = l.last().1; lemma_without(l, b, f); assert(coef(l, b) == 0); assert(0 * f(b) == 0); lemma_ext_zero(without(l, b), f); } }
// lists with the same coefficients have the same linear extension
pub open spec fn neg(l: Seq<(int, S)>) -> Seq<(int, S)> { Seq::new(l.len(), |i: int| (-l[i].0, l[i].1)) }
proof fn lemma_neg(l: Seq<(int, S)>, f: spec_fn(S) -> int) ensures ext(neg(l), f) == -ext(l, f), forall|x: S| #[trigger] coef(neg(l), x) == -coef(l, x), decreases l.len()
{ if l.len() > 0 { let d = l.drop_last(); lemma_neg(d, f); assert(neg(l).drop_last() =~= neg(d)); let (a, b) = (l.last().0, f(l.last().1)); assert((-a) * b == -(a * b)) by(nonlinear_arith); assert(neg(l).last() == (-a, l.last().1)); assert forall|x: S| #[trigger] coef(neg(l), x) == -coef(l, x) by { assert(coef(neg(d), x) == -coef(d, x)); } } }
proof fn lemma_cat(l: Seq<(int, S)>, m: Seq<(int, S)>, f: spec_fn(S) -> int) ensures ext(l + m, f) == ext(l, f) + ext(m, f), forall|x: S| #[trigger] coef(l + m, x) == coef(l, x) + coef(m, x), decreases m.len()
{ if m.len() > 0 { let d = m.drop_last(); lemma_cat(l, d, f); assert((l + m).drop_last() =~= l + d); assert((l + m).last() == m.last()); assert forall|x: S| #[trigger] coef(l + m, x) == coef(l, x) + coef(m, x) by { assert(coef(l + d, x) == coef(l, x) + coef(d, x)); } } else { assert(l + m =~= l); } }
proof fn lemma_ext_eq(l: Seq<(int, S)>, m: Seq<(int, S)>, f: spec_fn(S) -> int) requires forall|x: S| #[trigger] coef(l, x) == coef(m, x), ensures ext(l, f) == ext(m, f)
{ let n = neg(m); lemma_neg(m, f); lemma_cat(l, n, f); assert forall|x: S| #[trigger] coef(l + n, x) == 0 by { assert(coef(l, x) == coef(m, x)); assert(coef(n, x) == -coef(m, x)); } lemma_ext_zero(l + n, f); }
pub struct Vector(pub Vec<(i64, Cube)>);
pub open spec fn lst(s: Seq<(i64, Cube)>) -> Seq<(int, S)> { Seq::new(s.len(), |i: int| (s[i].0 as int, s[i].1.0@)) }
pub open spec fn one(a: S, x: S) -> int { if a == x { 1 } else { 0 } }
pub open spec fn sumco(s: Seq<Vector>, n: int, x: S) -> int decreases n { if n <= 0 { 0 } else { sumco(s, n - 1, x) + s[n - 1].co(x) } }
impl Vector {
    pub open spec fn wf(&self) -> bool { canon(lst(self.0@)) }
    pub open spec fn co(&self, b: S) -> int { coef(lst(self.0@), b) }
}
// The operations of formal sums at basis Cube. Their contracts are proved at basis u64 (unit vect; sum of several vectors
// and so + and - by bounded tests); the code is generic in the basis, of which it uses the order and equality only.
#[verifier::external_body]
fn v_zero() -> (r: Vector) ensures r.wf(), forall|x: S| #[trigger] r.co(x) == 0 { unimplemented!() }
pub trait VOp: Sized { spec fn cf(&self, x: S) -> int; spec fn vok(&self) -> bool; }
impl VOp for Cube { open spec fn cf(&self, x: S) -> int { one(self.0@, x) } open spec fn vok(&self) -> bool { true } }
impl VOp for Vector { open spec fn cf(&self, x: S) -> int { self.co(x) } open spec fn vok(&self) -> bool { self.wf() } }
#[verifier::external_body]
fn v_add<A: VOp, B: VOp>(a: A, b: B) -> (r: Vector) requires a.vok(), b.vok(), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == a.cf(x) + b.cf(x) { unimplemented!() }
#[verifier::external_body]
fn v_sub<A: VOp, B: VOp>(a: A, b: B) -> (r: Vector) requires a.vok(), b.vok(), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == a.cf(x) - b.cf(x) { unimplemented!() }
#[verifier::external_body]
fn v_minus(a: Vector) -> (r: Vector) requires a.wf(), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == -a.co(x) { unimplemented!() }
pub trait VNeg: Sized { spec fn nok(&self) -> bool; spec fn negated(&self, r: Self) -> bool; fn vneg(self) -> (r: Self) requires self.nok(), ensures self.negated(r); }
impl VNeg for i64 { open spec fn nok(&self) -> bool { true } open spec fn negated(&self, r: i64) -> bool { r == -*self } fn vneg(self) -> (r: i64) { e_neg(self) } }
impl VNeg for Vector { open spec fn nok(&self) -> bool { self.wf() } open spec fn negated(&self, r: Vector) -> bool { r.wf() && forall|x: S| #[trigger] r.co(x) == -self.co(x) } fn vneg(self) -> (r: Vector) { v_minus(self) } }
fn v_neg<A: VNeg>(a: A) -> (r: A) requires a.nok(), ensures a.negated(r) { a.vneg() }
pub trait AsFs { spec fn fs(&self) -> S; fn is_bl(&self, f: CubeFactor, g: &RawSimpleGraph) -> (r: bool)
    requires f is Vertex, gok(*g), f->Vertex_0 < g.n_vertices, ensures r <==> (f->Vertex_0 == 0 || taken_parent(self.fs(), self.fs().len() as int, *g, f->Vertex_0 as int)); }
impl AsFs for Cube { open spec fn fs(&self) -> S { self.0@ } fn is_bl(&self, f: CubeFactor, g: &RawSimpleGraph) -> (r: bool) { proof { if f->Vertex_0 > 0 { assert(has_parent(*g, f->Vertex_0 as int)); } } f.is_blocked(&self.0, g) } }
impl AsFs for Vec<CubeFactor> { open spec fn fs(&self) -> S { self@ } fn is_bl(&self, f: CubeFactor, g: &RawSimpleGraph) -> (r: bool) { proof { if f->Vertex_0 > 0 { assert(has_parent(*g, f->Vertex_0 as int)); } } f.is_blocked(self, g) } }
impl<'a, A: AsFs> AsFs for &'a A { open spec fn fs(&self) -> S { (**self).fs() } fn is_bl(&self, f: CubeFactor, g: &RawSimpleGraph) -> (r: bool) { (**self).is_bl(f, g) } }
// is_blocked with the dereferencing of its argument written out
fn blocked_in<A: AsFs>(f: CubeFactor, c: &A, g: &RawSimpleGraph) -> (r: bool)
    requires f is Vertex, gok(*g), f->Vertex_0 < g.n_vertices, ensures r <==> (f->Vertex_0 == 0 || taken_parent(c.fs(), c.fs().len() as int, *g, f->Vertex_0 as int)),
{ c.is_bl(f, g) }
fn cube_push(c: &mut Cube, f: CubeFactor) ensures final(c).0@ == old(c).0@.push(f) { c.0.push(f); }
#[verifier::external_body]
fn v_scale<A: VOp>(a: A, c: i64) -> (r: Vector) requires a.vok(), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == a.cf(x) * c { unimplemented!() }
pub trait VMul<B> { spec fn mok(&self, b: B) -> bool; spec fn mcf(&self, b: B, x: S) -> int; fn vmul(self, b: B) -> (r: Vector) requires self.mok(b), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == self.mcf(b, x); }
impl VMul<i64> for Vector { open spec fn mok(&self, b: i64) -> bool { self.wf() } open spec fn mcf(&self, b: i64, x: S) -> int { self.co(x) * b } fn vmul(self, b: i64) -> (r: Vector) { v_scale(self, b) } }
impl VMul<Cube> for i64 { open spec fn mok(&self, b: Cube) -> bool { true } open spec fn mcf(&self, b: Cube, x: S) -> int { one(b.0@, x) * *self } fn vmul(self, b: Cube) -> (r: Vector) { v_scale(b, self) } }
fn v_mul<B, A: VMul<B>>(a: A, b: B) -> (r: Vector) requires a.mok(b), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == a.mcf(b, x) { a.vmul(b) }
#[verifier::external_body]
fn v_sum(a: Vec<Vector>) -> (r: Vector) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).wf(), ensures r.wf(), forall|x: S| #[trigger] r.co(x) == sumco(a@, a.len() as int, x) { unimplemented!() }
#[verifier::external_body]
fn v_index(v: &Vector, b: &Cube) -> (r: i64) requires v.wf(), v.co(b.0@) != 0, ensures r == v.co(b.0@) { unimplemented!() }
// the sort of the standard library, by < of the factors, which on disjoint factors is the order of their smaller vertices
#[verifier::external_body]
fn sort_cube(c: &mut Cube) requires pairwise(old(c).0@), ensures final(c).0@ == fsort(old(c).0@) { unimplemented!() }
fn c_copy(c: &Cube) -> (r: Cube) ensures r.0@ == c.0@
{ let mut r = Vec::new(); let mut i = 0; while i < c.0.len() invariant i <= c.0.len(), r@ == c.0@.take(i as int) decreases c.0.len() - i { r.push(c.0[i]); i += 1; proof { assert(c.0@.take(i as int) =~= c.0@.take(i - 1).push(c.0@[i - 1])); } } proof { assert(c.0@.take(i as int) =~= c.0@); } Cube(r) }
fn t_take(t: &(i64, Cube)) -> (r: (i64, Cube)) ensures r.0 == t.0, r.1.0@ == t.1.0@ { (t.0, c_copy(&t.1)) }
pub trait VLt: Sized + Copy { spec fn lt_(self, o: Self) -> bool; fn vlt(self, o: Self) -> (r: bool) ensures r == self.lt_(o); }
impl VLt for CubeFactor { open spec fn lt_(self, o: CubeFactor) -> bool { self != o && self.disjoint(o) && self.low() < o.low() } fn vlt(self, o: CubeFactor) -> (r: bool) { match factor_partial_cmp(&self, &o) { Some(Ordering::Less) => true, _ => false } } }
fn f_lt<A: VLt>(a: A, b: A) -> (r: bool) ensures r == a.lt_(b) { a.vlt(b) }
fn f_ne<A: FEq>(a: A, b: A) -> (r: bool) ensures r == (a != b) { !a.feq(b) }
// ------------------------------------------------------------------ faces and boundary
pub open spec fn face(c: S, k: int, v: usize) -> S { fsort(c.update(k, CubeFactor::Vertex(v))) }
pub open spec fn sgn(m: int) -> int { if m % 2 == 0 { 1 } else { -1 } }
// the faces at the first n factors with their signs: terminal minus initial, alternating over the edges
pub open spec fn faces(c: S, n: int) -> Seq<(int, S)> decreases n
{ if n <= 0 { Seq::empty() } else { match c[n - 1] { CubeFactor::Edge(e) => faces(c, n - 1).push((sgn(edges(c.take(n - 1))), face(c, n - 1, e[0]))).push((-sgn(edges(c.take(n - 1))), face(c, n - 1, e[1]))), _ => faces(c, n - 1) } } }
pub open spec fn bd(c: S) -> Seq<(int, S)> { faces(c, c.len() as int) }
proof fn lemma_edges_take(c: S, n: int) requires 0 <= n < c.len(), ensures edges(c.take(n + 1)) == edges(c.take(n)) + if c[n] is Edge { 1int } else { 0 }
{ assert(c.take(n + 1).drop_last() =~= c.take(n)); }
proof fn lemma_pairwise_face(c: S, k: int, v: usize)
    requires pairwise(c), 0 <= k < c.len(), c[k].has(v as int),
    ensures pairwise(c.update(k, CubeFactor::Vertex(v))),
{
    let s = c.update(k, CubeFactor::Vertex(v));
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies (#[trigger] s[a]).disjoint(#[trigger] s[b]) by {
        assert(c[a].disjoint(c[b]));
        assert forall|w: int| !(s[a].has(w) && #[trigger] s[b].has(w)) by { assert(!(c[a].has(w) && c[b].has(w))); }
    }
}
proof fn lemma_face(c: S, k: int, v: usize, g: RawSimpleGraph)
    requires pairwise(c), allof(c, g), 0 <= k < c.len(), c[k].has(v as int),
    ensures cubeok(face(c, k, v), g), face(c, k, v).len() == c.len(), edges(face(c, k, v)) == edges(c) - if c[k] is Edge { 1int } else { 0 },
        forall|f: CubeFactor| #[trigger] face(c, k, v).contains(f) <==> c.update(k, CubeFactor::Vertex(v)).contains(f),
{
    let s = c.update(k, CubeFactor::Vertex(v));
    lemma_pairwise_face(c, k, v); lemma_fsort(s); lemma_edges_update(c, k, CubeFactor::Vertex(v));
    lemma_allof(c, k, CubeFactor::Vertex(v), g);
}
proof fn lemma_allof(c: S, k: int, f: CubeFactor, g: RawSimpleGraph)
    requires allof(c, g), 0 <= k < c.len(), f.of(g), pairwise(c.update(k, f)),
    ensures allof(fsort(c.update(k, f)), g), cubeok(fsort(c.update(k, f)), g),
{
    let s = c.update(k, f); let t = fsort(s); lemma_fsort(s);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).of(g) by { assert(t.contains(t[i])); let m = choose|m: int| 0 <= m < s.len() && s[m] == t[i]; if m != k { assert(c[m].of(g)); } }
}
// every term of the boundary is a face
proof fn lemma_faces_ok(c: S, n: int, x: S, g: RawSimpleGraph)
    requires pairwise(c), allof(c, g), 0 <= n <= c.len(), coef(faces(c, n), x) != 0,
    ensures cubeok(x, g), x.len() == c.len(), edges(x) == edges(c) - 1,
    decreases n,
{
    if n > 0 { match c[n - 1] { CubeFactor::Edge(e) => {
        let (f0, s) = (faces(c, n - 1), sgn(edges(c.take(n - 1))));
        lemma_face(c, n - 1, e[0], g); lemma_face(c, n - 1, e[1], g);
        let f1 = f0.push((s, face(c, n - 1, e[0])));
        lemma_push(f0, (s, face(c, n - 1, e[0]))); lemma_push(f1, (-s, face(c, n - 1, e[1]))); assert(faces(c, n) == f1.push((-s, face(c, n - 1, e[1]))));
        assert(coef(faces(c, n), x) == coef(f1, x) + if face(c, n - 1, e[1]) == x { -s } else { 0 });
        if face(c, n - 1, e[0]) != x && face(c, n - 1, e[1]) != x { lemma_faces_ok(c, n - 1, x, g); }
    } _ => { lemma_faces_ok(c, n - 1, x, g); } } }
}
// ------------------------------------------------------------------ the Morse properties of a factor
// every vertex but the base point has a smaller neighbour
pub open spec fn gok(g: RawSimpleGraph) -> bool { g.wf() && g.is_maximal_tree_chosen && forall|v: int| 0 < v < g.n_vertices ==> #[trigger] has_parent(g, v) }
pub open spec fn has_parent(g: RawSimpleGraph, v: int) -> bool { exists|u: int| 0 <= u < v && #[trigger] g.edge(u, v) }
pub open spec fn disrespected(c: S, n: int, e: [usize; 2], g: RawSimpleGraph) -> bool { exists|m: int| 0 <= m < n && dis1(#[trigger] c[m], e, g) }
pub open spec fn dis1(f: CubeFactor, e: [usize; 2], g: RawSimpleGraph) -> bool { f is Vertex && e[0] < f->Vertex_0 < e[1] && is_parent(g, e[0] as int, f->Vertex_0 as int) }
// an unblocked vertex, or an edge of the tree that no vertex of the cube disrespects
pub open spec fn free(c: S, k: int, g: RawSimpleGraph) -> bool { match c[k] {
    CubeFactor::Vertex(v) => v != 0 && !taken_parent(c, c.len() as int, g, v as int),
    CubeFactor::Edge(e) => is_parent(g, e[0] as int, e[1] as int) && (e[1] == e[0] + 1 || !disrespected(c, c.len() as int, e, g)) } }
pub open spec fn key(f: CubeFactor) -> int { match f { CubeFactor::Vertex(v) => v as int, CubeFactor::Edge(e) => e[1] as int } }
pub open spec fn critical(c: S, g: RawSimpleGraph) -> bool { forall|k: int| 0 <= k < c.len() ==> !#[trigger] free(c, k, g) }
pub open spec fn first_free(c: S, i: int, g: RawSimpleGraph) -> bool { 0 <= i < c.len() && free(c, i, g) && (forall|k: int| 0 <= k < c.len() && #[trigger] free(c, k, g) ==> key(c[i]) <= key(c[k])) && (forall|k: int| 0 <= k < i && #[trigger] free(c, k, g) ==> key(c[i]) < key(c[k])) }
// ------------------------------------------------------------------ the flow
// no vertex of another factor lies between u and v
pub open spec fn clear(c: S, u: int, v: int) -> bool { forall|k: int, w: int| 0 <= k < c.len() && #[trigger] c[k].has(w) && w != v ==> w < u || v < w }
// what is asked of a flow F at the cube c (F(c, x): the coefficient of x): critical cubes stay; cubes collapsible along an
// edge vanish; F vanishes on the boundary of the cube got by sending the first unblocked vertex along its edge; and a
// vertex moves to its parent when no vertex of the cube lies between the two
pub open spec fn flow_at(f: spec_fn(S, S) -> int, c: S, g: RawSimpleGraph) -> bool {
    cubeok(c, g) ==> {
        &&& critical(c, g) ==> forall|x: S| #[trigger] f(c, x) == one(c, x)
        &&& forall|i: int, x: S| first_free(c, i, g) && c[i] is Edge ==> #[trigger] fx(f, c, i, x) == 0
        &&& forall|i: int, e: [usize; 2], x: S| first_free(c, i, g) && c[i] == CubeFactor::Vertex(e[1]) && is_parent(g, e[0] as int, e[1] as int) ==> #[trigger] ext(bd(fsort(c.update(i, CubeFactor::Edge(e)))), at(f, x)) == 0
        &&& forall|i: int, e: [usize; 2], x: S| first_free(c, i, g) && c[i] == CubeFactor::Vertex(e[1]) && is_parent(g, e[0] as int, e[1] as int) && clear(c, e[0] as int, e[1] as int) ==> f(c, x) == #[trigger] f(fsort(#[trigger] c.update(i, CubeFactor::Vertex(e[0]))), x)
    }
}
pub open spec fn fx(f: spec_fn(S, S) -> int, c: S, i: int, x: S) -> int { f(c, x) }
pub open spec fn at(f: spec_fn(S, S) -> int, x: S) -> spec_fn(S) -> int { |y: S| f(y, x) }
#[verifier::opaque]
pub open spec fn is_flow(f: spec_fn(S, S) -> int, g: RawSimpleGraph) -> bool { forall|c: S| #[trigger] flow_at(f, c, g) }
pub open spec fn lands(c: S, x: S, g: RawSimpleGraph) -> bool { cubeok(x, g) && critical(x, g) && x.len() == c.len() && edges(x) == edges(c) }
// every term is a critical cube of the same dimension with as many points
pub open spec fn crit_terms(c: S, g: RawSimpleGraph, r: Vector) -> bool { forall|x: S| #[trigger] r.co(x) != 0 ==> lands(c, x, g) }
// the coefficients are those of k times the flow of c
pub open spec fn agrees(c: S, g: RawSimpleGraph, r: Vector, k: int) -> bool { forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) ==> #[trigger] r.co(x) == k * f(c, x) }
// a configuration of points flows to a single configuration
pub open spec fn is1(r: Vector, k: int, y: S) -> bool { forall|x: S| #[trigger] r.co(x) == k * one(y, x) }
pub open spec fn single(r: Vector, k: int) -> bool { exists|y: S| #[trigger] is1(r, k, y) }
pub open spec fn flowed(c: S, g: RawSimpleGraph, r: Vector, k: int) -> bool { r.wf() && crit_terms(c, g, r) && agrees(c, g, r, k) && (edges(c) == 0 ==> single(r, k)) }
proof fn lemma_flow_critical(c: S, g: RawSimpleGraph, r: Vector)
    requires cubeok(c, g), critical(c, g), r.wf(), forall|x: S| #[trigger] r.co(x) == one(c, x),
    ensures flowed(c, g, r, 1),
{
    assert forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) implies #[trigger] r.co(x) == 1 * f(c, x) by { reveal(is_flow); assert(flow_at(f, c, g)); assert(f(c, x) == one(c, x)); }
    assert(is1(r, 1, c));
}
proof fn lemma_flow_collapsible(c: S, i: int, g: RawSimpleGraph, r: Vector)
    requires cubeok(c, g), first_free(c, i, g), c[i] is Edge, r.wf(), forall|x: S| #[trigger] r.co(x) == 0,
    ensures flowed(c, g, r, 1),
{
    assert forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) implies #[trigger] r.co(x) == 1 * f(c, x) by { reveal(is_flow); assert(flow_at(f, c, g)); assert(fx(f, c, i, x) == 0); }
    lemma_edges_pos(c);
}
// the cube with the unblocked vertex replaced by its edge, or by the parent
proof fn lemma_place(c: S, i: int, e: [usize; 2], g: RawSimpleGraph)
    requires cubeok(c, g), 0 <= i < c.len(), c[i] == CubeFactor::Vertex(e[1]), free(c, i, g), is_parent(g, e[0] as int, e[1] as int),
    ensures pairwise(c.update(i, CubeFactor::Edge(e))), cubeok(fsort(c.update(i, CubeFactor::Edge(e))), g), edges(fsort(c.update(i, CubeFactor::Edge(e)))) == edges(c) + 1, fsort(c.update(i, CubeFactor::Edge(e))).len() == c.len(),
        forall|f: CubeFactor| #[trigger] fsort(c.update(i, CubeFactor::Edge(e))).contains(f) <==> c.update(i, CubeFactor::Edge(e)).contains(f),
        pairwise(c.update(i, CubeFactor::Vertex(e[0]))), cubeok(fsort(c.update(i, CubeFactor::Vertex(e[0]))), g), edges(fsort(c.update(i, CubeFactor::Vertex(e[0])))) == edges(c), fsort(c.update(i, CubeFactor::Vertex(e[0]))).len() == c.len(),
        forall|k: int| 0 <= k < c.len() ==> !(#[trigger] c[k]).has(e[0] as int), forall|k: int| 0 <= k < c.len() && k != i ==> !(#[trigger] c[k]).has(e[1] as int),
{
    let n = c.len() as int; let s = c.update(i, CubeFactor::Edge(e));
    assert forall|k: int| 0 <= k < n implies !(#[trigger] c[k]).has(e[0] as int) by { if c[k].has(e[0] as int) { assert(taken_parent(c, n, g, e[1] as int)); } }
    assert forall|k: int| 0 <= k < n && k != i implies !(#[trigger] c[k]).has(e[1] as int) by { assert(c[k].disjoint(c[i])); assert(c[i].has(e[1] as int)); }
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies (#[trigger] s[a]).disjoint(#[trigger] s[b]) by {
        if a != i && b != i { assert(c[a].disjoint(c[b])); }
        else if a != i { assert(!c[a].has(e[0] as int) && !c[a].has(e[1] as int)); } else { assert(!c[b].has(e[0] as int) && !c[b].has(e[1] as int)); }
    }
    assert(CubeFactor::Edge(e).of(g));
    lemma_allof(c, i, CubeFactor::Edge(e), g); lemma_fsort(s); lemma_edges_update(c, i, CubeFactor::Edge(e));
    let f = CubeFactor::Vertex(e[0]);
    lemma_pairwise_face(s, i, e[0]); assert(s.update(i, f) =~= c.update(i, f));
    lemma_allof(c, i, f, g); lemma_fsort(c.update(i, f)); lemma_edges_update(c, i, f);
}
// c is a face of that cube, once
proof fn lemma_self(c: S, i: int, e: [usize; 2], g: RawSimpleGraph, d: S, k: int, n: int)
    requires cubeok(c, g), 0 <= i < c.len(), c[i] == CubeFactor::Vertex(e[1]), free(c, i, g), is_parent(g, e[0] as int, e[1] as int),
        d == fsort(c.update(i, CubeFactor::Edge(e))), 0 <= k < d.len(), d[k] == CubeFactor::Edge(e), 0 <= n <= d.len(),
    ensures coef(faces(d, n), c) == if n > k { -sgn(edges(d.take(k))) } else { 0 }, face(d, k, e[1]) == c, face(d, k, e[0]) != c,
    decreases n,
{
    lemma_place(c, i, e, g);
    let s = c.update(i, CubeFactor::Edge(e));
    let t = d.update(k, CubeFactor::Vertex(e[1]));
    lemma_face(d, k, e[1], g); lemma_face(d, k, e[0], g);
    assert forall|f: CubeFactor| #[trigger] face(d, k, e[1]).contains(f) <==> c.contains(f) by {
        if t.contains(f) { let m = choose|m: int| 0 <= m < t.len() && t[m] == f; if m == k { assert(c[i] == f); } else { assert(d[m] == f); assert(d.contains(f)); assert(d[m].low() != d[k].low()) by { if m < k {} else {} } let q = choose|q: int| 0 <= q < s.len() && s[q] == f; assert(q != i); assert(c[q] == f); } }
        if c.contains(f) { let q = choose|q: int| 0 <= q < c.len() && c[q] == f; if q == i { assert(t[k] == f); } else { assert(s[q] == f); assert(s.contains(f)); assert(d.contains(f)); let m = choose|m: int| 0 <= m < d.len() && d[m] == f; assert(m != k) by { if m == k { assert(c[q].has(e[1] as int)); } } assert(t[m] == f); } }
    }
    lemma_unique(face(d, k, e[1]), c);
    assert(face(d, k, e[0]) != c) by { let t0 = d.update(k, CubeFactor::Vertex(e[0])); assert(t0[k] == CubeFactor::Vertex(e[0])); assert(t0.contains(CubeFactor::Vertex(e[0]))); if face(d, k, e[0]) == c { assert(c.contains(CubeFactor::Vertex(e[0]))); let q = choose|q: int| 0 <= q < c.len() && c[q] == CubeFactor::Vertex(e[0]); assert(c[q].has(e[0] as int)); } }
    if n > 0 {
        lemma_self(c, i, e, g, d, k, n - 1);
        match d[n - 1] { CubeFactor::Edge(h) => {
            let (f0, sg) = (faces(d, n - 1), sgn(edges(d.take(n - 1))));
            let f1 = f0.push((sg, face(d, n - 1, h[0])));
            lemma_push(f0, (sg, face(d, n - 1, h[0]))); lemma_push(f1, (-sg, face(d, n - 1, h[1])));
            assert(faces(d, n) == f1.push((-sg, face(d, n - 1, h[1]))));
            assert(coef(faces(d, n), c) == coef(f1, c) + if face(d, n - 1, h[1]) == c { -sg } else { 0 });
            assert(coef(f1, c) == coef(f0, c) + if face(d, n - 1, h[0]) == c { sg } else { 0 });
            if n - 1 != k {
                lemma_other_face(c, i, e, g, d, k, n - 1, h[0]); lemma_other_face(c, i, e, g, d, k, n - 1, h[1]);
            }
        } _ => {} }
    }
}
proof fn lemma_other_face(c: S, i: int, e: [usize; 2], g: RawSimpleGraph, d: S, k: int, m: int, w: usize)
    requires cubeok(c, g), cubeok(d, g), 0 <= i < c.len(), c[i] == CubeFactor::Vertex(e[1]), 0 <= k < d.len(), d[k] == CubeFactor::Edge(e), 0 <= m < d.len(), m != k, d[m].has(w as int),
    ensures face(d, m, w) != c,
{
    lemma_face(d, m, w, g);
    let t = d.update(m, CubeFactor::Vertex(w)); assert(t[k] == CubeFactor::Edge(e)); assert(t.contains(CubeFactor::Edge(e)));
    if face(d, m, w) == c { assert(c.contains(CubeFactor::Edge(e))); let q = choose|q: int| 0 <= q < c.len() && c[q] == CubeFactor::Edge(e); assert(c[q].disjoint(c[i])); assert(c[q].has(e[1] as int) && c[i].has(e[1] as int)); }
}
proof fn lemma_all_vertices(a: S) requires forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] is Vertex, ensures edges(a) == 0, decreases a.len()
{ if a.len() > 0 { let d = a.drop_last(); assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] is Vertex by { assert(a[k] is Vertex); } lemma_all_vertices(d); assert(a[a.len() - 1] is Vertex); } }
// the boundary of a cube with a single edge
proof fn lemma_one_edge(d: S, k: int, e: [usize; 2], n: int)
    requires edges(d) == 1, 0 <= k < d.len(), d[k] == CubeFactor::Edge(e), 0 <= n <= d.len(),
    ensures forall|x: S| #[trigger] coef(faces(d, n), x) == if n > k { one(face(d, k, e[0]), x) - one(face(d, k, e[1]), x) } else { 0 },
    decreases n,
{
    let z = d.update(k, CubeFactor::Vertex(0)); lemma_edges_update(d, k, CubeFactor::Vertex(0)); lemma_edges_pos(z);
    assert forall|m: int| 0 <= m < d.len() && m != k implies #[trigger] d[m] is Vertex by { assert(z[m] is Vertex); }
    if n > 0 {
        lemma_one_edge(d, k, e, n - 1);
        if n - 1 == k {
            let t = d.take(k); assert forall|m: int| 0 <= m < t.len() implies #[trigger] t[m] is Vertex by { assert(d[m] is Vertex); } lemma_all_vertices(t);
            let f0 = faces(d, k); let f1 = f0.push((1, face(d, k, e[0]))); let f2 = f1.push((-1, face(d, k, e[1])));
            assert(f1.drop_last() =~= f0); assert(f2.drop_last() =~= f1); assert(faces(d, n) == f2);
            assert forall|x: S| #[trigger] coef(faces(d, n), x) == one(face(d, k, e[0]), x) - one(face(d, k, e[1]), x) by { assert(coef(f0, x) == 0); assert(coef(f2, x) == coef(f1, x) + if face(d, k, e[1]) == x { -1int } else { 0 }); }
        }
    }
}
proof fn lemma_sumco_crit(a: Seq<Vector>, n: int, x: S, g: RawSimpleGraph, c: S)
    requires 0 <= n <= a.len(), sumco(a, n, x) != 0, forall|k: int| 0 <= k < n ==> crit_terms(c, g, #[trigger] a[k]),
    ensures lands(c, x, g), decreases n,
{ if n > 0 { if a[n - 1].co(x) == 0 { lemma_sumco_crit(a, n - 1, x, g, c); } else { assert(crit_terms(c, g, a[n - 1])); } } }
proof fn lemma_sumco_ext(a: Seq<Vector>, l: Seq<(int, S)>, n: int, x: S, f: spec_fn(S, S) -> int)
    requires 0 <= n <= a.len(), n <= l.len(), forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).co(x) == l[k].0 * f(l[k].1, x),
    ensures sumco(a, n, x) == ext(l.take(n), at(f, x)), decreases n,
{ if n > 0 { lemma_sumco_ext(a, l, n - 1, x, f); assert(l.take(n).drop_last() =~= l.take(n - 1)); assert(a[n - 1].co(x) == l[n - 1].0 * f(l[n - 1].1, x)); } else { assert(l.take(0) =~= Seq::empty()); } }
proof fn lemma_single_list(l: Seq<(int, S)>, t: S)
    requires canon(l), forall|x: S| #[trigger] coef(l, x) == one(t, x),
    ensures l.len() == 1, l[0] == (1int, t),
{
    assert(coef(l, t) == 1);
    if l.len() > 0 { lemma_at(l, 0); assert(coef(l, l[0].1) == one(t, l[0].1)); assert(l[0].0 != 0); if l.len() > 1 { lemma_at(l, 1); assert(coef(l, l[1].1) == one(t, l[1].1)); assert(l[1].0 != 0); assert(l[0].1 != l[1].1); } }
}
// the last step of the flow: the sum over the terms of b = c -/+ the boundary of d
proof fn lemma_flow_redundant(c: S, i: int, e: [usize; 2], g: RawSimpleGraph, d: S, k: int, b: Vector, s: int, a: Seq<Vector>, r: Vector)
    requires cubeok(c, g), first_free(c, i, g), c[i] == CubeFactor::Vertex(e[1]), is_parent(g, e[0] as int, e[1] as int),
        d == fsort(c.update(i, CubeFactor::Edge(e))), 0 <= k < d.len(), d[k] == CubeFactor::Edge(e),
        b.wf(), s == 1 || s == -1, s * coef(bd(d), c) == -1, forall|x: S| #[trigger] b.co(x) == s * coef(bd(d), x) + one(c, x),
        a.len() == b.0@.len(), r.wf(), forall|x: S| #[trigger] r.co(x) == sumco(a, a.len() as int, x),
        forall|q: int| 0 <= q < a.len() ==> #[trigger] flowed(lst(b.0@)[q].1, g, a[q], lst(b.0@)[q].0),
        forall|q: int| 0 <= q < a.len() ==> (#[trigger] lst(b.0@)[q]).1.len() == c.len() && edges(lst(b.0@)[q].1) == edges(c),
    ensures flowed(c, g, r, 1),
{
    let l = lst(b.0@); let n = a.len() as int;
    lemma_place(c, i, e, g);
    assert(crit_terms(c, g, r)) by {
        assert forall|x: S| #[trigger] r.co(x) != 0 implies lands(c, x, g) by {
            assert forall|q: int| 0 <= q < n implies crit_terms(c, g, #[trigger] a[q]) by { assert(flowed(l[q].1, g, a[q], l[q].0)); assert(l[q].1.len() == c.len()); assert forall|y: S| #[trigger] a[q].co(y) != 0 implies lands(c, y, g) by { assert(lands(l[q].1, y, g)); } }
            lemma_sumco_crit(a, n, x, g, c); } }
    assert(agrees(c, g, r, 1)) by {
        assert forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) implies #[trigger] r.co(x) == 1 * f(c, x) by {
            assert forall|q: int| 0 <= q < n implies (#[trigger] a[q]).co(x) == l[q].0 * f(l[q].1, x) by { assert(flowed(l[q].1, g, a[q], l[q].0)); assert(agrees(l[q].1, g, a[q], l[q].0)); }
            lemma_sumco_ext(a, l, n, x, f); assert(l.take(n) =~= l);
            let m = if s == 1 { bd(d) } else { neg(bd(d)) }; let o = seq![(1int, c)]; let h = at(f, x);
            lemma_neg(bd(d), h); lemma_cat(m, o, h); lemma_one(c, h);
            assert forall|y: S| #[trigger] coef(l, y) == coef(m + o, y) by { assert(b.co(y) == s * coef(bd(d), y) + one(c, y)); assert(coef(neg(bd(d)), y) == -coef(bd(d), y)); assert(coef(o, y) == one(c, y)); assert(coef(m + o, y) == coef(m, y) + coef(o, y)); assert(s * coef(bd(d), y) == if s == 1 { coef(bd(d), y) } else { -coef(bd(d), y) }) by(nonlinear_arith) requires s == 1 || s == -1; }
            lemma_ext_eq(l, m + o, h);
            assert(ext(o, h) == f(c, x));
            reveal(is_flow); assert(flow_at(f, c, g)); assert(ext(bd(fsort(c.update(i, CubeFactor::Edge(e)))), at(f, x)) == 0);
        } }
    if edges(c) == 0 {
        let t = face(d, k, e[0]);
        lemma_one_edge(d, k, e, d.len() as int); lemma_self(c, i, e, g, d, k, d.len() as int);
        assert(coef(bd(d), c) == one(t, c) - one(c, c)); assert(coef(bd(d), c) == -1); assert(s * (-1) == -1); assert(s == 1);
        assert forall|x: S| #[trigger] coef(l, x) == one(t, x) by { assert(b.co(x) == s * coef(bd(d), x) + one(c, x)); assert(coef(bd(d), x) == one(t, x) - one(c, x)); assert(1 * coef(bd(d), x) == coef(bd(d), x)); }
        lemma_single_list(l, t);
        assert(flowed(l[0].1, g, a[0], l[0].0)); assert(edges(l[0].1) == 0);
        let y = choose|y: S| #[trigger] is1(a[0], 1, y);
        assert forall|x: S| #[trigger] r.co(x) == 1 * one(y, x) by { assert(r.co(x) == sumco(a, 1, x)); assert(sumco(a, 0, x) == 0); assert(a[0].co(x) == 1 * one(y, x)); }
        assert(is1(r, 1, y));
    }
}
proof fn lemma_flow_reduced(c: S, i: int, e: [usize; 2], g: RawSimpleGraph, r: Vector)
    requires cubeok(c, g), first_free(c, i, g), c[i] == CubeFactor::Vertex(e[1]), is_parent(g, e[0] as int, e[1] as int), clear(c, e[0] as int, e[1] as int),
        flowed(fsort(c.update(i, CubeFactor::Vertex(e[0]))), g, r, 1),
    ensures flowed(c, g, r, 1),
{
    let c2 = fsort(c.update(i, CubeFactor::Vertex(e[0])));
    lemma_place(c, i, e, g);
    assert forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) implies #[trigger] r.co(x) == 1 * f(c, x) by { assert(agrees(c2, g, r, 1)); assert(r.co(x) == 1 * f(c2, x)); reveal(is_flow); assert(flow_at(f, c, g)); }
    assert forall|x: S| #[trigger] r.co(x) != 0 implies lands(c, x, g) by { assert(lands(c2, x, g)); }
}
// k times a flowed sum
proof fn lemma_scaled(c: S, g: RawSimpleGraph, r: Vector, t: Vector, k: int)
    requires flowed(c, g, r, 1), t.wf(), forall|x: S| #[trigger] t.co(x) == r.co(x) * k,
    ensures flowed(c, g, t, k),
{
    assert forall|x: S| #[trigger] t.co(x) != 0 implies lands(c, x, g) by { if r.co(x) == 0 { assert(0 * k == 0) by(nonlinear_arith); assert(t.co(x) == r.co(x) * k); } }
    assert forall|f: spec_fn(S, S) -> int, x: S| #[trigger] is_flow(f, g) implies #[trigger] t.co(x) == k * f(c, x) by { assert(r.co(x) == 1 * f(c, x)); let z = f(c, x); assert(z * k == k * z) by(nonlinear_arith); }
    if edges(c) == 0 {
        let y = choose|y: S| #[trigger] is1(r, 1, y);
        assert forall|x: S| #[trigger] t.co(x) == k * one(y, x) by { assert(r.co(x) == 1 * one(y, x)); let z = one(y, x); assert(z * k == k * z) by(nonlinear_arith); }
        assert(is1(t, k, y));
    }
}
proof fn lemma_free_vertex(c: S, g: RawSimpleGraph)
    requires gok(g), allof(c, g),
    ensures forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).of(g), forall|i: int| #[trigger] first_free(c, i, g) ==> 0 <= i < c.len() && !critical(c, g),
        forall|i: int| #[trigger] first_free(c, i, g) && c[i] is Vertex ==> 0 < c[i]->Vertex_0 < g.n_vertices && has_parent(g, c[i]->Vertex_0 as int),
{ assert forall|i: int| #[trigger] first_free(c, i, g) && c[i] is Vertex implies 0 < c[i]->Vertex_0 < g.n_vertices && has_parent(g, c[i]->Vertex_0 as int) by { assert(c[i].of(g)); } }
// the vertices of the first n factors other than v
pub open spec fn cov(vic: S, c: S, n: int, v: int) -> bool { forall|k: int, w: int| 0 <= k < n && #[trigger] c[k].has(w) && w != v ==> covers(vic, w) }
pub open spec fn covers(vic: S, w: int) -> bool { exists|m: int| 0 <= m < vic.len() && #[trigger] vic[m] == CubeFactor::Vertex(w as usize) }
proof fn lemma_cov(v0: S, v1: S, c: S, n: int, v: int)
    requires cov(v0, c, n, v), 0 <= n < c.len(), match c[n] { CubeFactor::Vertex(w) => (w == v && v1 == v0) || v1 == v0.push(c[n]), CubeFactor::Edge(e) => v1 == v0.push(CubeFactor::Vertex(e[1])).push(CubeFactor::Vertex(e[0])) },
    ensures cov(v1, c, n + 1, v),
{
    assert forall|k: int, w: int| 0 <= k < n + 1 && #[trigger] c[k].has(w) && w != v implies covers(v1, w) by {
        if k < n { assert(covers(v0, w)); let m = choose|m: int| 0 <= m < v0.len() && #[trigger] v0[m] == CubeFactor::Vertex(w as usize); assert(v1[m] == v0[m]); }
        else { match c[n] { CubeFactor::Vertex(y) => { assert(v1[v1.len() - 1] == CubeFactor::Vertex(w as usize)); } CubeFactor::Edge(e) => { if w == e[0] { assert(v1[v1.len() - 1] == CubeFactor::Vertex(w as usize)); } else { assert(v1[v1.len() - 2] == CubeFactor::Vertex(w as usize)); } } } }
    }
}
proof fn lemma_clear(vic: S, c: S, u: usize, v: usize)
    requires cov(vic, c, c.len() as int, v as int), forall|m: int| 0 <= m < vic.len() ==> (#[trigger] vic[m]).lt_(CubeFactor::Vertex(u)) || CubeFactor::Vertex(v).lt_(vic[m]),
    ensures clear(c, u as int, v as int),
{
    assert forall|k: int, w: int| 0 <= k < c.len() && #[trigger] c[k].has(w) && w != v implies w < u || v < w by { assert(covers(vic, w)); let m = choose|m: int| 0 <= m < vic.len() && #[trigger] vic[m] == CubeFactor::Vertex(w as usize); assert(0 <= w <= usize::MAX) by { match c[k] { CubeFactor::Vertex(_) => {} CubeFactor::Edge(_) => {} } } assert(vic[m].lt_(CubeFactor::Vertex(u)) || CubeFactor::Vertex(v).lt_(vic[m])); }
}
proof fn lemma_edge_of(g: RawSimpleGraph, e: [usize; 2])
    requires is_parent(g, e[0] as int, e[1] as int),
    ensures forall|h: [usize; 2]| h[1] == e[1] && #[trigger] is_parent(g, h[0] as int, h[1] as int) ==> h == e,
{ assert forall|h: [usize; 2]| h[1] == e[1] && #[trigger] is_parent(g, h[0] as int, h[1] as int) implies h == e by { lemma_parent_unique(g, h[0] as int, e[0] as int, e[1] as int); assert(h@ =~= e@); assert(h == e); } }
// what is needed once the first unblocked vertex is known
proof fn lemma_redundant(c: S, i: int, e: [usize; 2], g: RawSimpleGraph) -> (k: int)
    requires cubeok(c, g), first_free(c, i, g), c[i] == CubeFactor::Vertex(e[1]), is_parent(g, e[0] as int, e[1] as int),
    ensures ({ let s = c.update(i, CubeFactor::Edge(e)); let t = c.update(i, CubeFactor::Vertex(e[0])); let d = fsort(s);
        pairwise(s) && pairwise(t) && cubeok(fsort(t), g) && cubeok(d, g) && edges(d) == edges(c) + 1 && d.len() == c.len() && 0 <= k < d.len() && d[k] == CubeFactor::Edge(e) && (coef(bd(d), c) == 1 || coef(bd(d), c) == -1) }),
{
    lemma_place(c, i, e, g);
    let s = c.update(i, CubeFactor::Edge(e)); let d = fsort(s);
    assert(s[i] == CubeFactor::Edge(e)); assert(s.contains(CubeFactor::Edge(e))); assert(d.contains(CubeFactor::Edge(e)));
    let k = choose|k: int| 0 <= k < d.len() && d[k] == CubeFactor::Edge(e);
    lemma_self(c, i, e, g, d, k, d.len() as int);
    k
}
proof fn lemma_terms(c: S, g: RawSimpleGraph, d: S, b: Vector, s: int)
    requires cubeok(d, g), d.len() == c.len(), edges(d) == edges(c) + 1, b.wf(), s == 1 || s == -1, s * coef(bd(d), c) == -1, forall|x: S| #[trigger] b.co(x) == s * coef(bd(d), x) + one(c, x),
    ensures forall|q: int| 0 <= q < b.0@.len() ==> cubeok((#[trigger] lst(b.0@)[q]).1, g) && lst(b.0@)[q].1.len() == c.len() && edges(lst(b.0@)[q].1) == edges(c),
{
    let l = lst(b.0@);
    assert forall|q: int| 0 <= q < b.0@.len() implies cubeok((#[trigger] l[q]).1, g) && l[q].1.len() == c.len() && edges(l[q].1) == edges(c) by {
        lemma_at(l, q); let x = l[q].1; assert(b.co(x) == l[q].0); assert(l[q].0 != 0); assert(b.co(c) == 0); assert(x != c); assert(b.co(x) == s * coef(bd(d), x) + one(c, x));
        if coef(bd(d), x) == 0 { assert(s * 0 == 0); } lemma_faces_ok(d, d.len() as int, x, g); }
}
proof fn lemma_term(b: S, g: RawSimpleGraph, t: Vector, k: int)
    requires t.wf(), exists|r: Vector| #[trigger] flowed(b, g, r, 1) && forall|x: S| #[trigger] t.co(x) == r.co(x) * k,
    ensures flowed(b, g, t, k),
{ let r = choose|r: Vector| #[trigger] flowed(b, g, r, 1) && forall|x: S| #[trigger] t.co(x) == r.co(x) * k; lemma_scaled(b, g, r, t, k); }
impl Cube {
//@fn Cube::get_boundary deref=self:0,b1:0,b2:0 method:clone=&c_copy method:sort=~sort_cube call:Vector::zero=v_zero op:-=v_sub op:+=v_add op:*=v_scale op:*==e_mul Vector<i64,Cube>=Vector
//@.spec
    requires pairwise(self.0@),
    ensures r.wf(), forall|x: S| #[trigger] r.co(x) == coef(bd(self.0@), x),
//@.loop 0
    invariant __n0 == self.0@.len(), __i0 <= __n0, pairwise(self.0@), boundary.wf(), sign == -sgn(edges(self.0@.take(__i0 as int))),
        forall|x: S| #[trigger] boundary.co(x) == coef(faces(self.0@, __i0 as int), x),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost c = self.0@; let ghost b0 = boundary; let ghost s0 = sign as int;
    proof { lemma_edges_take(c, __j0 as int); if c[__j0 as int] is Edge { let e = c[__j0 as int]->Edge_0; lemma_pairwise_face(c, __j0 as int, e[0]); lemma_pairwise_face(c, __j0 as int, e[1]); } }
//@.loop 0 end
    proof {
        match c[__j0 as int] { CubeFactor::Edge(e) => {
            let m = __j0 as int; let sg = sgn(edges(c.take(m))); let f0 = faces(c, m); let f1 = f0.push((sg, face(c, m, e[0]))); let f2 = f1.push((-sg, face(c, m, e[1])));
            lemma_push(f0, (sg, face(c, m, e[0]))); lemma_push(f1, (-sg, face(c, m, e[1]))); assert(faces(c, __i0 as int) == f2);
            assert forall|x: S| #[trigger] boundary.co(x) == coef(faces(c, __i0 as int), x) by { assert(b0.co(x) == coef(f0, x)); assert(coef(f2, x) == coef(f1, x) + if face(c, m, e[1]) == x { -sg } else { 0 }); assert(coef(f1, x) == coef(f0, x) + if face(c, m, e[0]) == x { sg } else { 0 }); let o = one(face(c, m, e[1]), x) - one(face(c, m, e[0]), x); assert(o * s0 == if s0 == 1 { o } else { -o }) by(nonlinear_arith) requires s0 == 1 || s0 == -1; assert(boundary.co(x) == b0.co(x) + o * s0); }
        } _ => {} }
    }
//@end
//@fn Cube::property deref=self:0 method:is_blocked=blocked_in acc0=Option<((usize,&CubeFactor),usize)>
//@.spec
    requires gok(*graph), forall|k: int| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k]).of(*graph),
    ensures match r { MorseProp::Critical => critical(self.0@, *graph), MorseProp::Collapsible(i) => first_free(self.0@, i as int, *graph) && self.0@[i as int] is Edge, MorseProp::Redundant(i) => first_free(self.0@, i as int, *graph) && self.0@[i as int] is Vertex },
//@.loop 0
    invariant __n0 == self.0@.len(), __i0 <= __n0, gok(*graph), forall|k: int| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k]).of(*graph),
        match __a0 { None => forall|k: int| 0 <= k < __i0 ==> !#[trigger] free(self.0@, k, *graph),
            Some(((i, f), ky)) => i < __i0 && *f == self.0@[i as int] && ky == key(*f) && free(self.0@, i as int, *graph)
                && (forall|k: int| 0 <= k < __i0 && #[trigger] free(self.0@, k, *graph) ==> ky <= key(self.0@[k])) && (forall|k: int| 0 <= k < i && #[trigger] free(self.0@, k, *graph) ==> ky < key(self.0@[k])) },
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { assert(self.0@[__j0 as int].of(*graph)); assert(match self.0@[__j0 as int] { CubeFactor::Vertex(v) => v > 0 ==> has_parent(*graph, v as int), _ => true }); }
//@.loop 1
    invariant __n1 == self.0@.len(), __i1 <= __n1, __a1 == !disrespected(self.0@, __i1 as int, f->Edge_0, *graph),
    decreases __n1 - __i1,
//@.loop 1 begin
    proof { assert(self.0@[__j1 as int].of(*graph)); match self.0@[__j1 as int] { CubeFactor::Vertex(v) => { if v > 0 { assert(has_parent(*graph, v as int)); } } _ => {} }
        assert(disrespected(self.0@, __i1 as int, f->Edge_0, *graph) <==> disrespected(self.0@, __j1 as int, f->Edge_0, *graph) || dis1(self.0@[__j1 as int], f->Edge_0, *graph)); }
//@end
//@fn Cube::get_ends deref=self:0 method:push=~cube_push op:+==e_add maypanic
//@.spec
    ensures edges(self.0@) == 1, r[0].0@ == ends(self.0@, 0), r[1].0@ == ends(self.0@, 1),
//@.loop 0
    invariant __n0 == self.0@.len(), __i0 <= __n0, edge_count == edges(self.0@.take(__i0 as int)), edge_count <= __i0, out[0].0@ == ends(self.0@.take(__i0 as int), 0), out[1].0@ == ends(self.0@.take(__i0 as int), 1),
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { assert(self.0@.take(__i0 as int).drop_last() =~= self.0@.take(__j0 as int)); }
//@.loop 0 after
    proof { assert(self.0@.take(__n0 as int) =~= self.0@); }
//@end
//@fn Cube::flow deref=self:0,cpy:0,boundary:0,self_:0 method:clone=&c_copy method:sort=~sort_cube call:Vector::zero=v_zero op:+=v_add op:u-=v_neg op:<=f_lt op:!==f_ne sum_fn=v_sum op:*=v_mul nodecreases Vector<i64,Cube>=Vector expr:boundary[&self]=v_index(&boundary,&self_) own2=t_take
//@.spec
    requires gok(*graph), cubeok(self.0@, *graph),
    ensures flowed(self.0@, *graph, r, 1), critical(self.0@, *graph) ==> forall|x: S| #[trigger] r.co(x) == one(self.0@, x),
//@.entry
    hide(critical); hide(pairwise); hide(allof); hide(ssorted); hide(fsort); hide(faces); hide(crit_terms); hide(agrees); hide(single); hide(canon); hide(coef); hide(first_free); hide(edges);
    let ghost c = self.0@; let ghost g = *graph; let ghost mut path = 0int; let ghost mut gi = 0int; let ghost mut ge = [0usize, 0usize]; let ghost mut gk = 0int; let ghost mut gb = arbitrary::<Vector>(); let ghost mut gs = 0int; let ghost mut ga = Seq::<Vector>::empty();
    proof { lemma_free_vertex(c, g); }
//@.loop 0 before
    proof { 
        gi = i as int; ge = flow->Edge_0; lemma_edge_of(g, ge); gk = lemma_redundant(c, gi, ge, g);
    }
//@.loop 0
    invariant __n0 == c.len(), self_.0@ == c, __i0 <= __n0, flow == CubeFactor::Edge(ge), cov(vertices_in_cube@, c, __i0 as int, ge[1] as int),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost v0 = vertices_in_cube@;
//@.loop 0 end
    proof { lemma_cov(v0, vertices_in_cube@, c, __j0 as int, ge[1] as int); }
//@.loop 1
    invariant __n1 == vertices_in_cube@.len(), __i1 <= __n1, __a1 ==> forall|m: int| 0 <= m < __i1 ==> (#[trigger] vertices_in_cube@[m]).lt_(CubeFactor::Vertex(ge[0])) || CubeFactor::Vertex(ge[1]).lt_(vertices_in_cube@[m]),
    decreases __n1 - __i1,
//@.loop 1 after
    proof { path = 1; if __a1 { lemma_clear(vertices_in_cube@, c, ge[0], ge[1]); } }
//@.loop 2 before
    proof {
        path = 2; gb = boundary; let d = fsort(c.update(gi, CubeFactor::Edge(ge))); gs = if coef(bd(d), c) == 1 { -1 } else { 1 };
        assert forall|x: S| #[trigger] gb.co(x) == gs * coef(bd(d), x) + one(c, x) by { assert(gs * coef(bd(d), x) == if gs == 1 { coef(bd(d), x) } else { -coef(bd(d), x) }) by(nonlinear_arith) requires gs == 1 || gs == -1; }
        lemma_terms(c, g, d, gb, gs);
    }
//@.loop 2
    invariant __n2 == gb.0@.len(), boundary == gb, __i2 <= __n2, __a2@.len() == __i2, forall|q: int| 0 <= q < __i2 ==> #[trigger] flowed(lst(gb.0@)[q].1, g, __a2@[q], lst(gb.0@)[q].0),
    decreases __n2 - __i2,
//@.loop 2 begin
    let ghost a0 = __a2@; let ghost b = lst(gb.0@)[__j2 as int];
//@.loop 2 end
    proof {
        let t = __a2@[__j2 as int];
        assert(exists|r: Vector| #[trigger] flowed(b.1, g, r, 1) && forall|x: S| #[trigger] t.co(x) == r.co(x) * b.0);
        lemma_term(b.1, g, t, b.0);
        assert forall|q: int| 0 <= q < __i2 implies #[trigger] flowed(lst(gb.0@)[q].1, g, __a2@[q], lst(gb.0@)[q].0) by { if q < __j2 { assert(flowed(lst(gb.0@)[q].1, g, a0[q], lst(gb.0@)[q].0)); } }
    }
//@.loop 2 after
    proof { ga = __a2@; assert forall|q: int| 0 <= q < ga.len() implies (#[trigger] ga[q]).wf() by { assert(flowed(lst(gb.0@)[q].1, g, ga[q], lst(gb.0@)[q].0)); } }
//@.ret 0
    proof { lemma_flow_reduced(c, gi, ge, g, __ret); }
//@.exit
    proof {
        if path == 2 { lemma_flow_redundant(c, gi, ge, g, fsort(c.update(gi, CubeFactor::Edge(ge))), gk, gb, gs, ga, __ret); }
        else if critical(c, g) { assert forall|x: S| #[trigger] __ret.co(x) == one(c, x) by { assert(__ret.co(x) == one(c, x) * 1); } lemma_flow_critical(c, g, __ret); }
        else { lemma_flow_collapsible(c, choose|i: int| #[trigger] first_free(c, i, g) && c[i] is Edge, g, __ret); }
    }
//@end
}
pub open spec fn ends(c: S, side: int) -> S decreases c.len() { if c.len() == 0 { c } else { ends(c.drop_last(), side).push(match c.last() { CubeFactor::Vertex(_) => c.last(), CubeFactor::Edge(e) => CubeFactor::Vertex(if side == 0 { e[0] } else { e[1] }) }) } }
} // verus!
