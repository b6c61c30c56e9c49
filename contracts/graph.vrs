//@include prelude.inc
//@include chk.inc
//@include pool.inc
//@include perm.inc
//@include graph.inc
verus! {

// ------------------------------------------------------------------ the action of permutations relabels the vertices
pub mod gact { use super::*; use super::act::*;
// g1 is g0 with vertex i renamed f(i)
pub open spec fn relabelled(g0: RawSimpleGraph, g1: RawSimpleGraph, p: Permutation) -> bool {
    &&& g1.wf() && g1.n_vertices == g0.n_vertices && g1.is_maximal_tree_chosen == g0.is_maximal_tree_chosen
    &&& forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices ==> #[trigger] g1.edge(p.f(a) as int, p.f(b) as int) == g0.edge(a as int, b as int)
}
//@fn <RawSimpleGraph as Gset>::gen_action_by self_as=RawSimpleGraph name=gen_action_by params=elem op:===&p_eq iters=unfixed_indeces_iter nodebug
//@.spec
    requires old(self_).wf(), is_gen(elem), moves_below(elem, old(self_).n_vertices as int),
    ensures relabelled(*old(self_), *final(self_), elem),
//@.entry
    let ghost fl = flat(elem.cycles@);
    proof {
        lemma_gen(elem); let cs = elem.cycles@; assert(cs.drop_first().len() == 0); assert(flat(cs.drop_first()) =~= Seq::empty()); assert(fl =~= cs[0].data@);
        if cs[0].data@.len() == 2 { let (a, b) = (cs[0].data@[0], cs[0].data@[1]); assert(elem.f(a) == b && elem.f(b) == a); assert(a < self_.n_vertices && b < self_.n_vertices); assert(a < b); }
        else { assert(cs[0].data@ =~= Seq::<usize>::empty()); }
    }
//@.loop 0
    invariant_except_break __it0.ok(), __a0@ + __it0.rest() == fl,
    ensures __a0@ == fl,
    decreases fl.len() - __a0@.len(),
//@.loop 0 begin
    proof { assert(__a0@ + (seq![__x0] + __it0.rest()) =~= __a0@.push(__x0) + __it0.rest()); }
//@end
// after the first k generators
pub open spec fn relabelled_k(g0: RawSimpleGraph, g1: RawSimpleGraph, gens: Seq<Permutation>, k: int) -> bool {
    &&& g1.wf() && g1.n_vertices == g0.n_vertices && g1.is_maximal_tree_chosen == g0.is_maximal_tree_chosen
    &&& forall|a: usize| a < g0.n_vertices ==> #[trigger] pprod(gens, k, a) < g0.n_vertices
    &&& forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices ==> #[trigger] g1.edge(pprod(gens, k, a) as int, pprod(gens, k, b) as int) == g0.edge(a as int, b as int)
}
//@file alg/src/non_commutative.rs
//@fn Gset::action_by key=graph_action_by self_as=RawSimpleGraph G=Permutation name=action_by params=elem clone_owned method:clone=&p_copy method:gen_action_by=~gen_action_by
//@.spec
    requires elem.wf(), moves_below(elem, old(self_).n_vertices as int), old(self_).wf(),
    ensures relabelled(*old(self_), *final(self_), elem),
//@.entry
    let ghost g0 = *self_;
//@.loop 0
    invariant 0 <= __i0 <= gens@.len(), all_pwf(gens@), forall|i: int| 0 <= i < gens@.len() ==> is_gen(#[trigger] gens@[i]),
        forall|i: int| 0 <= i < gens@.len() ==> moves_below(#[trigger] gens@[i], g0.n_vertices as int),
        relabelled_k(g0, *self_, gens@, __i0 as int),
    decreases gens@.len() - __i0,
//@.loop 0 begin
    let ghost (k, g1, g) = (__j0 as int, *self_, gens@[__j0 as int]);
    proof { assert(is_gen(g)); assert(moves_below(g, g0.n_vertices as int)); }
//@.loop 0 end
    proof {
        assert(relabelled(g1, *self_, gen));
        assert forall|a: usize| a < g0.n_vertices implies #[trigger] pprod(gens@, k + 1, a) < g0.n_vertices by { lemma_below(g, g0.n_vertices as int, pprod(gens@, k, a)); }
        assert forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices implies #[trigger] self_.edge(pprod(gens@, k + 1, a) as int, pprod(gens@, k + 1, b) as int) == g0.edge(a as int, b as int) by {
            let (m, l) = (pprod(gens@, k, a), pprod(gens@, k, b));
            assert(gen.f(m) == g.f(m) && gen.f(l) == g.f(l)); assert(self_.edge(gen.f(m) as int, gen.f(l) as int) == g1.edge(m as int, l as int));
        }
    }
//@.loop 0 after
    proof { assert forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices implies #[trigger] self_.edge(elem.f(a) as int, elem.f(b) as int) == g0.edge(a as int, b as int) by { assert(pprod(gens@, gens@.len() as int, a) == elem.f(a) && pprod(gens@, gens@.len() as int, b) == elem.f(b)); } }
//@end
pub proof fn lemma_below(p: Permutation, n: int, x: usize)
    requires p.wf(), moves_below(p, n), x < n, ensures p.f(x) < n,
{ if p.f(x) != x && p.f(p.f(x)) == p.f(x) { lemma_pmap_inj(p.cycles@, p.f(x), x); } }
//@file topo_spaces/src/graph.rs
//@fn <RawSimpleGraph as Shl>::shl self_as=RawSimpleGraph name=shl params=elem method:action_by=~action_by Self::Output=RawSimpleGraph
//@.spec
    requires elem.wf(), moves_below(elem, self_.n_vertices as int), self_.wf(),
    ensures relabelled(self_, r, elem),
//@end
//@fn <RawSimpleGraph as ShlAssign>::shl_assign self_as=RawSimpleGraph name=shl_assign params=elem method:action_by=~action_by
//@.spec
    requires elem.wf(), moves_below(elem, old(self_).n_vertices as int), old(self_).wf(),
    ensures relabelled(*old(self_), *final(self_), elem),
//@end
}

// ------------------------------------------------------------------ choosing the maximal tree
pub mod tree { use super::*; use super::gact::{relabelled, lemma_below, shl_assign}; use super::act::moves_below;
pub trait VCopy: Sized { spec fn is_copy(&self, r: Self) -> bool; spec fn ok(&self) -> bool; fn vcopy(&self) -> (r: Self) requires self.ok() ensures self.is_copy(r); }
impl VCopy for Permutation { open spec fn ok(&self) -> bool { self.wf() } open spec fn is_copy(&self, r: Self) -> bool { r.cycles@.len() == self.cycles@.len() && same_data(r.cycles@, self.cycles@) } fn vcopy(&self) -> (r: Self) { p_copy(self) } }
impl VCopy for std::ops::Range<usize> { open spec fn ok(&self) -> bool { true } open spec fn is_copy(&self, r: Self) -> bool { r == *self } fn vcopy(&self) -> (r: Self) { self.start..self.end } }
// some u with a <= u < b is joined to b
pub open spec fn joined(g: RawSimpleGraph, a: int, b: int) -> bool { exists|u: int| a <= u < b && #[trigger] g.edge(u, b) }
// the vertices up to m are numbered depth first: where an edge a-c passes over b, b hangs on to a or later
pub open spec fn dfs(g: RawSimpleGraph, m: int) -> bool { forall|a: int, b: int, c: int| 0 <= a < b && b <= c && b <= m && #[trigger] g.edge(a, c) ==> #[trigger] joined(g, a, b) }
// p keeps the numbers below n and takes the edges of g0 to those of g1
pub open spec fn renumbered(g0: RawSimpleGraph, g1: RawSimpleGraph, p: Permutation) -> bool { p.wf() && moves_below(p, g0.n_vertices as int) && relabelled(g0, g1, p) }
pub proof fn lemma_copied(g0: RawSimpleGraph, g1: RawSimpleGraph, p: Permutation)
    requires p.wf(), moves_below(p, g0.n_vertices as int), exists|q: Permutation| #[trigger] p.is_copy(q) && relabelled(g0, g1, q),
    ensures renumbered(g0, g1, p),
{
    let q = choose|q: Permutation| #[trigger] p.is_copy(q) && relabelled(g0, g1, q);
    assert forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices implies #[trigger] g1.edge(p.f(a) as int, p.f(b) as int) == g0.edge(a as int, b as int) by {
        lemma_same_pmap(q.cycles@, p.cycles@, a); lemma_same_pmap(q.cycles@, p.cycles@, b); assert(q.f(a) == p.f(a) && q.f(b) == p.f(b));
    }
}
pub proof fn lemma_compose(g0: RawSimpleGraph, g1: RawSimpleGraph, g2: RawSimpleGraph, p: Permutation, q: Permutation, r: Permutation)
    requires renumbered(g0, g1, p), renumbered(g1, g2, q), r.wf(), forall|n: usize| #[trigger] r.f(n) == q.f(p.f(n)),
    ensures renumbered(g0, g2, r),
{
    assert forall|n: usize| #[trigger] r.f(n) != n implies n < g0.n_vertices by { if p.f(n) == n {} }
    assert forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices implies #[trigger] g2.edge(r.f(a) as int, r.f(b) as int) == g0.edge(a as int, b as int) by {
        lemma_below(p, g0.n_vertices as int, a); lemma_below(p, g0.n_vertices as int, b);
        assert(g1.edge(p.f(a) as int, p.f(b) as int) == g0.edge(a as int, b as int));
        assert(g2.edge(q.f(p.f(a)) as int, q.f(p.f(b)) as int) == g1.edge(p.f(a) as int, p.f(b) as int));
    }
}
pub proof fn lemma_renumber_id(g: RawSimpleGraph, p: Permutation)
    requires g.wf(), p.wf(), forall|n: usize| #[trigger] p.f(n) == n,
    ensures renumbered(g, g, p),
{ }
// i is the last vertex below j with an edge to j or above, and it is joined to j
pub proof fn lemma_dfs_step(g: RawSimpleGraph, i: int, j: int)
    requires 0 <= i < j, dfs(g, j - 1), g.edge(i, j), forall|a: int, c: int| i < a < j <= c ==> !#[trigger] g.edge(a, c),
    ensures dfs(g, j),
{
    assert forall|a: int, b: int, c: int| 0 <= a < b && b <= c && b <= j && #[trigger] g.edge(a, c) implies #[trigger] joined(g, a, b) by {
        if b == j { assert(a <= i); assert(g.edge(i, j)); }
    }
}
pub proof fn lemma_dfs_swap(g: RawSimpleGraph, h: RawSimpleGraph, q: Permutation, i: int, j: int, k: int)
    requires g.wf(), 0 <= i < j < k < g.n_vertices, dfs(g, j - 1), g.edge(i, k), renumbered(g, h, q), forall|n: usize| #[trigger] q.f(n) == tr(j as usize, k as usize, n),
        forall|a: int, c: int| i < a < j <= c ==> !#[trigger] g.edge(a, c),
    ensures dfs(h, j),
{
    let n = g.n_vertices as int;
    let (ju, ku) = (j as usize, k as usize);
    // h.edge(a, c) is g.edge(a, tr c) for a < j
    assert forall|a: int, c: int| 0 <= a < j implies #[trigger] h.edge(a, c) == g.edge(a, trn(j, k, c)) by {
        if 0 <= c < n { let x = tr(ju, ku, c as usize); assert(q.f(a as usize) == a && q.f(x) == c); assert(h.edge(q.f(a as usize) as int, q.f(x) as int) == g.edge(a as usize as int, x as int)); }
    }
    assert(h.edge(i, j));
    assert forall|a: int, c: int| i < a < j <= c implies !#[trigger] h.edge(a, c) by { assert(!g.edge(a, trn(j, k, c))); }
    assert forall|a: int, b: int, c: int| 0 <= a < b && b <= c && b <= j - 1 && #[trigger] h.edge(a, c) implies #[trigger] joined(h, a, b) by {
        assert(g.edge(a, trn(j, k, c))); assert(joined(g, a, b)); let u = choose|u: int| a <= u < b && #[trigger] g.edge(u, b); assert(h.edge(u, b));
    }
    lemma_dfs_step(h, i, j);
}
//@fn RawSimpleGraph::fetch_right_and_swap self_as=RawSimpleGraph name=fetch_right_and_swap params=i,j iters=adjacent_vertices_iter rename:clone=vcopy op:<<==~shl_assign
//@.spec
    requires old(self_).wf(), i < j < old(self_).n_vertices,
    ensures r is None ==> *final(self_) == *old(self_) && forall|k: int| j < k ==> !#[trigger] old(self_).edge(i as int, k),
        r matches Some(q) ==> renumbered(*old(self_), *final(self_), q) && exists|k: usize| j < k < old(self_).n_vertices && old(self_).edge(i as int, k as int) && forall|n: usize| q.f(n) == #[trigger] tr(j, k, n),
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self_, __it0.vertex == i, *self_ == *old(self_),
        __a0 is None ==> forall|k: int| j < k < __it0.curr ==> !#[trigger] self_.edge(i as int, k),
        __a0 matches Some(k) ==> j < k < self_.n_vertices && self_.edge(i as int, k as int),
    ensures __a0 is None ==> __it0.curr == self_.n_vertices,
    decreases self_.n_vertices - __it0.curr,
//@.loop 0 after
    proof { lemma_single(); lemma_two(); }
//@.exit
    proof { if __ret is Some { let ghost p = __ret->0; let k = op_k->0; assert(forall|n: usize| p.f(n) == #[trigger] tr(j, k, n)); lemma_copied(*old(self_), *self_, p); } }
//@end
//@fn RawSimpleGraph::choose_maximal_tree_by_depth_first self_as=RawSimpleGraph name=choose_dfs method:fetch_right_and_swap=~fetch_right_and_swap op:*=Permutation::mul
//@.spec
    requires old(self_).wf(),
    ensures renumbered(*old(self_), *final(self_), r), old(self_).n_vertices > 0 ==> r.f(0) == 0, dfs(*final(self_), final(self_).n_vertices - 1),
//@.entry
    let ghost g0 = *self_;
//@.loop 0 before
    proof { lemma_renumber_id(g0, p); }
//@.loop 0
    invariant __h0 == g0.n_vertices, 1 <= __i0, __i0 <= __h0 || __i0 == 1, renumbered(g0, *self_, p), p.f(0) == 0, dfs(*self_, __i0 - 1),
    decreases __h0 - __i0,
//@.loop 0 begin
    let ghost (g1, p1) = (*self_, p);
//@.loop 1
    invariant_except_break *self_ == g1, p == p1, __i1 <= j, j < g1.n_vertices, g1.wf(), dfs(g1, j - 1), forall|a: int, c: int| __i1 <= a < j <= c ==> !#[trigger] g1.edge(a, c),
    ensures renumbered(g0, *self_, p), p.f(0) == 0, dfs(*self_, j as int),
    decreases __i1,
//@.loop 1 begin
    let ghost i1 = __i1 as int;
//@.brk 0
    proof { lemma_dfs_step(g1, i1, j as int); }
//@.brk 1
    proof {
        assert(renumbered(g1, *self_, q)); let k = choose|k: usize| j < k < g1.n_vertices && g1.edge(i1, k as int) && forall|n: usize| q.f(n) == #[trigger] tr(j, k, n);
        assert forall|n: usize| #[trigger] q.f(n) == tr(j, k, n) by { assert(q.f(n) == tr(j, k, n)); }
        assert forall|a: int, c: int| i1 < a < j <= c implies !#[trigger] g1.edge(a, c) by { }
        lemma_dfs_swap(g1, *self_, q, i1, j as int, k as int); lemma_compose(g0, g1, *self_, p1, q, p);
    }
//@end
// ---- the base point
#[verifier::opaque]
pub open spec fn one_nb(g: RawSimpleGraph, v: int) -> bool { exists|u: int| #[trigger] g.edge(v, u) && forall|w: int| #[trigger] g.edge(v, w) ==> w == u }
#[verifier::opaque]
pub open spec fn three_nbs(g: RawSimpleGraph, v: int) -> bool { exists|a: int, b: int, c: int| #[trigger] g.edge(v, a) && #[trigger] g.edge(v, b) && #[trigger] g.edge(v, c) && a != b && b != c && a != c }
#[verifier::opaque]
pub open spec fn closed(g: RawSimpleGraph, i: int, s: spec_fn(int) -> bool) -> bool { forall|u: int, w: int| u != i && w != i && s(u) && #[trigger] g.edge(u, w) ==> s(w) }
#[verifier::opaque]
pub open spec fn all_or_none(n: int, i: int, s: spec_fn(int) -> bool) -> bool { forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != i && b != i && #[trigger] s(a) ==> #[trigger] s(b) }
// the graph without i is in one piece: a set of vertices closed under its edges is empty or everything
#[verifier::opaque]
pub open spec fn whole_without(g: RawSimpleGraph, i: int) -> bool { forall|s: spec_fn(int) -> bool| #[trigger] closed(g, i, s) ==> all_or_none(g.n_vertices as int, i, s) }
pub open spec fn good_base(g: RawSimpleGraph, v: int) -> bool { one_nb(g, v) || (three_nbs(g, v) && whole_without(g, v)) }
pub proof fn lemma_edge_in(g: RawSimpleGraph, a: int, b: int) ensures g.edge(a, b) ==> 0 <= a < g.n_vertices && 0 <= b < g.n_vertices && a != b && g.edge(b, a) { }
pub proof fn nbs_at(g: RawSimpleGraph, v: int, i: int)
    requires 0 <= i < nbs(g, v, g.n_vertices as int).len(),
    ensures g.edge(v, nbs(g, v, g.n_vertices as int)[i]), i + 1 < nbs(g, v, g.n_vertices as int).len() ==> nbs(g, v, g.n_vertices as int)[i] < nbs(g, v, g.n_vertices as int)[i + 1],
{ lemma_nbs(g, v, g.n_vertices as int); }
pub proof fn nbs_has(g: RawSimpleGraph, v: int, w: int) -> (i: int)
    requires g.edge(v, w),
    ensures 0 <= i < nbs(g, v, g.n_vertices as int).len(), nbs(g, v, g.n_vertices as int)[i] == w,
{ lemma_nbs(g, v, g.n_vertices as int); lemma_edge_in(g, v, w); nbs(g, v, g.n_vertices as int).index_of(w) }
pub proof fn lemma_degree1(g: RawSimpleGraph, v: int)
    ensures nbs(g, v, g.n_vertices as int).len() == 1 <==> one_nb(g, v),
{
    hide(RawSimpleGraph::edge); reveal(one_nb);
    let s = nbs(g, v, g.n_vertices as int);
    if s.len() == 1 { nbs_at(g, v, 0); assert forall|w: int| #[trigger] g.edge(v, w) implies w == s[0] by { let i = nbs_has(g, v, w); } }
    if one_nb(g, v) {
        let u = choose|u: int| #[trigger] g.edge(v, u) && forall|w: int| #[trigger] g.edge(v, w) ==> w == u;
        let i = nbs_has(g, v, u); if s.len() >= 2 { nbs_at(g, v, 0); nbs_at(g, v, 1); }
    }
}
pub proof fn lemma_degree3a(g: RawSimpleGraph, v: int)
    requires nbs(g, v, g.n_vertices as int).len() >= 3,
    ensures three_nbs(g, v),
{
    hide(RawSimpleGraph::edge); reveal(three_nbs);
    let s = nbs(g, v, g.n_vertices as int);
    let (a, b, c) = (s[0], s[1], s[2]);
    nbs_at(g, v, 0); nbs_at(g, v, 1); nbs_at(g, v, 2);
    assert(g.edge(v, a) && g.edge(v, b) && g.edge(v, c) && a != b && b != c && a != c);
}
pub proof fn lemma_degree3b(g: RawSimpleGraph, v: int)
    requires three_nbs(g, v),
    ensures nbs(g, v, g.n_vertices as int).len() >= 3,
{
    hide(RawSimpleGraph::edge); reveal(three_nbs);
    let (a, b, c) = choose|a: int, b: int, c: int| #[trigger] g.edge(v, a) && #[trigger] g.edge(v, b) && #[trigger] g.edge(v, c) && a != b && b != c && a != c;
    let (i, j, k) = (nbs_has(g, v, a), nbs_has(g, v, b), nbs_has(g, v, c));
}
pub proof fn lemma_degree(g: RawSimpleGraph, v: int)
    ensures nbs(g, v, g.n_vertices as int).len() == 1 <==> one_nb(g, v), nbs(g, v, g.n_vertices as int).len() >= 3 <==> three_nbs(g, v),
{
    hide(RawSimpleGraph::edge);
    lemma_degree1(g, v);
    if three_nbs(g, v) { lemma_degree3b(g, v); }
    if nbs(g, v, g.n_vertices as int).len() >= 3 { lemma_degree3a(g, v); }
}
// h is g with i hanging on t only
pub open spec fn pendant(g: RawSimpleGraph, h: RawSimpleGraph, i: int, t: int) -> bool {
    h.n_vertices == g.n_vertices && g.edge(i, t) && forall|a: int, b: int| #[trigger] h.edge(a, b) == ((g.edge(a, b) && a != i && b != i) || (a == i && b == t) || (a == t && b == i))
}
pub proof fn lemma_const(h: RawSimpleGraph, s: spec_fn(int) -> bool, p: Seq<int>, k: int)
    requires gwalk(h, p), 0 <= k < p.len(), forall|u: int, w: int| #[trigger] h.edge(u, w) ==> s(u) == s(w),
    ensures s(p[k]) == s(p[0]),
    decreases k,
{ if k > 0 { lemma_const(h, s, p, k - 1); assert(h.edge(p[k - 1], p[k - 1 + 1])); } }
pub proof fn lemma_pendant_to(g: RawSimpleGraph, h: RawSimpleGraph, i: int, t: int, s: spec_fn(int) -> bool)
    requires pendant(g, h, i, t), forall|v: int| 0 <= v < h.n_vertices ==> #[trigger] reaches(h, 0, v), closed(g, i, s),
    ensures all_or_none(g.n_vertices as int, i, s),
{
    reveal(closed); reveal(all_or_none);
    let n = g.n_vertices as int;
    lemma_edge_in(g, i, t);
    let f = |v: int| if v == i { s(t) } else { s(v) };
    assert forall|u: int, w: int| #[trigger] h.edge(u, w) implies f(u) == f(w) by {
        if g.edge(u, w) && u != i && w != i { lemma_edge_in(g, u, w); assert(g.edge(w, u)); }
    }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != i && b != i && #[trigger] s(a) implies #[trigger] s(b) by {
        assert(reaches(h, 0, a) && reaches(h, 0, b));
        let p = choose|p: Seq<int>| gwalk(h, p) && p[0] == 0 && p.last() == a;
        let q = choose|p: Seq<int>| gwalk(h, p) && p[0] == 0 && p.last() == b;
        lemma_const(h, f, p, p.len() - 1); lemma_const(h, f, q, q.len() - 1);
        assert(f(a) && f(b));
    }
}
pub proof fn lemma_pendant(g: RawSimpleGraph, h: RawSimpleGraph, i: int, t: int)
    requires pendant(g, h, i, t),
    ensures (forall|v: int| 0 <= v < h.n_vertices ==> #[trigger] reaches(h, 0, v)) <==> whole_without(g, i),
{
    reveal(whole_without);
    let n = g.n_vertices as int;
    lemma_edge_in(g, i, t);
    if forall|v: int| 0 <= v < h.n_vertices ==> #[trigger] reaches(h, 0, v) {
        assert forall|s: spec_fn(int) -> bool| #[trigger] closed(g, i, s) implies all_or_none(n, i, s) by { lemma_pendant_to(g, h, i, t, s); }
    }
    if whole_without(g, i) {
        let s = |v: int| reaches(h, 0, v);
        lemma_reach_zero(h);
        assert(closed(g, i, s)) by { reveal(closed); assert forall|u: int, w: int| u != i && w != i && s(u) && #[trigger] g.edge(u, w) implies s(w) by { assert(h.edge(u, w)); lemma_reach_step(h, u, w); } }
        assert(h.edge(i, t) && h.edge(t, i));
        if i == 0 { lemma_reach_step(h, 0, t); assert(s(t)); }
        let a = if i == 0 { t } else { 0 };
        assert(s(a));
        reveal(all_or_none);
        assert forall|v: int| 0 <= v < h.n_vertices implies #[trigger] reaches(h, 0, v) by {
            if v != i { assert(s(v)); } else { assert(s(t)); lemma_reach_step(h, t, i); }
        }
    }
}
pub proof fn lemma_same_good(g: RawSimpleGraph, h: RawSimpleGraph, v: int)
    requires g.n_vertices == h.n_vertices, forall|a: int, b: int| #[trigger] g.edge(a, b) == h.edge(a, b),
    ensures nbs(g, v, g.n_vertices as int) == nbs(h, v, h.n_vertices as int),
{ lemma_same_nbs(g, h, v, g.n_vertices as int); }
pub proof fn lemma_same_nbs(g: RawSimpleGraph, h: RawSimpleGraph, v: int, k: int)
    requires forall|a: int, b: int| #[trigger] g.edge(a, b) == h.edge(a, b),
    ensures nbs(g, v, k) == nbs(h, v, k),
    decreases k,
{ if k > 0 { lemma_same_nbs(g, h, v, k - 1); assert(g.edge(v, k - 1) == h.edge(v, k - 1)); } }
pub proof fn lemma_good_same(g: RawSimpleGraph, h: RawSimpleGraph, v: int)
    requires g.n_vertices == h.n_vertices, forall|a: int, b: int| #[trigger] g.edge(a, b) == h.edge(a, b), good_base(g, v),
    ensures good_base(h, v),
{
    lemma_same_good(g, h, v); lemma_degree(g, v); lemma_degree(h, v);
    if !one_nb(g, v) {
        reveal(whole_without); reveal(closed);
        assert forall|s: spec_fn(int) -> bool| #[trigger] closed(h, v, s) implies all_or_none(g.n_vertices as int, v, s) by {
            assert(closed(g, v, s)) by { assert forall|u: int, w: int| u != v && w != v && s(u) && #[trigger] g.edge(u, w) implies s(w) by { assert(h.edge(u, w)); } }
        }
    }
}
pub open spec fn traded(g: RawSimpleGraph, h: RawSimpleGraph, j: int) -> bool { h.n_vertices == g.n_vertices && 0 < j < g.n_vertices && forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(trn(0, j, a), trn(0, j, b)) }
pub proof fn lemma_traded(g: RawSimpleGraph, h: RawSimpleGraph, j: int, a: int, b: int) requires traded(g, h, j) ensures h.edge(trn(0, j, a), trn(0, j, b)) == g.edge(a, b) { hide(RawSimpleGraph::edge); }
pub proof fn lemma_bring1(g: RawSimpleGraph, h: RawSimpleGraph, j: int)
    requires traded(g, h, j), one_nb(g, j), ensures one_nb(h, 0),
{
    hide(RawSimpleGraph::edge); reveal(one_nb);
    let u = choose|u: int| #[trigger] g.edge(j, u) && forall|w: int| #[trigger] g.edge(j, w) ==> w == u;
    lemma_traded(g, h, j, j, u);
    assert(h.edge(0, trn(0, j, u)));
    assert forall|w: int| #[trigger] h.edge(0, w) implies w == trn(0, j, u) by { assert(g.edge(j, trn(0, j, w))); }
}
pub proof fn lemma_bring3(g: RawSimpleGraph, h: RawSimpleGraph, j: int)
    requires traded(g, h, j), three_nbs(g, j), ensures three_nbs(h, 0),
{
    hide(RawSimpleGraph::edge); reveal(three_nbs);
    let (a, b, c) = choose|a: int, b: int, c: int| #[trigger] g.edge(j, a) && #[trigger] g.edge(j, b) && #[trigger] g.edge(j, c) && a != b && b != c && a != c;
    lemma_traded(g, h, j, j, a); lemma_traded(g, h, j, j, b); lemma_traded(g, h, j, j, c);
    assert(h.edge(0, trn(0, j, a)) && h.edge(0, trn(0, j, b)) && h.edge(0, trn(0, j, c)));
}
pub proof fn lemma_bringw(g: RawSimpleGraph, h: RawSimpleGraph, j: int)
    requires traded(g, h, j), whole_without(g, j), ensures whole_without(h, 0),
{
    hide(RawSimpleGraph::edge); reveal(whole_without);
    let n = g.n_vertices as int;
    assert forall|s: spec_fn(int) -> bool| #[trigger] closed(h, 0, s) implies all_or_none(n, 0, s) by {
        let f = |v: int| s(trn(0, j, v));
        assert(closed(g, j, f)) by { reveal(closed); assert forall|u: int, w: int| u != j && w != j && f(u) && #[trigger] g.edge(u, w) implies f(w) by { lemma_traded(g, h, j, u, w); } }
        assert(all_or_none(n, j, f));
        reveal(all_or_none);
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != 0 && b != 0 && #[trigger] s(a) implies #[trigger] s(b) by { assert(f(trn(0, j, a))); assert(f(trn(0, j, b))); }
    }
}
// swapping 0 and i brings a good base point to 0
pub proof fn lemma_bring(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: usize)
    requires g.wf(), h.wf(), traded(g, h, i as int), h.is_maximal_tree_chosen == g.is_maximal_tree_chosen,
        p.wf(), forall|n: usize| p.f(n) == #[trigger] tr(0, i, n), good_base(g, i as int),
    ensures renumbered(g, h, p), good_base(h, 0),
{
    hide(RawSimpleGraph::edge);
    let j = i as int;
    assert forall|n: usize| #[trigger] p.f(n) == tr(0, i, n) by { assert(p.f(n) == tr(0, i, n)); }
    assert forall|a: usize, b: usize| a < g.n_vertices && b < g.n_vertices implies #[trigger] h.edge(p.f(a) as int, p.f(b) as int) == g.edge(a as int, b as int) by { lemma_traded(g, h, j, a as int, b as int); }
    if one_nb(g, j) { lemma_bring1(g, h, j); } else { lemma_bring3(g, h, j); lemma_bringw(g, h, j); }
}
// e lists the edges at i
pub open spec fn edges_at(g: RawSimpleGraph, e: Seq<(usize, usize)>, i: int) -> bool {
    &&& forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).0 < e[k].1 < g.n_vertices && (e[k].0 == i || e[k].1 == i)
    &&& forall|v: int| #[trigger] has(e, e.len() as int, i, v) <==> g.edge(i, v)
}
pub proof fn lemma_first(g: RawSimpleGraph, e: Seq<(usize, usize)>, i: int)
    requires edges_at(g, e, i), nbs(g, i, g.n_vertices as int).len() >= 3,
    ensures e.len() > 0, g.edge(i, if e[0].0 == i { e[0].1 as int } else { e[0].0 as int }),
{
    nbs_at(g, i, 0); let u = nbs(g, i, g.n_vertices as int)[0]; assert(has(e, e.len() as int, i, u));
    let t = if e[0].0 == i { e[0].1 as int } else { e[0].0 as int }; assert(has(e, e.len() as int, i, t));
}
pub proof fn lemma_restored(g: RawSimpleGraph, h: RawSimpleGraph, e: Seq<(usize, usize)>, i: int, t: int)
    requires edges_at(g, e, i), g.edge(i, t), forall|a: int, b: int| #[trigger] h.edge(a, b) <==> (g.edge(a, b) && a != i && b != i) || (a == i && b == t) || (a == t && b == i) || has(e, e.len() as int, a, b),
    ensures forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(a, b),
{
    assert forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(a, b) by {
        lemma_has_sym(e, e.len() as int, a, b); lemma_has_in(e, e.len() as int, a, b, i); lemma_edge_in(g, a, b); lemma_edge_in(g, b, a); lemma_edge_in(g, i, t);
        assert(has(e, e.len() as int, i, a) <==> g.edge(i, a)); assert(has(e, e.len() as int, i, b) <==> g.edge(i, b));
    }
}
//@fn RawSimpleGraph::choose_base_point self_as=RawSimpleGraph name=choose_base_point maypanic iters=adjacent_vertices_iter acc1=Vec<(usize,usize)>
//@.spec
    requires old(self_).wf(), old(self_).n_vertices >= 2,
    ensures renumbered(*old(self_), *final(self_), r), good_base(*final(self_), 0),
//@.entry
    let ghost g0 = *self_;
    proof { lemma_degree(g0, 0); lemma_single(); lemma_two(); }
//@.loop 0
    invariant __h0 == g0.n_vertices, 0 <= __i0 <= __h0, self_.wf(), self_.n_vertices == g0.n_vertices, self_.is_maximal_tree_chosen == g0.is_maximal_tree_chosen,
        forall|a: int, b: int| #[trigger] self_.edge(a, b) == g0.edge(a, b), forall|v: int| 0 <= v < __i0 ==> !#[trigger] good_base(g0, v), !one_nb(g0, 0),
    decreases __h0 - __i0,
//@.loop 0 begin
    let ghost i0 = __j0 as int; let ghost g1 = *self_;
    proof { lemma_same_good(g0, *self_, i0); lemma_degree(g0, i0); lemma_nbs(g0, i0, g0.n_vertices as int); }
//@.loop 1
    invariant __it1.wf(), *__it1.raw_graph == *self_, __it1.vertex == i, *self_ == g1,
        forall|k: int| 0 <= k < __a1.len() ==> (#[trigger] __a1@[k]).0 < __a1@[k].1 < self_.n_vertices && (__a1@[k].0 == i0 || __a1@[k].1 == i0),
        forall|v: int| #[trigger] has(__a1@, __a1@.len() as int, i0, v) <==> g1.edge(i0, v) && v < __it1.curr,
    ensures __it1.curr == self_.n_vertices,
    decreases self_.n_vertices - __it1.curr,
//@.loop 1 begin
    let ghost s1 = __a1@;
//@.loop 1 end
    proof { lemma_has_push(s1, __a1@, i0, __x1 as int); }
//@.loop 1 after
    let ghost e = __a1@;
    let ghost t = if e[0].0 == i0 { e[0].1 as int } else { e[0].0 as int };
    proof { assert forall|v: int| #[trigger] has(e, e.len() as int, i0, v) <==> g0.edge(i0, v) by { assert(g1.edge(i0, v) == g0.edge(i0, v)); } assert(edges_at(g0, e, i0)); lemma_first(g0, e, i0); }
//@.loop 2 before
    let ghost h = *self_;
    proof { lemma_pendant(g0, h, i0, t); }
//@.loop 2
    invariant __i2 <= __n2, __n2 == e.len(), e == tmp_edges@, self_.wf(), self_.n_vertices == g0.n_vertices, self_.is_maximal_tree_chosen == g0.is_maximal_tree_chosen,
        forall|a: int, b: int| #[trigger] self_.edge(a, b) <==> (g0.edge(a, b) && a != i0 && b != i0) || (a == i0 && b == t) || (a == t && b == i0) || has(e, __i2 as int, a, b),
    decreases __n2 - __i2,
//@.loop 2 end
    proof { lemma_has_next(e, __j2 as int); }
//@.loop 2 after
    proof { lemma_restored(g0, *self_, e, i0, t); }
//@.loop 0 end
    proof { assert(!good_base(g0, i0)); }
//@.ret 0
    proof { assert(traded(g0, *self_, i as int)); assert(forall|n: usize| __ret.f(n) == #[trigger] tr(0, i, n)); lemma_bring(g0, *self_, __ret, i); }
//@.ret 1
    proof { lemma_renumber_id(g0, __ret); assert(good_base(g0, 0)); lemma_good_same(g0, *self_, 0); }
//@.ret 2
    proof { assert(traded(g0, *self_, i as int)); assert(forall|n: usize| __ret.f(n) == #[trigger] tr(0, i, n)); lemma_bring(g0, *self_, __ret, i); }
//@.panic 0
    proof { assert(forall|v: int| 0 <= v < g0.n_vertices ==> !#[trigger] good_base(g0, v)); }
//@.exit
    proof { lemma_renumber_id(g0, __ret); }
//@end
}
pub mod branch { use super::*; use super::gact::{relabelled, lemma_below, shl_assign}; use super::act::moves_below; use super::tree::*;
// ---- the order of the branches
// the vertices i..e are i and what is numbered below it
pub open spec fn is_subend(g: RawSimpleGraph, i: int, e: int) -> bool { &&& i < e <= g.n_vertices &&& forall|b: int| i < b < e ==> #[trigger] joined(g, i, b) &&& e < g.n_vertices ==> !joined(g, i, e) }
// x begins a branch at i: it hangs on nothing between i and x
pub open spec fn heads(g: RawSimpleGraph, i: int, x: int) -> bool { !joined(g, i + 1, x) }
// the beginning of the branch x is in
pub open spec fn head(g: RawSimpleGraph, i: int, x: int) -> int decreases x - i { if x <= i + 1 || heads(g, i, x) { x } else { head(g, i, x - 1) } }
pub open spec fn crosses(g: RawSimpleGraph, m: int, lo: int, hi: int) -> bool { exists|k: int, l: int| 0 <= k < m && lo <= l < hi && #[trigger] g.edge(k, l) }
// the branch of x has an edge to a vertex above i
pub open spec fn back(g: RawSimpleGraph, i: int, e: int, x: int) -> bool { exists|k: int, l: int| 0 <= k < i < l < e && head(g, i, l) == head(g, i, x) && #[trigger] g.edge(k, l) }
pub open spec fn before(g: RawSimpleGraph, i: int, e: int, x: int, y: int) -> bool { if back(g, i, e, x) == back(g, i, e, y) { x < y } else { back(g, i, e, y) } }
// p sorts the vertices i+1..e: those in branches that do not go back first, otherwise as they were
pub open spec fn sorts(g: RawSimpleGraph, i: int, e: int, p: Permutation) -> bool {
    &&& forall|x: usize| !(i < x < e) ==> #[trigger] p.f(x) == x
    &&& forall|x: usize| i < x < e ==> i < #[trigger] p.f(x) < e
    &&& forall|x: usize, y: usize| i < x < e && i < y < e ==> (#[trigger] p.f(x) < #[trigger] p.f(y) <==> before(g, i, e, x as int, y as int))
}
proof fn lemma_head(g: RawSimpleGraph, i: int, x: int)
    requires i < x,
    ensures i < head(g, i, x) <= x, heads(g, i, head(g, i, x)), forall|y: int| head(g, i, x) < y <= x ==> !heads(g, i, y),
    decreases x - i,
{ if x <= i + 1 || heads(g, i, x) { if x == i + 1 { assert(!joined(g, i + 1, x)); } } else { lemma_head(g, i, x - 1); } }
proof fn lemma_head_is(g: RawSimpleGraph, i: int, s: int, x: int)
    requires i < s <= x, heads(g, i, s), forall|y: int| s < y <= x ==> !heads(g, i, y),
    ensures head(g, i, x) == s,
    decreases x - s,
{ if s < x { assert(!heads(g, i, x)); lemma_head_is(g, i, s, x - 1); } }
// edges below i stay within a branch, or go to i or above
proof fn lemma_within(g: RawSimpleGraph, i: int, e: int, a: int, c: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i < a < c, g.edge(a, c),
    ensures a < e <==> c < e, a < e ==> head(g, i, a) == head(g, i, c),
{
    lemma_edge_in(g, a, c);
    if a < e && e <= c { assert(joined(g, a, e)); let u = choose|u: int| a <= u < e && #[trigger] g.edge(u, e); assert(joined(g, i, e)); }
    if a < e {
        lemma_head(g, i, c); lemma_head(g, i, a);
        let s = head(g, i, c);
        if a < s { assert(joined(g, a, s)); let u = choose|u: int| a <= u < s && #[trigger] g.edge(u, s); assert(joined(g, i + 1, s)); }
        assert(s <= a); lemma_head_is(g, i, s, a);
    }
}
// the map of p on numbers, and its inverse
pub open spec fn fw(p: Permutation, x: int) -> int { if 0 <= x <= usize::MAX { p.f(x as usize) as int } else { x } }
pub open spec fn bw(p: Permutation, y: int) -> int { if 0 <= y <= usize::MAX { (choose|x: usize| #[trigger] p.f(x) == y) as int } else { y } }
proof fn lemma_onto(p: Permutation, y: usize)
    requires p.wf(),
    ensures exists|x: usize| #[trigger] p.f(x) == y,
{
    let cs = p.cycles@;
    lemma_pmap(cs, y);
    if exists|i: int| #[trigger] inn(cs, i, y) {
        let i = choose|i: int| #[trigger] inn(cs, i, y);
        let c = cs[i].data@; assert(cyc_wf(c));
        let k = at(c, y); assert(c[k] == y);
        let m = if k == 0 { c.len() - 1 } else { k - 1 };
        lemma_at(c, m); lemma_pmap(cs, c[m]); assert(inn(cs, i, c[m])); assert(p.f(c[m]) == y);
    } else { assert(p.f(y) == y); }
}
proof fn lemma_fb(p: Permutation, x: int)
    requires p.wf(),
    ensures bw(p, fw(p, x)) == x, fw(p, bw(p, x)) == x,
{
    if 0 <= x <= usize::MAX {
        let xu = x as usize;
        lemma_onto(p, xu);
        let y = p.f(xu); assert(exists|z: usize| #[trigger] p.f(z) == y);
        let z = choose|z: usize| #[trigger] p.f(z) == y as int; lemma_pmap_inj(p.cycles@, z, xu);
    }
}
// h is g with the vertices of the branches at i arranged by p
#[verifier::opaque]
pub open spec fn arranged(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int) -> bool {
    &&& h.wf() && h.n_vertices == g.n_vertices && p.wf()
    &&& forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(bw(p, a), bw(p, b))
    &&& forall|x: int| !(i < x < e) ==> #[trigger] fw(p, x) == x
    &&& forall|x: int| i < x < e ==> i < #[trigger] fw(p, x) < e
    &&& forall|x: int, y: int| i < x < e && i < y < e ==> (#[trigger] fw(p, x) < #[trigger] fw(p, y) <==> before(g, i, e, x, y))
}
proof fn lemma_arranged(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int)
    requires g.wf(), renumbered(g, h, p), sorts(g, i, e, p), 0 <= i < e <= g.n_vertices,
    ensures arranged(g, h, p, i, e),
{
    reveal(arranged);
    assert forall|x: int| !(i < x < e) implies #[trigger] fw(p, x) == x by { if 0 <= x <= usize::MAX { assert(p.f(x as usize) == x); } }
    assert forall|x: int| i < x < e implies i < #[trigger] fw(p, x) < e by { assert(i < p.f(x as usize) < e); }
    assert forall|x: int, y: int| i < x < e && i < y < e implies (#[trigger] fw(p, x) < #[trigger] fw(p, y) <==> before(g, i, e, x, y)) by { assert(p.f(x as usize) < p.f(y as usize) <==> before(g, i, e, x as usize as int, y as usize as int)); }
    assert forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(bw(p, a), bw(p, b)) by {
        lemma_fb(p, a); lemma_fb(p, b);
        let (x, y) = (bw(p, a), bw(p, b));
        if 0 <= a < g.n_vertices && 0 <= b < g.n_vertices {
            assert(0 <= x <= usize::MAX && 0 <= y <= usize::MAX);
            if x >= g.n_vertices { assert(!(i < x < e)); assert(fw(p, x) == x); } if y >= g.n_vertices { assert(fw(p, y) == y); }
            assert(h.edge(p.f(x as usize) as int, p.f(y as usize) as int) == g.edge(x as usize as int, y as usize as int));
        } else {
            lemma_edge_in(h, a, b); lemma_edge_in(g, x, y);
            if !(0 <= a < g.n_vertices) { assert(fw(p, a) == a); assert(x == a); } else { assert(fw(p, b) == b); assert(y == b); }
        }
    }
}
// one vertex of the arrangement
proof fn arr1(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, x: int)
    requires arranged(g, h, p, i, e),
    ensures bw(p, fw(p, x)) == x, fw(p, bw(p, x)) == x, !(i < x < e) ==> fw(p, x) == x && bw(p, x) == x, i < x < e ==> i < fw(p, x) < e && i < bw(p, x) < e, h.wf(), h.n_vertices == g.n_vertices,
{ reveal(arranged); lemma_fb(p, x); let y = bw(p, x); assert(!(i < y < e) ==> fw(p, y) == y); assert(i < y < e ==> i < fw(p, y) < e); assert(!(i < x < e) ==> fw(p, x) == x); }
// two vertices of it: edges, and the order
proof fn arr2(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, x: int, y: int)
    requires arranged(g, h, p, i, e),
    ensures h.edge(fw(p, x), fw(p, y)) == g.edge(x, y), i < x < e && i < y < e ==> (fw(p, x) < fw(p, y) <==> before(g, i, e, x, y)),
{ arr1(g, h, p, i, e, x); arr1(g, h, p, i, e, y); reveal(arranged); assert(h.edge(fw(p, x), fw(p, y)) == g.edge(bw(p, fw(p, x)), bw(p, fw(p, y)))); }
proof fn lemma_back(g: RawSimpleGraph, i: int, e: int, x: int, y: int) requires head(g, i, x) == head(g, i, y) ensures back(g, i, e, x) == back(g, i, e, y) { }
// what hangs before x in its branch in g also does so in h
proof fn lemma_hang(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, u: int, x: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), arranged(g, h, p, i, e), 0 <= i <= u < x < e, g.edge(u, x),
    ensures h.edge(fw(p, u), fw(p, x)), i <= fw(p, u) < fw(p, x), fw(p, i) == i, u > i ==> head(g, i, u) == head(g, i, x),
{
    arr2(g, h, p, i, e, u, x); arr1(g, h, p, i, e, u); arr1(g, h, p, i, e, x); arr1(g, h, p, i, e, i);
    if u > i { lemma_within(g, i, e, u, x); lemma_back(g, i, e, u, x); }
}
proof fn lemma_subend(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e),
    ensures is_subend(h, i, e),
{
    arr1(g, h, p, i, e, i);
    assert forall|b: int| i < b < e implies #[trigger] joined(h, i, b) by {
        let x = bw(p, b); arr1(g, h, p, i, e, b);
        assert(joined(g, i, x)); let u = choose|u: int| i <= u < x && #[trigger] g.edge(u, x);
        lemma_hang(g, h, p, i, e, u, x); assert(h.edge(fw(p, u), b));
    }
    if e < g.n_vertices && joined(h, i, e) {
        let u = choose|u: int| i <= u < e && #[trigger] h.edge(u, e);
        arr1(g, h, p, i, e, u); arr1(g, h, p, i, e, e); arr2(g, h, p, i, e, bw(p, u), e);
        assert(g.edge(bw(p, u), e)); assert(joined(g, i, e));
    }
}
proof fn lemma_dfs_kept(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e),
    ensures dfs(h, h.n_vertices - 1), h.n_vertices == g.n_vertices,
{
    arr1(g, h, p, i, e, i);
    assert forall|a: int, b: int, c: int| 0 <= a < b && b <= c && b <= h.n_vertices - 1 && #[trigger] h.edge(a, c) implies #[trigger] joined(h, a, b) by { lemma_dfs_kept1(g, h, p, i, e, a, b, c); }
}
proof fn lemma_dfs_kept1(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, a1: int, b1: int, c1: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), 0 <= a1 < b1 <= c1, b1 < g.n_vertices, h.edge(a1, c1),
    ensures joined(h, a1, b1),
{
    let (a, b, c) = (bw(p, a1), bw(p, b1), bw(p, c1));
    arr1(g, h, p, i, e, a1); arr1(g, h, p, i, e, b1); arr1(g, h, p, i, e, c1);
    arr2(g, h, p, i, e, a, c);
    lemma_edge_in(g, a, c); lemma_edge_in(h, a1, c1);
    if i < a1 < e {
        if a < c { lemma_within(g, i, e, a, c); } else if c > i { lemma_within(g, i, e, c, a); }
        assert(i < c < e && head(g, i, a) == head(g, i, c));
        lemma_back(g, i, e, a, c);
        arr2(g, h, p, i, e, a, b); arr2(g, h, p, i, e, c, b); arr2(g, h, p, i, e, b, c);
        assert(back(g, i, e, b) == back(g, i, e, a) && a < b && b <= c);
        lemma_head(g, i, a); lemma_head(g, i, c); lemma_head_is(g, i, head(g, i, c), b);
        assert(joined(g, a, b)); let u = choose|u: int| a <= u < b && #[trigger] g.edge(u, b);
        lemma_hang(g, h, p, i, e, u, b); lemma_back(g, i, e, u, a); arr2(g, h, p, i, e, a, u); arr2(g, h, p, i, e, u, a);
        assert(h.edge(fw(p, u), b1) && a1 <= fw(p, u));
    } else if i < b1 < e {
        assert(a1 <= i);
        lemma_subend(g, h, p, i, e); assert(joined(h, i, b1)); let u = choose|u: int| i <= u < b1 && #[trigger] h.edge(u, b1); assert(a1 <= u);
    } else {
        assert(a < b && b <= c);
        assert(joined(g, a, b)); let u = choose|u: int| a <= u < b && #[trigger] g.edge(u, b);
        if i < u < e { lemma_within(g, i, e, u, b); }
        arr1(g, h, p, i, e, u); arr2(g, h, p, i, e, u, b); assert(h.edge(u, b1));
    }
}
// ---- what the order of the branches means
// l is numbered below j
pub open spec fn in_sub(g: RawSimpleGraph, j: int, l: int) -> bool { j <= l && forall|b: int| j < b <= l ==> #[trigger] joined(g, j, b) }
// the branch j at v has an edge to a vertex above v
pub open spec fn carries(g: RawSimpleGraph, v: int, j: int) -> bool { exists|k: int, l: int| 0 <= k < v && #[trigger] in_sub(g, j, l) && #[trigger] g.edge(k, l) }
pub open spec fn ordered(g: RawSimpleGraph, v: int) -> bool { forall|j1: int, j2: int| j1 < j2 && #[trigger] is_parent(g, v, j1) && #[trigger] is_parent(g, v, j2) && carries(g, v, j1) ==> carries(g, v, j2) }
proof fn lemma_same_branch(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, j: int, b: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), i < j <= b < e, forall|x: int| j < x <= b ==> #[trigger] joined(h, j, x),
    ensures head(g, i, bw(p, b)) == head(g, i, bw(p, j)),
    decreases b - j,
{
    if j < b {
        assert(joined(h, j, b)); let u = choose|u: int| j <= u < b && #[trigger] h.edge(u, b);
        lemma_same_branch(g, h, p, i, e, j, u);
        arr1(g, h, p, i, e, u); arr1(g, h, p, i, e, b);
        let (x, y) = (bw(p, u), bw(p, b)); arr2(g, h, p, i, e, x, y); lemma_edge_in(g, x, y);
        if x < y { lemma_within(g, i, e, x, y); } else { lemma_within(g, i, e, y, x); }
    }
}
// a branch of h carries an edge back exactly if it was one that does in g
proof fn lemma_carries(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, j: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), is_parent(h, i, j),
    ensures i < j < e, carries(h, i, j) <==> back(g, i, e, bw(p, j)),
{
    lemma_subend(g, h, p, i, e); lemma_dfs_kept(g, h, p, i, e);
    if j >= e { assert(joined(h, i, e)); }
    let x = bw(p, j);
    arr1(g, h, p, i, e, j);
    if carries(h, i, j) {
        let (k, l) = choose|k: int, l: int| 0 <= k < i && #[trigger] in_sub(h, j, l) && #[trigger] h.edge(k, l);
        lemma_edge_in(h, k, l); arr1(g, h, p, i, e, k);
        if l >= e { assert(joined(h, j, e)); let u = choose|u: int| j <= u < e && #[trigger] h.edge(u, e); assert(joined(h, i, e)); }
        lemma_same_branch(g, h, p, i, e, j, l);
        arr1(g, h, p, i, e, l); arr2(g, h, p, i, e, k, bw(p, l));
        assert(g.edge(k, bw(p, l)));
    }
    if back(g, i, e, x) {
        let (k, l) = choose|k: int, l: int| 0 <= k < i < l < e && head(g, i, l) == head(g, i, x) && #[trigger] g.edge(k, l);
        if joined(g, i + 1, x) { let u = choose|u: int| i + 1 <= u < x && #[trigger] g.edge(u, x); lemma_hang(g, h, p, i, e, u, x); arr1(g, h, p, i, e, u); assert(h.edge(fw(p, u), j)); assert(false); }
        assert(head(g, i, x) == x); lemma_head(g, i, l);
        arr1(g, h, p, i, e, k); arr1(g, h, p, i, e, l); arr2(g, h, p, i, e, k, l);
        let l1 = fw(p, l); assert(h.edge(k, l1));
        lemma_back(g, i, e, x, l); arr2(g, h, p, i, e, x, l); arr2(g, h, p, i, e, l, x);
        assert forall|b1: int| j < b1 <= l1 implies #[trigger] joined(h, j, b1) by {
            let b = bw(p, b1); arr1(g, h, p, i, e, b1);
            arr2(g, h, p, i, e, x, b); arr2(g, h, p, i, e, l, b); arr2(g, h, p, i, e, b, l);
            assert(x < b && b <= l);
            assert(!heads(g, i, b)); assert(joined(g, i + 1, b)); let u = choose|u: int| i + 1 <= u < b && #[trigger] g.edge(u, b);
            lemma_hang(g, h, p, i, e, u, b); lemma_head_is(g, i, x, b); lemma_head(g, i, u);
            lemma_back(g, i, e, x, u); arr2(g, h, p, i, e, u, x); arr2(g, h, p, i, e, x, u); assert(h.edge(fw(p, u), b1));
        }
        assert(in_sub(h, j, l1));
    }
}
proof fn lemma_ordered_here(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e),
    ensures ordered(h, i),
{
    assert forall|j1: int, j2: int| j1 < j2 && #[trigger] is_parent(h, i, j1) && #[trigger] is_parent(h, i, j2) && carries(h, i, j1) implies carries(h, i, j2) by {
        lemma_carries(g, h, p, i, e, j1); lemma_carries(g, h, p, i, e, j2);
        arr1(g, h, p, i, e, j1); arr1(g, h, p, i, e, j2); arr2(g, h, p, i, e, bw(p, j1), bw(p, j2));
    }
}
// outside the branches nothing changes
proof fn lemma_joined_same(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, j: int, b: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), !(i < b < e), !(i < j < e),
    ensures joined(g, j, b) == joined(h, j, b),
{
    arr1(g, h, p, i, e, b);
    if joined(g, j, b) {
        let u = choose|u: int| j <= u < b && #[trigger] g.edge(u, b); lemma_edge_in(g, u, b);
        if i < u < e { lemma_within(g, i, e, u, b); }
        arr1(g, h, p, i, e, u); arr2(g, h, p, i, e, u, b); assert(h.edge(u, b));
    }
    if joined(h, j, b) {
        let u = choose|u: int| j <= u < b && #[trigger] h.edge(u, b); lemma_edge_in(h, u, b);
        let x = bw(p, u); arr1(g, h, p, i, e, u); arr2(g, h, p, i, e, x, b);
        if i < x < e { lemma_within(g, i, e, x, b); }
        assert(g.edge(x, b));
    }
}
proof fn lemma_in_sub(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, j: int, l: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), !(i < j < e),
    ensures in_sub(g, j, l) <==> in_sub(h, j, fw(p, l)),
{
    lemma_subend(g, h, p, i, e); arr1(g, h, p, i, e, l);
    let m = fw(p, l);
    if in_sub(g, j, l) {
        assert forall|b: int| j < b <= m implies #[trigger] joined(h, j, b) by {
            if i < b < e { assert(joined(h, i, b)); let u = choose|u: int| i <= u < b && #[trigger] h.edge(u, b); assert(j <= u); } else { assert(joined(g, j, b)); lemma_joined_same(g, h, p, i, e, j, b); }
        }
    }
    if in_sub(h, j, m) {
        assert forall|b: int| j < b <= l implies #[trigger] joined(g, j, b) by {
            if i < b < e { assert(joined(g, i, b)); let u = choose|u: int| i <= u < b && #[trigger] g.edge(u, b); assert(j <= u); } else { assert(joined(h, j, b)); lemma_joined_same(g, h, p, i, e, j, b); }
        }
    }
}
proof fn lemma_ordered_kept(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, v: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= v < i, arranged(g, h, p, i, e), ordered(g, v),
    ensures ordered(h, v),
{
    arr1(g, h, p, i, e, v);
    assert forall|j1: int, j2: int| j1 < j2 && #[trigger] is_parent(h, v, j1) && #[trigger] is_parent(h, v, j2) && carries(h, v, j1) implies carries(h, v, j2) by {
        lemma_child_same(g, h, p, i, e, v, j1); lemma_child_same(g, h, p, i, e, v, j2);
        assert(is_parent(g, v, j1) && is_parent(g, v, j2));
    }
}
proof fn lemma_child_same(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int, v: int, j: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= v < i, arranged(g, h, p, i, e), is_parent(h, v, j),
    ensures is_parent(g, v, j), carries(g, v, j) <==> carries(h, v, j),
{
    lemma_subend(g, h, p, i, e); arr1(g, h, p, i, e, v); arr1(g, h, p, i, e, j); arr2(g, h, p, i, e, v, j);
    if i < j < e { assert(joined(h, i, j)); let u = choose|u: int| i <= u < j && #[trigger] h.edge(u, j); assert(false); }
    assert forall|k: int| v < k < j implies !#[trigger] g.edge(k, j) by {
        if g.edge(k, j) { if i < k < e { lemma_within(g, i, e, k, j); } arr1(g, h, p, i, e, k); arr2(g, h, p, i, e, k, j); assert(h.edge(k, j)); }
    }
    if carries(g, v, j) {
        let (k, l) = choose|k: int, l: int| 0 <= k < v && #[trigger] in_sub(g, j, l) && #[trigger] g.edge(k, l);
        lemma_in_sub(g, h, p, i, e, j, l); arr1(g, h, p, i, e, k); arr2(g, h, p, i, e, k, l); assert(h.edge(k, fw(p, l)));
    }
    if carries(h, v, j) {
        let (k, m) = choose|k: int, l: int| 0 <= k < v && #[trigger] in_sub(h, j, l) && #[trigger] h.edge(k, l);
        let l = bw(p, m); arr1(g, h, p, i, e, m);
        lemma_in_sub(g, h, p, i, e, j, l); arr1(g, h, p, i, e, k); arr2(g, h, p, i, e, k, l); assert(g.edge(k, l));
    }
}
// every vertex but 0 hangs on a smaller one
pub open spec fn all_joined(g: RawSimpleGraph) -> bool { forall|b: int| 0 < b < g.n_vertices ==> #[trigger] joined(g, 0, b) }
proof fn lemma_all_joined(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int, e: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), is_subend(g, i, e), 0 <= i, arranged(g, h, p, i, e), all_joined(g),
    ensures all_joined(h),
{
    lemma_subend(g, h, p, i, e); arr1(g, h, p, i, e, i);
    assert forall|b: int| 0 < b < h.n_vertices implies #[trigger] joined(h, 0, b) by {
        if i < b < e { assert(joined(h, i, b)); let u = choose|u: int| i <= u < b && #[trigger] h.edge(u, b); assert(0 <= u); } else { assert(joined(g, 0, b)); lemma_joined_same(g, h, p, i, e, 0, b); }
    }
}
proof fn lemma_connected(g: RawSimpleGraph)
    requires dfs(g, g.n_vertices - 1), whole_without(g, -1),
    ensures all_joined(g),
{
    reveal(whole_without);
    assert forall|b: int| 0 < b < g.n_vertices implies #[trigger] joined(g, 0, b) by {
        let s = |v: int| v < b;
        if closed(g, -1, s) { assert(all_or_none(g.n_vertices as int, -1, s)); reveal(all_or_none); assert(s(0)); assert(s(b)); }
        reveal(closed);
        let (u, w) = choose|u: int, w: int| u != -1 && w != -1 && s(u) && #[trigger] g.edge(u, w) && !s(w);
        lemma_edge_in(g, u, w); assert(joined(g, u, b)); let x = choose|x: int| u <= x < b && #[trigger] g.edge(x, b); assert(0 <= x);
    }
}
proof fn lemma_few(g: RawSimpleGraph, i: int)
    requires g.wf(), all_joined(g), 0 <= i < g.n_vertices, nbs(g, i, g.n_vertices as int).len() <= 2,
    ensures ordered(g, i),
{
    lemma_degree(g, i);
    assert forall|j1: int, j2: int| j1 < j2 && #[trigger] is_parent(g, i, j1) && #[trigger] is_parent(g, i, j2) && carries(g, i, j1) implies carries(g, i, j2) by {
        if i > 0 {
            assert(joined(g, 0, i)); let u = choose|u: int| 0 <= u < i && #[trigger] g.edge(u, i);
            lemma_edge_in(g, u, i); lemma_edge_in(g, i, j1); reveal(three_nbs); assert(g.edge(i, u) && g.edge(i, j1) && g.edge(i, j2)); assert(three_nbs(g, i));
        }
    }
}
// ---- the branches at i, listed up to s
pub open spec fn branch_ok(g: RawSimpleGraph, i: int, b: (std::ops::Range<usize>, bool)) -> bool {
    &&& i < b.0.start <= b.0.end && heads(g, i, b.0.start as int)
    &&& forall|y: int| b.0.start < y < b.0.end ==> !#[trigger] heads(g, i, y)
    &&& b.1 == crosses(g, i, b.0.start as int, b.0.end as int)
}
#[verifier::opaque]
pub open spec fn listed(g: RawSimpleGraph, i: int, br: Seq<(std::ops::Range<usize>, bool)>, s: int) -> bool {
    &&& br.len() == 0 ==> s == i + 1
    &&& br.len() > 0 ==> br[0].0.start == i + 1 && br.last().0.end == s
    &&& forall|t: int| 0 <= t < br.len() ==> branch_ok(g, i, #[trigger] br[t])
    &&& forall|t: int, t1: int| 0 <= t && t1 == t + 1 && t1 < br.len() ==> (#[trigger] br[t]).0.end == (#[trigger] br[t1]).0.start
}
pub proof fn lemma_list_none(g: RawSimpleGraph, i: int, br: Seq<(std::ops::Range<usize>, bool)>)
    requires br.len() == 0, ensures listed(g, i, br, i + 1),
{ reveal(listed); }
pub proof fn lemma_list_push(g: RawSimpleGraph, i: int, br: Seq<(std::ops::Range<usize>, bool)>, s: int, b: (std::ops::Range<usize>, bool))
    requires listed(g, i, br, s), b.0.start == s, branch_ok(g, i, b),
    ensures listed(g, i, br.push(b), b.0.end as int),
{ reveal(listed); let c = br.push(b); assert forall|t: int, t1: int| 0 <= t && t1 == t + 1 && t1 < c.len() implies (#[trigger] c[t]).0.end == (#[trigger] c[t1]).0.start by { if t1 == br.len() { assert(c[t] == br.last()); } } }
pub proof fn lemma_list_at(g: RawSimpleGraph, i: int, br: Seq<(std::ops::Range<usize>, bool)>, s: int, t: int)
    requires listed(g, i, br, s), 0 <= t < br.len(),
    ensures branch_ok(g, i, br[t]), t == 0 ==> br[t].0.start == i + 1, t + 1 == br.len() ==> br[t].0.end == s, t + 1 < br.len() ==> br[t].0.end == br[t + 1].0.start, br[t].0.end <= s,
    decreases br.len() - t,
{ reveal(listed); assert(branch_ok(g, i, br[t])); if t + 1 < br.len() { lemma_list_at(g, i, br, s, t + 1); assert(br[t].0.end == br[t + 1].0.start); } }
pub proof fn lemma_branch_back(g: RawSimpleGraph, i: int, e: int, b: (std::ops::Range<usize>, bool), x: int)
    requires branch_ok(g, i, b), b.0.start <= x < b.0.end <= e, b.0.end < e ==> heads(g, i, b.0.end as int),
    ensures back(g, i, e, x) == b.1,
{
    let (s, c) = (b.0.start as int, b.0.end as int);
    lemma_head_is(g, i, s, x);
    if b.1 { let (k, l) = choose|k: int, l: int| 0 <= k < i && s <= l < c && #[trigger] g.edge(k, l); lemma_head_is(g, i, s, l); }
    if back(g, i, e, x) {
        let (k, l) = choose|k: int, l: int| 0 <= k < i < l < e && head(g, i, l) == head(g, i, x) && #[trigger] g.edge(k, l);
        lemma_head(g, i, l);
        if l >= c { assert(heads(g, i, c)); assert(!heads(g, i, c)); }
    }
}
// the permutations applied so far put the branches from s on in order, those that go back from m on
#[verifier::opaque]
pub open spec fn placed(g: RawSimpleGraph, i: int, e: int, s: int, m: int, acts: Seq<Permutation>) -> bool {
    &&& i < s <= m <= e && all_pwf(acts)
    &&& forall|x: usize| !(s <= x < e) ==> #[trigger] pprod(acts, acts.len() as int, x) == x
    &&& forall|x: usize| s <= x < e ==> if back(g, i, e, x as int) { m <= #[trigger] pprod(acts, acts.len() as int, x) < e } else { s <= pprod(acts, acts.len() as int, x) < m }
    &&& forall|x: usize, y: usize| s <= x < e && s <= y < e ==> (#[trigger] pprod(acts, acts.len() as int, x) < #[trigger] pprod(acts, acts.len() as int, y) <==> before(g, i, e, x as int, y as int))
}
pub proof fn lemma_placed_bounds(g: RawSimpleGraph, i: int, e: int, s: int, m: int, acts: Seq<Permutation>)
    requires placed(g, i, e, s, m, acts), ensures i < s <= m <= e, all_pwf(acts),
{ reveal(placed); }
pub proof fn lemma_placed_none(g: RawSimpleGraph, i: int, e: int, acts: Seq<Permutation>)
    requires acts.len() == 0, i < e, ensures placed(g, i, e, e, e, acts),
{ reveal(placed); }
// a branch that does not go back stays where it is
pub proof fn lemma_placed_keep(g: RawSimpleGraph, i: int, e: int, s: int, m: int, acts: Seq<Permutation>, b: (std::ops::Range<usize>, bool))
    requires placed(g, i, e, s, m, acts), branch_ok(g, i, b), b.0.end == s, s < e ==> heads(g, i, s), !b.1,
    ensures placed(g, i, e, b.0.start as int, m, acts),
{
    reveal(placed);
    let (a, n) = (b.0.start as int, acts.len() as int);
    assert forall|x: usize| a <= x < s implies !#[trigger] back(g, i, e, x as int) by { lemma_branch_back(g, i, e, b, x as int); }
    assert forall|x: usize, y: usize| a <= x < e && a <= y < e implies (#[trigger] pprod(acts, n, x) < #[trigger] pprod(acts, n, y) <==> before(g, i, e, x as int, y as int)) by {
        if x < s { assert(pprod(acts, n, x) == x); assert(!back(g, i, e, x as int)); } if y < s { assert(pprod(acts, n, y) == y); assert(!back(g, i, e, y as int)); }
    }
    assert forall|x: usize| a <= x < e implies if back(g, i, e, x as int) { m <= #[trigger] pprod(acts, n, x) < e } else { a <= pprod(acts, n, x) < m } by { if x < s { assert(pprod(acts, n, x) == x); assert(!back(g, i, e, x as int)); } }
}
// a branch that goes back is moved behind the ones that do not
pub open spec fn moves_behind(out: Permutation, a: int, s: int, m: int) -> bool {
    forall|x: usize| #[trigger] out.f(x) == if a <= x < s { x + m - s } else if s <= x < m { x - (s - a) } else { x as int }
}
pub proof fn lemma_placed_move(g: RawSimpleGraph, i: int, e: int, s: int, m: int, acts: Seq<Permutation>, b: (std::ops::Range<usize>, bool), out: Permutation)
    requires placed(g, i, e, s, m, acts), branch_ok(g, i, b), b.0.end == s, s < e ==> heads(g, i, s), b.1, out.wf(), moves_behind(out, b.0.start as int, s, m),
    ensures placed(g, i, e, b.0.start as int, m - (s - b.0.start), acts.push(out)),
{
    reveal(placed);
    let (a, n) = (b.0.start as int, acts.len() as int);
    let m1 = m - (s - a);
    let t = acts.push(out);
    assert forall|x: usize| a <= x < s implies #[trigger] back(g, i, e, x as int) by { lemma_branch_back(g, i, e, b, x as int); }
    assert forall|x: usize| #[trigger] pprod(t, n + 1, x) == out.f(pprod(acts, n, x)) by { lemma_pprod_ext(acts, t, n, x); assert(t[n] == out); }
    assert(t.len() == n + 1);
    assert forall|x: usize| !(a <= x < e) implies #[trigger] pprod(t, n + 1, x) == x by { assert(pprod(acts, n, x) == x); }
    assert forall|x: usize| a <= x < e implies if back(g, i, e, x as int) { m1 <= #[trigger] pprod(t, n + 1, x) < e } else { a <= pprod(t, n + 1, x) < m1 } by { if x < s { assert(pprod(acts, n, x) == x); assert(back(g, i, e, x as int)); } else { let y = pprod(acts, n, x); assert(out.f(y) == if s <= y < m { y - (s - a) } else { y as int }); } }
    assert forall|x: usize, y: usize| a <= x < e && a <= y < e implies (#[trigger] pprod(t, n + 1, x) < #[trigger] pprod(t, n + 1, y) <==> before(g, i, e, x as int, y as int)) by {
        let (u, v) = (pprod(acts, n, x), pprod(acts, n, y));
        if x < s { assert(u == x); assert(back(g, i, e, x as int)); } if y < s { assert(v == y); assert(back(g, i, e, y as int)); }
        assert(out.f(u) == if a <= u < s { u + m - s } else if s <= u < m { u - (s - a) } else { u as int });
        assert(out.f(v) == if a <= v < s { v + m - s } else if s <= v < m { v - (s - a) } else { v as int });
    }
}
pub proof fn lemma_placed_all(g: RawSimpleGraph, i: int, e: int, m: int, acts: Seq<Permutation>, p: Permutation)
    requires placed(g, i, e, i + 1, m, acts), p.wf(), forall|n: usize| #[trigger] p.f(n) == pprod(acts, acts.len() as int, n),
    ensures sorts(g, i, e, p),
{
    reveal(placed);
    let n = acts.len() as int;
    assert forall|x: usize| i < x < e implies i < #[trigger] p.f(x) < e by { assert(p.f(x) == pprod(acts, n, x)); }
    assert forall|x: usize, y: usize| i < x < e && i < y < e implies (#[trigger] p.f(x) < #[trigger] p.f(y) <==> before(g, i, e, x as int, y as int)) by { assert(pprod(acts, n, x) < pprod(acts, n, y) <==> before(g, i, e, x as int, y as int)); }
}
pub open spec fn is_prod(a: Permutation, acts: Seq<Permutation>) -> bool { a.wf() && forall|n: usize| #[trigger] a.f(n) == pprod(acts, acts.len() as int, n) }
pub proof fn lemma_placed_below(g: RawSimpleGraph, i: int, e: int, m: int, acts: Seq<Permutation>)
    requires placed(g, i, e, i + 1, m, acts), e <= g.n_vertices,
    ensures forall|a: Permutation, q: Permutation| is_prod(a, acts) && #[trigger] a.is_copy(q) ==> q.wf() && moves_below(a, g.n_vertices as int) && moves_below(q, g.n_vertices as int),
{
    reveal(placed);
    assert forall|a: Permutation, q: Permutation| is_prod(a, acts) && #[trigger] a.is_copy(q) implies q.wf() && moves_below(a, g.n_vertices as int) && moves_below(q, g.n_vertices as int) by {
        lemma_same(q.cycles@, a.cycles@);
        assert forall|n: usize| #[trigger] q.f(n) != n implies n < g.n_vertices by { lemma_same_pmap(q.cycles@, a.cycles@, n); assert(a.f(n) == pprod(acts, acts.len() as int, n)); }
        assert forall|n: usize| #[trigger] a.f(n) != n implies n < g.n_vertices by { assert(a.f(n) == pprod(acts, acts.len() as int, n)); }
    }
}
pub open spec fn all_ordered(g: RawSimpleGraph, k: int) -> bool { forall|v: int| 0 <= v < k ==> #[trigger] ordered(g, v) }
// one vertex done
pub proof fn lemma_branches_done(g0: RawSimpleGraph, g: RawSimpleGraph, h: RawSimpleGraph, p0: Permutation, q: Permutation, p: Permutation, i: int, e: int)
    requires renumbered(g0, g, p0), renumbered(g, h, q), p.wf(), forall|n: usize| #[trigger] p.f(n) == q.f(p0.f(n)), sorts(g, i, e, q), 0 <= i < e <= g.n_vertices, p0.f(0) == 0,
        g.wf(), dfs(g, g.n_vertices - 1), all_joined(g), is_subend(g, i, e), all_ordered(g, i),
    ensures renumbered(g0, h, p), p.f(0) == 0, dfs(h, h.n_vertices - 1), all_joined(h), all_ordered(h, i + 1),
{
    lemma_compose(g0, g, h, p0, q, p);
    lemma_arranged(g, h, q, i, e); lemma_dfs_kept(g, h, q, i, e); lemma_all_joined(g, h, q, i, e);
    assert(q.f(0) == 0); assert(p.f(0) == q.f(p0.f(0)));
    assert forall|v: int| 0 <= v < i + 1 implies #[trigger] ordered(h, v) by { if v == i { lemma_ordered_here(g, h, q, i, e); } else { assert(ordered(g, v)); lemma_ordered_kept(g, h, q, i, e, v); } }
}
pub proof fn lemma_few_nbs(g: RawSimpleGraph, i: int)
    requires g.wf(), all_joined(g), 0 <= i < g.n_vertices, all_ordered(g, i),
    ensures nbs(g, i, g.n_vertices as int).len() <= 2 ==> all_ordered(g, i + 1),
{ if nbs(g, i, g.n_vertices as int).len() <= 2 { lemma_few(g, i); } }
pub proof fn lemma_q(g: RawSimpleGraph, h: RawSimpleGraph, a: Permutation, q: Permutation)
    requires a.wf(), moves_below(a, g.n_vertices as int), a.is_copy(q), relabelled(g, h, q),
    ensures renumbered(g, h, a),
{ lemma_copied(g, h, a); }
//@fn RawSimpleGraph::modify_ordering_of_the_branches self_as=RawSimpleGraph name=modify_ordering rename:clone=vcopy op:<<==~shl_assign op:*=Permutation::mul product_fn=Permutation::product acc3=Vec<(std::ops::Range<usize>,bool)> acc8=Vec<Permutation> plaincontinue
//@.spec
    requires old(self_).wf(), old(self_).n_vertices >= 1, old(self_).is_maximal_tree_chosen, dfs(*old(self_), old(self_).n_vertices - 1), all_joined(*old(self_)),
    ensures renumbered(*old(self_), *final(self_), r), r.f(0) == 0, dfs(*final(self_), final(self_).n_vertices - 1), all_joined(*final(self_)), all_ordered(*final(self_), final(self_).n_vertices as int),
//@.entry
    let ghost g0 = *self_;
//@.loop 0 before
    proof { lemma_renumber_id(g0, p); }
//@.loop 0
    invariant __h0 == g0.n_vertices - 1, 0 <= __i0 <= __h0, self_.n_vertices == g0.n_vertices, self_.wf(), self_.is_maximal_tree_chosen, renumbered(g0, *self_, p), p.f(0) == 0, dfs(*self_, self_.n_vertices - 1), all_joined(*self_), all_ordered(*self_, __i0 as int),
    decreases __h0 - __i0,
//@.loop 0 begin
    let ghost (g, p1, i0) = (*self_, p, __j0 as int);
    proof { lemma_few_nbs(g, i0); }
//@.loop 1
    invariant *self_ == g, __h1 == i + 1, __h1_1 == g.n_vertices, __h1 <= __i1 <= __h1_1, g.wf(), i == i0,
        __a1 is None ==> forall|b: int| i < b < __i1 ==> #[trigger] joined(g, i0, b),
        __a1 matches Some(c) ==> is_subend(g, i0, c as int),
    decreases __h1_1 - __i1,
//@.loop 2
    invariant *self_ == g, g.wf(), __h2 == j, i <= __i2 <= __h2, i == i0, j < g.n_vertices,
        __a2 ==> forall|k: int| i <= k < __i2 ==> !#[trigger] g.edge(k, j as int),
        !__a2 ==> joined(g, i0, j as int),
    decreases __h2 - __i2,
//@.loop 3 before
    let ghost e = subtree_end as int;
    proof { assert(is_subend(g, i0, e)); lemma_list_none(g, i0, __a3@); assert(heads(g, i0, i0 + 1)); }
//@.loop 3
    invariant *self_ == g, g.wf(), g.is_maximal_tree_chosen, i == i0, e == subtree_end, is_subend(g, i0, e), __h3 == i + 2, __h3_1 == e, __h3 <= __i3, __i3 <= e || __i3 == __h3, i < start <= e, start < __i3,
        listed(g, i0, __a3@, start as int), heads(g, i0, start as int), forall|y: int| start < y < __i3 && y < e ==> !#[trigger] heads(g, i0, y),
    decreases __h3_1 - __i3,
//@.loop 3 begin
    let ghost (br0, start0) = (__a3@, start as int);
    proof { assert(joined(g, i0, __j3 as int)); assert(heads(g, i0, __j3 as int) <==> is_parent(g, i0, __j3 as int)) by { let j3 = __j3 as int; if heads(g, i0, j3) { let u = choose|u: int| i0 <= u < j3 && #[trigger] g.edge(u, j3); assert(u == i0) by { if u != i0 { assert(joined(g, i0 + 1, j3)); } } } if is_parent(g, i0, j3) && joined(g, i0 + 1, j3) { let u = choose|u: int| i0 + 1 <= u < j3 && #[trigger] g.edge(u, j3); } } }
//@.loop 4
    invariant *self_ == g, g.wf(), i == i0, __h4 == i, __i4 <= __h4, i < start < j, j < g.n_vertices,
        !__a4 ==> !crosses(g, __i4 as int, start as int, j as int), __a4 ==> crosses(g, i0, start as int, j as int),
    decreases __h4 - __i4,
//@.loop 5
    invariant *self_ == g, g.wf(), i == i0, k < i, i < start < j, j < g.n_vertices, __h5 == j, start <= __i5 <= __h5,
        !__a5 ==> forall|l: int| start <= l < __i5 ==> !#[trigger] g.edge(k as int, l), __a5 ==> crosses(g, i0, start as int, j as int),
    decreases __h5 - __i5,
//@.loop 3 end
    proof { if __a3@.len() > br0.len() { let b = __a3@.last(); assert(__a3@ == br0.push(b)); assert(branch_ok(g, i0, b)); lemma_list_push(g, i0, br0, start0, b); } }
//@.loop 3 after
    let ghost br0 = __a3@; let ghost mut acts0: Seq<Permutation> = Seq::empty(); let ghost mut m0 = 0int;
//@.loop 6
    invariant *self_ == g, g.wf(), i == i0, __h6 == i, __i6 <= __h6, i < start <= subtree_end, subtree_end <= g.n_vertices,
        !__a6 ==> !crosses(g, __i6 as int, start as int, subtree_end as int), __a6 ==> crosses(g, i0, start as int, subtree_end as int),
    decreases __h6 - __i6,
//@.loop 7
    invariant *self_ == g, g.wf(), i == i0, k < i, i < start <= subtree_end, subtree_end <= g.n_vertices, __h7 == subtree_end, start <= __i7 <= __h7,
        !__a7 ==> forall|l: int| start <= l < __i7 ==> !#[trigger] g.edge(k as int, l), __a7 ==> crosses(g, i0, start as int, subtree_end as int),
    decreases __h7 - __i7,
//@.loop 8 before
    proof { let b = branches@.last(); assert(branches@ == br0.push(b)); assert(branch_ok(g, i0, b)); lemma_list_push(g, i0, br0, start as int, b); lemma_placed_none(g, i0, e, __a8@); }
    let ghost br = branches@; let ghost mut s = e;
//@.loop 8
    invariant br == branches@, __n8 == br.len(), __i8 <= __n8, e == subtree_end, listed(g, i0, br, e), placed(g, i0, e, s, end as int, __a8@), __i8 == 0 ==> s == e, __i8 > 0 ==> s == br[br.len() - __i8].0.start, s < e ==> heads(g, i0, s),
    decreases __n8 - __i8,
//@.loop 8 begin
    let ghost b = br[br.len() - 1 - __j8]; let ghost (acts, m, s1) = (__a8@, end as int, s);
    proof { lemma_list_at(g, i0, br, e, br.len() - 1 - __j8); lemma_placed_bounds(g, i0, e, s, m, acts); lemma_two(); lemma_single(); }
//@.loop 8 end
    proof {
        s = b.0.start as int;
        if b.1 { let out = __a8@.last(); assert(__a8@ == acts.push(out)); assert(moves_behind(out, s, s1, m)); lemma_placed_move(g, i0, e, s1, m, acts, b, out); }
        else { lemma_placed_keep(g, i0, e, s1, m, acts, b); }
    }
//@.loop 8 after
    proof { lemma_list_at(g, i0, br, e, 0); lemma_placed_bounds(g, i0, e, s, end as int, __a8@); }
    proof { acts0 = __a8@; m0 = end as int; lemma_placed_below(g, i0, e, end as int, acts0); }
//@.loop 0 end
    proof {
        let ghost a = action;
        lemma_placed_all(g, i0, e, m0, acts0, a);
        assert(exists|q: Permutation| #[trigger] a.is_copy(q) && relabelled(g, *self_, q));
        lemma_copied(g, *self_, a);
        lemma_branches_done(g0, g, *self_, p1, a, p, i0, e);
    }
//@end
// ---- the three steps together
pub open spec fn flagged(g: RawSimpleGraph) -> RawSimpleGraph { RawSimpleGraph { is_maximal_tree_chosen: true, ..g } }
// what the numbering of a connected graph satisfies in the end
pub open spec fn depth_first(g: RawSimpleGraph) -> bool { &&& g.wf() && g.is_maximal_tree_chosen &&& good_base(g, 0) &&& dfs(g, g.n_vertices - 1) &&& all_joined(g) &&& all_ordered(g, g.n_vertices as int) }
pub proof fn lemma_tr(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, a: int)
    requires g.wf(), renumbered(g, h, p),
    ensures 0 <= a < g.n_vertices <==> 0 <= fw(p, a) < g.n_vertices, 0 <= a < g.n_vertices <==> 0 <= bw(p, a) < g.n_vertices, fw(p, bw(p, a)) == a, bw(p, fw(p, a)) == a, h.n_vertices == g.n_vertices, h.wf(),
{
    lemma_fb(p, a); let x = bw(p, a); let n = g.n_vertices as int;
    if 0 <= a < n { lemma_below(p, n, a as usize); }
    if 0 <= x < n { lemma_below(p, n, x as usize); }
    if n <= a <= usize::MAX { assert(p.f(a as usize) == a); }
    if n <= x <= usize::MAX { assert(p.f(x as usize) == x); }
}
pub proof fn lemma_tr_edge(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, a: int, b: int)
    requires g.wf(), renumbered(g, h, p),
    ensures h.edge(fw(p, a), fw(p, b)) == g.edge(a, b),
{
    lemma_tr(g, h, p, a); lemma_tr(g, h, p, b); lemma_edge_in(g, a, b); lemma_edge_in(h, fw(p, a), fw(p, b));
    if 0 <= a < g.n_vertices && 0 <= b < g.n_vertices { assert(h.edge(p.f(a as usize) as int, p.f(b as usize) as int) == g.edge(a as usize as int, b as usize as int)); }
}
pub proof fn lemma_tr_whole(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, i: int)
    requires g.wf(), renumbered(g, h, p), whole_without(g, i),
    ensures whole_without(h, fw(p, i)),
{
    hide(RawSimpleGraph::edge); reveal(whole_without);
    let n = g.n_vertices as int; let j = fw(p, i);
    assert forall|s: spec_fn(int) -> bool| #[trigger] closed(h, j, s) implies all_or_none(h.n_vertices as int, j, s) by {
        let f = |v: int| s(fw(p, v));
        assert(closed(g, i, f)) by { reveal(closed); assert forall|u: int, w: int| u != i && w != i && f(u) && #[trigger] g.edge(u, w) implies f(w) by { lemma_tr_edge(g, h, p, u, w); lemma_fb(p, u); lemma_fb(p, w); lemma_fb(p, i); } }
        assert(all_or_none(n, i, f));
        reveal(all_or_none);
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != j && b != j && #[trigger] s(a) implies #[trigger] s(b) by { lemma_tr(g, h, p, a); lemma_tr(g, h, p, b); assert(f(bw(p, a))); assert(f(bw(p, b))); }
    }
}
pub proof fn lemma_tr_nb1(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, v: int)
    requires g.wf(), renumbered(g, h, p), one_nb(g, v),
    ensures one_nb(h, fw(p, v)),
{
    hide(RawSimpleGraph::edge); hide(renumbered); hide(fw); hide(bw); reveal(one_nb);
    let u = choose|u: int| #[trigger] g.edge(v, u) && forall|w: int| #[trigger] g.edge(v, w) ==> w == u;
    let (v1, u1) = (fw(p, v), fw(p, u));
    lemma_tr_edge(g, h, p, v, u); assert(h.edge(v1, u1));
    assert forall|w: int| #[trigger] h.edge(v1, w) implies w == u1 by { lemma_tr(g, h, p, w); lemma_tr_edge(g, h, p, v, bw(p, w)); assert(g.edge(v, bw(p, w))); }
}
pub proof fn lemma_tr_nb3(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation, v: int)
    requires g.wf(), renumbered(g, h, p), three_nbs(g, v),
    ensures three_nbs(h, fw(p, v)),
{
    hide(RawSimpleGraph::edge); hide(renumbered); hide(fw); hide(bw); reveal(three_nbs);
    let (a, b, c) = choose|a: int, b: int, c: int| #[trigger] g.edge(v, a) && #[trigger] g.edge(v, b) && #[trigger] g.edge(v, c) && a != b && b != c && a != c;
    lemma_tr_edge(g, h, p, v, a); lemma_tr_edge(g, h, p, v, b); lemma_tr_edge(g, h, p, v, c); lemma_tr(g, h, p, a); lemma_tr(g, h, p, b); lemma_tr(g, h, p, c);
    assert(h.edge(fw(p, v), fw(p, a)) && h.edge(fw(p, v), fw(p, b)) && h.edge(fw(p, v), fw(p, c)));
}
pub proof fn lemma_tr_good(g: RawSimpleGraph, h: RawSimpleGraph, p: Permutation)
    requires g.wf(), renumbered(g, h, p), good_base(g, 0), p.f(0) == 0,
    ensures good_base(h, 0),
{ assert(fw(p, 0) == 0); if one_nb(g, 0) { lemma_tr_nb1(g, h, p, 0); } else { lemma_tr_nb3(g, h, p, 0); } if whole_without(g, 0) { lemma_tr_whole(g, h, p, 0); } }
pub proof fn lemma_flagged(g: RawSimpleGraph)
    requires g.wf(),
    ensures flagged(g).wf(), forall|a: int, b: int| #[trigger] flagged(g).edge(a, b) == g.edge(a, b), good_base(g, 0) ==> good_base(flagged(g), 0), dfs(g, g.n_vertices - 1) ==> dfs(flagged(g), g.n_vertices - 1), all_joined(g) ==> all_joined(flagged(g)),
{
    let h = flagged(g);
    assert forall|a: int, b: int| #[trigger] h.edge(a, b) == g.edge(a, b) by { }
    if good_base(g, 0) { lemma_good_same(g, h, 0); }
    if dfs(g, g.n_vertices - 1) { assert forall|a: int, b: int, c: int| 0 <= a < b && b <= c && b <= g.n_vertices - 1 && #[trigger] h.edge(a, c) implies #[trigger] joined(h, a, b) by { assert(g.edge(a, c)); assert(joined(g, a, b)); let u = choose|u: int| a <= u < b && #[trigger] g.edge(u, b); assert(h.edge(u, b)); } }
    if all_joined(g) { assert forall|b: int| 0 < b < h.n_vertices implies #[trigger] joined(h, 0, b) by { assert(joined(g, 0, b)); let u = choose|u: int| 0 <= u < b && #[trigger] g.edge(u, b); assert(h.edge(u, b)); } }
}
pub open spec fn two_steps(g0: RawSimpleGraph, g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation) -> bool { renumbered(g0, g1, q1) && good_base(g1, 0) && renumbered(g1, g2, q2) && q2.f(0) == 0 && dfs(g2, g2.n_vertices - 1) }
pub proof fn lemma_two_steps(g0: RawSimpleGraph)
    requires g0.wf(), whole_without(g0, -1),
    ensures forall|g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation| #[trigger] renumbered(g0, g1, q1) && #[trigger] renumbered(g1, g2, q2) && two_steps(g0, g1, q1, g2, q2) ==> { let h = flagged(g2); h.wf() && good_base(h, 0) && dfs(h, h.n_vertices - 1) && all_joined(h) },
{
    assert forall|g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation| #[trigger] renumbered(g0, g1, q1) && #[trigger] renumbered(g1, g2, q2) && two_steps(g0, g1, q1, g2, q2) implies { let h = flagged(g2); h.wf() && good_base(h, 0) && dfs(h, h.n_vertices - 1) && all_joined(h) } by {
        assert(fw(q1, -1) == -1 && fw(q2, -1) == -1);
        lemma_tr_whole(g0, g1, q1, -1); lemma_tr_whole(g1, g2, q2, -1); lemma_tr_good(g1, g2, q2); lemma_connected(g2); lemma_flagged(g2);
    }
}
pub proof fn lemma_three_steps(g0: RawSimpleGraph, g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation, g3: RawSimpleGraph, q3: Permutation, r: Permutation)
    requires g0.wf(), whole_without(g0, -1), two_steps(g0, g1, q1, g2, q2), renumbered(flagged(g2), g3, q3), q3.f(0) == 0, r.wf(), forall|n: usize| #[trigger] r.f(n) == q3.f(q2.f(q1.f(n))),
    ensures renumbered(flagged(g0), g3, r), good_base(g3, 0),
{
    lemma_two_steps(g0);
    lemma_tr_good(flagged(g2), g3, q3);
    lemma_flagged(g0); lemma_flagged(g1); lemma_flagged(g2);
    assert forall|n: usize| #[trigger] r.f(n) != n implies n < g0.n_vertices by { if q1.f(n) == n { if q2.f(n) == n { } } }
    assert forall|a: usize, b: usize| a < g0.n_vertices && b < g0.n_vertices implies #[trigger] g3.edge(r.f(a) as int, r.f(b) as int) == flagged(g0).edge(a as int, b as int) by {
        let n = g0.n_vertices as int;
        lemma_below(q1, n, a); lemma_below(q1, n, b); lemma_below(q2, n, q1.f(a)); lemma_below(q2, n, q1.f(b));
        assert(g1.edge(q1.f(a) as int, q1.f(b) as int) == g0.edge(a as int, b as int));
        assert(g2.edge(q2.f(q1.f(a)) as int, q2.f(q1.f(b)) as int) == g1.edge(q1.f(a) as int, q1.f(b) as int));
        let (x, y) = (q2.f(q1.f(a)), q2.f(q1.f(b)));
        assert(g3.edge(q3.f(x) as int, q3.f(y) as int) == flagged(g2).edge(x as int, y as int));
        assert(flagged(g2).edge(x as int, y as int) == g2.edge(x as int, y as int));
    }
}
//@fn RawSimpleGraph::choose_maximal_tree self_as=RawSimpleGraph name=choose_maximal_tree op:*=Permutation::mul method:choose_base_point=~choose_base_point method:choose_maximal_tree_by_depth_first=~choose_dfs method:modify_ordering_of_the_branches=~modify_ordering
//@.spec
    requires old(self_).wf(), old(self_).n_vertices >= 2, whole_without(*old(self_), -1),
    ensures renumbered(flagged(*old(self_)), *final(self_), r), depth_first(*final(self_)),
//@.entry
    let ghost g0 = *self_;
    proof { lemma_two_steps(g0); }
//@.exit
    proof {
        assert(exists|g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation, q3: Permutation| #[trigger] renumbered(g0, g1, q1) && #[trigger] renumbered(g1, g2, q2) && #[trigger] renumbered(flagged(g2), *self_, q3) && two_steps(g0, g1, q1, g2, q2) && q3.f(0) == 0 && forall|n: usize| #[trigger] __ret.f(n) == q3.f(q2.f(q1.f(n))));
        let (g1, q1, g2, q2, q3) = choose|g1: RawSimpleGraph, q1: Permutation, g2: RawSimpleGraph, q2: Permutation, q3: Permutation| #[trigger] renumbered(g0, g1, q1) && #[trigger] renumbered(g1, g2, q2) && #[trigger] renumbered(flagged(g2), *self_, q3) && two_steps(g0, g1, q1, g2, q2) && q3.f(0) == 0 && forall|n: usize| #[trigger] __ret.f(n) == q3.f(q2.f(q1.f(n)));
        lemma_three_steps(g0, g1, q1, g2, q2, *self_, q3, __ret);
    }
//@end
// ---- what it means
// a is an ancestor of b in the maximal tree, or b itself
pub open spec fn above(g: RawSimpleGraph, a: int, b: int) -> bool decreases b { a == b || (b > 0 && exists|u: int| #[trigger] is_parent(g, u, b) && above(g, a, u)) }
pub proof fn lemma_parent(g: RawSimpleGraph, a: int, b: int) -> (u: int)
    requires joined(g, a, b), 0 <= a,
    ensures a <= u, is_parent(g, u, b),
    decreases b - a,
{ let u = choose|u: int| a <= u < b && #[trigger] g.edge(u, b); lemma_edge_in(g, u, b); if joined(g, u + 1, b) { lemma_parent(g, u + 1, b) } else { assert forall|k: int| u < k < b implies !#[trigger] g.edge(k, b) by { } u } }
// the vertices below a follow it without a gap
pub proof fn lemma_sub_is_below(g: RawSimpleGraph, a: int, b: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), 0 <= a, b < g.n_vertices,
    ensures in_sub(g, a, b) <==> (a <= b && above(g, a, b)),
    decreases b,
{
    if in_sub(g, a, b) && a < b { assert(joined(g, a, b)); let u = lemma_parent(g, a, b); assert(in_sub(g, a, u)); lemma_sub_is_below(g, a, u); assert(above(g, a, u)); }
    if a < b && above(g, a, b) {
        let u = choose|u: int| #[trigger] is_parent(g, u, b) && above(g, a, u);
        lemma_above_le(g, a, u); lemma_sub_is_below(g, a, u);
        assert forall|x: int| a < x <= b implies #[trigger] joined(g, a, x) by { if x > u { assert(g.edge(u, b)); assert(joined(g, u, x)); let y = choose|y: int| u <= y < x && #[trigger] g.edge(y, x); assert(a <= y); } }
    }
}
pub proof fn lemma_above_le(g: RawSimpleGraph, a: int, b: int) requires above(g, a, b) ensures a <= b decreases b
{ if a != b { let u = choose|u: int| #[trigger] is_parent(g, u, b) && above(g, a, u); lemma_above_le(g, a, u); } }
// every edge joins a vertex with one of its ancestors
pub proof fn lemma_edges_vertical(g: RawSimpleGraph, a: int, b: int)
    requires g.wf(), dfs(g, g.n_vertices - 1), a < b, g.edge(a, b),
    ensures above(g, a, b),
{
    lemma_edge_in(g, a, b);
    assert forall|x: int| a < x <= b implies #[trigger] joined(g, a, x) by { assert(joined(g, a, x)); }
    assert(in_sub(g, a, b)); lemma_sub_is_below(g, a, b);
}
// every vertex but the base point has a parent: the largest smaller neighbour
pub proof fn lemma_has_parent(g: RawSimpleGraph, b: int) -> (u: int)
    requires g.wf(), all_joined(g), 0 < b < g.n_vertices,
    ensures is_parent(g, u, b), forall|v: int| #[trigger] is_parent(g, v, b) ==> v == u,
{ assert(joined(g, 0, b)); let u = lemma_parent(g, 0, b); assert forall|v: int| #[trigger] is_parent(g, v, b) implies v == u by { if v < u { assert(g.edge(u, b)); } if u < v { assert(g.edge(v, b)); } } u }
}
} // verus!
fn main() {}
