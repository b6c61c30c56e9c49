verus! {
//@file topo_spaces/src/graph.rs

// ------------------------------------------------------------------ RawSimpleGraph: the set of edges {i < j}
// number of pairs below j
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn tri(j: int) -> int { j * (j - 1) / 2 }
pub open spec fn small(n: int) -> bool { n * n <= usize::MAX }
proof fn lemma_tri(j: int)
    requires 0 <= j,
    ensures tri(j + 1) == tri(j) + j, tri(j) >= 0, 2 * tri(j) == j * (j - 1),
    decreases j,
{
    assert((j + 1) * j == j * (j - 1) + 2 * j) by(nonlinear_arith);
    assert(tri(j + 1) == (j * (j - 1) + 2 * j) / 2);
    lemma_div_multiples_vanish_fancy_ok(j * (j - 1), j);
    if j > 0 { lemma_tri(j - 1); assert((j - 1) * (j - 2) + 2 * (j - 1) == j * (j - 1)) by(nonlinear_arith); } else { assert(0int * (0 - 1) == 0) by(nonlinear_arith); }
}
proof fn lemma_div_multiples_vanish_fancy_ok(a: int, b: int) ensures (a + 2 * b) / 2 == a / 2 + b { }
proof fn lemma_tri_mono(j: int, k: int)
    requires 0 <= j <= k,
    ensures tri(j) <= tri(k), j < k ==> tri(j) + j <= tri(k),
    decreases k,
{
    if j < k { lemma_tri_mono(j, k - 1); lemma_tri(k - 1); lemma_tri(j); if j == k - 1 {} }
}
// the pair i < j is number tri(j) + i, and pairs have different numbers
pub open spec fn pair(i: int, j: int) -> int { tri(j) + i }
proof fn lemma_pair_inj(i: int, j: int, k: int, l: int)
    requires 0 <= i < j, 0 <= k < l,
    ensures pair(i, j) == pair(k, l) <==> (i == k && j == l),
{
    if j < l { lemma_tri_mono(j, l); } else if l < j { lemma_tri_mono(l, j); }
}
proof fn lemma_pair_bound(i: int, j: int, n: int)
    requires 0 <= i < j < n,
    ensures 0 <= pair(i, j) < tri(n),
{ lemma_tri(j); lemma_tri_mono(j, n); }
proof fn lemma_tri_small(j: int, n: int)
    requires 0 <= j <= n, small(n),
    ensures j * (j - 1) <= usize::MAX, 0 <= tri(j) <= usize::MAX, n <= u32::MAX,
{
    assert(j * (j - 1) <= n * n) by(nonlinear_arith) requires 0 <= j <= n;
    lemma_tri(j);
    assert(n <= u32::MAX) by(nonlinear_arith) requires 0 <= n, n * n <= usize::MAX;
}

proof fn lemma_pair(i: int, j: int, n: int)
    requires 0 <= i < j < n, small(n),
    ensures 0 <= pair(i, j) < tri(n), small(j), n <= u32::MAX, tri(n) <= usize::MAX,
{ lemma_pair_bound(i, j, n); lemma_tri_small(n, n); assert(j * j <= n * n) by(nonlinear_arith) requires 0 <= j <= n; }
proof fn lemma_pairs(i: int, j: int)
    requires 0 <= i < j,
    ensures forall|a: int, b: int| 0 <= a < b ==> (#[trigger] pair(a, b) == pair(i, j) <==> (a == i && b == j)),
{ assert forall|a: int, b: int| 0 <= a < b implies (#[trigger] pair(a, b) == pair(i, j) <==> (a == i && b == j)) by { lemma_pair_inj(a, b, i, j); } }

//@struct RawSimpleGraph
impl RawSimpleGraph {
    pub open spec fn wf(&self) -> bool { self.data.wf() && self.data.len == tri(self.n_vertices as int) && small(self.n_vertices as int) }
    // the edge between i and j
    pub open spec fn edge(&self, i: int, j: int) -> bool {
        if i < j { 0 <= i && j < self.n_vertices && self.data.mem(pair(i, j)) } else if j < i { 0 <= j && i < self.n_vertices && self.data.mem(pair(j, i)) } else { false }
    }
}
impl RawSimpleGraph {
//@fn RawSimpleGraph::new
//@.spec
    requires small(n_vertices as int),
    ensures r.wf(), r.n_vertices == n_vertices, !r.is_maximal_tree_chosen, forall|i: int, j: int| !r.edge(i, j),
//@.entry
    proof { lemma_tri_small(n_vertices as int, n_vertices as int); lemma_tri(n_vertices as int); if n_vertices == 0 { assert(0int * (0 - 1) == 0) by(nonlinear_arith); assert(0usize * 0usize == 0) by(nonlinear_arith); } }
//@end
//@fn RawSimpleGraph::raw_idx
//@.spec
    requires i < j, small(j as int), pair(i as int, j as int) <= usize::MAX,
    ensures r == pair(i as int, j as int),
//@.entry
    proof { lemma_tri_small(j as int, j as int); lemma_tri(j as int); }
//@end
//@fn RawSimpleGraph::add_edge
//@.spec
    requires old(self).wf(), i < j < old(self).n_vertices,
    ensures final(self).wf(), final(self).n_vertices == old(self).n_vertices, final(self).is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| final(self).edge(a, b) == (old(self).edge(a, b) || (a == i && b == j) || (a == j && b == i)),
//@.entry
    proof { lemma_pair(i as int, j as int, self.n_vertices as int); lemma_pairs(i as int, j as int); }
//@end
//@fn RawSimpleGraph::remove_edge
//@.spec
    requires old(self).wf(), i < j < old(self).n_vertices,
    ensures final(self).wf(), final(self).n_vertices == old(self).n_vertices, final(self).is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| final(self).edge(a, b) == (old(self).edge(a, b) && !((a == i && b == j) || (a == j && b == i))),
//@.entry
    proof { lemma_pair(i as int, j as int, self.n_vertices as int); lemma_pairs(i as int, j as int); }
//@end
//@fn RawSimpleGraph::contains
//@.spec
    requires self.wf(), i < j < self.n_vertices,
    ensures r == self.edge(i as int, j as int),
//@.entry
    proof { lemma_pair(i as int, j as int, self.n_vertices as int); lemma_pairs(i as int, j as int); }
//@end
//@fn RawSimpleGraph::n_edges
//@.spec
    requires self.wf(),
    ensures r == card(self.data.data@, tri(self.n_vertices as int)),
//@end
//@fn RawSimpleGraph::n_vertices
//@.spec
    ensures r == self.n_vertices,
//@end
}

// neighbours of v below k, in increasing order
pub open spec fn nbs(g: RawSimpleGraph, v: int, k: int) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else if g.edge(v, k - 1) { nbs(g, v, k - 1).push(k - 1) } else { nbs(g, v, k - 1) } }
proof fn lemma_nbs_skip(g: RawSimpleGraph, v: int, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> !g.edge(v, k),
    ensures nbs(g, v, b) == nbs(g, v, a),
    decreases b - a,
{ if a < b { lemma_nbs_skip(g, v, a, b - 1); assert(!g.edge(v, b - 1)); if b <= 0 {} } }
proof fn lemma_nbs(g: RawSimpleGraph, v: int, k: int)
    ensures
        forall|i: int| 0 <= i < nbs(g, v, k).len() ==> 0 <= #[trigger] nbs(g, v, k)[i] < k && g.edge(v, nbs(g, v, k)[i]),
        forall|i: int, j: int| 0 <= i < j < nbs(g, v, k).len() ==> #[trigger] nbs(g, v, k)[i] < #[trigger] nbs(g, v, k)[j],
        forall|w: int| 0 <= w < k && #[trigger] g.edge(v, w) ==> nbs(g, v, k).contains(w),
        k >= 0 ==> nbs(g, v, k).len() <= k,
    decreases k,
{
    if k > 0 {
        lemma_nbs(g, v, k - 1);
        let p = nbs(g, v, k - 1);
        assert forall|w: int| 0 <= w < k && #[trigger] g.edge(v, w) implies nbs(g, v, k).contains(w) by {
            if w == k - 1 { assert(nbs(g, v, k)[p.len() as int] == w); } else { assert(p.contains(w)); let i = p.index_of(w); assert(nbs(g, v, k)[i] == w); }
        }
    }
}
//@struct AdjacentVerticesIter
impl<'a> AdjacentVerticesIter<'a> {
    pub open spec fn wf(&self) -> bool { self.raw_graph.wf() && self.vertex < self.raw_graph.n_vertices && self.curr <= self.raw_graph.n_vertices }
//@fn AdjacentVerticesIter::new
//@.spec
    ensures r.raw_graph == raw_graph, r.curr == 0, r.vertex == vertex,
//@end
// `next` returns the neighbours in increasing order, each exactly once
//@fn <AdjacentVerticesIter as Iterator>::next Self::Item=usize
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).raw_graph == old(self).raw_graph, final(self).vertex == old(self).vertex,
        match r {
            Some(w) => old(self).curr <= w < old(self).raw_graph.n_vertices && old(self).raw_graph.edge(old(self).vertex as int, w as int) && final(self).curr == w + 1
                && forall|k: int| old(self).curr <= k < w ==> !old(self).raw_graph.edge(old(self).vertex as int, k),
            None => final(self).curr == old(self).raw_graph.n_vertices && forall|k: int| old(self).curr <= k < old(self).raw_graph.n_vertices ==> !old(self).raw_graph.edge(old(self).vertex as int, k),
        },
        nbs(*old(self).raw_graph, old(self).vertex as int, final(self).curr as int)
            == match r { Some(w) => nbs(*old(self).raw_graph, old(self).vertex as int, old(self).curr as int).push(w as int), None => nbs(*old(self).raw_graph, old(self).vertex as int, old(self).curr as int) },
        r is Some ==> nbs(*old(self).raw_graph, old(self).vertex as int, final(self).curr as int).drop_last() == nbs(*old(self).raw_graph, old(self).vertex as int, old(self).curr as int),
    decreases old(self).raw_graph.n_vertices - old(self).curr,
//@.entry
    proof { if self.vertex < self.curr && self.curr < self.raw_graph.n_vertices { lemma_pair(self.vertex as int, self.curr as int, self.raw_graph.n_vertices as int); } else if self.curr < self.vertex { lemma_pair(self.curr as int, self.vertex as int, self.raw_graph.n_vertices as int); } }
//@.exit
    proof { let g = *old(self).raw_graph; let v = old(self).vertex as int;
        match __ret { Some(w) => { lemma_nbs_skip(g, v, old(self).curr as int, w as int); assert(nbs(g, v, old(self).curr as int).push(w as int).drop_last() =~= nbs(g, v, old(self).curr as int)); } None => { lemma_nbs_skip(g, v, old(self).curr as int, g.n_vertices as int); } } }
//@end
}
impl<'a> RawSimpleGraph {
//@fn RawSimpleGraph::adjacent_vertices_iter
//@.spec
    ensures r.raw_graph == self, r.curr == 0, r.vertex == idx,
//@end
}
impl RawSimpleGraph {
//@fn RawSimpleGraph::degree_of iters=adjacent_vertices_iter
//@.spec
    requires self.wf(), idx < self.n_vertices,
    ensures r == nbs(*self, idx as int, self.n_vertices as int).len(),
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == idx, __a0 == nbs(*self, idx as int, __it0.curr as int).len(), __a0 <= __it0.curr,
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@end
//@fn RawSimpleGraph::get_adjacent_vertices iters=adjacent_vertices_iter
//@.spec
    requires self.wf(), v < self.n_vertices,
    ensures r@.map_values(|x: usize| x as int) == nbs(*self, v as int, self.n_vertices as int),
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == v, __a0@.map_values(|x: usize| x as int) =~= nbs(*self, v as int, __it0.curr as int),
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@end
//@fn RawSimpleGraph::remove_edges_adjacent_to iters=adjacent_vertices_iter acc0=Vec<(usize,usize)>
//@.spec
    requires old(self).wf(), i < old(self).n_vertices,
    ensures final(self).wf(), final(self).n_vertices == old(self).n_vertices, final(self).is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| final(self).edge(a, b) == (old(self).edge(a, b) && a != i && b != i),
//@.entry
    let ghost i0 = i as int;
    let ghost nb = nbs(*self, i as int, self.n_vertices as int);
    proof { lemma_nbs(*self, i as int, self.n_vertices as int); }
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == i, *self == *old(self), __a0.len() == nbs(*self, i0, __it0.curr as int).len(),
        forall|k: int| 0 <= k < __a0.len() ==> (#[trigger] __a0@[k]).0 == lo(i0, nbs(*self, i0, __it0.curr as int)[k]) && __a0@[k].1 == hi(i0, nbs(*self, i0, __it0.curr as int)[k]),
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@.loop 1
    invariant __i1 <= __n1, __n1 == nb.len(), edges_to_delete.len() == __n1, self.wf(), self.n_vertices == old(self).n_vertices, self.is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| #[trigger] self.edge(a, b) ==> old(self).edge(a, b),
        forall|a: int, b: int| old(self).edge(a, b) && a != i0 && b != i0 ==> #[trigger] self.edge(a, b),
        forall|k: int| 0 <= k < __i1 ==> !self.edge(i0, #[trigger] nb[k]),
    decreases __n1 - __i1,
//@.exit
    proof {
        assert forall|a: int, b: int| final(self).edge(a, b) == (old(self).edge(a, b) && a != i0 && b != i0) by {
            if final(self).edge(a, b) { if a == i0 { let k = nb.index_of(b); assert(nb[k] == b); } else if b == i0 { assert(old(self).edge(i0, a)); let k = nb.index_of(a); assert(nb[k] == a); } }
        }
    }
//@end
//@fn RawSimpleGraph::swap iters=adjacent_vertices_iter acc0=Vec<(usize,usize)> acc1=Vec<(usize,usize)>
//@.spec
    requires old(self).wf(), i < j < old(self).n_vertices,
    ensures final(self).wf(), final(self).n_vertices == old(self).n_vertices, final(self).is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| final(self).edge(a, b) == old(self).edge(trn(i as int, j as int, a), trn(i as int, j as int, b)),
//@.entry
    let ghost i0 = i as int; let ghost j0 = j as int;
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == i, *self == *old(self),
        forall|k: int| 0 <= k < __a0.len() ==> (#[trigger] __a0@[k]).0 < __a0@[k].1 < self.n_vertices && (__a0@[k].0 == j0 || __a0@[k].1 == j0),
        forall|v: int| #[trigger] has(__a0@, __a0@.len() as int, j0, v) <==> old(self).edge(i0, v) && v != j0 && v < __it0.curr,
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@.loop 0 begin
    let ghost s0 = __a0@;
//@.loop 0 end
    proof { if __x0 != j0 { lemma_has_push(s0, __a0@, j0, __x0 as int); } else { assert(__a0@ == s0); }
       assert forall|v: int| #[trigger] has(__a0@, __a0@.len() as int, j0, v) <==> old(self).edge(i0, v) && v != j0 && v < __it0.curr by { assert(old(self).edge(i0, v) == self.edge(i0, v)); } }
//@.loop 1
    invariant __it1.wf(), *__it1.raw_graph == *self, __it1.vertex == j, *self == *old(self),
        forall|k: int| 0 <= k < __a1.len() ==> (#[trigger] __a1@[k]).0 < __a1@[k].1 < self.n_vertices && (__a1@[k].0 == i0 || __a1@[k].1 == i0),
        forall|v: int| #[trigger] has(__a1@, __a1@.len() as int, i0, v) <==> old(self).edge(j0, v) && v != i0 && v < __it1.curr,
    ensures __it1.curr == self.n_vertices,
    decreases self.n_vertices - __it1.curr,
//@.loop 1 begin
    let ghost s1 = __a1@;
//@.loop 1 end
    proof { if __x1 != i0 { lemma_has_push(s1, __a1@, i0, __x1 as int); } else { assert(__a1@ == s1); }
       assert forall|v: int| #[trigger] has(__a1@, __a1@.len() as int, i0, v) <==> old(self).edge(j0, v) && v != i0 && v < __it1.curr by { assert(old(self).edge(j0, v) == self.edge(j0, v)); } }
//@.loop 2
    invariant __i2 <= __n2, __n2 == tmp_i.len(), self.wf(), self.n_vertices == old(self).n_vertices, self.is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| #[trigger] self.edge(a, b) <==> (old(self).edge(a, b) && a != i0 && b != i0 && a != j0 && b != j0) || has(tmp_i@, __i2 as int, a, b),
    decreases __n2 - __i2,
//@.loop 2 end
    proof { lemma_has_next(tmp_i@, __j2 as int); }
//@.loop 3
    invariant __i3 <= __n3, __n3 == tmp_j.len(), self.wf(), self.n_vertices == old(self).n_vertices, self.is_maximal_tree_chosen == old(self).is_maximal_tree_chosen,
        forall|a: int, b: int| #[trigger] self.edge(a, b) <==> (old(self).edge(a, b) && a != i0 && b != i0 && a != j0 && b != j0) || has(tmp_i@, tmp_i@.len() as int, a, b) || has(tmp_j@, __i3 as int, a, b),
    decreases __n3 - __i3,
//@.loop 3 end
    proof { lemma_has_next(tmp_j@, __j3 as int); }
//@.exit
    proof {
        assert forall|a: int, b: int| final(self).edge(a, b) == old(self).edge(trn(i0, j0, a), trn(i0, j0, b)) by {
            lemma_has_sym(tmp_i@, tmp_i@.len() as int, a, b); lemma_has_sym(tmp_j@, tmp_j@.len() as int, a, b);
            lemma_has_in(tmp_i@, tmp_i@.len() as int, a, b, j0); lemma_has_in(tmp_j@, tmp_j@.len() as int, a, b, i0);
            assert(has(tmp_i@, tmp_i@.len() as int, j0, a) <==> old(self).edge(i0, a) && a != j0); assert(has(tmp_i@, tmp_i@.len() as int, j0, b) <==> old(self).edge(i0, b) && b != j0);
            assert(has(tmp_j@, tmp_j@.len() as int, i0, a) <==> old(self).edge(j0, a) && a != i0); assert(has(tmp_j@, tmp_j@.len() as int, i0, b) <==> old(self).edge(j0, b) && b != i0);
        }
    }
//@end
//@fn RawSimpleGraph::is_connected iters=adjacent_vertices_iter acc1=Vec<usize>
//@.spec
    requires self.wf(), self.n_vertices >= 2,
    ensures r <==> (forall|v: int| 0 <= v < self.n_vertices ==> #[trigger] reaches(*self, 0, v)),
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == 0, vertices_visited.wf(), vertices_visited.len == self.n_vertices,
        forall|v: int| #[trigger] vertices_visited.mem(v) <==> self.edge(0, v) && v < __it0.curr,
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@.loop 1
    invariant __it1.wf(), *__it1.raw_graph == *self, __it1.vertex == 0, 
        forall|k: int| 0 <= k < __a1.len() ==> self.edge(0, #[trigger] __a1@[k] as int),
        forall|v: int| self.edge(0, v) && v < __it1.curr ==> #[trigger] insq(__a1@, v),
    ensures __it1.curr == self.n_vertices,
    decreases self.n_vertices - __it1.curr,
//@.loop 1 begin
    let ghost s1 = __a1@;
//@.loop 1 end
    proof { lemma_insq_push(s1, __x1); }
//@.loop 2 before
    proof { assert forall|v: int| vertices_visited.mem(v) implies #[trigger] reaches(*self, 0, v) by { lemma_reach_zero(*self); lemma_reach_step(*self, 0, v); } }
//@.loop 2
    invariant conn(*self, vertices_visited, new_vertices@),
        forall|v: int, w: int| vertices_visited.mem(v) && #[trigger] self.edge(v, w) && !vertices_visited.mem(w) ==> insq(new_vertices@, v),
    decreases self.n_vertices - vertices_visited.n_elements, new_vertices.len(),
//@.loop 2 begin
    let ghost st = new_vertices@; let ghost nv = vertices_visited.n_elements;
    proof { lemma_card_bound(vertices_visited.data@, self.n_vertices as int);
        if st.len() == 0 && (forall|v: int| 0 <= v < self.n_vertices ==> #[trigger] reaches(*self, 0, v)) { lemma_conn(*self, vertices_visited); } }
//@.loop 3 before
    proof { lemma_insq_pop(st); }
//@.loop 3
    invariant __it3.wf(), *__it3.raw_graph == *self, __it3.vertex == v, conn(*self, vertices_visited, new_vertices@), vertices_visited.mem(v as int),
        vertices_visited.n_elements > nv || (vertices_visited.n_elements == nv && new_vertices.len() == st.len() - 1),
        forall|x: int, w: int| vertices_visited.mem(x) && #[trigger] self.edge(x, w) && !vertices_visited.mem(w) ==> insq(new_vertices@, x) || (x == v && w >= __it3.curr),
    ensures __it3.curr == self.n_vertices,
    decreases self.n_vertices - __it3.curr,
//@.loop 3 begin
    let ghost s3 = new_vertices@; let ghost d3 = vertices_visited.data@;
    proof { lemma_reach_step(*self, v as int, __x3 as int); }
//@.loop 3 end
    proof { lemma_insq_push(s3, __x3);
       if inw(d3, __x3 as int) {} else { assert forall|k: int| #[trigger] inw(vertices_visited.data@, k) == (inw(d3, k) || k == __x3) by { assert(vertices_visited.mem(k) == inw(vertices_visited.data@, k)); } lemma_card_set(d3, vertices_visited.data@, self.n_vertices as int, __x3 as int); } }
//@.loop 3 after
    proof { lemma_card_bound(vertices_visited.data@, self.n_vertices as int); }
//@end
}
pub open spec fn lo(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn hi(a: int, b: int) -> int { if a < b { b } else { a } }
// the pair {a, b} is among the first n of s
pub open spec fn has(s: Seq<(usize, usize)>, n: int, a: int, b: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] s[k]).0 == lo(a, b) && s[k].1 == hi(a, b) }
proof fn lemma_has_push(s: Seq<(usize, usize)>, t: Seq<(usize, usize)>, a: int, x: int)
    requires t.len() == s.len() + 1, forall|k: int| 0 <= k < s.len() ==> t[k] == s[k], t[s.len() as int].0 == lo(a, x), t[s.len() as int].1 == hi(a, x),
    ensures forall|v: int| #[trigger] has(t, t.len() as int, a, v) <==> has(s, s.len() as int, a, v) || v == x,
{
    assert forall|v: int| #[trigger] has(t, t.len() as int, a, v) <==> has(s, s.len() as int, a, v) || v == x by {
        if has(t, t.len() as int, a, v) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == lo(a, v) && t[k].1 == hi(a, v); if k < s.len() { assert(s[k] == t[k]); } }
        if has(s, s.len() as int, a, v) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == lo(a, v) && s[k].1 == hi(a, v); assert(t[k] == s[k]); }
        if v == x { assert(t[s.len() as int].0 == lo(a, v)); }
    }
}
proof fn lemma_has_next(s: Seq<(usize, usize)>, n: int)
    requires 0 <= n < s.len(),
    ensures forall|a: int, b: int| #[trigger] has(s, n + 1, a, b) <==> has(s, n, a, b) || (s[n].0 == lo(a, b) && s[n].1 == hi(a, b)),
{
    assert forall|a: int, b: int| #[trigger] has(s, n + 1, a, b) <==> has(s, n, a, b) || (s[n].0 == lo(a, b) && s[n].1 == hi(a, b)) by {
        if has(s, n, a, b) { let k = choose|k: int| 0 <= k < n && (#[trigger] s[k]).0 == lo(a, b) && s[k].1 == hi(a, b); assert(0 <= k < n + 1); }
    }
}
proof fn lemma_has_sym(s: Seq<(usize, usize)>, n: int, a: int, b: int)
    ensures has(s, n, a, b) == has(s, n, b, a),
{
    if has(s, n, a, b) { let k = choose|k: int| 0 <= k < n && (#[trigger] s[k]).0 == lo(a, b) && s[k].1 == hi(a, b); assert(s[k].0 == lo(b, a)); }
    if has(s, n, b, a) { let k = choose|k: int| 0 <= k < n && (#[trigger] s[k]).0 == lo(b, a) && s[k].1 == hi(b, a); assert(s[k].0 == lo(a, b)); }
}
proof fn lemma_has_in(s: Seq<(usize, usize)>, n: int, a: int, b: int, c: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < s[k].1 && (s[k].0 == c || s[k].1 == c),
    ensures has(s, n, a, b) ==> a != b && (a == c || b == c),
{ }
pub open spec fn insq(s: Seq<usize>, v: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == v }
proof fn lemma_insq_push(s: Seq<usize>, x: usize)
    ensures forall|v: int| #[trigger] insq(s.push(x), v) <==> insq(s, v) || v == x,
{
    assert forall|v: int| #[trigger] insq(s.push(x), v) <==> insq(s, v) || v == x by {
        if insq(s, v) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == v; assert(s.push(x)[k] == v); }
        if v == x { assert(s.push(x)[s.len() as int] == v); }
        if insq(s.push(x), v) { let k = choose|k: int| 0 <= k < s.push(x).len() && #[trigger] s.push(x)[k] == v; if k < s.len() { assert(s[k] == v); } }
    }
}
proof fn lemma_insq_pop(s: Seq<usize>)
    requires s.len() > 0,
    ensures forall|v: int| #[trigger] insq(s, v) ==> insq(s.drop_last(), v) || v == s.last(),
{
    assert forall|v: int| #[trigger] insq(s, v) implies insq(s.drop_last(), v) || v == s.last() by {
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == v; if k < s.len() - 1 { assert(s.drop_last()[k] == v); }
    }
}
// the state of the search for the vertices that are connected with 0
pub open spec fn conn(g: RawSimpleGraph, vis: BinaryPool, st: Seq<usize>) -> bool {
    &&& vis.wf() && vis.len == g.n_vertices && g.wf() && g.n_vertices >= 2
    &&& forall|v: int| vis.mem(v) ==> #[trigger] reaches(g, 0, v)
    &&& forall|k: int| 0 <= k < st.len() ==> vis.mem(#[trigger] st[k] as int)
    &&& forall|v: int| #[trigger] g.edge(0, v) ==> vis.mem(v)
}
pub proof fn lemma_reach_zero(g: RawSimpleGraph) ensures reaches(g, 0, 0), { let p = seq![0int]; assert(gwalk(g, p) && p[0] == 0 && p.last() == 0); }
proof fn lemma_reach_step(g: RawSimpleGraph, v: int, w: int)
    ensures reaches(g, 0, v) && g.edge(v, w) ==> reaches(g, 0, w),
{
    if reaches(g, 0, v) && g.edge(v, w) {
        let p = choose|p: Seq<int>| gwalk(g, p) && p[0] == 0 && p.last() == v; let q = p.push(w);
        assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] g.edge(q[i], q[i + 1]) by { if i < p.len() - 1 { assert(g.edge(p[i], p[i + 1])); } }
        assert(gwalk(g, q) && q[0] == 0 && q.last() == w);
    }
}
proof fn lemma_walk_in(g: RawSimpleGraph, vis: BinaryPool, p: Seq<int>, k: int)
    requires gwalk(g, p), p[0] == 0, 1 <= k < p.len(),
        forall|v: int| #[trigger] g.edge(0, v) ==> vis.mem(v),
        forall|v: int, w: int| vis.mem(v) && #[trigger] g.edge(v, w) ==> vis.mem(w),
    ensures vis.mem(p[k]),
    decreases k,
{ assert(g.edge(p[k - 1], p[k - 1 + 1])); if k > 1 { lemma_walk_in(g, vis, p, k - 1); } }
// everything is visited if it is connected with 0 and the visited vertices are closed
proof fn lemma_conn(g: RawSimpleGraph, vis: BinaryPool)
    requires g.n_vertices >= 2, forall|v: int| 0 <= v < g.n_vertices ==> #[trigger] reaches(g, 0, v),
        forall|v: int| #[trigger] g.edge(0, v) ==> vis.mem(v),
        forall|v: int, w: int| vis.mem(v) && #[trigger] g.edge(v, w) ==> vis.mem(w),
    ensures forall|v: int| 0 <= v < g.n_vertices ==> #[trigger] vis.mem(v),
{
    assert forall|v: int| 0 <= v < g.n_vertices implies #[trigger] vis.mem(v) by {
        let u = if v == 0 { 1int } else { v };
        assert(reaches(g, 0, u));
        let p = choose|p: Seq<int>| gwalk(g, p) && p[0] == 0 && p.last() == u;
        assert(p.len() >= 2); lemma_walk_in(g, vis, p, p.len() - 1);
        if v == 0 { lemma_walk_in(g, vis, p, 1); assert(g.edge(p[0], p[0int + 1])); assert(g.edge(p[1], 0)); }
    }
}
// the transposition of i and j
pub open spec fn trn(i: int, j: int, v: int) -> int { if v == i { j } else if v == j { i } else { v } }
// a walk along edges
pub open spec fn gwalk(g: RawSimpleGraph, p: Seq<int>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] g.edge(p[i], p[i + 1]) }
pub open spec fn reaches(g: RawSimpleGraph, a: int, b: int) -> bool { exists|p: Seq<int>| gwalk(g, p) && p[0] == a && p.last() == b }

// ------------------------------------------------------------------ the maximal tree
// the parent of v: its largest smaller neighbour
pub open spec fn is_parent(g: RawSimpleGraph, u: int, v: int) -> bool { 0 <= u < v < g.n_vertices && g.edge(u, v) && forall|k: int| u < k < v ==> !#[trigger] g.edge(k, v) }
impl RawSimpleGraph {
//@fn RawSimpleGraph::maximal_tree_contains params=e
//@.spec
    requires self.wf(), self.is_maximal_tree_chosen, e[0] < e[1] < self.n_vertices,
    ensures r == is_parent(*self, e[0] as int, e[1] as int),
//@.loop 0
    invariant self.wf(), e[1] < self.n_vertices, i == e[0], j == e[1], __h0_1 == j, i + 1 <= __i0 <= j,
        !__a0 ==> forall|k: int| i < k < __i0 ==> !#[trigger] self.edge(k, j as int),
        __a0 ==> exists|k: int| i < k < j && #[trigger] self.edge(k, j as int),
    decreases j - __i0,
//@end
//@fn RawSimpleGraph::degree_in_maximal_tree iters=adjacent_vertices_iter method:sort=~sort2
//@.spec
    requires self.wf(), self.is_maximal_tree_chosen, idx < self.n_vertices,
    ensures r == tree_nbs(*self, idx as int, self.n_vertices as int).len(),
//@.loop 0
    invariant __it0.wf(), *__it0.raw_graph == *self, __it0.vertex == idx, self.is_maximal_tree_chosen, __a0 == cnt_tree(nbs(*self, idx as int, __it0.curr as int), *self, idx as int), __a0 <= __it0.curr,
    ensures __it0.curr == self.n_vertices,
    decreases self.n_vertices - __it0.curr,
//@.loop 0 begin
    proof { lemma_tree_edge(*self, idx as int, __x0 as int); }
//@.loop 0 after
    proof { lemma_cnt_tree(*self, idx as int, self.n_vertices as int); }
//@end
}
// the neighbours of v in the maximal tree: its parent and the vertices it is the parent of
pub open spec fn tree_edge(g: RawSimpleGraph, v: int, w: int) -> bool { is_parent(g, v, w) || is_parent(g, w, v) }
pub open spec fn tree_nbs(g: RawSimpleGraph, v: int, k: int) -> Seq<int>
    decreases k,
{ if k <= 0 { Seq::empty() } else if tree_edge(g, v, k - 1) { tree_nbs(g, v, k - 1).push(k - 1) } else { tree_nbs(g, v, k - 1) } }
pub open spec fn cnt_tree(s: Seq<int>, g: RawSimpleGraph, v: int) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { cnt_tree(s.drop_last(), g, v) + if tree_edge(g, v, s.last()) { 1nat } else { 0 } } }
proof fn lemma_tree_edge(g: RawSimpleGraph, v: int, w: int)
    requires v != w,
    ensures tree_edge(g, v, w) == if v < w { is_parent(g, v, w) } else { is_parent(g, w, v) }, tree_edge(g, v, w) ==> g.edge(v, w),
{ }
proof fn lemma_cnt_tree(g: RawSimpleGraph, v: int, k: int)
    ensures cnt_tree(nbs(g, v, k), g, v) == tree_nbs(g, v, k).len(),
    decreases k,
{
    if k > 0 { lemma_cnt_tree(g, v, k - 1); if g.edge(v, k - 1) { assert(nbs(g, v, k).drop_last() =~= nbs(g, v, k - 1)); } else if v != k - 1 { lemma_tree_edge(g, v, k - 1); } }
}
#[verifier::external_body]
fn sort2(e: &mut [usize; 2])
    ensures *final(e) == if old(e)[0] <= old(e)[1] { *old(e) } else { [old(e)[1], old(e)[0]] },
{ e.sort(); }
fn feq(a: &CubeFactor, b: &CubeFactor) -> (r: bool) ensures r == (*a == *b)
{ match (a, b) { (CubeFactor::Edge(x), CubeFactor::Edge(y)) => { let q = x[0] == y[0] && x[1] == y[1]; proof { if q { assert(x@ =~= y@); assert(*x == *y); } } q } (CubeFactor::Vertex(x), CubeFactor::Vertex(y)) => *x == *y, _ => false } }
fn u_cmp(a: &usize, b: &usize) -> (r: Ordering) ensures r == ord(*a as int, *b as int) { if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater } }
//@struct CubeFactor +Clone +Copy
impl CubeFactor {
    pub open spec fn wf(self, n: int) -> bool { match self { CubeFactor::Edge(e) => e[0] < e[1] < n, CubeFactor::Vertex(v) => v < n } }
    // a vertex or an edge of the graph
    pub open spec fn of(self, g: RawSimpleGraph) -> bool { match self { CubeFactor::Edge(e) => e[0] < e[1] < g.n_vertices && g.edge(e[0] as int, e[1] as int), CubeFactor::Vertex(v) => v < g.n_vertices } }
    pub open spec fn has(self, v: int) -> bool { match self { CubeFactor::Edge(e) => e[0] == v || e[1] == v, CubeFactor::Vertex(x) => x == v } }
//@fn CubeFactor::is_disjoint_from
//@.spec
    ensures r == self.disjoint(other),
//@.entry
    proof { match self {
        CubeFactor::Edge(e) => { assert(self.disjoint(other) ==> !(self.has(e[0] as int) && other.has(e[0] as int)) && !(self.has(e[1] as int) && other.has(e[1] as int))); }
        CubeFactor::Vertex(x) => { assert(self.disjoint(other) ==> !(self.has(x as int) && other.has(x as int))); }
    } }
//@end
//@fn CubeFactor::is_in_maximal_tree
//@.spec
    requires graph.wf(), graph.is_maximal_tree_chosen, self.wf(graph.n_vertices as int),
    ensures r == match self { CubeFactor::Edge(e) => is_parent(*graph, e[0] as int, e[1] as int), CubeFactor::Vertex(_) => true },
//@end
//@fn CubeFactor::is_edge
//@.spec
    ensures r == (self is Edge),
//@end
//@fn CubeFactor::is_vertex
//@.spec
    ensures r == (self is Vertex),
//@end
//@fn CubeFactor::edge
//@.spec
    requires self is Edge,
    ensures r == self->Edge_0,
//@end
//@fn CubeFactor::vertex
//@.spec
    requires self is Vertex,
    ensures r == self->Vertex_0,
//@end
//@fn CubeFactor::is_order_respecting
//@.spec
    requires self is Edge, self->Edge_0[0] <= self->Edge_0[1],
    ensures r == (self->Edge_0[1] == self->Edge_0[0] + 1),
//@end
//@fn CubeFactor::terminal
//@.spec
    requires self is Edge,
    ensures r == CubeFactor::Vertex(self->Edge_0[0]),
//@end
//@fn CubeFactor::initial
//@.spec
    requires self is Edge,
    ensures r == CubeFactor::Vertex(self->Edge_0[1]),
//@end
//@fn CubeFactor::is_disrespected_by
//@.spec
    requires self is Vertex, other is Edge,
    ensures r == (other->Edge_0[0] < self->Vertex_0 < other->Edge_0[1]),
//@end
//@fn CubeFactor::get_order
//@.spec
    ensures r == self.low(),
//@end
    // the number of the factor: its smaller vertex
    pub open spec fn low(self) -> int { match self { CubeFactor::Edge(e) => e[0] as int, CubeFactor::Vertex(v) => v as int } }
    pub open spec fn disjoint(self, other: CubeFactor) -> bool { forall|v: int| !(self.has(v) && #[trigger] other.has(v)) }
// the flow of a vertex other than the base point goes along the edge to its parent
//@fn CubeFactor::flow
//@.spec
    requires self is Vertex, self->Vertex_0 > 0, graph.wf(), graph.is_maximal_tree_chosen, self->Vertex_0 < graph.n_vertices,
        exists|u: int| 0 <= u < self->Vertex_0 && #[trigger] graph.edge(u, self->Vertex_0 as int),
    ensures r is Edge, r->Edge_0[1] == self->Vertex_0, is_parent(*graph, r->Edge_0[0] as int, self->Vertex_0 as int),
//@.entry
    let ghost u0 = choose|u: int| 0 <= u < self->Vertex_0 && #[trigger] graph.edge(u, self->Vertex_0 as int);
//@.loop 0
    invariant __h0 == v, v == self->Vertex_0, __i0 <= __h0, graph.wf(), graph.is_maximal_tree_chosen, v < graph.n_vertices, 0 <= u0 < v, graph.edge(u0, v as int),
        __a0 is None ==> forall|k: int| __i0 <= k < v ==> !#[trigger] graph.edge(k, v as int),
        __a0 is Some ==> is_parent(*graph, __a0->0 as int, v as int),
    decreases __i0,
//@end
// a vertex is blocked exactly when it is the base point or its parent is taken
//@fn CubeFactor::is_blocked op:===f_eq
//@.spec
    requires self is Vertex, graph.wf(), graph.is_maximal_tree_chosen, self->Vertex_0 < graph.n_vertices,
        self->Vertex_0 > 0 ==> exists|u: int| 0 <= u < self->Vertex_0 && #[trigger] graph.edge(u, self->Vertex_0 as int),
    ensures r <==> (self->Vertex_0 == 0 || taken_parent(factors@, factors@.len() as int, *graph, self->Vertex_0 as int)),
//@.loop 0
    invariant __n0 == factors@.len(), __i0 <= __n0, w is Vertex, is_parent(*graph, w->Vertex_0 as int, self->Vertex_0 as int),
        __a0 == taken_parent(factors@, __i0 as int, *graph, self->Vertex_0 as int),
    decreases __n0 - __i0,
//@.loop 0 begin
    proof { lemma_taken(factors@, __j0 as int, *graph, w->Vertex_0 as int, v as int); }
//@end
//@fn CubeFactor::is_critically_disrespected_by op:===f_eq
//@.spec
    requires self is Vertex, other is Edge, graph.wf(), graph.is_maximal_tree_chosen, self->Vertex_0 < graph.n_vertices,
        self->Vertex_0 > 0 ==> exists|u: int| 0 <= u < self->Vertex_0 && #[trigger] graph.edge(u, self->Vertex_0 as int),
    ensures r <==> (other->Edge_0[0] < self->Vertex_0 < other->Edge_0[1] && is_parent(*graph, other->Edge_0[0] as int, self->Vertex_0 as int)),
//@end
}
// one of the first n factors contains the parent of v
pub open spec fn taken_parent(s: Seq<CubeFactor>, n: int, g: RawSimpleGraph, v: int) -> bool { exists|k: int, u: int| 0 <= k < n && is_parent(g, u, v) && #[trigger] s[k].has(u) }
proof fn lemma_taken(s: Seq<CubeFactor>, n: int, g: RawSimpleGraph, u: int, v: int)
    requires 0 <= n < s.len(), is_parent(g, u, v),
    ensures taken_parent(s, n + 1, g, v) == (taken_parent(s, n, g, v) || s[n].has(u)),
{
    assert forall|w: int| #[trigger] is_parent(g, w, v) implies w == u by { lemma_parent_unique(g, u, w, v); }
}
proof fn lemma_parent_unique(g: RawSimpleGraph, u: int, w: int, v: int)
    requires is_parent(g, u, v), is_parent(g, w, v), ensures u == w,
{ if u < w { assert(!g.edge(w, v)); } else if w < u { assert(!g.edge(u, v)); } }
// the order of the factors is the order of their smaller vertices; overlapping different factors are incomparable
//@fn <CubeFactor as PartialOrd>::partial_cmp self_as=CubeFactor name=factor_partial_cmp params=other Self=CubeFactor op:===feq2 method:cmp=u_cmp
//@.spec
    ensures r == if *self_ == *other { Some(Ordering::Equal) } else if !self_.disjoint(*other) { None } else { Some(ord(self_.low(), other.low())) },
//@end
// == of the factors (derived) and of numbers
trait FEq: Sized + Copy { fn feq(self, o: Self) -> (r: bool) ensures r == (self == o); }
impl FEq for CubeFactor { fn feq(self, o: CubeFactor) -> (r: bool) { feq(&self, &o) } }
impl FEq for usize { fn feq(self, o: usize) -> (r: bool) { self == o } }
fn f_eq<A: FEq>(a: A, b: A) -> (r: bool) ensures r == (a == b) { a.feq(b) }
fn feq2(a: &CubeFactor, b: CubeFactor) -> (r: bool) ensures r == (*a == b) { feq(a, &b) }

// ------------------------------------------------------------------ the edges, by larger vertex and then by decreasing smaller one
// the edges before (i, j)
pub open spec fn before(g: RawSimpleGraph, i: int, j: int) -> Seq<(int, int)>
    decreases j, j - i, 0int,
{ if i >= j - 1 { if j <= 1 { Seq::empty() } else { upto(g, 0, j - 1) } } else { upto(g, i + 1, j) } }
pub open spec fn upto(g: RawSimpleGraph, i: int, j: int) -> Seq<(int, int)>
    decreases j, j - i, 1int,
{ if g.edge(i, j) { before(g, i, j).push((i, j)) } else { before(g, i, j) } }
pub open spec fn all_edges(g: RawSimpleGraph) -> Seq<(int, int)> { before(g, g.n_vertices - 1, g.n_vertices as int) }
// is (a, b) before (i, j)
pub open spec fn prec(a: int, b: int, i: int, j: int) -> bool { b < j || (b == j && a > i) }
proof fn lemma_before(g: RawSimpleGraph, i: int, j: int)
    requires 0 <= i < j,
    ensures
        forall|k: int| 0 <= k < before(g, i, j).len() ==> { let e = #[trigger] before(g, i, j)[k]; 0 <= e.0 < e.1 && g.edge(e.0, e.1) && prec(e.0, e.1, i, j) },
        forall|k: int, l: int| 0 <= k < l < before(g, i, j).len() ==> { let e = #[trigger] before(g, i, j)[k]; let f = #[trigger] before(g, i, j)[l]; prec(e.0, e.1, f.0, f.1) },
        forall|a: int, b: int| 0 <= a < b && #[trigger] g.edge(a, b) && prec(a, b, i, j) ==> before(g, i, j).contains((a, b)),
    decreases j, j - i,
{
    if i >= j - 1 && j <= 1 { } else {
        let (p, q) = if i >= j - 1 { (0int, j - 1) } else { (i + 1, j) };
        lemma_before(g, p, q);
        let s = before(g, p, q); let t = before(g, i, j);
        assert(t == upto(g, p, q));
        assert forall|a: int, b: int| 0 <= a < b && #[trigger] g.edge(a, b) && prec(a, b, i, j) implies t.contains((a, b)) by {
            if a == p && b == q { assert(t[s.len() as int] == (a, b)); } else { assert(prec(a, b, p, q)); assert(s.contains((a, b))); let k = s.index_of((a, b)); assert(t[k] == (a, b)); }
        }
    }
}
// every edge is listed exactly once
proof fn lemma_all_edges(g: RawSimpleGraph)
    ensures
        forall|k: int| 0 <= k < all_edges(g).len() ==> { let e = #[trigger] all_edges(g)[k]; 0 <= e.0 < e.1 < g.n_vertices && g.edge(e.0, e.1) },
        forall|k: int, l: int| 0 <= k < l < all_edges(g).len() ==> #[trigger] all_edges(g)[k] != #[trigger] all_edges(g)[l],
        forall|a: int, b: int| a < b && #[trigger] g.edge(a, b) ==> all_edges(g).contains((a, b)),
{ if g.n_vertices >= 1 { lemma_before(g, g.n_vertices - 1, g.n_vertices as int); } }
// nothing before (i, j), or the first edge
pub open spec fn none_before(g: RawSimpleGraph, a: Option<(usize, usize)>, i: int, j: int) -> bool {
    match a { None => before(g, i, j).len() == 0, Some(p) => p.0 < p.1 < g.n_vertices && g.edge(p.0 as int, p.1 as int) && before(g, p.0 as int, p.1 as int).len() == 0 }
}
//@struct EdgeIter
//@struct VertexIter
//@struct FactorIter
#[verifier::external_body]
fn range_next(r: &mut std::ops::Range<usize>) -> (o: Option<usize>)
    ensures final(r).end == old(r).end, if old(r).start < old(r).end { o == Some(old(r).start) && final(r).start == old(r).start + 1 } else { o is None && final(r).start == old(r).start },
{ r.next() }
impl<'a> VertexIter<'a> {
//@fn <VertexIter as Iterator>::next Self::Item=CubeFactor expr:self.iter.next()=range_next(&mut~self.iter)
//@.spec
    ensures final(self).iter.end == old(self).iter.end, final(self)._graph == old(self)._graph,
        if old(self).iter.start < old(self).iter.end { r == Some(CubeFactor::Vertex(old(self).iter.start)) && final(self).iter.start == old(self).iter.start + 1 } else { r is None && final(self).iter.start == old(self).iter.start },
//@end
}
impl<'a> EdgeIter<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.graph.wf() && self.curr.0 < self.curr.1
        &&& if self.is_done { self.curr.1 <= usize::MAX && self.listed() == all_edges(*self.graph) } else { self.curr.1 < self.graph.n_vertices && self.graph.edge(self.curr.0 as int, self.curr.1 as int) }
    }
    // what was returned so far
    pub open spec fn listed(&self) -> Seq<(int, int)> { before(*self.graph, self.curr.0 as int, self.curr.1 as int) }
//@fn <EdgeIter as Iterator>::next Self::Item=CubeFactor
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).graph == old(self).graph,
        match r { Some(CubeFactor::Edge(e)) => !old(self).is_done && final(self).listed() == old(self).listed().push((e[0] as int, e[1] as int)), Some(_) => false, None => old(self).is_done && *final(self) == *old(self) },
        r is Some ==> final(self).is_done || prec(old(self).curr.0 as int, old(self).curr.1 as int, final(self).curr.0 as int, final(self).curr.1 as int),
//@.loop 0
    invariant !prec(self.curr.0 as int, self.curr.1 as int, old(self).curr.0 as int, old(self).curr.1 as int), self.graph == old(self).graph, self.graph.wf(), self.curr.0 < self.curr.1 < self.graph.n_vertices, !self.is_done,
        upto(*self.graph, self.curr.0 as int, self.curr.1 as int) == upto(*self.graph, old(self).curr.0 as int, old(self).curr.1 as int),
    ensures self.is_done || prec(old(self).curr.0 as int, old(self).curr.1 as int, self.curr.0 as int, self.curr.1 as int), self.wf(), self.graph == old(self).graph, self.listed() == upto(*self.graph, old(self).curr.0 as int, old(self).curr.1 as int),
    decreases self.graph.n_vertices - self.curr.1, self.curr.0,
//@end
}
impl<'a> RawSimpleGraph {
//@fn RawSimpleGraph::edge_iter
//@.spec
    requires self.wf(),
    ensures r.wf(), r.graph == self, r.listed().len() == 0,
//@.loop 0
    invariant self.wf(), __h0 == self.n_vertices, 1 <= __i0, __i0 <= __h0 || __i0 == 1, none_before(*self, __a0, __i0 - 1, __i0 as int),
    decreases __h0 - __i0,
//@.loop 1
    invariant self.wf(), __h0 == self.n_vertices, 1 <= j < __h0, __i1 <= __h1 == j, none_before(*self, __a0, __i1 - 1, j as int),
    decreases __i1,
//@.exit
    proof { if first_edge is None { let g = *self; assert(before(g, 0, 1) =~= Seq::empty()); assert(all_edges(g) =~= Seq::empty()); } }
//@end
//@fn RawSimpleGraph::vertex_iter
//@.spec
    ensures r.iter.start == 0, r.iter.end == self.n_vertices,
//@end
}

impl<'a> FactorIter<'a> {
    pub open spec fn wf(&self) -> bool { self.e_iter.wf() && self.v_iter.iter.end == self.e_iter.graph.n_vertices && (self.v_iter.iter.start < self.v_iter.iter.end ==> self.e_iter.listed().len() == 0) }
    // what was returned so far
    pub open spec fn seen(&self, f: CubeFactor) -> bool { match f { CubeFactor::Vertex(v) => v < self.v_iter.iter.start, CubeFactor::Edge(e) => self.e_iter.listed().contains((e[0] as int, e[1] as int)) } }
// first the vertices in order, then the edges
//@fn <FactorIter as Iterator>::next Self::Item=CubeFactor
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).v_iter.iter.end == old(self).v_iter.iter.end, final(self).e_iter.graph == old(self).e_iter.graph,
        if old(self).v_iter.iter.start < old(self).v_iter.iter.end { r == Some(CubeFactor::Vertex(old(self).v_iter.iter.start)) && final(self).v_iter.iter.start == old(self).v_iter.iter.start + 1 && final(self).e_iter == old(self).e_iter }
        else { final(self).v_iter == old(self).v_iter && match r { Some(CubeFactor::Edge(e)) => !old(self).e_iter.is_done && final(self).e_iter.listed() == old(self).e_iter.listed().push((e[0] as int, e[1] as int)), Some(_) => false, None => old(self).e_iter.is_done && final(self).e_iter == old(self).e_iter } },
        r is Some && old(self).v_iter.iter.start >= old(self).v_iter.iter.end ==> final(self).e_iter.is_done || prec(old(self).e_iter.curr.0 as int, old(self).e_iter.curr.1 as int, final(self).e_iter.curr.0 as int, final(self).e_iter.curr.1 as int),
        // every vertex and every edge is returned exactly once
        match r { Some(f) => f.of(*old(self).e_iter.graph) && !old(self).seen(f) && forall|x: CubeFactor| #[trigger] final(self).seen(x) <==> (old(self).seen(x) || x == f),
            None => forall|x: CubeFactor| #[trigger] x.of(*old(self).e_iter.graph) ==> final(self).seen(x) },
//@.exit
    proof {
        let g = *old(self).e_iter.graph; let l0 = old(self).e_iter.listed(); let l1 = final(self).e_iter.listed();
        lemma_all_edges(g);
        match __ret {
            Some(CubeFactor::Edge(e)) => { let p = (e[0] as int, e[1] as int); lemma_before(g, final(self).e_iter.curr.0 as int, final(self).e_iter.curr.1 as int); assert(l1[l0.len() as int] == p); if l0.contains(p) { let k = l0.index_of(p); assert(l1[k] == p); }
                assert forall|x: CubeFactor| #[trigger] final(self).seen(x) <==> (old(self).seen(x) || x == CubeFactor::Edge(e)) by {
                    match x { CubeFactor::Edge(y) => { let q = (y[0] as int, y[1] as int); if q == p { assert(y@ =~= e@); assert(y == e); }
                        if l0.contains(q) { let k = l0.index_of(q); assert(l1[k] == q); } if l1.contains(q) && q != p { let k = l1.index_of(q); assert(l0[k] == q); } } _ => {} } } }
            Some(f) => { assert forall|x: CubeFactor| #[trigger] final(self).seen(x) <==> (old(self).seen(x) || x == f) by { } }
            None => { }
        }
    }
//@end
}
impl<'a> RawSimpleGraph {
//@fn RawSimpleGraph::iter
//@.spec
    requires self.wf(),
    ensures r.wf(), r.e_iter.graph == self, r.v_iter.iter.start == 0, r.v_iter.iter.end == self.n_vertices, r.e_iter.listed().len() == 0,
//@end
}
} // verus!
