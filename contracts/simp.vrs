//@include prelude.inc
//@include bits.inc
verus! {
//@file util/src/lib.rs
global size_of usize == 8;
//@fn count_ones params=data
//@.spec
    ensures r == cnt(data, 64), r <= 64,
//@.entry
    let ghost w0 = data;
    proof { lemma_cnt_zero(64); lemma_cnt_bound(data, 64); }
//@.loop 0
    invariant count + cnt(data, 64) == cnt(w0, 64), count <= 64, 0 <= cnt(data, 64),
    decreases cnt(data, 64),
//@.loop 0 begin
    proof { lemma_clear_low(data); lemma_cnt_bound(data & ((data - 1) as u64), 64); lemma_cnt_bound(w0, 64); }
//@end

//@file topo_spaces/src/simplicial/mod_impl.rs
//@struct SimplicialCell file=topo_spaces/src/simplicial/mod.rs
// the number of vertices of a cell given by its words
pub open spec fn pop(d: Seq<u64>) -> int { card(d, 64 * d.len() as int) }
pub open spec fn dim_of(d: Seq<u64>) -> Option<usize> { if pop(d) > 0 { Some((pop(d) - 1) as usize) } else { None } }
proof fn lemma_inw_w(d: Seq<u64>, w: int, k: int) requires 0 <= w < d.len(), 0 <= k < 64, ensures inw(d, 64 * w + k) == bit(d[w], k)
{ assert((64 * w + k) / 64 == w && (64 * w + k) % 64 == k) by(nonlinear_arith) requires 0 <= k < 64, 0 <= w; }
// word-wise facts, one lemma for each direction
proof fn lemma_grow(a: Seq<u64>, b: Seq<u64>)
    requires a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> b[k] == a[k], forall|k: int| a.len() <= k < b.len() ==> b[k] == 0,
    ensures forall|i: int| #[trigger] inw(b, i) == inw(a, i), pop(a) == pop(b),
{
    lemma_bit0();
    assert forall|i: int| #[trigger] inw(b, i) == inw(a, i) by { if 0 <= i < 64 * b.len() { if i / 64 < a.len() { assert(i < 64 * a.len()); } else { assert(i >= 64 * a.len()); } } }
    lemma_card_ext(a, b, 64 * a.len() as int);
    lemma_card_none(b, 64 * a.len() as int, 64 * b.len() as int);
}
proof fn lemma_pop_same(a: Seq<u64>, b: Seq<u64>) requires forall|i: int| #[trigger] inw(a, i) == inw(b, i), ensures pop(a) == pop(b)
{
    assert(forall|i: int| 64 * a.len() <= i || 64 * b.len() <= i ==> !(inw(a, i) && #[trigger] inw(b, i)));
    assert(forall|i: int| 64 * a.len() <= i || 64 * b.len() <= i ==> inw(a, i) == #[trigger] inw(b, i));
    if a.len() <= b.len() { lemma_card_ext(a, b, 64 * a.len() as int); lemma_card_none(b, 64 * a.len() as int, 64 * b.len() as int); }
    else { lemma_card_ext(a, b, 64 * b.len() as int); lemma_card_none(a, 64 * b.len() as int, 64 * a.len() as int); }
}
// the vertices below n in increasing order
pub open spec fn mems(d: Seq<u64>, n: int) -> Seq<int> decreases n
{ if n <= 0 { Seq::empty() } else if inw(d, n - 1) { mems(d, n - 1).push(n - 1) } else { mems(d, n - 1) } }
proof fn lemma_mems(d: Seq<u64>, n: int)
    ensures mems(d, n).len() == card(d, n), forall|k: int| 0 <= k < mems(d, n).len() ==> 0 <= #[trigger] mems(d, n)[k] < n && inw(d, mems(d, n)[k]),
    decreases n
{ if n > 0 { lemma_mems(d, n - 1); } }
proof fn lemma_mems_prefix(d: Seq<u64>, n: int, m: int)
    requires n <= m
    ensures mems(d, n).len() <= mems(d, m).len(), forall|k: int| 0 <= k < mems(d, n).len() ==> #[trigger] mems(d, m)[k] == mems(d, n)[k],
    decreases m - n
{ if n < m { lemma_mems_prefix(d, n, m - 1); } }
proof fn lemma_mems_sorted(d: Seq<u64>, n: int)
    ensures forall|k: int, l: int| 0 <= k < l < mems(d, n).len() ==> #[trigger] mems(d, n)[k] < #[trigger] mems(d, n)[l],
    decreases n
{ if n > 0 { lemma_mems_sorted(d, n - 1); lemma_mems(d, n - 1); } }
proof fn lemma_mems_has(d: Seq<u64>, n: int, i: int)
    requires inw(d, i), i < n
    ensures 0 <= card(d, i) < mems(d, n).len(), mems(d, n)[card(d, i)] == i,
{
    lemma_card_bound(d, i); lemma_mems(d, i); lemma_mems(d, i + 1);
    assert(mems(d, i + 1) =~= mems(d, i).push(i));
    lemma_mems_prefix(d, i + 1, n);
}
proof fn lemma_pop_drop(a: Seq<u64>, b: Seq<u64>, x: int)
    requires inw(a, x), forall|i: int| #[trigger] inw(b, i) == (inw(a, i) && i != x), a.len() == b.len(),
    ensures pop(b) == pop(a) - 1,
{ lemma_card_set(b, a, 64 * a.len() as int, x); }
fn cell_clone(c: &SimplicialCell) -> (r: SimplicialCell) ensures r.vertices@ == c.vertices@, r.size == c.size, r.dim == c.dim
{ SimplicialCell { vertices: c.vertices.clone(), size: c.size, dim: c.dim } }
// sorting, as the standard library specifies it
#[verifier::external_body]
fn sort_std(v: &mut Vec<usize>)
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i < j < final(v).len() ==> #[trigger] final(v)[i] <= #[trigger] final(v)[j], final(v)@.to_multiset() =~= old(v)@.to_multiset(),
{ v.sort(); }
fn sort_usize(v: &mut Vec<usize>)
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i < j < final(v).len() ==> #[trigger] final(v)[i] <= #[trigger] final(v)[j],
        forall|x: usize| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), final(v)@.no_duplicates() == old(v)@.no_duplicates(),
        forall|k: int| 0 <= k < old(v).len() ==> final(v)[0] <= #[trigger] old(v)[k], forall|k: int| 0 <= k < final(v).len() ==> old(v)@.contains(#[trigger] final(v)[k]),
{
    let ghost o = v@;
    sort_std(v);
    proof {
        lemma_same_ms(v@, o);
        assert forall|k: int| 0 <= k < o.len() implies v[0] <= #[trigger] o[k] by { assert(o.contains(o[k])); assert(v@.contains(o[k])); let j = choose|j: int| 0 <= j < v.len() && v[j] == o[k]; if j > 0 { assert(v[0] <= v[j]); } }
        assert forall|k: int| 0 <= k < v.len() implies o.contains(#[trigger] v[k]) by { assert(v@.contains(v[k])); }
    }
}
proof fn lemma_same_ms(a: Seq<usize>, b: Seq<usize>)
    requires a.to_multiset() =~= b.to_multiset(), ensures forall|x: usize| #[trigger] a.contains(x) == b.contains(x), a.len() == b.len(), a.no_duplicates() == b.no_duplicates(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: usize| #[trigger] a.contains(x) == b.contains(x) by { assert(a.to_multiset().count(x) == b.to_multiset().count(x)); }
    assert(a.to_multiset().len() == b.to_multiset().len());
    if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
    if b.no_duplicates() { b.lemma_multiset_has_no_duplicates(); a.lemma_multiset_has_no_duplicates_conv(); }
}
proof fn lemma_or_sub(x: u64, y: u64) ensures (x | y == x) <==> (forall|b: int| 0 <= b < 64 && bit(y, b) ==> #[trigger] bit(x, b))
{
    assert((x | y == x) == (y & x == y)) by(bit_vector);
    lemma_bit_subset(y, x);
}
proof fn lemma_and_nz(x: u64, y: u64) ensures (x & y != 0) <==> (exists|b: int| 0 <= b < 64 && #[trigger] bit(x, b) && bit(y, b))
{
    lemma_bit_and2(x, y); lemma_bit0();
    if x & y != 0 {
        if forall|b: int| 0 <= b < 64 ==> !(#[trigger] bit(x, b) && bit(y, b)) { assert forall|b: int| 0 <= b < 64 implies bit(x & y, b) == bit(0u64, b) by { assert(bit(x, b) ==> !bit(y, b)); } lemma_word_eq(x & y, 0); }
    } else if exists|b: int| 0 <= b < 64 && #[trigger] bit(x, b) && bit(y, b) { let b = choose|b: int| 0 <= b < 64 && #[trigger] bit(x, b) && bit(y, b); assert(bit(x & y, b)); }
}
impl SimplicialCell {
    pub open spec fn mem(&self, i: int) -> bool { inw(self.vertices@, i) }
    pub open spec fn n(&self) -> int { pop(self.vertices@) }
    pub open spec fn vs(&self) -> Seq<int> { mems(self.vertices@, 64 * self.vertices.len() as int) }
    // a finite set with its cached dimension
    pub open spec fn wfd(&self) -> bool { 64 * self.vertices.len() <= usize::MAX && self.dim == dim_of(self.vertices@) }
    // .. of vertices below size
    pub open spec fn wf(&self) -> bool { self.wfd() && self.wfs() }
    pub open spec fn wfs(&self) -> bool { 64 * self.vertices.len() <= usize::MAX && self.size <= 64 * self.vertices.len() && (forall|i: int| i >= self.size ==> !#[trigger] self.mem(i)) }
    pub open spec fn meets(&self, o: SimplicialCell) -> bool { exists|i: int| #[trigger] self.mem(i) && o.mem(i) }
    pub open spec fn single(&self, v: int) -> bool { forall|i: int| #[trigger] self.mem(i) <==> i == v }
    pub open spec fn sub(&self, o: SimplicialCell) -> bool { forall|i: int| #[trigger] self.mem(i) ==> o.mem(i) }
//@fn SimplicialCell::dim params=vertices
//@.spec
    requires 64 * vertices.len() <= usize::MAX,
    ensures r == dim_of(vertices@),
//@.loop 0
    invariant 0 <= __i0 <= vertices.len(), __a0 == total(vertices@, __i0 as int), __a0 <= 64 * __i0, 64 * vertices.len() <= usize::MAX,
    decreases vertices.len() - __i0,
//@.loop 0 after
    proof { lemma_total_card(vertices@, vertices.len() as int); }
//@end
//@fn SimplicialCell::resize params=new_size
//@.spec
    requires old(self).wfs(), new_size <= usize::MAX - 64, new_size >= old(self).size,
    ensures final(self).wfs(), final(self).size == new_size, final(self).dim == old(self).dim, forall|i: int| #[trigger] final(self).mem(i) == old(self).mem(i), final(self).n() == old(self).n(),
        final(self).vertices.len() >= old(self).vertices.len(), forall|k: int| 0 <= k < final(self).vertices.len() ==> #[trigger] final(self).vertices[k] == if k < old(self).vertices.len() { old(self).vertices[k] } else { 0 },
//@.loop 0
    invariant 64 * self.vertices.len() <= usize::MAX, old(self).vertices.len() <= self.vertices.len(), self.size == old(self).size, self.dim == old(self).dim,
        forall|k: int| 0 <= k < old(self).vertices.len() ==> self.vertices[k] == old(self).vertices[k], forall|k: int| old(self).vertices.len() <= k < self.vertices.len() ==> self.vertices[k] == 0,
    decreases new_size + 64 - 64 * self.vertices.len(),
//@.exit
    proof { lemma_grow(old(self).vertices@, self.vertices@); assert forall|i: int| i >= self.size implies !#[trigger] self.mem(i) by { assert(!old(self).mem(i)); } }
//@end
//@fn SimplicialCell::cone params=vertex
//@.spec
    requires old(self).wfs(), vertex < usize::MAX - 64, old(self).dim is Some ==> old(self).dim->0 < usize::MAX,
    ensures final(self).wfs(), final(self).size == if vertex >= old(self).size { vertex + 1 } else { old(self).size as int }, forall|i: int| #[trigger] final(self).mem(i) == (old(self).mem(i) || i == vertex),
        final(self).dim == (match old(self).dim { Some(d) => Some((d + 1) as usize), None => Some(0usize) }),
        !old(self).mem(vertex as int) ==> final(self).n() == old(self).n() + 1, old(self).mem(vertex as int) ==> final(self).n() == old(self).n(),
//@.entry
    let ghost o = *self;
//@.exit
    proof {
        let w = vertex as int / 64; let k = (vertex % 64) as u64;
        lemma_inw_w(self.vertices@, w, k as int);
        let s1 = Seq::new(self.vertices.len() as nat, |k: int| if k < o.vertices.len() { o.vertices[k] } else { 0 });
        lemma_grow(o.vertices@, s1); lemma_bit_or(s1[w], k);
        assert(self.vertices@ =~= s1.update(w, s1[w] | (1u64 << k)));
        assert forall|i: int| #[trigger] inw(self.vertices@, i) == (inw(s1, i) || i == vertex) by { if i / 64 == w { assert(i == 64 * (i / 64) + i % 64); } }
        assert forall|i: int| i >= self.size implies !#[trigger] self.mem(i) by { assert(!o.mem(i)); assert(inw(s1, i) == o.mem(i)); }
        if inw(s1, vertex as int) { lemma_pop_same(s1, self.vertices@); } else { lemma_card_set(s1, self.vertices@, 64 * s1.len() as int, vertex as int); }
    }
//@end
//@fn SimplicialCell::is_empty
//@.spec
    ensures r == (forall|i: int| !#[trigger] self.mem(i)),
//@.loop 0
    invariant 0 <= __i0 <= self.vertices.len(), __a0 == (forall|k: int| 0 <= k < __i0 ==> self.vertices[k] == 0),
    decreases self.vertices.len() - __i0,
//@.loop 0 after
    proof {
        lemma_bit0();
        if __a0 { assert forall|i: int| !#[trigger] self.mem(i) by { if 0 <= i < 64 * self.vertices.len() { assert(0 <= i / 64 < self.vertices.len()); } } }
        else { let k = choose|k: int| 0 <= k < __i0 && self.vertices[k] != 0;
            if forall|i: int| !#[trigger] self.mem(i) { assert forall|b: int| 0 <= b < 64 implies bit(self.vertices@[k], b) == bit(0u64, b) by { lemma_inw_w(self.vertices@, k, b); assert(!self.mem(64 * k + b)); } lemma_word_eq(self.vertices@[k], 0); } }
    }
//@end
//@fn SimplicialCell::is_connected_with params=cell
//@.spec
    ensures r == self.meets(*cell),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __a0 == (exists|k: int| 0 <= k < __i0 && self.vertices[k] & cell.vertices[k] != 0),
    decreases __n0 - __i0,
//@.loop 0 after
    proof {
        if __a0 { let k = choose|k: int| 0 <= k < __i0 && self.vertices[k] & cell.vertices[k] != 0; lemma_and_nz(self.vertices[k], cell.vertices[k]);
            let b = choose|b: int| 0 <= b < 64 && #[trigger] bit(self.vertices[k], b) && bit(cell.vertices[k], b); lemma_inw_w(self.vertices@, k, b); lemma_inw_w(cell.vertices@, k, b); assert(self.mem(64 * k + b) && cell.mem(64 * k + b)); }
        else if exists|i: int| #[trigger] self.mem(i) && cell.mem(i) { let i = choose|i: int| #[trigger] self.mem(i) && cell.mem(i); let k = i / 64; assert(0 <= k < __n0 && 0 <= i % 64 < 64); lemma_and_nz(self.vertices[k], cell.vertices[k]); assert(bit(self.vertices[k], i % 64)); }
    }
//@end
//@fn SimplicialCell::contains params=cell
//@.spec
    ensures r == cell.sub(*self), forall|v: int| #[trigger] cell.single(v) ==> r == self.mem(v),
//@.loop 0
    invariant 0 <= __i0 <= __n0, __a0 == (forall|k: int| 0 <= k < __i0 ==> self.vertices[k] | cell.vertices[k] == self.vertices[k]),
    decreases __n0 - __i0,
//@.loop 0 after
    proof {
        if !__a0 && cell.sub(*self) { let k = choose|k: int| 0 <= k < __i0 && self.vertices[k] | cell.vertices[k] != self.vertices[k]; 
            assert forall|b: int| 0 <= b < 64 && bit(cell.vertices[k], b) implies #[trigger] bit(self.vertices[k], b) by { lemma_inw_w(self.vertices@, k, b); lemma_inw_w(cell.vertices@, k, b); assert(cell.mem(64 * k + b) ==> self.mem(64 * k + b)); }
            lemma_or_sub(self.vertices[k], cell.vertices[k]); }
    }
//@.loop 1
    invariant 0 <= __i1 <= __n1, __a1 == (forall|k: int| __h1 <= k < __h1 + __i1 ==> cell.vertices[k] == 0),
    decreases __n1 - __i1,
//@.loop 1 after
    proof {
        lemma_bit0();
        if __a1 { assert forall|i: int| #[trigger] cell.mem(i) implies self.mem(i) by { let k = i / 64; assert(0 <= k < cell.vertices.len()); if k >= __h1 { assert(cell.vertices[k] == 0); } else { lemma_or_sub(self.vertices[k], cell.vertices[k]); assert(self.vertices[k] | cell.vertices[k] == self.vertices[k]); assert(bit(self.vertices[k], i % 64)); } } }
        else { let k = choose|k: int| __h1 <= k < __h1 + __i1 && cell.vertices[k] != 0;
            if cell.sub(*self) { assert forall|b: int| 0 <= b < 64 implies bit(cell.vertices@[k], b) == bit(0u64, b) by { lemma_inw_w(cell.vertices@, k, b); assert(cell.mem(64 * k + b) ==> self.mem(64 * k + b)); } lemma_word_eq(cell.vertices@[k], 0); } }
    }
//@.exit
    proof { assert forall|v: int| #[trigger] cell.single(v) implies __ret == self.mem(v) by { assert(cell.mem(v)); if self.mem(v) { assert(cell.sub(*self)); } } }
//@end
//@fn SimplicialCell::join params=cell
//@.spec
    requires old(self).wfd(), cell.wfd(),
    ensures final(self).wfd(), forall|i: int| #[trigger] final(self).mem(i) == (old(self).mem(i) || cell.mem(i)), final(self).size == old(self).size,
//@.loop 0
    invariant 0 <= __i0 <= __n0, self.vertices.len() == old(self).vertices.len(), self.size == old(self).size, forall|k: int| 0 <= k < self.vertices.len() ==> #[trigger] self.vertices[k] == if k < __i0 { old(self).vertices[k] | cell.vertices[k] } else { old(self).vertices[k] },
    decreases __n0 - __i0,
//@.loop 1
    invariant __h1 <= __i1 <= __h1_1, __h1 == old(self).vertices.len(), __h1_1 == cell.vertices.len(), self.vertices.len() == __i1, self.size == old(self).size, 
        forall|k: int| 0 <= k < __i1 ==> #[trigger] self.vertices[k] == if k < __h1 { old(self).vertices[k] | cell.vertices[k] } else { cell.vertices[k] },
    decreases __h1_1 - __i1,
//@.exit
    proof {
        lemma_bit0();
        assert forall|i: int| #[trigger] self.mem(i) == (old(self).mem(i) || cell.mem(i)) by {
            let k = i / 64;
            if 0 <= i < 64 * self.vertices.len() { assert(0 <= k < self.vertices.len()); if k < old(self).vertices.len() && k < cell.vertices.len() { lemma_bit_or2(old(self).vertices[k], cell.vertices[k]); } }
        }
    }
//@end
//@fn SimplicialCell::intersection params=cell
//@.spec
    requires self.wfd(), cell.wfd(),
    ensures r.wfd(), forall|i: int| #[trigger] r.mem(i) == (self.mem(i) && cell.mem(i)), r.size == self.size,
//@.loop 0
    invariant 0 <= __i0 <= __n0, __a0.len() == __i0, forall|k: int| 0 <= k < __i0 ==> #[trigger] __a0[k] == self.vertices[k] & cell.vertices[k],
    decreases __n0 - __i0,
//@.exit
    proof {
        assert forall|i: int| #[trigger] __ret.mem(i) == (self.mem(i) && cell.mem(i)) by {
            let k = i / 64;
            if 0 <= i < 64 * __ret.vertices.len() { assert(0 <= k < __ret.vertices.len()); lemma_bit_and2(self.vertices[k], cell.vertices[k]); }
        }
    }
//@end
//@fn SimplicialCell::get_face method:clone=cell_clone let:n_sub_cells=Vec<SimplicialCell>
//@.spec
    requires self.wf(), self.n() >= 2,
    ensures r.len() == self.n(), self.vs().len() == self.n(), forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).wf() && r[j].size == self.size && r[j].n() == self.n() - 1 && r[j].vertices.len() == self.vertices.len(),
        forall|j: int, i: int| 0 <= j < r.len() ==> #[trigger] r[j].mem(i) == (self.mem(i) && i != self.vs()[j]),
//@.entry
    let ghost d = self.vertices@; let ghost len = 64 * self.vertices.len() as int;
    proof { lemma_card_bound(d, len); lemma_mems(d, len); }
//@.loop 0
    invariant 0 <= __i0 <= __h0, __h0 == self.n(), n_sub_cells.len() == __i0, 0 <= idx <= len, card(d, idx as int) == __i0,
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] n_sub_cells[j]).wf() && n_sub_cells[j].size == self.size && n_sub_cells[j].n() == self.n() - 1 && n_sub_cells[j].vertices.len() == self.vertices.len(),
        forall|j: int, i: int| 0 <= j < __i0 ==> #[trigger] n_sub_cells[j].mem(i) == (self.mem(i) && i != self.vs()[j]),
    decreases __h0 - __i0,
//@.loop 1 before
    let ghost idx0 = idx as int; let ghost v0 = self.vs()[__j0 as int];
    proof { assert(inw(d, v0) && 0 <= v0 < len); lemma_mems_has(d, len, v0); lemma_mems_sorted(d, len);
        if v0 < idx0 { lemma_card_mono(d, v0 + 1, idx0); }
        lemma_mems(d, idx0); 
        assert(card(d, v0) == __j0) by { let c = card(d, v0); if c < __j0 { assert(self.vs()[c] < self.vs()[__j0 as int]); } if c > __j0 { assert(self.vs()[__j0 as int] < self.vs()[c]); } }
    }
//@.loop 1
    invariant idx0 <= __i1 <= v0 + 1, sub_cell.vertices@ == d, __a1 is None ==> __i1 <= v0, __a1 is Some ==> __a1->0 == v0, forall|k: int| idx0 <= k < __i1 && k < v0 ==> !#[trigger] inw(d, k),
    decreases v0 + 1 - __i1,
//@.loop 1 end
    proof { lemma_bit_test(d[__j1 as int / 64], (__j1 % 64) as u64); let w = d[__j1 as int / 64]; let s = (__j1 % 64) as u64; assert((w >> s) % 2 == (w >> s) & 1) by(bit_vector);
        assert(inw(d, __j1 as int) == ((w >> s) & 1 == 1));
        if inw(d, __j1 as int) && __j1 < v0 { lemma_card_mono(d, idx0, __j1 as int); lemma_card_mono(d, __j1 + 1, v0); } }
//@.loop 0 end
    proof {
        let v = self.vs()[__j0 as int]; let k = (v % 64) as u64; let w = v / 64;
        let f = n_sub_cells[__j0 as int];
        lemma_bit_andnot(d[w], k);
        assert forall|i: int| #[trigger] inw(f.vertices@, i) == (inw(d, i) && i != v) by { if i / 64 == w { assert(i == 64 * (i / 64) + i % 64); } }
        lemma_pop_drop(d, f.vertices@, v);
        assert forall|i: int| i >= f.size implies !#[trigger] f.mem(i) by { assert(!self.mem(i)); }
    }
//@end
//@fn SimplicialCell::new params=s,raw_vertices method:sort=~sort_usize
//@.spec
    requires 0 < s < usize::MAX - 64, raw_vertices.len() > 0, raw_vertices@.no_duplicates(), forall|k: int| 0 <= k < raw_vertices.len() ==> #[trigger] raw_vertices[k] < usize::MAX - 64,
        exists|k: int| 0 <= k < raw_vertices.len() && #[trigger] raw_vertices[k] <= s,
    ensures r.wf(), r.n() == raw_vertices.len(), forall|i: int| #[trigger] r.mem(i) == (0 <= i <= usize::MAX && raw_vertices@.contains(i as usize)),
        (forall|k: int| 0 <= k < raw_vertices.len() ==> #[trigger] raw_vertices[k] < s) ==> r.size == s, raw_vertices.len() == 1 ==> r.single(raw_vertices[0] as int),
//@.entry
    let ghost v0 = raw_vertices@;
//@.loop 0 before
    proof { assert forall|k: int| 0 <= k < raw_vertices.len() implies #[trigger] raw_vertices[k] < usize::MAX - 64 by { assert(v0.contains(raw_vertices[k])); let j = choose|j: int| 0 <= j < v0.len() && v0[j] == raw_vertices[k]; assert(v0[j] < usize::MAX - 64); } }
//@.loop 0
    invariant 0 <= __i0 <= raw_vertices.len(), !__a0,
    decreases raw_vertices.len() - __i0,
//@.loop 1
    invariant 0 <= __i1 <= raw_vertices.len(), cell.wfs(), cell.n() == __i1, forall|i: int| #[trigger] cell.mem(i) == exists|k: int| 0 <= k < __i1 && raw_vertices[k] == i,
        cell.dim == Some(__i1), s <= cell.size, (forall|k: int| 0 <= k < v0.len() ==> #[trigger] v0[k] < s) ==> cell.size == s,
    decreases raw_vertices.len() - __i1,
//@.loop 1 before
    proof { lemma_bit0(); assert forall|i: int| !#[trigger] inw(cell.vertices@, i) by { if 0 <= i < 64 * cell.vertices.len() { assert(0 <= i / 64 < cell.vertices.len()); } } lemma_card_none(cell.vertices@, 0, 64 * cell.vertices.len() as int); }
//@.loop 1 end
    proof { assert forall|i: int| #[trigger] cell.mem(i) == exists|k: int| 0 <= k < __i1 && raw_vertices[k] == i by { 
        if exists|k: int| 0 <= k < __i1 && raw_vertices[k] == i { let k = choose|k: int| 0 <= k < __i1 && raw_vertices[k] == i; if k < __j1 { assert(0 <= k < __j1 && raw_vertices[k] == i); } } } }
//@.loop 1 after
    let ghost c1 = cell;
//@.exit
    proof {
        assert forall|i: int| #[trigger] __ret.mem(i) == c1.mem(i) by {}
        assert forall|i: int| #[trigger] __ret.mem(i) == (0 <= i <= usize::MAX && v0.contains(i as usize)) by {
            assert(c1.mem(i) == exists|k: int| 0 <= k < raw_vertices.len() && raw_vertices[k] == i);
            if c1.mem(i) { let k = choose|k: int| 0 <= k < raw_vertices.len() && raw_vertices[k] == i; assert(v0.contains(raw_vertices[k])); }
            if 0 <= i <= usize::MAX && v0.contains(i as usize) { assert(raw_vertices@.contains(i as usize)); let k = choose|k: int| 0 <= k < raw_vertices.len() && raw_vertices[k] == i as usize; assert(raw_vertices[k] == i); }
        }
        assert forall|i: int| i >= __ret.size implies !#[trigger] __ret.mem(i) by { assert(!c1.mem(i)); }
    }
//@end
}
//@struct Simplex file=topo_spaces/src/simplicial/mod.rs T=u64
//@struct SimplicialCplx file=topo_spaces/src/simplicial/mod.rs T=u64
impl Simplex {
//@fn Simplex::from expr:Vec::from_iter(labels.into_iter())=labels T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx params=labels
//@.spec
    requires labels.len() > 0,
    ensures r.dim == labels.len() - 1, r.vertices_labels@ == labels@,
//@end
}
fn lab_has(v: &Vec<u64>, x: &u64) -> (r: bool) ensures r == v@.contains(*x)
{
    let mut i = 0;
    while i < v.len() invariant i <= v.len(), forall|k: int| 0 <= k < i ==> v@[k] != *x decreases v.len() - i
    { if v[i] == *x { return true; } i += 1; }
    false
}
// labels in order of first appearance
pub open spec fn reg(l: Seq<u64>, s: Seq<u64>, k: int) -> Seq<u64> decreases k
{ if k <= 0 { l } else { let m = reg(l, s, k - 1); if m.contains(s[k - 1]) { m } else { m.push(s[k - 1]) } } }
proof fn lemma_reg(l: Seq<u64>, s: Seq<u64>, k: int)
    requires 0 <= k <= s.len(), l.no_duplicates(),
    ensures l.len() <= reg(l, s, k).len() <= l.len() + k, forall|i: int| 0 <= i < l.len() ==> #[trigger] reg(l, s, k)[i] == l[i], reg(l, s, k).no_duplicates(),
        forall|i: int| 0 <= i < k ==> reg(l, s, k).contains(#[trigger] s[i]), forall|i: int| l.len() <= i < reg(l, s, k).len() ==> s.contains(#[trigger] reg(l, s, k)[i]),
    decreases k
{
    if k > 0 {
        lemma_reg(l, s, k - 1);
        let m = reg(l, s, k - 1); let n = reg(l, s, k);
        assert forall|i: int| 0 <= i < k implies n.contains(#[trigger] s[i]) by { if i < k - 1 { assert(m.contains(s[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == s[i]; assert(n[j] == s[i]); } else if !m.contains(s[i]) { assert(n[m.len() as int] == s[i]); } }
        assert(s.contains(s[k - 1]));
    }
}
pub open spec fn within(s: Set<int>, c: SimplicialCell) -> bool { forall|i: int| #[trigger] s.contains(i) ==> c.mem(i) }
pub open spec fn only(s: Set<int>, v: int) -> bool { forall|i: int| #[trigger] s.contains(i) ==> i == v }
// a set of vertices is a face of the complex generated by the cells
pub open spec fn spans(cells: Seq<SimplicialCell>, s: Set<int>) -> bool { exists|c: int| 0 <= c < cells.len() && within(s, (#[trigger] cells[c])) }
pub open spec fn good(cells: Seq<SimplicialCell>, n: int) -> bool {
    forall|c: int| 0 <= c < cells.len() ==> (#[trigger] cells[c]).wf() && cells[c].n() >= 1 && cells[c].size <= n
}
pub open spec fn antichain(cells: Seq<SimplicialCell>) -> bool { forall|c: int, d: int| 0 <= c < cells.len() && 0 <= d < cells.len() && c != d ==> !(#[trigger] cells[c]).sub((#[trigger] cells[d])) }
pub open spec fn covered(cells: Seq<SimplicialCell>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] hit(cells, i) }
pub open spec fn hit(cells: Seq<SimplicialCell>, i: int) -> bool { exists|c: int| 0 <= c < cells.len() && (#[trigger] cells[c]).mem(i) }
// the vertices of s carry labels of a
pub open spec fn labelled(s: Set<int>, l: Seq<u64>, a: Seq<u64>) -> bool { forall|i: int| #[trigger] s.contains(i) ==> 0 <= i < l.len() && a.contains(l[i]) }
proof fn lemma_single(c: SimplicialCell, v: int) requires c.wf(), c.n() == 1, c.mem(v), ensures forall|i: int| #[trigger] c.mem(i) ==> i == v
{
    let d = c.vertices@; let l = 64 * d.len() as int;
    assert forall|i: int| #[trigger] c.mem(i) implies i == v by {
        if i != v { let (a, b) = if i < v { (i, v) } else { (v, i) }; lemma_card_bound(d, a); lemma_card_mono(d, a + 1, b); lemma_card_mono(d, b + 1, l); }
    }
}
proof fn lemma_some(c: SimplicialCell) requires c.n() >= 1, ensures exists|i: int| c.mem(i)
{ lemma_mems(c.vertices@, 64 * c.vertices.len() as int); assert(c.mem(c.vs()[0])); }
pub open spec fn fresh(cells: Seq<SimplicialCell>, c0: Seq<SimplicialCell>, from: int, n: int) -> bool {
    forall|s: Set<int>| #[trigger] spans(cells, s) <==> spans(c0, s) || exists|v: int| from <= v < n && #[trigger] only(s, v)
}
pub open spec fn is_cell_of(c: SimplicialCell, l: Seq<u64>, a: Seq<u64>) -> bool { forall|i: int| #[trigger] c.mem(i) == (0 <= i < l.len() && a.contains(l[i])) }
proof fn lemma_within(s: Set<int>, c: SimplicialCell, l: Seq<u64>, a: Seq<u64>) requires is_cell_of(c, l, a), ensures within(s, c) == labelled(s, l, a)
{ 
    if within(s, c) { assert forall|i: int| #[trigger] s.contains(i) implies 0 <= i < l.len() && a.contains(l[i]) by { assert(c.mem(i)); } }
    if labelled(s, l, a) { assert forall|i: int| #[trigger] s.contains(i) implies c.mem(i) by {} }
}
// a new vertex
proof fn lemma_new_vertex(c0: Seq<SimplicialCell>, c1: Seq<SimplicialCell>, cs: Seq<SimplicialCell>, from: int, n: int)
    requires fresh(c1, c0, from, n), good(c1, n), antichain(c1), covered(c1, n), cs.len() == c1.len() + 1, cs.drop_last() == c1, cs.last().wf(), cs.last().n() == 1, cs.last().mem(n), cs.last().size == n + 1, from <= n,
    ensures fresh(cs, c0, from, n + 1), good(cs, n + 1), antichain(cs), covered(cs, n + 1),
{
    let n1 = n; let e = cs.last();
    assert(forall|k: int| 0 <= k < c1.len() ==> cs[k] == c1[k]); assert(cs[c1.len() as int] == e);
    assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]).wf() && cs[k].n() >= 1 && cs[k].size <= n + 1 by { if k < c1.len() { assert(c1[k].wf()); } }
    assert forall|k: int| 0 <= k < c1.len() implies !(#[trigger] c1[k]).mem(n) by { assert(c1[k].wf() && c1[k].size <= n); }
            lemma_single(cs[c1.len() as int], n1);
            assert forall|s: Set<int>| #[trigger] spans(cs, s) <==> spans(c0, s) || exists|v: int| from <= v < n + 1 && #[trigger] only(s, v) by {
                if spans(cs, s) { let c = choose|c: int| 0 <= c < cs.len() && within(s, (#[trigger] cs[c])); if c < c1.len() { assert(within(s, c1[c])); assert(spans(c1, s)); } else { assert(only(s, n1)); } }
                if spans(c1, s) { let c = choose|c: int| 0 <= c < c1.len() && within(s, (#[trigger] c1[c])); assert(within(s, cs[c])); }
                if only(s, n1) { assert(within(s, cs[c1.len() as int])); }
            }
            assert forall|c: int, d: int| 0 <= c < cs.len() && 0 <= d < cs.len() && c != d implies !(#[trigger] cs[c]).sub((#[trigger] cs[d])) by {
                if c < c1.len() && d < c1.len() { assert(!c1[c].sub(c1[d])); }
                else if c < c1.len() { if cs[c].sub(cs[d]) { lemma_some(c1[c]); let i = choose|i: int| c1[c].mem(i); assert(cs[d].mem(i)); assert(!c1[c].mem(n1)); } }
                else { if cs[c].sub(cs[d]) { assert(cs[c].mem(n1)); assert(!c1[d].mem(n1)); } }
            }
            assert forall|i: int| 0 <= i < n + 1 implies #[trigger] hit(cs, i) by { if i < n1 { assert(hit(c1, i)); let c = choose|c: int| 0 <= c < c1.len() && (#[trigger] c1[c]).mem(i); assert(cs[c].mem(i)); } else { assert(cs[c1.len() as int].mem(i)); } }
}
// the simplex is a face already
proof fn lemma_absorbed(c0: Seq<SimplicialCell>, c2: Seq<SimplicialCell>, c: SimplicialCell, l: Seq<u64>, a: Seq<u64>, from: int, x: int)
    requires fresh(c2, c0, from, l.len() as int), is_cell_of(c, l, a), 0 <= x < c2.len(), c.sub(c2[x]), forall|i: int| from <= i < l.len() ==> a.contains(#[trigger] l[i]), 0 <= from,
    ensures forall|s: Set<int>| #[trigger] spans(c2, s) <==> spans(c0, s) || labelled(s, l, a),
{
    assert forall|s: Set<int>| #[trigger] spans(c2, s) <==> spans(c0, s) || labelled(s, l, a) by {
        lemma_within(s, c, l, a);
        if labelled(s, l, a) { assert forall|i: int| #[trigger] s.contains(i) implies c2[x].mem(i) by { assert(c.mem(i)); } assert(within(s, c2[x])); }
        if exists|v: int| from <= v < l.len() && #[trigger] only(s, v) { let v = choose|v: int| from <= v < l.len() && #[trigger] only(s, v); assert(a.contains(l[v])); assert(labelled(s, l, a)); }
    }
}
// .. or it replaces the cells it contains
proof fn lemma_attached(c0: Seq<SimplicialCell>, c2: Seq<SimplicialCell>, cs: Seq<SimplicialCell>, c: SimplicialCell, l: Seq<u64>, a: Seq<u64>, from: int)
    requires fresh(c2, c0, from, l.len() as int), is_cell_of(c, l, a), forall|i: int| from <= i < l.len() ==> a.contains(#[trigger] l[i]), 0 <= from,
        good(c2, l.len() as int), covered(c2, l.len() as int), c.wf(), c.n() >= 1, c.size <= l.len(),
        cs.len() > 0, cs.last() == c, forall|k: int| 0 <= k < cs.len() - 1 ==> c2.contains(#[trigger] cs[k]) && !cs[k].sub(c), antichain(cs.drop_last()),
        forall|k: int| 0 <= k < c2.len() ==> !c.sub((#[trigger] c2[k])), forall|k: int| 0 <= k < c2.len() && !(#[trigger] c2[k]).sub(c) ==> cs.drop_last().contains(c2[k]),
    ensures forall|s: Set<int>| #[trigger] spans(cs, s) <==> spans(c0, s) || labelled(s, l, a), good(cs, l.len() as int), antichain(cs), covered(cs, l.len() as int),
{
    let d = cs.drop_last(); let m = cs.len() - 1;
    assert(forall|k: int| 0 <= k < m ==> d[k] == cs[k]); assert(cs[m] == c);
    assert forall|k: int| 0 <= k < m implies exists|q: int| 0 <= q < c2.len() && c2[q] == #[trigger] cs[k] by { assert(c2.contains(cs[k])); }
    assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]).wf() && cs[k].n() >= 1 && cs[k].size <= l.len() by { if k < m { let q = choose|q: int| 0 <= q < c2.len() && c2[q] == cs[k]; assert(c2[q].wf()); } }
    assert forall|x: int, y: int| 0 <= x < cs.len() && 0 <= y < cs.len() && x != y implies !(#[trigger] cs[x]).sub((#[trigger] cs[y])) by {
        if x < m && y < m { assert(!d[x].sub(d[y])); } else if x == m { let q = choose|q: int| 0 <= q < c2.len() && c2[q] == cs[y]; assert(!c.sub(c2[q])); }
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] hit(cs, i) by {
        assert(hit(c2, i)); let q = choose|q: int| 0 <= q < c2.len() && (#[trigger] c2[q]).mem(i);
        if c2[q].sub(c) { assert(cs[m].mem(i)); } else { assert(d.contains(c2[q])); let k = choose|k: int| 0 <= k < d.len() && d[k] == c2[q]; assert(cs[k].mem(i)); }
    }
    assert forall|s: Set<int>| #[trigger] spans(cs, s) <==> spans(c0, s) || labelled(s, l, a) by {
        lemma_within(s, c, l, a);
        if spans(cs, s) { let k = choose|k: int| 0 <= k < cs.len() && within(s, (#[trigger] cs[k])); if k < m { let q = choose|q: int| 0 <= q < c2.len() && c2[q] == cs[k]; assert(within(s, c2[q])); assert(spans(c2, s)); } 
            if !spans(c0, s) && !labelled(s, l, a) { let v = choose|v: int| from <= v < l.len() && #[trigger] only(s, v); assert(a.contains(l[v])); assert(labelled(s, l, a)); } }
        if spans(c0, s) { assert(spans(c2, s)); let q = choose|q: int| 0 <= q < c2.len() && within(s, (#[trigger] c2[q])); 
            if c2[q].sub(c) { assert forall|i: int| #[trigger] s.contains(i) implies cs[m].mem(i) by { assert(c2[q].mem(i)); } assert(within(s, cs[m])); } else { assert(d.contains(c2[q])); let k = choose|k: int| 0 <= k < d.len() && d[k] == c2[q]; assert(within(s, cs[k])); } }
        if labelled(s, l, a) { assert(within(s, cs[m])); }
    }
}
proof fn lemma_subset(a: Seq<u64>, b: Seq<u64>, m: int)
    requires 0 <= m, forall|i: int| #[trigger] inw(a, i) ==> inw(b, i),
    ensures card(a, m) <= card(b, m), card(a, m) == card(b, m) ==> forall|i: int| 0 <= i < m && #[trigger] inw(b, i) ==> inw(a, i),
    decreases m
{ if m > 0 { lemma_subset(a, b, m - 1); } }
proof fn lemma_long(a: Seq<u64>, m: int) requires 64 * a.len() <= m, ensures card(a, m) == pop(a)
{ lemma_card_none(a, 64 * a.len() as int, m); }
proof fn lemma_sub_n(x: SimplicialCell, y: SimplicialCell)
    requires x.sub(y), ensures x.n() <= y.n(), x.n() == y.n() ==> y.sub(x),
{
    let a = x.vertices@; let b = y.vertices@; let m = 64 * (a.len() + b.len()) as int;
    assert forall|i: int| #[trigger] inw(a, i) implies inw(b, i) by { assert(x.mem(i)); assert(y.mem(i)); }
    lemma_subset(a, b, m); lemma_long(a, m); lemma_long(b, m);
    if x.n() == y.n() { assert forall|i: int| #[trigger] y.mem(i) implies x.mem(i) by { assert(0 <= i < m && inw(b, i)); } }
}
proof fn lemma_below(d: Seq<u64>, m: int)
    requires 0 <= m, ensures card(d, m) <= m, card(d, m) == m <==> forall|i: int| 0 <= i < m ==> #[trigger] inw(d, i),
    decreases m
{ if m > 0 { lemma_below(d, m - 1); } }
// a cell of n vertices below n has them all
proof fn lemma_full(c: SimplicialCell, n: int)
    requires 0 <= n, forall|i: int| #[trigger] c.mem(i) ==> i < n, ensures c.n() <= n, c.n() == n <==> forall|i: int| 0 <= i < n ==> #[trigger] c.mem(i),
{
    let d = c.vertices@; let l = 64 * d.len() as int; let m = l + n;
    lemma_long(d, m); lemma_below(d, n);
    assert forall|i: int| n <= i < m implies !inw(d, i) by { assert(!c.mem(i)); }
    lemma_card_none(d, n, m);
    if forall|i: int| 0 <= i < n ==> #[trigger] c.mem(i) { assert forall|i: int| 0 <= i < n implies #[trigger] inw(d, i) by { assert(c.mem(i)); } }
}
proof fn lemma_dim_eq(x: SimplicialCell, y: SimplicialCell)
    requires x.wfd(), y.wfd(), ensures (x.dim == y.dim) == (x.n() == y.n()), forall|n: usize| 1 <= n ==> (x.dim == Some(#[trigger] (n - 1) as usize)) == (x.n() == n),
{ lemma_card_bound(x.vertices@, 64 * x.vertices.len() as int); lemma_card_bound(y.vertices@, 64 * y.vertices.len() as int); }
proof fn lemma_vs(c: SimplicialCell) ensures forall|i: int| #[trigger] c.vs().to_set().contains(i) == c.mem(i)
{
    let d = c.vertices@; let l = 64 * d.len() as int; lemma_mems(d, l);
    assert forall|i: int| #[trigger] c.vs().to_set().contains(i) == c.mem(i) by { if c.mem(i) { lemma_mems_has(d, l, i); assert(c.vs()[card(d, i)] == i); } if c.vs().contains(i) { let k = choose|k: int| 0 <= k < c.vs().len() && c.vs()[k] == i; } }
}
// a union of components: no cell reaches out of it
pub open spec fn closed(cells: Seq<SimplicialCell>, a: Set<int>) -> bool { forall|c: int| 0 <= c < cells.len() ==> within_or_apart(a, (#[trigger] cells[c])) }
pub open spec fn within_or_apart(a: Set<int>, c: SimplicialCell) -> bool { (forall|i: int| #[trigger] c.mem(i) ==> a.contains(i)) || (forall|i: int| #[trigger] c.mem(i) ==> !a.contains(i)) }
// no proper non-empty set of the vertices below n is a union of components
pub open spec fn connected(cells: Seq<SimplicialCell>, n: int) -> bool {
    forall|a: Set<int>| #[trigger] closed(cells, a) && (exists|i: int| 0 <= i < n && #[trigger] a.contains(i)) ==> forall|i: int| 0 <= i < n ==> #[trigger] a.contains(i)
}
pub open spec fn met(cs: Seq<SimplicialCell>, j0: SimplicialCell, x: SimplicialCell) -> bool { x.meets(j0) && cs.contains(x) }
pub open spec fn kept(a: Seq<&SimplicialCell>, x: SimplicialCell) -> bool { exists|k: int| 0 <= k < a.len() && *#[trigger] a[k] == x }
proof fn lemma_kept(a0: Seq<&SimplicialCell>, a: Seq<&SimplicialCell>, cs: Seq<SimplicialCell>, c: int)
    requires 0 <= c < cs.len(), a == a0 || (a.len() == a0.len() + 1 && a.drop_last() == a0 && *a.last() == cs[c]),
    ensures forall|x: SimplicialCell| kept(a0, x) ==> #[trigger] kept(a, x), a != a0 ==> kept(a, cs[c]),
{
    assert forall|x: SimplicialCell| kept(a0, x) implies #[trigger] kept(a, x) by { let k = choose|k: int| 0 <= k < a0.len() && *#[trigger] a0[k] == x; assert(a[k] == a0[k]); assert(*a[k] == x); }
    if a != a0 { assert(*a[a0.len() as int] == cs[c]); }
}
proof fn lemma_met(cs: Seq<SimplicialCell>, j0: SimplicialCell, x: SimplicialCell, n: int)
    requires met(cs, j0, x), good(cs, n), ensures x.meets(j0), x.wf(), x.size <= n, forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, x),
{
    let c = choose|c: int| 0 <= c < cs.len() && cs[c] == x; assert(cs[c].wf());
    assert forall|a: Set<int>| #[trigger] closed(cs, a) implies within_or_apart(a, x) by { assert(within_or_apart(a, cs[c])); }
}
proof fn lemma_grow_join(cs: Seq<SimplicialCell>, j0: SimplicialCell, j1: SimplicialCell, cc: SimplicialCell, j: SimplicialCell)
    requires j0.sub(j1), cc.meets(j0), forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, j1), forall|i: int| #[trigger] j.mem(i) == (j1.mem(i) || cc.mem(i)),
        forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, cc),
    ensures forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, j), cc.sub(j), j0.sub(j), j1.sub(j),
{
    assert forall|a: Set<int>| #[trigger] closed(cs, a) implies within_or_apart(a, j) by {
        assert(within_or_apart(a, j1)); assert(within_or_apart(a, cc)); 
        let x = choose|x: int| #[trigger] cc.mem(x) && j0.mem(x); assert(j1.mem(x));
        if forall|i: int| #[trigger] j1.mem(i) ==> a.contains(i) { assert(a.contains(x)); assert forall|i: int| #[trigger] j.mem(i) implies a.contains(i) by { assert(j1.mem(i) || cc.mem(i)); } }
        else { assert(!a.contains(x)); assert forall|i: int| #[trigger] j.mem(i) implies !a.contains(i) by { assert(j1.mem(i) || cc.mem(i)); } }
    }
}
// growing to all vertices, or not at all, decides
proof fn lemma_joined(cs: Seq<SimplicialCell>, j0: SimplicialCell, j: SimplicialCell, n: int)
    requires j0.sub(j), j0.n() >= 1, 0 <= n, forall|i: int| #[trigger] j.mem(i) ==> i < n, forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, j),
        forall|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).meets(j0) ==> cs[c].sub(j),
    ensures j0.n() <= j.n() <= n, j.n() == n ==> connected(cs, n), j.n() == j0.n() && j.n() != n ==> !connected(cs, n),
{
    lemma_full(j, n); lemma_sub_n(j0, j);
    if j.n() == n { assert forall|a: Set<int>| #[trigger] closed(cs, a) && (exists|i: int| 0 <= i < n && #[trigger] a.contains(i)) implies forall|i: int| 0 <= i < n ==> #[trigger] a.contains(i) by { 
        let x = choose|i: int| 0 <= i < n && #[trigger] a.contains(i); assert(j.mem(x)); assert(within_or_apart(a, j)); assert forall|i: int| 0 <= i < n implies #[trigger] a.contains(i) by { assert(j.mem(i)); } } }
    else if j.n() == j0.n() {
        let a = j0.vs().to_set(); lemma_vs(j0);
        assert forall|c: int| 0 <= c < cs.len() implies within_or_apart(a, #[trigger] cs[c]) by {
            if cs[c].meets(j0) { assert forall|i: int| #[trigger] cs[c].mem(i) implies a.contains(i) by { assert(j.mem(i)); assert(j0.mem(i)); } }
            else { assert forall|i: int| #[trigger] cs[c].mem(i) implies !a.contains(i) by { assert(a.contains(i) == j0.mem(i)); } }
        }
        assert(closed(cs, a)); lemma_some(j0); let x = choose|i: int| j0.mem(i); assert(j.mem(x)); assert(0 <= x < n && a.contains(x));
        if connected(cs, n) { assert forall|i: int| 0 <= i < n implies #[trigger] j.mem(i) by { assert(a.contains(i)); assert(j0.mem(i)); } }
    }
}
impl SimplicialCplx {
    pub open spec fn lim(&self) -> bool { self.size < usize::MAX / 2 }
    pub open spec fn wf(&self) -> bool {
        &&& self.size == self.vertices_labeling.len() && self.vertices_labeling@.no_duplicates()
        &&& good(self.maximal_cells@, self.size as int) && antichain(self.maximal_cells@) && covered(self.maximal_cells@, self.size as int)
    }
    pub open spec fn has(&self, s: Set<int>) -> bool { spans(self.maximal_cells@, s) }
//@fn SimplicialCplx::new T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx
//@.spec
    ensures r.wf(), r.vertices_labeling@ =~= Seq::<u64>::empty(), forall|s: Set<int>| !#[trigger] r.has(s),
//@end
//@fn SimplicialCplx::new_from_zero_skeleton acc0=Vec<SimplicialCell> T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx params=vertices_labels
//@.spec
    requires vertices_labels@.no_duplicates(), vertices_labels.len() < usize::MAX / 2,
    ensures r.wf(), r.vertices_labeling@ == vertices_labels@,
        forall|s: Set<int>| #[trigger] r.has(s) <==> exists|v: int| 0 <= v < vertices_labels.len() && #[trigger] only(s, v),
//@.loop 0
    invariant 0 <= __i0 <= __h0, __a0.len() == __i0, forall|k: int| 0 <= k < __i0 ==> (#[trigger] __a0[k]).wf() && __a0[k].size == k + 1 && __a0[k].n() == 1 && __a0[k].mem(k),
    decreases __h0 - __i0,
//@.exit
    proof {
        let cs = __ret.maximal_cells@;
        assert forall|c: int, i: int| 0 <= c < cs.len() && #[trigger] cs[c].mem(i) implies i == c by { lemma_single(cs[c], c); }
        assert forall|c: int, d: int| 0 <= c < cs.len() && 0 <= d < cs.len() && c != d implies !(#[trigger] cs[c]).sub((#[trigger] cs[d])) by { if cs[c].sub(cs[d]) { assert(cs[c].mem(c)); assert(cs[d].mem(c)); } }
        assert forall|i: int| 0 <= i < __ret.size implies #[trigger] hit(cs, i) by { assert(cs[i].mem(i)); }
        assert forall|s: Set<int>| #[trigger] __ret.has(s) <==> exists|v: int| 0 <= v < cs.len() && #[trigger] only(s, v) by {
            if __ret.has(s) { let c = choose|c: int| 0 <= c < cs.len() && within(s, (#[trigger] cs[c])); assert(only(s, c)); }
            if exists|v: int| 0 <= v < cs.len() && #[trigger] only(s, v) { let v = choose|v: int| 0 <= v < cs.len() && #[trigger] only(s, v); assert(cs[v].mem(v)); assert(within(s, cs[v])); }
        }
    }
//@end
//@fn SimplicialCplx::new_from T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx params=simplex
//@.spec
    requires simplex.vertices_labels.len() > 0, simplex.vertices_labels@.no_duplicates(), simplex.vertices_labels.len() < usize::MAX / 2,
    ensures r.wf(), r.vertices_labeling@ == reg(Seq::empty(), simplex.vertices_labels@, simplex.vertices_labels.len() as int),
        forall|s: Set<int>| #[trigger] r.has(s) <==> labelled(s, r.vertices_labeling@, simplex.vertices_labels@),
//@end
//@fn SimplicialCplx::get_simplex T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx params=cell
//@.spec
    requires self.wf(), self.lim(), cell.wf(), cell.n() >= 1, cell.size <= self.size,
    ensures r.dim == cell.n() - 1, r.vertices_labels.len() == cell.n(), cell.vs().len() == cell.n(), forall|k: int| 0 <= k < cell.n() ==> #[trigger] r.vertices_labels[k] == self.vertices_labeling[cell.vs()[k]],
//@.entry
    let ghost d = cell.vertices@;
    proof { lemma_mems(d, 64 * d.len() as int); }
//@.loop 0
    invariant 0 <= __i0 <= __h0, __h0 == cell.size, __a0.len() == card(d, __i0 as int), forall|k: int| 0 <= k < __a0.len() ==> #[trigger] __a0[k] == self.vertices_labeling[mems(d, __i0 as int)[k]],
    decreases __h0 - __i0,
//@.loop 0 begin
    proof {
        lemma_mems(d, __j0 as int); lemma_mems(d, __i0 as int);
    }
//@.loop 0 after
    proof { assert forall|i: int| cell.size <= i implies !inw(d, i) by { assert(!cell.mem(i)); } lemma_card_none(d, cell.size as int, 64 * d.len() as int); lemma_mems(d, cell.size as int); lemma_mems_prefix(d, cell.size as int, 64 * d.len() as int); }
//@end
//@fn SimplicialCplx::attach acc1=Vec<usize> T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx params=simplex expr:self.vertices_labeling.contains(&v_label)=lab_has(&self.vertices_labeling,v_label)
//@.spec
    requires old(self).wf(), simplex.vertices_labels.len() > 0, simplex.vertices_labels@.no_duplicates(), old(self).size + simplex.vertices_labels.len() < usize::MAX / 2,
    ensures final(self).wf(), final(self).vertices_labeling@ == reg(old(self).vertices_labeling@, simplex.vertices_labels@, simplex.vertices_labels.len() as int),
        forall|s: Set<int>| #[trigger] final(self).has(s) <==> old(self).has(s) || labelled(s, final(self).vertices_labeling@, simplex.vertices_labels@),
//@.entry
    let ghost l0 = self.vertices_labeling@; let ghost c0 = self.maximal_cells@; let ghost a = simplex.vertices_labels@;
//@.loop 0
    invariant 0 <= __i0 <= __n0, __n0 == a.len(), self.vertices_labeling@ == reg(l0, a, __i0 as int), self.size == self.vertices_labeling.len(), self.size <= l0.len() + __i0,
        self.vertices_labeling@.no_duplicates(), simplex.vertices_labels@ == a,
        good(self.maximal_cells@, self.size as int), antichain(self.maximal_cells@), covered(self.maximal_cells@, self.size as int), fresh(self.maximal_cells@, c0, l0.len() as int, self.size as int),
    decreases __n0 - __i0,
//@.loop 0 begin
    let ghost c1 = self.maximal_cells@; let ghost n1 = self.size as int;
    proof { lemma_reg(l0, a, __j0 as int); lemma_reg(l0, a, __i0 as int); }
//@.loop 0 end
    proof {
        let cs = self.maximal_cells@;
        if self.size > n1 {
            assert(cs.drop_last() =~= c1); lemma_new_vertex(c0, c1, cs, l0.len() as int, n1);
        }
    }
//@.loop 0 after
    let ghost c2 = self.maximal_cells@; let ghost l2 = self.vertices_labeling@;
    proof { lemma_reg(l0, a, a.len() as int); assert(l2 == reg(l0, a, a.len() as int)); }
//@.loop 1
    invariant 0 <= __i1 <= __n1, __n1 == a.len(), __a1.len() == __i1, forall|k: int| 0 <= k < __i1 ==> #[trigger] __a1[k] < l2.len() && l2[__a1[k] as int] == a[k],
    decreases __n1 - __i1,
//@.loop 2 before
    proof { assert(l2.contains(a[__j1 as int])); }
//@.loop 2
    invariant 0 <= __i2 <= __n2, __a2 is Some ==> __a2->0 < l2.len() && l2[__a2->0 as int] == a[__j1 as int], __a2 is None ==> forall|k: int| 0 <= k < __i2 ==> l2[k] != a[__j1 as int],
    decreases __n2 - __i2,
//@.loop 1 after
    proof { assert(a[0] == l2[__a1[0] as int]); assert(__a1[0] < self.size); 
        assert forall|x: int, y: int| 0 <= x < __a1.len() && 0 <= y < __a1.len() && x != y implies __a1[x] != __a1[y] by { assert(a[x] != a[y]); } 
        assert forall|i: usize| #[trigger] __a1@.contains(i) == (i < l2.len() && a.contains(l2[i as int])) by {
            if __a1@.contains(i) { let k = choose|k: int| 0 <= k < __a1.len() && __a1[k] == i; assert(a[k] == l2[i as int]); }
            if i < l2.len() && a.contains(l2[i as int]) { let k = choose|k: int| 0 <= k < a.len() && a[k] == l2[i as int]; assert(l2[__a1[k] as int] == l2[i as int]); assert(__a1[k] == i); }
        } }
//@.loop 3 before
    proof {
        assert forall|i: int| #[trigger] new_cell.mem(i) == (0 <= i < l2.len() && a.contains(l2[i])) by {}
    }
//@.loop 3
    invariant 0 <= __i3 <= __n3, __n3 == c2.len(), __a3 ==> __i3 > 0 && new_cell.sub(c2[__i3 - 1]), !__a3 ==> forall|c: int| 0 <= c < __i3 ==> !new_cell.sub((#[trigger] c2[c])),
    decreases __n3 - __i3,
//@.loop 3 after
    proof { 
        if __a3 { lemma_absorbed(c0, c2, new_cell, l2, a, l0.len() as int, __i3 - 1); }
    }
//@.loop 4
    invariant 0 <= __i4 <= self.maximal_cells.len(), self.size == l2.len(), self.vertices_labeling@ == l2,
        forall|k: int| 0 <= k < __i4 ==> !(#[trigger] self.maximal_cells[k]).sub(new_cell),
        forall|k: int| 0 <= k < self.maximal_cells.len() ==> c2.contains(#[trigger] self.maximal_cells[k]),
        forall|c: int| 0 <= c < c2.len() && !(#[trigger] c2[c]).sub(new_cell) ==> self.maximal_cells@.contains(c2[c]),
        antichain(self.maximal_cells@),
    decreases self.maximal_cells.len() - __i4,
//@.loop 4 begin
    let ghost c3 = self.maximal_cells@;
//@.loop 4 end
    proof {
        let cs = self.maximal_cells@;
        if cs.len() < c3.len() {
            let x = __i4 as int;
            assert forall|k: int| 0 <= k < cs.len() implies #[trigger] cs[k] == c3[if k < x { k } else { k + 1 }] by {}
            assert forall|c: int| 0 <= c < c2.len() && !(#[trigger] c2[c]).sub(new_cell) implies cs.contains(c2[c]) by { assert(c3.contains(c2[c])); let k = choose|k: int| 0 <= k < c3.len() && c3[k] == c2[c]; if k < x { assert(cs[k] == c2[c]); } else if k > x { assert(cs[k - 1] == c2[c]); } }
        }
    }
//@.loop 4 after
    let ghost c4 = self.maximal_cells@;
//@.exit
    proof { assert(self.maximal_cells@.drop_last() =~= c4); lemma_attached(c0, c2, self.maximal_cells@, self.maximal_cells@.last(), l2, a, l0.len() as int); }
//@end
//@fn SimplicialCplx::get_labeled_zero_skeleton T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx
//@.spec
    ensures r@ == self.vertices_labeling@,
//@end
//@fn SimplicialCplx::n_vertices T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx
//@.spec
    ensures r == self.vertices_labeling.len(),
//@end
//@fn SimplicialCplx::dim acc0=Option<usize> T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx
//@.spec
    requires self.wf(), self.maximal_cells.len() > 0,
    ensures forall|c: int| 0 <= c < self.maximal_cells.len() ==> (#[trigger] self.maximal_cells[c]).n() <= r + 1, exists|c: int| 0 <= c < self.maximal_cells.len() && (#[trigger] self.maximal_cells[c]).n() == r + 1,
//@.loop 0 begin
    proof { let d = self.maximal_cells[__j0 as int].vertices@; lemma_card_bound(d, 64 * d.len() as int); assert(self.maximal_cells[__j0 as int].wf()); }
//@.loop 0
    invariant 0 <= __i0 <= self.maximal_cells.len(), __a0 is None <==> __i0 == 0, __a0 is Some ==> forall|c: int| 0 <= c < __i0 ==> (#[trigger] self.maximal_cells[c]).n() <= __a0->0 + 1, __a0 is Some ==> exists|c: int| 0 <= c < __i0 && (#[trigger] self.maximal_cells[c]).n() == __a0->0 + 1,
    decreases self.maximal_cells.len() - __i0,
//@end
//@fn SimplicialCplx::is_connected acc1=Vec<&SimplicialCell> T=u64 Simplex<T>=Simplex SimplicialCplx<T>=SimplicialCplx method:clone=cell_clone
//@.spec
    requires self.wf(),
    ensures r == connected(self.maximal_cells@, self.size as int),
//@.entry
    let ghost cs = self.maximal_cells@;
    proof { if cs.len() == 0 { if self.size > 0 { assert(hit(cs, 0)); } } else { lemma_some(cs[0]); } }
//@.loop 0 before
    proof { assert(join.vertices@ == cs[0].vertices@); assert(forall|i: int| #[trigger] join.mem(i) == cs[0].mem(i)); }
//@.loop 0
    invariant self.wf(), join.wfd(), join.n() >= 1, forall|i: int| #[trigger] join.mem(i) ==> i < self.size, prev_dim == join.dim, cs == self.maximal_cells@,
        forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, join), cs.len() > 0, self.size > 0,
    decreases self.size - join.n(),
//@.loop 0 begin
    let ghost j0 = join;
//@.loop 1
    invariant 0 <= __i1 <= cs.len(), join == j0, forall|k: int| 0 <= k < __a1.len() ==> met(cs, j0, *#[trigger] __a1[k]),
        forall|c: int| 0 <= c < __i1 && (#[trigger] cs[c]).meets(j0) ==> kept(__a1@, cs[c]),
    decreases cs.len() - __i1,
//@.loop 1 begin
    let ghost a0 = __a1@;
//@.loop 1 end
    proof { if __a1.len() > a0.len() { assert(__a1@.drop_last() =~= a0); assert(__a1@[a0.len() as int] == __a1@.last()); assert(a0.len() + 1 == __a1.len()); assert(met(cs, j0, cs[__j1 as int])); } lemma_kept(a0, __a1@, cs, __j1 as int); }
//@.loop 2
    invariant 0 <= __i2 <= cells_connected_to_join.len(), join.wfd(), j0.sub(join), forall|i: int| #[trigger] join.mem(i) ==> i < self.size,
        forall|a: Set<int>| #[trigger] closed(cs, a) ==> within_or_apart(a, join), 
        forall|k: int| 0 <= k < __i2 ==> (#[trigger] cells_connected_to_join[k]).sub(join),
    decreases cells_connected_to_join.len() - __i2,
//@.loop 2 begin
    let ghost j1 = join; let ghost cc = *cells_connected_to_join[__j2 as int]; proof { assert(met(cs, j0, cc)); lemma_met(cs, j0, cc, self.size as int); }
//@.loop 2 end
    proof { lemma_grow_join(cs, j0, j1, cc, join); }
//@.loop 2 after
    proof {
        assert forall|c: int| 0 <= c < cs.len() && (#[trigger] cs[c]).meets(j0) implies cs[c].sub(join) by { assert(kept(cells_connected_to_join@, cs[c])); let k = choose|k: int| 0 <= k < cells_connected_to_join.len() && *#[trigger] cells_connected_to_join@[k] == cs[c]; assert(cells_connected_to_join[k].sub(join)); }
        lemma_joined(cs, j0, join, self.size as int); lemma_dim_eq(join, j0);
    }
//@end
}
} // verus!
fn main() {}
