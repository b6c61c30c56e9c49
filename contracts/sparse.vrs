//@include prelude.inc
//@include chk.inc
verus! {
use std::rc::Rc;
//@file alg/src/lin_alg/sparse_matrix_impl.rs
//@struct SparseMatrix file=alg/src/lin_alg.rs T=i64 SparseNode<T>=SparseNode
//@struct SparseNode file=alg/src/lin_alg.rs T=i64 SparseNode<T>=SparseNode
//@struct Iter T=i64 SparseNode<T>=SparseNode
// the entries of a row (dir) or column (!dir) from a node on: (index, value)
pub open spec fn chain(n: SparseNode, dir: bool) -> Seq<(usize, i64)> decreases n
{
    match n {
        SparseNode::Entry(ix, v, r) => seq![(if dir { ix.1 } else { ix.0 }, v)] + chain(if dir { *r.0 } else { *r.1 }, dir),
        _ => Seq::empty(),
    }
}
// no start node inside a chain
pub open spec fn proper(n: SparseNode, dir: bool) -> bool decreases n
{
    match n { SparseNode::Entry(ix, v, r) => proper(if dir { *r.0 } else { *r.1 }, dir), SparseNode::End => true, _ => false }
}
pub open spec fn line_key(n: SparseNode) -> int { match n { SparseNode::Start(i, _) => i as int, _ => usize::MAX as int } }
// the heads of the rows (columns): start nodes in increasing order of their index, or the single placeholder of an empty matrix
pub open spec fn heads(v: Seq<SparseNode>, dir: bool) -> bool {
    &&& v.len() > 0
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> line_key(#[trigger] v[i]) < line_key(#[trigger] v[j])
    &&& forall|i: int| 0 <= i < v.len() ==> (match #[trigger] v[i] { SparseNode::Start(_, r) => proper(*r, dir), SparseNode::End => v.len() == 1, _ => false })
}
pub open spec fn line(v: Seq<SparseNode>, dir: bool, i: usize) -> Seq<(usize, i64)>
{
    if exists|k: int| 0 <= k < v.len() && line_key(#[trigger] v[k]) == i {
        let k = choose|k: int| 0 <= k < v.len() && line_key(#[trigger] v[k]) == i;
        match v[k] { SparseNode::Start(_, r) => chain(*r, dir), _ => Seq::empty() }
    } else { Seq::empty() }
}
// binary search by start_node_idx, as the standard library specifies it for a sorted slice
#[verifier::external_body]
fn bsearch(v: &Vec<SparseNode>, i: usize) -> (r: Result<usize, usize>)
    requires forall|a: int, b: int| 0 <= a < b < v.len() ==> line_key(#[trigger] v[a]) < line_key(#[trigger] v[b]),
    ensures match r { Ok(k) => k < v.len() && line_key(v[k as int]) == i, Err(_) => forall|k: int| 0 <= k < v.len() ==> line_key(#[trigger] v[k]) != i }
{ v.binary_search_by(|f| (match f { SparseNode::Start(i, _) => *i, _ => usize::MAX }).cmp(&i)) }
impl SparseNode {
//@fn SparseNode::start_node_idx T=i64 maypanic op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires !(self is Entry),
    ensures r == line_key(*self),
//@end
//@fn SparseNode::start_ref T=i64 rettype=&SparseNode op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self is Start,
    ensures *r == *(self->Start_1),
//@end
}
impl<'a> Iter<'a> {
    pub open spec fn rest(&self) -> Seq<(usize, i64)> { if self.is_done { Seq::empty() } else { chain(*self.data, self.dir) } }
    pub open spec fn wf(&self) -> bool { self.is_done || proper(*self.data, self.dir) }
//@fn <Iter as Iterator>::next T=i64 rettype=Option<(usize,&'a~i64)> op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), match r {
        Some(x) => old(self).rest().len() > 0 && (x.0, *x.1) == old(self).rest()[0] && final(self).rest() =~= old(self).rest().drop_first(),
        None => old(self).rest().len() == 0 && final(self).rest().len() == 0 },
//@end
}
impl SparseMatrix {
    pub open spec fn wf(&self) -> bool { heads(self.rows@, !self.transposed) && heads(self.cols@, self.transposed) }
    pub open spec fn row(&self, i: usize) -> Seq<(usize, i64)> { line(self.rows@, !self.transposed, i) }
    pub open spec fn col(&self, j: usize) -> Seq<(usize, i64)> { line(self.cols@, self.transposed, j) }
//@fn SparseMatrix::size T=i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    ensures r == self.size,
//@end
//@fn SparseMatrix::row_iter T=i64 params=i rettype=Iter<'_> expr:self.rows.binary_search_by(|f|f.start_node_idx().cmp(&i))=bsearch(&self.rows,i) op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), i < usize::MAX,
    ensures r.wf(), r.rest() =~= self.row(i),
//@end
//@fn SparseMatrix::col_iter T=i64 params=i rettype=Iter<'_> expr:self.cols.binary_search_by(|f|f.start_node_idx().cmp(&i))=bsearch(&self.cols,i) op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(), i < usize::MAX,
    ensures r.wf(), r.rest() =~= self.col(i),
//@end
//@fn SparseMatrix::transpose T=i64 op:+=e_add op:+==e_add op:-=e_sub op:-==e_sub op:*=e_mul op:*==e_mul op:u-=e_neg
//@.spec
    requires self.wf(),
    ensures r.wf(), r.size == (self.size.1, self.size.0), forall|i: usize| #[trigger] r.row(i) == self.col(i), forall|j: usize| #[trigger] r.col(j) == self.row(j),
//@end
}
} // verus!
fn main() {}
