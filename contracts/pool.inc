//@include bits.inc
verus! {
//@file util/src/lib.rs
impl BinaryPool {
    pub open spec fn wf(&self) -> bool {
        &&& self.data.len() == self.len / 64 + 1
        &&& self.n_elements == card(self.data@, self.len as int)
        &&& forall|i: int| i >= self.len ==> !inw(self.data@, i)
    }
    pub open spec fn mem(&self, i: int) -> bool { inw(self.data@, i) }
}

// structural equality (derived PartialEq) of two pools of the same size is equality of the sets
proof fn lemma_pool_ext(a: BinaryPool, b: BinaryPool)
    requires a.wf(), b.wf(), a.len == b.len,
    ensures (forall|i: int| 0 <= i < a.len ==> a.mem(i) == b.mem(i)) <==> (a.n_elements == b.n_elements && a.data@ == b.data@),
{
    if forall|i: int| 0 <= i < a.len ==> a.mem(i) == b.mem(i) {
        assert forall|i: int| inw(a.data@, i) == inw(b.data@, i) by { if i < 0 || i >= a.len {} else { assert(a.mem(i) == b.mem(i)); } }
        lemma_card_ext(a.data@, b.data@, a.len as int);
        assert forall|w: int| 0 <= w < a.data.len() implies a.data@[w] == b.data@[w] by {
            assert forall|k: int| 0 <= k < 64 implies bit(a.data@[w], k) == bit(b.data@[w], k) by {
                assert(inw(a.data@, 64 * w + k) == inw(b.data@, 64 * w + k));
                assert((64 * w + k) / 64 == w && (64 * w + k) % 64 == k) by(nonlinear_arith) requires 0 <= k < 64, 0 <= w;
            }
            lemma_word_eq(a.data@[w], b.data@[w]);
        }
        assert(a.data@ =~= b.data@);
    }
}

// ------------------------------------------------------------------ extracted code
pub mod bitwise {
use super::*;
//@fn count_ones params=data
//@.spec
    ensures r == cnt(data, 64), r <= 64,
//@.entry
    let ghost w0 = data;
    proof { lemma_cnt_zero(64); lemma_cnt_bound(data, 64); }
//@.loop 0
    invariant count + cnt(data, 64) == cnt(w0, 64), count <= 64, 0 <= cnt(data, 64),
    decreases cnt(data, 64),
//@.loop 0 begin
    proof { lemma_clear_low(data); lemma_cnt_bound(data & ((data - 1) as u64), 64); lemma_cnt_bound(w0, 64); }
//@end
}

//@struct BinaryPool

impl BinaryPool {
//@fn BinaryPool::new params=len
//@.spec
    ensures r.wf(), r.len == len, forall|i: int| !r.mem(i),
//@.exit
    proof {
        lemma_bit0();
        assert forall|i: int| !#[trigger] inw(__ret.data@, i) by {
            if 0 <= i < 64 * __ret.data.len() { assert(0 <= i / 64 < __ret.data.len()) by(nonlinear_arith) requires 0 <= i < 64 * __ret.data.len(); }
        }
        lemma_card_none(__ret.data@, 0, len as int);
    }
//@end

//@fn BinaryPool::from params=len,indeces
//@.spec
    requires forall|k: int| 0 <= k < indeces.len() ==> indeces[k] < len,
    ensures r.wf(), r.len == len,
        forall|i: int| r.mem(i) <==> (exists|k: int| 0 <= k < indeces.len() && indeces[k] == i),
//@.loop 0
    invariant __i0 <= __n0, __n0 == indeces.len(), __i0 > 0 ==> __a0.is_some(),
        __a0.is_some() ==> exists|k: int| 0 <= k < indeces.len() && indeces[k] == __a0.unwrap(),
    decreases __n0 - __i0,
//@.loop 1 before
    proof {
        lemma_bit0();
        assert forall|i: int| !#[trigger] inw(pool.data@, i) by {
            if 0 <= i < 64 * pool.data.len() { assert(0 <= i / 64 < pool.data.len()) by(nonlinear_arith) requires 0 <= i < 64 * pool.data.len(); }
        }
        lemma_card_none(pool.data@, 0, len as int);
    }
//@.loop 1
    invariant __i1 <= __n1, __n1 == indeces.len(), pool.wf(), pool.len == len,
        forall|i: int| pool.mem(i) <==> (exists|k: int| 0 <= k < __i1 && indeces[k] == i),
    decreases __n1 - __i1,
//@.loop 1 end
    proof {
        assert forall|i: int| pool.mem(i) <==> (exists|k: int| 0 <= k < __i1 && indeces[k] == i) by {
            if pool.mem(i) { if i == indeces[__j1 as int] { } }
            if exists|k: int| 0 <= k < __i1 && indeces[k] == i {
                let k = choose|k: int| 0 <= k < __i1 && indeces[k] == i;
                if k == __j1 {} else { assert(0 <= k < __j1 && indeces[k] == i); }
            }
        }
    }
//@end

//@fn BinaryPool::resize params=new_size
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).len == if new_size < old(self).len { old(self).len } else { new_size },
        forall|i: int| final(self).mem(i) == old(self).mem(i),
        final(self).n_elements == old(self).n_elements,
//@.loop 0
    invariant
        self.len == old(self).len, self.n_elements == old(self).n_elements,
        old(self).data.len() <= self.data.len() <= new_size / 64 + 1,
        forall|k: int| 0 <= k < old(self).data.len() ==> self.data[k] == old(self).data[k],
        forall|k: int| old(self).data.len() <= k < self.data.len() ==> self.data[k] == 0,
    decreases new_size / 64 + 1 - self.data.len(),
//@.loop 0 after
    proof {
        lemma_bit0();
        let olen = old(self).data.len() as int;
        assert forall|i: int| #[trigger] inw(self.data@, i) == inw(old(self).data@, i) by {
            if 0 <= i < 64 * self.data.len() { assert(0 <= i / 64 < self.data.len()) by(nonlinear_arith) requires 0 <= i < 64 * self.data.len(); 
              if i / 64 < olen { assert(i < 64 * olen) by(nonlinear_arith) requires i / 64 < olen; } }
        }
        lemma_card_ext(self.data@, old(self).data@, self.len as int);
        lemma_card_none(self.data@, self.len as int, new_size as int);
    }
//@end

//@fn BinaryPool::add params=index
//@.spec
    requires old(self).wf(), index < old(self).len,
    ensures final(self).wf(), final(self).len == old(self).len,
        forall|i: int| final(self).mem(i) == (old(self).mem(i) || i == index),
//@.entry
    proof { lemma_card_bound(self.data@, self.len as int); lemma_bit_or(self.data[index as int / 64], (index % 64) as u64); lemma_bit_or(self.data[index as int / 64], index as u64 % 64);
        if !inw(self.data@, index as int) { if card(self.data@, self.len as int) == self.len { lemma_card_full(self.data@, self.len as int); } } }
//@.exit
    proof {
        assert forall|i: int| #[trigger] inw(self.data@, i) == (inw(old(self).data@, i) || i == index) by {
            if i / 64 == index / 64 { assert(i == 64 * (i / 64) + i % 64); }
        }
        if inw(old(self).data@, index as int) { lemma_card_ext(self.data@, old(self).data@, self.len as int); }
        else { lemma_card_set(old(self).data@, self.data@, self.len as int, index as int); }
    }
//@end

//@fn BinaryPool::remove params=index
//@.spec
    requires old(self).wf(), index < old(self).len,
    ensures final(self).wf(), final(self).len == old(self).len,
        forall|i: int| final(self).mem(i) == (old(self).mem(i) && i != index),
//@.entry
    proof { lemma_card_bound(self.data@, self.len as int); lemma_bit_andnot(self.data[index as int / 64], index as u64 % 64);
        if inw(self.data@, index as int) { lemma_card_mono(self.data@, index + 1, self.len as int); lemma_card_bound(self.data@, index as int); } }
//@.exit
    proof {
        assert forall|i: int| #[trigger] inw(self.data@, i) == (inw(old(self).data@, i) && i != index) by {
            if i / 64 == index / 64 { assert(i == 64 * (i / 64) + i % 64); }
        }
        if !inw(old(self).data@, index as int) { lemma_card_ext(self.data@, old(self).data@, self.len as int); }
        else { lemma_card_set(self.data@, old(self).data@, self.len as int, index as int); }
    }
//@end

//@fn BinaryPool::union params=other
//@.spec
    requires self.wf(), other.wf(), self.len == other.len, 64 * self.data.len() <= usize::MAX,
    ensures r.wf(), r.len == self.len, forall|i: int| r.mem(i) == (self.mem(i) || other.mem(i)),
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.data.len(), self_.data.len() == self.data.len(), self_.len == self.len,
        forall|k: int| 0 <= k < __i0 ==> self_.data[k] == self.data[k] | other.data[k],
        forall|k: int| __i0 <= k < __n0 ==> self_.data[k] == self.data[k],
    decreases __n0 - __i0,
//@.loop 1
    invariant __i1 <= __n1, __n1 == self_.data.len(), self_.data.len() == self.data.len(), __a1 == total(self_.data@, __i1 as int), __a1 <= 64 * __i1,
    decreases __n1 - __i1,
//@.exit
    proof {
        assert forall|i: int| #[trigger] inw(self_.data@, i) == (inw(self.data@, i) || inw(other.data@, i)) by {
            if 0 <= i < 64 * self_.data.len() { assert(0 <= i / 64 < self_.data.len()) by(nonlinear_arith) requires 0 <= i < 64 * self_.data.len();
                lemma_bit_or2(self.data[i / 64], other.data[i / 64]); }
        }
        lemma_total_card(self_.data@, self_.data.len() as int);
        lemma_card_none(self_.data@, self_.len as int, 64 * self_.data.len() as int);
    }
//@end

//@fn BinaryPool::intersection params=other
//@.spec
    requires self.wf(), other.wf(), self.len == other.len, 64 * self.data.len() <= usize::MAX,
    ensures r.wf(), r.len == self.len, forall|i: int| r.mem(i) == (self.mem(i) && other.mem(i)),
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.data.len(), self_.data.len() == self.data.len(), self_.len == self.len,
        forall|k: int| 0 <= k < __i0 ==> self_.data[k] == self.data[k] & other.data[k],
        forall|k: int| __i0 <= k < __n0 ==> self_.data[k] == self.data[k],
    decreases __n0 - __i0,
//@.loop 1
    invariant __i1 <= __n1, __n1 == self_.data.len(), self_.data.len() == self.data.len(), __a1 == total(self_.data@, __i1 as int), __a1 <= 64 * __i1,
    decreases __n1 - __i1,
//@.exit
    proof {
        assert forall|i: int| #[trigger] inw(self_.data@, i) == (inw(self.data@, i) && inw(other.data@, i)) by {
            if 0 <= i < 64 * self_.data.len() { assert(0 <= i / 64 < self_.data.len()) by(nonlinear_arith) requires 0 <= i < 64 * self_.data.len();
                lemma_bit_and2(self.data[i / 64], other.data[i / 64]); }
        }
        lemma_total_card(self_.data@, self_.data.len() as int);
        lemma_card_none(self_.data@, self_.len as int, 64 * self_.data.len() as int);
    }
//@end

//@fn BinaryPool::fill
//@.spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).len == old(self).len, forall|i: int| 0 <= i < old(self).len ==> final(self).mem(i),
        final(self).n_elements == old(self).len,
//@.loop 0
    invariant __i0 <= __h0, __h0 == self.len, self.len == old(self).len, self.wf(), forall|i: int| 0 <= i < __i0 ==> self.mem(i),
    decreases __h0 - __i0,
//@.exit
    proof { assert forall|i: int| 0 <= i < self.len implies #[trigger] inw(self.data@, i) by { assert(self.mem(i)); } lemma_card_all(self.data@, self.len as int); }
//@end

//@fn BinaryPool::len
//@.spec
    ensures r == self.len,
//@end
//@fn BinaryPool::n_elements
//@.spec
    requires self.wf(),
    ensures r == self.n_elements, r == card(self.data@, self.len as int),
//@end

//@fn BinaryPool::contains params=index
//@.spec
    requires index < self.len, self.data.len() == self.len / 64 + 1,
    ensures r == self.mem(index as int),
//@.entry
    proof { lemma_bit_test(self.data[index as int / 64], index as u64 % 64); }
//@end

//@fn BinaryPool::check_bounds params=index
//@.spec
    requires index < self.len,
//@end

//@fn BinaryPool::is_subset_of params=other
//@.spec
    requires self.wf(), other.wf(), self.len == other.len,
    ensures r <==> (forall|i: int| self.mem(i) ==> #[trigger] other.mem(i)),
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.data.len(),
        __a0 ==> forall|k: int| 0 <= k < __i0 ==> #[trigger] self.data[k] & other.data[k] == self.data[k],
        !__a0 ==> exists|k: int| 0 <= k < __i0 && #[trigger] self.data[k] & other.data[k] != self.data[k],
    decreases __n0 - __i0,
//@.loop 0 after
    proof {
        if __a0 {
            assert forall|i: int| self.mem(i) implies #[trigger] other.mem(i) by {
                lemma_bit_subset(self.data[i / 64], other.data[i / 64]);
                assert(self.data[i / 64] & other.data[i / 64] == self.data[i / 64]);
                assert(bit(self.data[i / 64], i % 64));
            }
        } else {
            let k = choose|k: int| 0 <= k < __i0 && #[trigger] self.data[k] & other.data[k] != self.data[k];
            lemma_bit_subset(self.data[k], other.data[k]);
            let b = choose|b: int| 0 <= b < 64 && bit(self.data[k], b) && !#[trigger] bit(other.data[k], b);
            let i = 64 * k + b;
            assert(i / 64 == k && i % 64 == b) by(nonlinear_arith) requires i == 64 * k + b, 0 <= b < 64, 0 <= k;
            assert(self.mem(i) && !other.mem(i));
        }
    }
//@end

//@fn BinaryPool::check_len params=other
//@.spec
    requires self.len == other.len,
//@end

//@fn BinaryPool::is_full
//@.spec
    requires self.wf(),
    ensures r <==> (forall|i: int| 0 <= i < self.len ==> self.mem(i)),
//@.exit
    proof {
        if __ret { lemma_card_full(self.data@, self.len as int); }
        else if forall|i: int| 0 <= i < self.len ==> self.mem(i) { assert forall|i: int| 0 <= i < self.len implies #[trigger] inw(self.data@, i) by { assert(self.mem(i)); } lemma_card_all(self.data@, self.len as int); }
    }
//@end
}
} // verus!
