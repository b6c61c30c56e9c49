//@include prelude.inc
//@include pool.inc
verus! {
impl BinaryPool {
// ---- rejection: each of these returns normally only when its argument is valid -----------------
//@fn BinaryPool::check_bounds key=BinaryPool::check_bounds#reject name=check_bounds_rej params=index maypanic
//@.spec
    ensures index < self.len,
//@end
//@fn BinaryPool::check_len key=BinaryPool::check_len#reject name=check_len_rej params=other maypanic
//@.spec
    ensures self.len == other.len,
//@end
//@fn BinaryPool::contains key=BinaryPool::contains#reject name=contains_rej params=index maypanic rename:check_bounds=check_bounds_rej
//@.spec
    requires self.data.len() == self.len / 64 + 1,
    ensures index < self.len, r == self.mem(index as int),
//@.entry
    proof { if index < self.len { lemma_bit_test(self.data[index as int / 64], index as u64 % 64); } }
//@end
//@fn BinaryPool::add key=BinaryPool::add#reject name=add_rej params=index maypanic rename:check_bounds=check_bounds_rej rename:contains=contains_rej
//@.spec
    requires old(self).wf(),
    ensures index < old(self).len,
//@.entry
    proof { lemma_card_bound(self.data@, self.len as int);
        if index < self.len { lemma_bit_test(self.data[index as int / 64], index as u64 % 64); if !inw(self.data@, index as int) { if card(self.data@, self.len as int) == self.len { lemma_card_full(self.data@, self.len as int); } } } }
//@end
//@fn BinaryPool::remove key=BinaryPool::remove#reject name=remove_rej params=index maypanic rename:check_bounds=check_bounds_rej rename:contains=contains_rej
//@.spec
    requires old(self).wf(),
    ensures index < old(self).len,
//@.entry
    proof { lemma_card_bound(self.data@, self.len as int);
        if index < self.len && inw(self.data@, index as int) { lemma_card_mono(self.data@, index + 1, self.len as int); lemma_card_bound(self.data@, index as int); } }
//@end

//@fn BinaryPool::union key=BinaryPool::union#reject name=union_rej params=other maypanic rename:check_len=check_len_rej
//@.spec
    requires self.wf(), other.wf(), 64 * self.data.len() <= usize::MAX,
    ensures self.len == other.len,
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.data.len(), self_.data.len() == self.data.len(), self_.len == self.len, other.data.len() == self.data.len(),
    decreases __n0 - __i0,
//@.loop 1
    invariant __i1 <= __n1, __n1 == self_.data.len(), __a1 <= 64 * __i1, self_.data.len() == self.data.len(),
    decreases __n1 - __i1,
//@end
//@fn BinaryPool::intersection key=BinaryPool::intersection#reject name=intersection_rej params=other maypanic rename:check_len=check_len_rej
//@.spec
    requires self.wf(), other.wf(), 64 * self.data.len() <= usize::MAX,
    ensures self.len == other.len,
//@.loop 0
    invariant __i0 <= __n0, __n0 == self.data.len(), self_.data.len() == self.data.len(), self_.len == self.len, other.data.len() == self.data.len(),
    decreases __n0 - __i0,
//@.loop 1
    invariant __i1 <= __n1, __n1 == self_.data.len(), __a1 <= 64 * __i1, self_.data.len() == self.data.len(),
    decreases __n1 - __i1,
//@end
//@fn BinaryPool::is_subset_of key=BinaryPool::is_subset_of#reject name=is_subset_of_rej params=other maypanic rename:check_len=check_len_rej
//@.spec
    requires self.wf(), other.wf(),
    ensures self.len == other.len,
//@.loop 0
    invariant true,
    decreases __n0 - __i0,
//@end
}

//@struct BinaryPoolIter
impl<'a> BinaryPool {
//@fn BinaryPool::iter rettype=BinaryPoolIter<'a>
//@.spec
    requires self.wf(),
    ensures r.data == self, r.curr.start == 0, r.curr.end == self.len,
//@end
}
impl<'a> BinaryPoolIter<'a> {
// `next` returns the members in increasing order, each exactly once
//@fn <BinaryPoolIter as Iterator>::next iters=self.curr acc0=Option<usize> Self::Item=usize
//@.spec
    requires old(self).data.wf(), old(self).curr.start <= old(self).curr.end, old(self).curr.end == old(self).data.len,
    ensures final(self).data == old(self).data, final(self).curr.end == old(self).curr.end,
        match r {
            Some(i) => old(self).curr.start <= i < old(self).curr.end && old(self).data.mem(i as int) && final(self).curr.start == i + 1
                && forall|k: int| old(self).curr.start <= k < i ==> !old(self).data.mem(k),
            None => final(self).curr.start == final(self).curr.end && forall|k: int| old(self).curr.start <= k < old(self).curr.end ==> !old(self).data.mem(k),
        },
//@.loop 0
    invariant self.data == old(self).data, self.curr.end == old(self).curr.end, old(self).curr.start <= self.curr.start <= self.curr.end,
       match __a0 {
            Some(i) => old(self).curr.start <= i < old(self).curr.end && old(self).data.mem(i as int) && self.curr.start == i + 1
                && forall|k: int| old(self).curr.start <= k < i ==> !old(self).data.mem(k),
            None => forall|k: int| old(self).curr.start <= k < self.curr.start ==> !old(self).data.mem(k),
       },
    ensures
       match __a0 {
            Some(i) => old(self).curr.start <= i < old(self).curr.end && old(self).data.mem(i as int) && self.curr.start == i + 1
                && forall|k: int| old(self).curr.start <= k < i ==> !old(self).data.mem(k),
            None => self.curr.start == self.curr.end && forall|k: int| old(self).curr.start <= k < self.curr.start ==> !old(self).data.mem(k),
       },
    decreases self.curr.end - self.curr.start,
//@end
}

// ------------------------------------------------------------------ LabeledSet (labels: u64, any lawful ==)
pub open spec fn distinct(l: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] != l[j] }
//@struct LabeledSet T=u64
impl LabeledSet {
    pub open spec fn wf(&self) -> bool { self.set.wf() && self.set.len == self.labels.len() && distinct(self.labels@) }
    // the label l is in the set
    pub open spec fn has_label(&self, l: u64) -> bool { exists|i: int| 0 <= i < self.labels.len() && #[trigger] self.labels@[i] == l && self.set.mem(i) }
    pub open spec fn registered(&self, l: u64) -> bool { self.labels@.contains(l) }
}
impl LabeledSet {
//@fn LabeledSet::new T=u64 LabeledSet<T>=LabeledSet
//@.spec
    requires distinct(labels@), labels.len() < usize::MAX - 64,
    ensures r.wf(), r.labels@ == labels@, forall|i: int| !r.set.mem(i), forall|l: u64| !r.has_label(l),
//@.exit
//@end
//@fn LabeledSet::add T=u64 LabeledSet<T>=LabeledSet
//@.spec
    requires old(self).wf(), old(self).registered(label),
    ensures final(self).wf(), final(self).labels@ == old(self).labels@,
        forall|l: u64| final(self).has_label(l) <==> (old(self).has_label(l) || l == label),
        forall|i: int| 0 <= i < old(self).labels.len() ==> (final(self).set.mem(i) <==> (old(self).set.mem(i) || old(self).labels@[i] == label)),
//@.loop 0
    invariant __a0 is None ==> forall|k: int| 0 <= k < __i0 ==> self.labels@[k] != label,
       __a0 is Some ==> __a0->0 < self.labels.len() && self.labels@[__a0->0 as int] == label,
       __i0 <= self.labels.len(), *self == *old(self),
    decreases self.labels.len() - __i0,
//@.exit
    proof {
        assert forall|l: u64| final(self).has_label(l) <==> (old(self).has_label(l) || l == label) by {
            if old(self).has_label(l) { let i = choose|i: int| 0 <= i < old(self).labels.len() && #[trigger] old(self).labels@[i] == l && old(self).set.mem(i); assert(final(self).labels@[i] == l && final(self).set.mem(i)); }
            let j = old(self).labels@.index_of(label); assert(final(self).labels@[j] == label && final(self).set.mem(j));
            if final(self).has_label(l) { let i = choose|i: int| 0 <= i < final(self).labels.len() && #[trigger] final(self).labels@[i] == l && final(self).set.mem(i); assert(old(self).labels@[i] == l); }
        }
    }
//@end
//@fn LabeledSet::remove T=u64 LabeledSet<T>=LabeledSet
//@.spec
    requires old(self).wf(), old(self).registered(label),
    ensures final(self).wf(), final(self).labels@ == old(self).labels@,
        forall|l: u64| final(self).has_label(l) <==> (old(self).has_label(l) && l != label),
        forall|i: int| 0 <= i < old(self).labels.len() ==> (final(self).set.mem(i) <==> (old(self).set.mem(i) && old(self).labels@[i] != label)),
//@.loop 0
    invariant __a0 is None ==> forall|k: int| 0 <= k < __i0 ==> self.labels@[k] != label,
       __a0 is Some ==> __a0->0 < self.labels.len() && self.labels@[__a0->0 as int] == label,
       __i0 <= self.labels.len(), *self == *old(self),
    decreases self.labels.len() - __i0,
//@.exit
    proof {
        assert forall|l: u64| final(self).has_label(l) <==> (old(self).has_label(l) && l != label) by {
            if old(self).has_label(l) && l != label { let i = choose|i: int| 0 <= i < old(self).labels.len() && #[trigger] old(self).labels@[i] == l && old(self).set.mem(i); assert(final(self).labels@[i] == l && final(self).set.mem(i)); }
            if final(self).has_label(l) { let i = choose|i: int| 0 <= i < final(self).labels.len() && #[trigger] final(self).labels@[i] == l && final(self).set.mem(i); assert(old(self).labels@[i] == l && old(self).set.mem(i)); }
        }
    }
//@end
//@fn LabeledSet::add key=LabeledSet::add#reject name=add_rej T=u64 LabeledSet<T>=LabeledSet maypanic
//@.spec
    requires old(self).wf(),
    ensures old(self).registered(label),
//@.loop 0
    invariant __a0 is Some ==> __a0->0 < self.labels.len() && self.labels@[__a0->0 as int] == label,
       __i0 <= self.labels.len(), *self == *old(self),
    decreases self.labels.len() - __i0,
//@end
//@fn LabeledSet::remove key=LabeledSet::remove#reject name=remove_rej T=u64 LabeledSet<T>=LabeledSet maypanic
//@.spec
    requires old(self).wf(),
    ensures old(self).registered(label),
//@.loop 0
    invariant __a0 is Some ==> __a0->0 < self.labels.len() && self.labels@[__a0->0 as int] == label,
       __i0 <= self.labels.len(), *self == *old(self),
    decreases self.labels.len() - __i0,
//@end
//@fn LabeledSet::n_elements T=u64 LabeledSet<T>=LabeledSet
//@.spec
    requires self.wf(),
    ensures r == card(self.set.data@, self.labels.len() as int),
//@end
}
//@struct LabeledSetIter T=u64 LabeledSet<T>=LabeledSet
impl<'a> LabeledSet {
//@fn LabeledSet::iter T=u64 LabeledSet<T>=LabeledSet rettype=LabeledSetIter<'a>
//@.spec
    requires self.wf(),
    ensures r.data == self, r.curr.data == self.set, r.curr.curr.start == 0, r.curr.curr.end == self.labels.len(),
//@end
}
impl<'a> LabeledSetIter<'a> {
// the labels of the members, in the order of registration, each exactly once
//@fn <LabeledSetIter as Iterator>::next T=u64 LabeledSet<T>=LabeledSet Self::Item=&'a~u64
//@.spec
    requires old(self).data.wf(), old(self).curr.data == old(self).data.set, old(self).curr.curr.start <= old(self).curr.curr.end, old(self).curr.curr.end == old(self).data.labels.len(),
    ensures final(self).data == old(self).data, final(self).curr.data == old(self).curr.data, final(self).curr.curr.end == old(self).curr.curr.end,
        ({ let i0 = old(self).curr.curr.start; let i1 = final(self).curr.curr.start;
        match r {
            Some(l) => i0 < i1 <= old(self).curr.curr.end && *l == old(self).data.labels@[i1 - 1] && old(self).data.set.mem(i1 - 1)
                && forall|k: int| i0 <= k < i1 - 1 ==> !old(self).data.set.mem(k),
            None => i1 == final(self).curr.curr.end && forall|k: int| i0 <= k < i1 ==> !old(self).data.set.mem(k),
        } }),
//@end
}
} // verus!
fn main() {}
