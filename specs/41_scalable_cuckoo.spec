=== prelude cuckoo_scalable_cuckoo_filter
/// the probability that none of the filters answers wrongly: the product of 1 - estimate
pub open spec fn all_clear<T, B>(s: Seq<CuckooFilter<T, B>>) -> real
    decreases s.len(),
{
    if s.len() == 0 { 1.0real } else { rmul(all_clear(s.drop_last()), 1.0real - s.last().est_fpp()) }
}
impl<T, B> ScalableCuckooFilter<T, B> {
    /// the filter added has room for capacity * growth ratio items and the fingerprint bits for fpp * tightening^i
    pub open spec fn grown_sized(self, o: Self) -> bool {
        let l = self.filters@[self.n() - 1]; let f = o.filters@[self.n()];
        let p = rmul(vr(self.initial_fpp), rpowi(vr(self.tightening_ratio), self.n()));
        &&& f.sized(up(rmul((l.fingerprint_vec.len as int) as real, vr(self.growth_ratio))) as usize, l.entries_per_index)
        &&& 0.0real < p < 1.0real ==> f.fingerprint_vec.bit_count as int == bits_for(p, l.entries_per_index as int)
    }
    pub open spec fn n(self) -> int { self.filters@.len() as int }
    pub open spec fn wf(self) -> bool {
        &&& self.filters@.len() > 0
        &&& self.initial_item_count <= 0x80_0000_0000_0000
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).wf() && self.filters@[i].entries_per_index <= 0x80_0000_0000_0000
    }
    /// the size of the filter which growth would add fits
    pub open spec fn sizes_ok(self) -> bool { rmul((self.newest().fingerprint_vec.len as int) as real, vr(self.growth_ratio)) <= 36028797018963968.0real }
    pub open spec fn counts_ok(self) -> bool { forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).count_ok() }
    pub open spec fn newest(self) -> CuckooFilter<T, B> { self.filters@[self.filters@.len() - 1] }
    /// every filter uses these hash builders
    pub open spec fn keyed(self, b: [B; 2]) -> bool {
        self.filters@.len() > 0 && forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).hash_builders == b
    }
    pub open spec fn builders(self) -> [B; 2] { self.filters@[0].hash_builders }
    /// filter i reports the item
    pub open spec fn member_at<U: ?Sized>(self, item: &U, i: int) -> bool { self.filters@[i].member(item) }
    /// the answer of `contains`
    pub open spec fn member<U: ?Sized>(self, item: &U) -> bool { exists|i: int| 0 <= i < self.filters@.len() && #[trigger] self.member_at(item, i) }
    /// the two items have the same class in filter i
    pub open spec fn collide_at<U: ?Sized, W: ?Sized>(self, u: &U, w: &W, i: int) -> bool { self.filters@[i].class_of(u) == self.filters@[i].class_of(w) }
    /// the filters of `self` are still there, in place; what was appended is empty
    pub open spec fn appended(self, o: Self) -> bool {
        &&& self.filters@.len() <= o.filters@.len() <= self.filters@.len() + 1
        &&& forall|i: int| self.filters@.len() <= i < o.filters@.len() ==> (#[trigger] o.filters@[i]).classes() == ISet::<(u64, int)>::empty()
    }
    pub open spec fn grown(self, o: Self) -> bool {
        &&& self.appended(o)
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> #[trigger] o.filters@[i] == self.filters@[i]
    }
    /// one insertion: only the newest filter may change, and only by gaining the item's class; then growth
    pub open spec fn inserted<U: ?Sized>(self, item: &U, o: Self) -> bool {
        let l = self.filters@.len() - 1;
        &&& self.appended(o)
        &&& forall|i: int| 0 <= i < l ==> #[trigger] o.filters@[i] == self.filters@[i]
        &&& self.member(item) ==> o.filters@[l] == self.filters@[l]
        &&& !self.member(item) ==> self.filters@[l].same_keys(o.filters@[l]) && o.filters@[l].classes() == self.filters@[l].classes().insert(self.filters@[l].class_of(item))
    }
    /// one removal: every filter loses the item's class and nothing else
    pub open spec fn removed<U: ?Sized>(self, item: &U, o: Self) -> bool {
        &&& o.filters@.len() == self.filters@.len()
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> self.filters@[i].same_keys(#[trigger] o.filters@[i]) && o.filters@[i].classes() == self.filters@[i].classes().remove(self.filters@[i].class_of(item))
    }
    /// entries held by the first n filters
    pub open spec fn total_upto(self, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.total_upto(n - 1) + self.filters@[n - 1].total() } }
    /// entries held, overflow included
    pub open spec fn total(self) -> nat { self.total_upto(self.filters@.len() as int) }
    pub open spec fn capacity_upto(self, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.capacity_upto(n - 1) + self.filters@[n - 1].fingerprint_vec.len as nat } }
}
/// entries in the overflow list, or no free slot
pub open spec fn cuckoo_full<T, B>(f: CuckooFilter<T, B>) -> bool { f.extra_items@.len() > 0 || cnt(f.fingerprint_vec.occ()) == f.fingerprint_vec.len }
pub proof fn lemma_sc_mono<T, B>(a: ScalableCuckooFilter<T, B>, m: int, n: int)
    requires 0 <= m <= n,
    ensures a.total_upto(m) <= a.total_upto(n), a.capacity_upto(m) <= a.capacity_upto(n),
    decreases n,
{
    if m < n { lemma_sc_mono(a, m, n - 1); }
}
pub proof fn lemma_sc_total_same<T, B>(a: ScalableCuckooFilter<T, B>, b: ScalableCuckooFilter<T, B>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] b.filters@[i]).total() == a.filters@[i].total(),
    ensures b.total_upto(n) == a.total_upto(n),
    decreases n,
{
    if n > 0 { lemma_sc_total_same(a, b, n - 1); }
}
/// same keys: same class
pub proof fn lemma_sc_class<T, B, U: ?Sized>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, w: &U)
    requires a.same_keys(b),
    ensures b.class_of(w) == a.class_of(w), a.member(w) == a.classes().contains(a.class_of(w)), b.member(w) == b.classes().contains(b.class_of(w)),
{
    assert(b.nb() == a.nb());
}
/// what an insertion does to the reported membership of any item
pub proof fn lemma_sc_insert<T, B, U: ?Sized, W: ?Sized>(a: ScalableCuckooFilter<T, B>, u: &U, b: ScalableCuckooFilter<T, B>, w: &W)
    requires a.wf(), b.wf(), a.inserted(u, b),
    ensures b.member(u), a.member(w) ==> b.member(w), a.member(u) ==> b.member(w) == a.member(w),
        b.member(w) && !a.member(w) ==> a.collide_at(u, w, a.n() - 1),
{
    let l = a.n() - 1;
    if !a.member(u) { lemma_sc_class(a.filters@[l], b.filters@[l], u); lemma_sc_class(a.filters@[l], b.filters@[l], w); }
    if a.member(u) {
        let i = choose|i: int| 0 <= i < a.filters@.len() && #[trigger] a.member_at(u, i);
        assert(b.filters@[i] == a.filters@[i]);
        assert(b.member_at(u, i));
    } else { assert(b.member_at(u, l)); }
    if a.member(w) {
        let i = choose|i: int| 0 <= i < a.filters@.len() && #[trigger] a.member_at(w, i);
        if i < l { assert(b.filters@[i] == a.filters@[i]); }
        assert(b.member_at(w, i));
    }
    if b.member(w) && !a.member(w) {
        let i = choose|i: int| 0 <= i < b.filters@.len() && #[trigger] b.member_at(w, i);
        if i > l { assert(b.filters@[i].classes() == ISet::<(u64, int)>::empty()); assert(b.filters@[i].classes().contains(b.filters@[i].class_of(w))); assert(false); }
        if i < l { assert(b.filters@[i] == a.filters@[i]); assert(a.member_at(w, i)); }
        assert(i == l && !a.member_at(w, l));
    }
}
/// what a removal does to the reported membership of any item
pub proof fn lemma_sc_remove<T, B, U: ?Sized, W: ?Sized>(a: ScalableCuckooFilter<T, B>, u: &U, b: ScalableCuckooFilter<T, B>, w: &W)
    requires a.wf(), b.wf(), a.removed(u, b),
    ensures !b.member(u), b.member(w) ==> a.member(w),
        (forall|i: int| 0 <= i < a.n() ==> !#[trigger] a.collide_at(u, w, i)) ==> b.member(w) == a.member(w),
{
    assert forall|i: int| 0 <= i < a.n() implies !#[trigger] b.member_at(u, i) && (b.member_at(w, i) ==> a.member_at(w, i)) && (!a.collide_at(u, w, i) ==> b.member_at(w, i) == a.member_at(w, i)) by {
        let f = b.filters@[i];
        lemma_sc_class(a.filters@[i], f, u); lemma_sc_class(a.filters@[i], f, w);
    }
    if b.member(w) { let i = choose|i: int| 0 <= i < b.filters@.len() && #[trigger] b.member_at(w, i); assert(!b.member_at(u, i)); assert(a.member_at(w, i)); }
    if (forall|i: int| 0 <= i < a.n() ==> !#[trigger] a.collide_at(u, w, i)) && a.member(w) {
        let i = choose|i: int| 0 <= i < a.filters@.len() && #[trigger] a.member_at(w, i);
        assert(!b.member_at(u, i)); assert(!a.collide_at(u, w, i)); assert(b.member_at(w, i));
    }
}
/// over every history: an item inserted, and since then only insertions and removals of items that collide with it in no filter, is reported present
pub proof fn lemma_sc_history<T, B, U: ?Sized>(hist: Seq<ScalableCuckooFilter<T, B>>, ins: Seq<bool>, items: Seq<&U>, j: int, n: int)
    requires
        hist.len() == items.len() + 1, ins.len() == items.len(),
        forall|i: int| 0 <= i < hist.len() ==> (#[trigger] hist[i]).wf(),
        forall|i: int| 0 <= i < items.len() ==> if ins[i] { hist[i].inserted(#[trigger] items[i], hist[i + 1]) } else { hist[i].removed(items[i], hist[i + 1]) },
        0 <= j < n <= items.len(), ins[j],
        forall|i: int, k: int| j < i < n && !ins[i] && 0 <= k < hist[i].n() ==> !#[trigger] hist[i].collide_at(items[i], items[j], k),
    ensures hist[n].member(items[j]),
    decreases n,
{
    let x = items[n - 1];
    if n - 1 > j { lemma_sc_history(hist, ins, items, j, n - 1); }
    if ins[n - 1] { lemma_sc_insert(hist[n - 1], x, hist[n], items[j]); }
    else { lemma_sc_remove(hist[n - 1], x, hist[n], items[j]); }
}

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::hashers
requires:
- self.wf()
- self.keyed(self.builders())
ensures:
- *r == self.builders()

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::try_grow
requires:
- [keys] old(self).keyed(old(self).builders())
- old(self).wf()
- old(self).sizes_ok()
- [count] old(self).counts_ok()
ensures:
- final(self).wf()
- old(self).grown(*final(self))
- [keys] final(self).keyed(old(self).builders())
- [count] final(self).counts_ok()
- [count] final(self).total() == old(self).total()
- [grow] !cuckoo_full(final(self).newest())
- [grow] final(self).n() == old(self).n() + if cuckoo_full(old(self).newest()) { 1int } else { 0int }
- [real] old(self).n() < final(self).n() < 0x8000_0000 ==> old(self).grown_sized(*final(self))
entry:
    proof { let l = self.n() - 1; assert(self.filters@[l].wf()); lemma_up_le(rmul((self.filters@[l].fingerprint_vec.len as int) as real, vr(self.growth_ratio)), 0x80_0000_0000_0000); }
exit:
    proof { lemma_sc_total_same(*old(self), *self, old(self).n()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::insert
requires:
- [keys] old(self).keyed(old(self).builders())
- old(self).wf()
- old(self).sizes_ok()
- [count] old(self).counts_ok()
ensures:
- final(self).wf()
- old(self).inserted(item, *final(self))
- final(self).member(item)
- [keys] final(self).keyed(old(self).builders())
- [count] final(self).counts_ok()
- [count] final(self).total() == old(self).total() + if old(self).member(item) { 0int } else { 1int }
- [grow] !cuckoo_full(final(self).newest())
- [grow] final(self).n() == old(self).n() + if cuckoo_full(final(self).filters@[old(self).n() - 1]) { 1int } else { 0int }
inv 0:
- $n == self.filters@.len()
- $k <= $n
- *self == *old(self)
- $r == exists|i: int| 0 <= i < $k && #[trigger] self.member_at(item, i)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf()); }
begin 0:
    proof { let i = $k - 1; assert(self.member_at(item, i) == self.filters@[i].member(item)); }
after 0:
    proof { let l = self.n() - 1; assert(self.filters@[l].wf()); assert(self.member(item) == $r); }
    //@count
    proof { let l = self.n() - 1; assert(self.filters@[l].count_ok()); }
    //@end
exit:
    proof { lemma_sc_insert(*old(self), item, *self, item); }
    //@count
    proof {
        let l = old(self).n() - 1;
        assert forall|i: int| 0 <= i < l implies (#[trigger] self.filters@[i]).total() == old(self).filters@[i].total() by { }
        lemma_sc_total_same(*old(self), *self, l);
        assert(self.total_upto(l + 1) == self.total_upto(l) + self.filters@[l].total());
        assert(old(self).total_upto(l + 1) == old(self).total_upto(l) + old(self).filters@[l].total());
        assert(old(self).member_at(item, l) == old(self).filters@[l].member(item));
        if self.n() == l + 2 { assert(self.filters@[l + 1].count_ok() && self.filters@[l + 1].classes() == ISet::<(u64, int)>::empty()); assert(self.filters@[l + 1].total() == 0); assert(self.total_upto(l + 2) == self.total_upto(l + 1) + self.filters@[l + 1].total()); }
    }
    //@end

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::contains
requires:
- old(self).wf()
ensures:
- *final(self) == *old(self)
- r == old(self).member(item)
inv 0:
- $n == self.filters@.len()
- $k <= $n
- *self == *old(self)
- $r == exists|i: int| 0 <= i < $k && #[trigger] self.member_at(item, i)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf()); }
begin 0:
    proof { let i = $k - 1; assert(self.member_at(item, i) == self.filters@[i].member(item)); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::remove
requires:
- old(self).wf()
- [count] old(self).counts_ok()
ensures:
- final(self).wf()
- old(self).removed(item, *final(self))
- [keys] old(self).keyed(old(self).builders()) ==> final(self).keyed(old(self).builders())
- !final(self).member(item)
- [count] final(self).counts_ok()
- [grow] !cuckoo_full(old(self).newest()) ==> !cuckoo_full(final(self).newest())
inv 0:
- $n == self.filters@.len()
- $n == old(self).filters@.len()
- $k <= $n
- self.initial_item_count == old(self).initial_item_count
- forall|i: int| 0 <= i < $k ==> (#[trigger] self.filters@[i]).wf() && self.filters@[i].entries_per_index <= 0x80_0000_0000_0000 && old(self).filters@[i].same_keys(self.filters@[i]) && self.filters@[i].classes() == old(self).filters@[i].classes().remove(old(self).filters@[i].class_of(item))
- forall|i: int| $k <= i < $n ==> #[trigger] self.filters@[i] == old(self).filters@[i]
- [count] forall|i: int| 0 <= i < $k ==> (#[trigger] self.filters@[i]).count_ok()
- [grow] forall|i: int| 0 <= i < $k ==> (#[trigger] self.filters@[i]).extra_items@.len() <= old(self).filters@[i].extra_items@.len() && self.filters@[i].total() <= old(self).filters@[i].total()
top 0:
    proof { let i = $k as int; assert(old(self).filters@[i].wf()); assert(self.filters@[i] == old(self).filters@[i]); }
    //@count
    proof { let i = $k as int; assert(old(self).filters@[i].count_ok()); }
    //@end
exit:
    proof { lemma_sc_remove(*old(self), item, *self, item); }
    //@grow
    proof { let l = self.n() - 1; assert(self.filters@[l].total() <= old(self).filters@[l].total()); lemma_cnt_bound(old(self).filters@[l].fingerprint_vec.occ()); }
    //@end

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).filters@.len() == 1
- [keys] final(self).keyed(old(self).builders())
- final(self).filters@[0].classes() == ISet::<(u64, int)>::empty()
- [count] final(self).counts_ok()
- [count] final(self).total() == 0
- [grow] !cuckoo_full(final(self).newest())
entry:
    proof { assert(self.filters@[0].wf()); }
exit:
    proof { assert(self.total_upto(1) == self.total_upto(0) + self.filters@[0].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::len
requires:
- self.wf()
- self.total() <= usize::MAX
- self.counts_ok()
ensures:
- r == self.total()
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == self.total_upto($k as int)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf() && self.filters@[i].count_ok()); lemma_sc_mono(*self, i + 1, $n as int); assert(self.total_upto(i + 1) == self.total_upto(i) + self.filters@[i].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::entries_per_index
requires:
- self.wf()
ensures:
- r == self.filters@[0].entries_per_index

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::filter_count
ensures:
- r == self.filters@.len()

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::is_empty
requires:
- self.wf()
- self.total() <= usize::MAX
- self.counts_ok()
ensures:
- r == (self.total() == 0)

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::capacity
requires:
- self.wf()
- self.capacity_upto(self.n()) <= usize::MAX
ensures:
- r == self.capacity_upto(self.n())
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == self.capacity_upto($k as int)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf()); lemma_sc_mono(*self, i + 1, $n as int); assert(self.capacity_upto(i + 1) == self.capacity_upto(i) + self.filters@[i].fingerprint_vec.len as nat); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::with_hashers
requires:
- item_count <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].classes() == ISet::<(u64, int)>::empty()
- r.initial_item_count == item_count
- [keys] r.keyed(hash_builders)
- [count] r.counts_ok()
- [count] r.total() == 0
- [grow] !cuckoo_full(r.newest())
- [real] r.filters@[0].sized(item_count, DEFAULT_ENTRIES_PER_INDEX)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.filters@[0].fingerprint_vec.bit_count as int == bits_for(vr(fpp), DEFAULT_ENTRIES_PER_INDEX as int)
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    proof { assert(vx_ret.total_upto(1) == vx_ret.total_upto(0) + vx_ret.filters@[0].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::from_entries_per_index_with_hashers
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].classes() == ISet::<(u64, int)>::empty()
- r.initial_item_count == item_count
- [keys] r.keyed(hash_builders)
- [count] r.counts_ok()
- [count] r.total() == 0
- [grow] !cuckoo_full(r.newest())
- [real] r.filters@[0].sized(item_count, entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.filters@[0].fingerprint_vec.bit_count as int == bits_for(vr(fpp), entries_per_index as int)
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    proof { assert(vx_ret.total_upto(1) == vx_ret.total_upto(0) + vx_ret.filters@[0].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::new
requires:
- item_count <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].classes() == ISet::<(u64, int)>::empty()
- r.initial_item_count == item_count
- [count] r.counts_ok()
- [count] r.total() == 0
- [grow] !cuckoo_full(r.newest())
- [real] r.filters@[0].sized(item_count, DEFAULT_ENTRIES_PER_INDEX)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.filters@[0].fingerprint_vec.bit_count as int == bits_for(vr(fpp), DEFAULT_ENTRIES_PER_INDEX as int)
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    proof { assert(vx_ret.total_upto(1) == vx_ret.total_upto(0) + vx_ret.filters@[0].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::from_entries_per_index
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].classes() == ISet::<(u64, int)>::empty()
- r.initial_item_count == item_count
- [count] r.counts_ok()
- [count] r.total() == 0
- [grow] !cuckoo_full(r.newest())
- [real] r.filters@[0].sized(item_count, entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.filters@[0].fingerprint_vec.bit_count as int == bits_for(vr(fpp), entries_per_index as int)
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    proof { assert(vx_ret.total_upto(1) == vx_ret.total_upto(0) + vx_ret.filters@[0].total()); }

=== fn cuckoo_scalable_cuckoo_filter::ScalableCuckooFilter::estimated_fpp
requires:
- forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).wf() && self.filters@[i].fingerprint_vec.bit_count > 1
- [count] self.counts_ok()
ensures:
- [real] vr(r) == 1.0real - all_clear(self.filters@)
inv 0:
- $k <= $n
- $n == self.filters@.len()
- [real] vr($r) == all_clear(self.filters@.take($k as int))
begin 0:
    //@real
    proof { let s = self.filters@.take($k as int); assert(s.drop_last() =~= self.filters@.take($k - 1)); reveal(rmul); }
    //@end
after 0:
    //@real
    proof { assert(self.filters@.take($k as int) =~= self.filters@); }
    //@end
