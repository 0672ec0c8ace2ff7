=== prelude bloom_scalable_bloom_filter
/// the probability that none of the filters answers wrongly: the product of 1 - estimate
pub open spec fn all_clear<T, B>(s: Seq<BloomFilter<T, B>>) -> real
    decreases s.len(),
{
    if s.len() == 0 { 1.0real } else { rmul(all_clear(s.drop_last()), 1.0real - s.last().est_fpp()) }
}
/// a positive fraction of at least one bit is at least one bit
pub proof fn lemma_growth(n: real, g: real)
    requires n >= 1.0real, g > 0.0real,
    ensures up(rmul(n, g)) >= 1,
{
    reveal(rmul);
    assert(n * g > 0.0real) by (nonlinear_arith) requires n >= 1.0real, g > 0.0real;
    lemma_up(n * g);
}
impl<T, B> ScalableBloomFilter<T, B> {
    pub open spec fn wf(self) -> bool {
        &&& self.filters@.len() > 0
        &&& vr(self.growth_ratio) > 0.0real
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).wf() && self.filters@[i].bit_vec.len > 0
    }
    /// machine arithmetic: the sizes in play do not overflow 64 bits
    pub open spec fn sizes_ok(self) -> bool {
        &&& self.approximate_bits_used <= 0x1000_0000_0000_0000
        &&& rmul((self.newest().bit_vec.len as int) as real, vr(self.growth_ratio)) <= 4611686018427387904.0real
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).bit_vec.len <= 0x4000_0000_0000_0000 && self.filters@[i].hasher_count <= 0x1000_0000_0000_0000
    }
    pub open spec fn counts_ok(self) -> bool {
        forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).bit_vec.count_ok()
    }
    pub open spec fn newest(self) -> BloomFilter<T, B> { self.filters@[self.filters@.len() - 1] }
    /// the newest filter is less than half full, and the running estimate of its ones is above their number
    pub open spec fn fill_ok(self) -> bool {
        cnt(self.newest().bit_vec@) <= self.approximate_bits_used && 2 * self.approximate_bits_used < self.newest().bit_vec.len
    }
    /// every filter uses these hash builders
    pub open spec fn keyed(self, b: [B; 2]) -> bool {
        self.filters@.len() > 0 && forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).hasher.hash_builders == b
    }
    pub open spec fn builders(self) -> [B; 2] { self.filters@[0].hasher.hash_builders }
    /// filter i reports the item
    pub open spec fn member_at<U: ?Sized>(self, item: &U, i: int) -> bool { self.filters@[i].member(item) }
    /// the answer of `contains`
    pub open spec fn member<U: ?Sized>(self, item: &U) -> bool { exists|i: int| 0 <= i < self.filters@.len() && #[trigger] self.member_at(item, i) }
    /// the filters of `self` are still there, in place; what was appended is empty
    pub open spec fn grown(self, o: Self) -> bool {
        &&& self.filters@.len() <= o.filters@.len() <= self.filters@.len() + 1
        &&& forall|i: int| 0 <= i < self.filters@.len() ==> #[trigger] o.filters@[i] == self.filters@[i]
        &&& forall|i: int| self.filters@.len() <= i < o.filters@.len() ==> (#[trigger] o.filters@[i]).bit_vec@ == Seq::new(o.filters@[i].bit_vec.len as nat, |j: int| false)
    }
    /// one insertion: only the newest filter may change, and only by gaining the item; then growth
    pub open spec fn inserted<U: ?Sized>(self, item: &U, o: Self) -> bool {
        let l = self.filters@.len() - 1;
        &&& self.filters@.len() <= o.filters@.len() <= self.filters@.len() + 1
        &&& forall|i: int| 0 <= i < l ==> #[trigger] o.filters@[i] == self.filters@[i]
        &&& self.member(item) ==> o.filters@[l] == self.filters@[l]
        &&& !self.member(item) ==> self.filters@[l].inserted(item, o.filters@[l])
        &&& forall|i: int| self.filters@.len() <= i < o.filters@.len() ==> (#[trigger] o.filters@[i]).bit_vec@ == Seq::new(o.filters@[i].bit_vec.len as nat, |j: int| false)
    }
    /// bits in the first n filters
    pub open spec fn len_upto(self, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.len_upto(n - 1) + self.filters@[n - 1].bit_vec.len as nat } }
    pub open spec fn ones_upto(self, n: int) -> nat
        decreases n,
    { if n <= 0 { 0 } else { self.ones_upto(n - 1) + cnt(self.filters@[n - 1].bit_vec@) } }
    pub open spec fn total_len(self) -> nat { self.len_upto(self.filters@.len() as int) }
    pub open spec fn total_ones(self) -> nat { self.ones_upto(self.filters@.len() as int) }
}
/// at least half of the bits are set
pub open spec fn half_full<T, B>(f: BloomFilter<T, B>) -> bool { 2 * cnt(f.bit_vec@) >= f.bit_vec.len }
pub proof fn lemma_scal_mono<T, B>(a: ScalableBloomFilter<T, B>, m: int, n: int)
    requires a.wf(), 0 <= m <= n <= a.filters@.len(),
    ensures a.len_upto(m) <= a.len_upto(n), a.ones_upto(m) <= a.len_upto(m),
    decreases n,
{
    if m > 0 { lemma_scal_mono(a, m - 1, m - 1); lemma_cnt_bound(a.filters@[m - 1].bit_vec@); assert(a.filters@[m - 1].wf()); }
    if m < n { lemma_scal_mono(a, m, n - 1); }
}
/// filters in place, appended ones empty: the ones are the same
pub proof fn lemma_scal_ones<T, B>(a: ScalableBloomFilter<T, B>, b: ScalableBloomFilter<T, B>, n: int)
    requires
        0 <= n <= b.filters@.len(), a.filters@.len() <= b.filters@.len(),
        forall|i: int| 0 <= i < a.filters@.len() ==> #[trigger] b.filters@[i] == a.filters@[i],
        forall|i: int| a.filters@.len() <= i < b.filters@.len() ==> (#[trigger] b.filters@[i]).bit_vec@ == Seq::new(b.filters@[i].bit_vec.len as nat, |j: int| false),
    ensures b.ones_upto(n) == a.ones_upto(if n < a.filters@.len() { n } else { a.filters@.len() as int }),
    decreases n,
{
    if n > 0 {
        lemma_scal_ones(a, b, n - 1);
        if n > a.filters@.len() { lemma_cnt_const(b.filters@[n - 1].bit_vec.len as nat, false); }
    }
}
/// one insertion makes its item a member and keeps every other member
pub proof fn lemma_scal_insert<T, B, U: ?Sized, W: ?Sized>(a: ScalableBloomFilter<T, B>, u: &U, b: ScalableBloomFilter<T, B>, w: &W)
    requires a.wf(), b.wf(), a.inserted(u, b),
    ensures b.member(u), a.member(w) ==> b.member(w),
{
    let l = a.filters@.len() - 1;
    if a.member(u) {
        let i = choose|i: int| 0 <= i < a.filters@.len() && #[trigger] a.member_at(u, i);
        assert(b.filters@[i] == a.filters@[i]);
        assert(b.member_at(u, i));
    } else {
        assert(a.filters@[l].wf() && b.filters@[l].wf());
        lemma_bloom_insert(a.filters@[l], u, b.filters@[l], u);
        assert(b.member_at(u, l));
    }
    if a.member(w) {
        let i = choose|i: int| 0 <= i < a.filters@.len() && #[trigger] a.member_at(w, i);
        if i == l && !a.member(u) { assert(a.filters@[l].wf() && b.filters@[l].wf()); lemma_bloom_insert(a.filters@[l], u, b.filters@[l], w); } else { assert(b.filters@[i] == a.filters@[i]); }
        assert(b.member_at(w, i));
    }
}
/// no false negatives over every history of insertions and growth: `hist` are the successive states
pub proof fn lemma_scal_history<T, B, U: ?Sized>(hist: Seq<ScalableBloomFilter<T, B>>, items: Seq<&U>, j: int, n: int)
    requires
        hist.len() == items.len() + 1,
        forall|i: int| 0 <= i < hist.len() ==> (#[trigger] hist[i]).wf(),
        forall|i: int| 0 <= i < items.len() ==> hist[i].inserted(#[trigger] items[i], hist[i + 1]),
        0 <= j < n <= items.len(),
    ensures hist[n].member(items[j]),
    decreases n,
{
    let x = items[n - 1];
    if n - 1 > j {
        lemma_scal_history(hist, items, j, n - 1);
    }
    lemma_scal_insert(hist[n - 1], items[n - 1], hist[n], items[j]);
}

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::with_hashers
requires:
- vr(growth_ratio) > 0.0real
- 0 < initial_bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].bit_vec.len == initial_bit_count
- r.filters@[0].bit_vec@ == Seq::new(r.filters@[0].bit_vec.len as nat, |i: int| false)
- [keys] r.keyed(hash_builders)
- [count] r.counts_ok()
- [grow] r.fill_ok()
- [real] r.filters@[0].sized_bits(initial_bit_count as int, vr(fpp))
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    //@grow
    proof { lemma_cnt_const(vx_ret.filters@[0].bit_vec.len as nat, false); }
    //@end

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::new
requires:
- vr(growth_ratio) > 0.0real
- 0 < initial_bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.filters@.len() == 1
- r.filters@[0].bit_vec.len == initial_bit_count
- r.filters@[0].bit_vec@ == Seq::new(r.filters@[0].bit_vec.len as nat, |i: int| false)
- [count] r.counts_ok()
- [grow] r.fill_ok()
- [real] r.filters@[0].sized_bits(initial_bit_count as int, vr(fpp))
- r.initial_fpp == fpp && r.growth_ratio == growth_ratio && r.tightening_ratio == tightening_ratio
exit:
    //@grow
    proof { lemma_cnt_const(vx_ret.filters@[0].bit_vec.len as nat, false); }
    //@end

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::hashers
requires:
- self.wf()
- self.keyed(self.builders())
ensures:
- *r == self.builders()

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::try_grow
attr: wrap(count,approximate_bits_used)
requires:
- [keys] old(self).keyed(old(self).builders())
- old(self).wf()
- old(self).sizes_ok()
- [count] old(self).counts_ok()
- [grow] cnt(old(self).newest().bit_vec@) <= old(self).approximate_bits_used
ensures:
- final(self).wf()
- old(self).grown(*final(self))
- [keys] final(self).keyed(old(self).builders())
- [count] final(self).counts_ok()
- [grow] final(self).fill_ok()
- [grow] final(self).filters@.len() == old(self).filters@.len() + if half_full(old(self).newest()) { 1int } else { 0int }
- [real] old(self).filters@.len() < final(self).filters@.len() < 0x8000_0000 ==> final(self).newest().sized_bits(up(rmul((old(self).newest().bit_vec.len as int) as real, vr(old(self).growth_ratio))), rmul(vr(old(self).initial_fpp), rpowi(vr(old(self).tightening_ratio), old(self).filters@.len() as int)))
entry:
    proof { let l = self.filters@.len() - 1; assert(self.filters@[l].wf()); lemma_growth((self.filters@[l].bit_vec.len as int) as real, vr(self.growth_ratio)); lemma_up_le(rmul((self.newest().bit_vec.len as int) as real, vr(self.growth_ratio)), 0x4000_0000_0000_0000); lemma_cnt_bound(self.filters@[l].bit_vec@); assert(self.filters@[l].bit_vec.len <= 0x4000_0000_0000_0000); }
    //@count
    proof { let l = self.filters@.len() - 1; assert(self.filters@[l].bit_vec.count_ok()); }
    //@end
exit:
    //@grow
    proof { let l = self.filters@.len() - 1; assert(self.filters@[l].wf()); lemma_cnt_const(self.filters@[l].bit_vec.len as nat, false); }
    //@end

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::insert
attr: wrap(count,approximate_bits_used)
requires:
- [keys] old(self).keyed(old(self).builders())
- old(self).wf()
- old(self).sizes_ok()
- old(self).approximate_bits_used <= 0x800_0000_0000_0000
- old(self).filters@[old(self).filters@.len() - 1].hasher_count <= 0x800_0000_0000_0000
- [count] old(self).counts_ok()
- [grow] old(self).fill_ok()
ensures:
- final(self).wf()
- old(self).inserted(item, *final(self))
- final(self).member(item)
- [keys] final(self).keyed(old(self).builders())
- [count] final(self).counts_ok()
- [count] old(self).member(item) ==> final(self).total_ones() == old(self).total_ones()
- [grow] final(self).fill_ok()
- [grow] final(self).filters@.len() == old(self).filters@.len() + if half_full(final(self).filters@[old(self).filters@.len() - 1]) { 1int } else { 0int }
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == exists|i: int| 0 <= i < $k && #[trigger] self.member_at(item, i)
begin 0:
    proof { let i = $k - 1; assert(self.filters@[i].wf()); assert(self.member_at(item, i) == self.filters@[i].member(item)); }
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf()); }
exit:
    proof { lemma_scal_insert(*old(self), item, *self, item); }
    //@count
    proof { if old(self).member(item) {
        let l = old(self).filters@.len() - 1;
        assert forall|i: int| 0 <= i < old(self).filters@.len() implies #[trigger] self.filters@[i] == old(self).filters@[i] by { if i < l { } }
        lemma_scal_ones(*old(self), *self, self.filters@.len() as int); } }
    //@end

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::contains
requires:
- self.wf()
ensures:
- r == self.member(item)
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == exists|i: int| 0 <= i < $k && #[trigger] self.member_at(item, i)
begin 0:
    proof { let i = $k - 1; assert(self.filters@[i].wf()); assert(self.member_at(item, i) == self.filters@[i].member(item)); }
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf()); }

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::clear
requires:
- old(self).wf()
- old(self).filters@[0].bit_vec.len <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- final(self).wf()
- final(self).filters@.len() == 1
- final(self).filters@[0].bit_vec.len == old(self).filters@[0].bit_vec.len
- [keys] final(self).keyed(old(self).builders())
- final(self).filters@[0].bit_vec@ == Seq::new(final(self).filters@[0].bit_vec.len as nat, |i: int| false)
- [count] final(self).counts_ok()
- [grow] final(self).fill_ok()
exit:
    //@grow
    proof { lemma_cnt_const(self.filters@[0].bit_vec.len as nat, false); }
    //@end

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::filter_count
ensures:
- r == self.filters@.len()

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::len
requires:
- self.wf()
- self.total_len() <= usize::MAX
ensures:
- r == self.total_len()
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == self.len_upto($k as int)
begin 0:
    proof { lemma_scal_mono(*self, $k as int, $n as int); assert(self.len_upto($k as int) == self.len_upto($k - 1) + self.filters@[$k - 1].bit_vec.len as nat); }

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::is_empty
requires:
- self.wf()
- self.total_len() <= usize::MAX
ensures:
- r == (self.total_len() == 0)

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::count_ones
requires:
- self.wf()
- self.total_len() <= usize::MAX
- self.counts_ok()
ensures:
- [count] r == self.total_ones()
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r == self.ones_upto($k as int)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf() && self.filters@[i].bit_vec.count_ok()); }
begin 0:
    proof { lemma_scal_mono(*self, $k as int, $n as int); assert(self.ones_upto($k as int) == self.ones_upto($k - 1) + cnt(self.filters@[$k - 1].bit_vec@)); }

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::count_zeros
requires:
- self.wf()
- self.total_len() <= usize::MAX
- self.counts_ok()
ensures:
- [count] r + self.total_ones() == self.total_len()
inv 0:
- $n == self.filters@.len()
- $k <= $n
- $r + self.ones_upto($k as int) == self.len_upto($k as int)
top 0:
    proof { let i = $k as int; assert(self.filters@[i].wf() && self.filters@[i].bit_vec.count_ok()); }
begin 0:
    proof { lemma_scal_mono(*self, $k as int, $n as int); let p = $k - 1; assert(self.ones_upto($k as int) == self.ones_upto(p) + cnt(self.filters@[p].bit_vec@)); assert(self.len_upto($k as int) == self.len_upto(p) + self.filters@[p].bit_vec.len as nat); lemma_cnt_bound(self.filters@[p].bit_vec@); }

=== fn bloom_scalable_bloom_filter::ScalableBloomFilter::estimated_fpp
requires:
- forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).wf() && self.filters@[i].bit_vec.len > 0 && self.filters@[i].hasher_count <= i32::MAX
- [real] forall|i: int| 0 <= i < self.filters@.len() ==> (#[trigger] self.filters@[i]).bit_vec.count_ok()
ensures:
- [real] vr(r) == 1.0real - all_clear(self.filters@)
inv 0:
- $k <= $n
- $n == self.filters@.len()
- [real] vr($r) == all_clear(self.filters@.take($k as int))
begin 0:
    //@real
    proof { let s = self.filters@.take($k as int); assert(s.drop_last() =~= self.filters@.take($k - 1)); reveal(rmul); }
    //@end
after 0:
    //@real
    proof { assert(self.filters@.take($k as int) =~= self.filters@); }
    //@end
