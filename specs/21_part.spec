=== prelude bloom_partitioned_bloom_filter
impl<T, B> PartitionedBloomFilter<T, B> {
    pub open spec fn wf(self) -> bool {
        self.bit_vec.wf() && self.bit_vec.len as int == self.bit_count as int * self.hasher_count as int
    }
    /// position of an item inside partition n
    pub open spec fn pos<U: ?Sized>(self, item: &U, n: int) -> int {
        n * (self.bit_count as int) + (dh_val(self.hasher, item, n as nat) as int) % (self.bit_count as int)
    }
    /// the answer of `contains`
    pub open spec fn member<U: ?Sized>(self, item: &U) -> bool {
        forall|n: int| 0 <= n < self.hasher_count ==> self.bit_vec@[#[trigger] self.pos(item, n)]
    }
    /// the fraction of ones to the power of the number of partitions
    pub open spec fn est_fpp(self) -> real {
        rpow(rdiv((cnt(self.bit_vec@) as int) as real, (self.bit_vec.len as int) as real), self.hasher_count as nat)
    }
    /// sized for n items and probability p: n * ln p / -(ln 2)^2 bits over all partitions
    pub open spec fn sized(self, n: usize, p: real) -> bool {
        &&& 0.0real < p < 1.0real ==> self.hasher_count as int == partitions_for(p)
        &&& 0.0real < p < 1.0real ==> self.bit_count as int == up(rdiv(rdiv(rmul((n as int) as real, rln(p)), -rpow(rln(2.0real), 2)), (self.hasher_count as int) as real))
    }
    pub open spec fn same_keys(self, o: Self) -> bool {
        self.hasher == o.hasher && self.hasher_count == o.hasher_count && self.bit_vec.len == o.bit_vec.len && self.bit_count == o.bit_count
    }
    pub open spec fn probed<U: ?Sized>(self, item: &U, i: int) -> bool {
        exists|n: int| 0 <= n < self.hasher_count && #[trigger] self.pos(item, n) == i
    }
    /// exactly the item's position in every partition is set, nothing else changes
    pub open spec fn inserted<U: ?Sized>(self, item: &U, o: Self) -> bool {
        &&& o.same_keys(self)
        &&& forall|i: int| 0 <= i < self.bit_vec.len ==> #[trigger] o.bit_vec@[i] == (self.bit_vec@[i] || self.probed(item, i))
    }
}
/// the number of partitions: log2(1 / p), rounded up
pub open spec fn partitions_for(p: real) -> int { up(rlog2(rdiv(1.0real, p))) }
pub proof fn lemma_partitions(p: real)
    requires 0.0real < p < 1.0real,
    ensures partitions_for(p) >= 1, partitions_for(p) < usize::MAX ==> (partitions_for(p) as real) >= -rlog2(p), rdiv(1.0real, p) > 0.0real, rln(2.0real) > 0.0real, rpow(rln(2.0real), 2) > 0.0real,
{
    lemma_ln_2(); lemma_ln_sign(p); lemma_ln_inv(p);
    let a = rln(2.0real); let l = rln(p);
    assert(rlog2(rdiv(1.0real, p)) == -rlog2(p)) by { reveal(rdiv); assert((-l) / a == -(l / a)) by (nonlinear_arith) requires a > 0.0real; }
    assert(-rlog2(p) > 0.0real) by { reveal(rdiv); assert(l / a < 0.0real) by (nonlinear_arith) requires l < 0.0real, a > 0.0real; }
    lemma_up(-rlog2(p));
    lemma_rpow_pos(a, 2);
}
/// sizes of up to 2^40 items and probabilities down to 2^-64 fit
pub proof fn lemma_part_size(n: int, p: real)
    requires 0 <= n <= 0x100_0000_0000, tiny() <= p < 1.0real,
    ensures 1 <= partitions_for(p) <= 64,
        up(rdiv(rdiv(rmul(n as real, rln(p)), -rpow(rln(2.0real), 2)), partitions_for(p) as real)) <= 0x1_0000_0000_0000,
{
    lemma_tiny(p); lemma_partitions(p); lemma_ln_sign(p); lemma_ln_inv(p);
    let a = rln(2.0real); let l = rln(p); let nr = n as real;
    assert(rlog2(rdiv(1.0real, p)) == -rlog2(p)) by { reveal(rdiv); assert((-l) / a == -(l / a)) by (nonlinear_arith) requires a > 0.0real; }
    lemma_up_le(-rlog2(p), 64);
    let k = partitions_for(p) as real; let q = rpow(a, 2);
    reveal(rmul); reveal(rdiv); reveal_with_fuel(rpow, 3);
    assert(q >= 0.25real) by (nonlinear_arith) requires q == (1.0real * a) * a, a >= 0.5real;
    let m = nr * l;
    assert(m >= -70368744177664.0real) by (nonlinear_arith) requires m == nr * l, 0.0real <= nr <= 1099511627776.0real, -64.0real <= l < 0.0real;
    let d = m / (-q);
    assert(d <= 281474976710656.0real) by (nonlinear_arith) requires d == m / (-q), m >= -70368744177664.0real, q >= 0.25real;
    assert(d / k <= 281474976710656.0real) by (nonlinear_arith) requires d <= 281474976710656.0real, k >= 1.0real;
    lemma_up_le(d / k, 0x1_0000_0000_0000);
}
/// with the partitions for probability p, a filter estimates at most p while at most half of its bits are set
pub proof fn lemma_part_adequate<T, B>(f: PartitionedBloomFilter<T, B>, p: real)
    requires 0.0real < p < 1.0real, f.wf(), f.hasher_count as int == partitions_for(p), f.hasher_count < usize::MAX, f.bit_vec.len > 0, 2 * cnt(f.bit_vec@) <= f.bit_vec.len,
    ensures f.est_fpp() <= p,
{
    lemma_partitions(p);
    let c = (cnt(f.bit_vec@) as int) as real; let m = (f.bit_vec.len as int) as real;
    assert(0.0real <= rdiv(c, m) <= 0.5real) by { reveal(rdiv); assert(0.0real <= c / m && c / m <= 0.5real) by (nonlinear_arith) requires 0.0real <= c, 2.0real * c <= m, m > 0.0real; }
    lemma_half_pow(rdiv(c, m), f.hasher_count as nat, p);
}
/// probe n lies in partition n and inside the bit vector
pub proof fn lemma_part_pos<T, B, U: ?Sized>(f: PartitionedBloomFilter<T, B>, item: &U, n: int)
    requires f.wf(), f.bit_count > 0, 0 <= n < f.hasher_count,
    ensures 0 <= f.pos(item, n) < f.bit_vec.len, n * f.bit_count <= f.pos(item, n) < (n + 1) * f.bit_count,
{
    let o = (dh_val(f.hasher, item, n as nat) as int) % (f.bit_count as int);
    assert(0 <= n * f.bit_count) by (nonlinear_arith) requires 0 <= n;
    assert((n + 1) * f.bit_count <= f.hasher_count * f.bit_count) by (nonlinear_arith) requires n + 1 <= f.hasher_count, f.bit_count > 0;
    assert((n + 1) * f.bit_count == n * f.bit_count + f.bit_count) by (nonlinear_arith);
    assert(f.hasher_count * f.bit_count == f.bit_count * f.hasher_count) by (nonlinear_arith);
}
pub proof fn lemma_part_insert<T, B, U: ?Sized, W: ?Sized>(a: PartitionedBloomFilter<T, B>, u: &U, b: PartitionedBloomFilter<T, B>, w: &W)
    requires a.wf(), b.wf(), a.bit_count > 0, a.inserted(u, b),
    ensures b.member(u), a.member(w) ==> b.member(w),
{
    assert forall|n: int| 0 <= n < b.hasher_count implies b.bit_vec@[#[trigger] b.pos(u, n)] by {
        lemma_part_pos(a, u, n);
        assert(b.pos(u, n) == a.pos(u, n));
        assert(a.probed(u, a.pos(u, n)));
    }
    if a.member(w) {
        assert forall|n: int| 0 <= n < b.hasher_count implies b.bit_vec@[#[trigger] b.pos(w, n)] by {
            lemma_part_pos(a, w, n);
            assert(b.pos(w, n) == a.pos(w, n));
            assert(a.bit_vec@[a.pos(w, n)]);
        }
    }
}
/// no false negatives over every history of insertions: `hist` are the successive states
pub proof fn lemma_part_history<T, B, U: ?Sized>(hist: Seq<PartitionedBloomFilter<T, B>>, items: Seq<&U>, j: int, n: int)
    requires
        hist.len() == items.len() + 1,
        forall|i: int| 0 <= i < hist.len() ==> (#[trigger] hist[i]).wf() && hist[i].bit_count > 0,
        forall|i: int| 0 <= i < items.len() ==> hist[i].inserted(#[trigger] items[i], hist[i + 1]),
        0 <= j < n <= items.len(),
    ensures hist[n].member(items[j]),
    decreases n,
{
    let x = items[n - 1];
    if n - 1 > j {
        lemma_part_history(hist, items, j, n - 1);
    }
    lemma_part_insert(hist[n - 1], items[n - 1], hist[n], items[j]);
}

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::from_item_count_with_hashers
requires:
- item_count <= 0x100_0000_0000
- tiny() <= vr(fpp) < 1.0real
entry:
    proof { lemma_tiny(vr(fpp)); lemma_prod48(); lemma_partitions(vr(fpp)); lemma_part_size(item_count as int, vr(fpp)); }
ensures:
- r.wf()
- r.hasher.hash_builders == hash_builders
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized(item_count, vr(fpp))

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::from_bit_count_with_hashers
requires:
- bit_count <= 0x1_0000_0000_0000
- tiny() <= vr(fpp) < 1.0real
entry:
    proof { lemma_tiny(vr(fpp)); lemma_prod48(); lemma_partitions(vr(fpp)); lemma_part_size(0, vr(fpp)); }
ensures:
- r.wf()
- r.bit_count == bit_count
- r.hasher.hash_builders == hash_builders
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] 0.0real < vr(fpp) < 1.0real ==> r.hasher_count as int == partitions_for(vr(fpp))

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::from_item_count
requires:
- item_count <= 0x100_0000_0000
- tiny() <= vr(fpp) < 1.0real
ensures:
- r.wf()
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized(item_count, vr(fpp))

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::from_bit_count
requires:
- bit_count <= 0x1_0000_0000_0000
- tiny() <= vr(fpp) < 1.0real
ensures:
- r.wf()
- r.bit_count == bit_count
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] 0.0real < vr(fpp) < 1.0real ==> r.hasher_count as int == partitions_for(vr(fpp))

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::insert
requires:
- old(self).wf()
- old(self).bit_count > 0
- [count] old(self).bit_vec.count_ok()
ensures:
- final(self).wf()
- old(self).inserted(item, *final(self))
- final(self).member(item)
- [count] final(self).bit_vec.count_ok()
- [count] old(self).member(item) ==> cnt(final(self).bit_vec@) == cnt(old(self).bit_vec@)
inv 0:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(dh_start(old(self).hasher, item), $k as nat)
- $it.c == $k
- self.wf()
- self.same_keys(*old(self))
- [count] self.bit_vec.count_ok()
- forall|i: int| 0 <= i < self.bit_vec.len && #[trigger] self.bit_vec@[i] ==> old(self).bit_vec@[i] || old(self).probed(item, i)
- forall|i: int| 0 <= i < self.bit_vec.len && #[trigger] old(self).bit_vec@[i] ==> self.bit_vec@[i]
- forall|n: int| 0 <= n < $k ==> self.bit_vec@[#[trigger] old(self).pos(item, n)]
begin 0:
    proof { let n = $k - 1; lemma_part_pos(*old(self), item, n); assert(old(self).probed(item, old(self).pos(item, n)));
      assert forall|m: int| 0 <= m < $k implies 0 <= #[trigger] old(self).pos(item, m) < self.bit_vec.len by { lemma_part_pos(*old(self), item, m); } }
exit:
    proof { assert forall|i: int| 0 <= i < self.bit_vec.len && old(self).probed(item, i) implies self.bit_vec@[i] by { }
      lemma_part_insert(*old(self), item, *self, item); }
    //@count
    proof { if old(self).member(item) { assert(self.bit_vec@ =~= old(self).bit_vec@) by { assert forall|i: int| 0 <= i < self.bit_vec.len implies #[trigger] self.bit_vec@[i] == old(self).bit_vec@[i] by { if old(self).probed(item, i) { let n = choose|n: int| 0 <= n < old(self).hasher_count && #[trigger] old(self).pos(item, n) == i; } } } } }
    //@end

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::contains
requires:
- self.wf()
- self.bit_count > 0
ensures:
- r == self.member(item)
inv 0:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(dh_start(self.hasher, item), $k as nat)
- $it.c == $k
- $r == forall|n: int| 0 <= n < $k ==> self.bit_vec@[#[trigger] self.pos(item, n)]
begin 0:
    proof { let n = $k - 1; lemma_part_pos(*self, item, n); }

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).bit_vec@ == Seq::new(old(self).bit_vec.len as nat, |i: int| false)
- [count] final(self).bit_vec.count_ok()
- [count] cnt(final(self).bit_vec@) == 0
exit:
    proof { lemma_cnt_const(self.bit_vec.len as nat, false); }

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::len
ensures:
- r == self.bit_vec.len

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::is_empty
ensures:
- r == (self.bit_vec.len == 0)

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::hasher_count
ensures:
- r == self.hasher_count

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::count_ones
requires:
- self.wf()
- [count] self.bit_vec.count_ok()
ensures:
- [count] r == cnt(self.bit_vec@)

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::count_zeros
requires:
- self.wf()
- self.bit_vec.count_ok()
ensures:
- [count] r + cnt(self.bit_vec@) == self.bit_vec.len

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::estimated_fpp
requires:
- self.wf()
- self.bit_vec.len > 0
- self.hasher_count <= i32::MAX
- [real] self.bit_vec.count_ok()
ensures:
- [real] vr(r) == self.est_fpp()

=== fn bloom_partitioned_bloom_filter::PartitionedBloomFilter::bit_count
ensures:
- r == self.bit_count
