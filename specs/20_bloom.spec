=== prelude bloom_bloom_filter
impl<T, B> BloomFilter<T, B> {
    pub open spec fn wf(self) -> bool { self.bit_vec.wf() }
    /// position probed by hash number n of an item
    pub open spec fn pos<U: ?Sized>(self, item: &U, n: int) -> int {
        (dh_val(self.hasher, item, n as nat) as int) % (self.bit_vec.len as int)
    }
    /// the answer of `contains`
    pub open spec fn member<U: ?Sized>(self, item: &U) -> bool {
        forall|n: int| 0 <= n < self.hasher_count ==> self.bit_vec@[#[trigger] self.pos(item, n)]
    }
    /// the fraction of ones to the power of the number of hash functions
    pub open spec fn est_fpp(self) -> real {
        rpow(rdiv((cnt(self.bit_vec@) as int) as real, (self.bit_vec.len as int) as real), self.hasher_count as nat)
    }
    /// sized for n items and probability p
    pub open spec fn sized(self, n: usize, p: real) -> bool {
        &&& n > 0 && p > 0.0real ==> self.bit_vec.len as int == up(rdiv(rmul(-rlog2(p), (n as int) as real), rln(2.0real)))
        &&& n > 0 && p > 0.0real ==> self.hasher_count as int == hashers_for(self.bit_vec.len as int, n as int)
    }
    /// a given number of bits and the number of hash functions for probability p
    pub open spec fn sized_bits(self, bits: int, p: real) -> bool {
        &&& self.bit_vec.len == bits
        &&& 0.0real < p < 1.0real && bits > 0 ==> self.hasher_count as int == hashers_for(bits, items_for(bits, p))
    }
    /// same hashing parameters
    pub open spec fn same_keys(self, o: Self) -> bool {
        self.hasher == o.hasher && self.hasher_count == o.hasher_count && self.bit_vec.len == o.bit_vec.len
    }
    /// bit i is one of the bits of the item
    pub open spec fn probed<U: ?Sized>(self, item: &U, i: int) -> bool {
        exists|n: int| 0 <= n < self.hasher_count && #[trigger] self.pos(item, n) == i
    }
    /// `self` after inserting `item` gives `o`
    pub open spec fn inserted<U: ?Sized>(self, item: &U, o: Self) -> bool {
        &&& o.same_keys(self)
        &&& forall|i: int| 0 <= i < self.bit_vec.len ==> #[trigger] o.bit_vec@[i] == (self.bit_vec@[i] || self.probed(item, i))
    }
}
/// the number of hash functions: bits / items * ln 2, rounded up
pub open spec fn hashers_for(bits: int, items: int) -> int { up(rmul(rdiv(bits as real, items as real), rln(2.0real))) }
/// the number of items for which the bits give probability p: bits * ln 2 / log2(1 / p), rounded up
pub open spec fn items_for(bits: int, p: real) -> int { up(-rdiv(rmul(rln(2.0real), bits as real), rlog2(p))) }
pub proof fn lemma_items_for(bits: int, p: real)
    requires bits > 0, 0.0real < p < 1.0real,
    ensures items_for(bits, p) >= 1, rln(2.0real) > 0.0real, rlog2(p) < 0.0real,
{
    reveal(rdiv); reveal(rmul);
    lemma_ln_2(); lemma_ln_sign(p);
    let a = rln(2.0real); let l = rlog2(p); let b = bits as real; let lp = rln(p);
    assert(l < 0.0real) by { assert(lp / a < 0.0real) by (nonlinear_arith) requires lp < 0.0real, a > 0.0real; }
    assert(-((a * b) / l) > 0.0real) by { let t = a * b; assert(t > 0.0real) by (nonlinear_arith) requires t == a * b, a > 0.0real, b > 0.0real; assert(t / l < 0.0real) by (nonlinear_arith) requires t > 0.0real, l < 0.0real; }
    lemma_up(-rdiv(rmul(a, b), l));
}
/// sizes of up to 2^40 items and probabilities down to 2^-64 fit
pub proof fn lemma_bloom_size(n: int, p: real)
    requires 0 <= n <= 0x100_0000_0000, p >= tiny(),
    ensures up(rdiv(rmul(-rlog2(p), n as real), rln(2.0real))) <= 0x8000_0000_0000, p > 0.0real, rln(2.0real) > 0.0real,
{
    lemma_tiny(p); reveal(rmul); reveal(rdiv);
    let a = -rlog2(p); let nr = n as real; let l2 = rln(2.0real);
    let m = a * nr;
    assert(m <= 70368744177664.0real) by (nonlinear_arith) requires m == a * nr, a <= 64.0real, 0.0real <= nr <= 1099511627776.0real;
    assert(m / l2 <= 140737488355328.0real) by (nonlinear_arith) requires m <= 70368744177664.0real, l2 >= 0.5real;
    lemma_up_le(m / l2, 0x8000_0000_0000);
}
/// the same number of bits, written with the natural logarithm
pub proof fn lemma_bloom_forms(n: real, p: real)
    requires p > 0.0real,
    ensures ({
        let t = rdiv(rmul(-rlog2(p), n), rln(2.0real)); let l2 = rln(2.0real); let lp = rln(p); let s = rmul(l2, l2);
        &&& rpow(l2, 2) == s && s != 0.0real
        &&& rdiv(rmul(-lp, n), s) == t && rdiv(rmul(n, -lp), s) == t && rdiv(-rmul(lp, n), s) == t && rdiv(-rmul(n, lp), s) == t
        &&& -rdiv(rmul(lp, n), s) == t && -rdiv(rmul(n, lp), s) == t
    }),
{
    lemma_ln_2(); reveal(rmul); reveal(rdiv);
    let l2 = rln(2.0real); let lp = rln(p); let s = l2 * l2; let m = lp * n; let x = lp / l2;
    assert(rpow(l2, 2) == rmul(l2, l2)) by { reveal_with_fuel(rpow, 3); }
    assert(s > 0.0real) by (nonlinear_arith) requires s == l2 * l2, l2 > 0.0real;
    assert((-lp) * n == -m && n * (-lp) == -m && n * lp == m) by (nonlinear_arith) requires m == lp * n;
    let t = (-x * n) / l2; let u = -m / s;
    assert(x * l2 == lp) by (nonlinear_arith) requires x == lp / l2, l2 > 0.0real;
    assert(t * l2 == -x * n) by (nonlinear_arith) requires t == (-x * n) / l2, l2 > 0.0real;
    assert(t * s == (t * l2) * l2) by (nonlinear_arith) requires s == l2 * l2;
    assert((-x * n) * l2 == -m) by (nonlinear_arith) requires x * l2 == lp, m == lp * n;
    assert(u * s == -m) by (nonlinear_arith) requires u == -m / s, s > 0.0real;
    assert(t == u) by (nonlinear_arith) requires t * s == u * s, s > 0.0real;
    assert(-(m / s) == u) by (nonlinear_arith) requires u == -m / s, s > 0.0real;
}
/// a filter sized for n items and probability p estimates at most p while at most half of its bits are set
pub proof fn lemma_bloom_adequate<T, B>(f: BloomFilter<T, B>, n: usize, p: real)
    requires n > 0, 0.0real < p < 1.0real, f.wf(), f.sized(n, p), f.bit_vec.len < usize::MAX, f.hasher_count < usize::MAX, 2 * cnt(f.bit_vec@) <= f.bit_vec.len,
    ensures f.est_fpp() <= p, f.bit_vec.len > 0,
{
    reveal(rdiv); reveal(rmul);
    lemma_ln_2(); lemma_ln_sign(p);
    let l2 = rln(2.0real); let lp = rln(p); let lg = -rlog2(p); let nr = (n as int) as real; let m = (f.bit_vec.len as int) as real; let k = (f.hasher_count as int) as real;
    assert(lg > 0.0real) by { assert(lp / l2 < 0.0real) by (nonlinear_arith) requires lp < 0.0real, l2 > 0.0real; }
    let t = (lg * nr) / l2;
    let ln = lg * nr;
    assert(ln > 0.0real) by (nonlinear_arith) requires ln == lg * nr, lg > 0.0real, nr > 0.0real;
    assert(t > 0.0real) by (nonlinear_arith) requires t == ln / l2, l2 > 0.0real, ln > 0.0real;
    lemma_up(t);
    let u = (m / nr) * l2;
    lemma_up(u);
    assert(m * l2 >= lg * nr) by (nonlinear_arith) requires m >= t, t == (lg * nr) / l2, l2 > 0.0real;
    assert(u >= lg) by (nonlinear_arith) requires u == (m / nr) * l2, m * l2 >= lg * nr, nr > 0.0real;
    let c = (cnt(f.bit_vec@) as int) as real;
    let x = rdiv(c, m);
    assert(0.0real <= c / m && c / m <= 0.5real) by (nonlinear_arith) requires 0.0real <= c, 2.0real * c <= m, m > 0.0real;
    lemma_half_pow(x, f.hasher_count as nat, p);
}
/// one insertion makes its item a member and keeps every other member
pub proof fn lemma_bloom_insert<T, B, U: ?Sized, W: ?Sized>(a: BloomFilter<T, B>, u: &U, b: BloomFilter<T, B>, w: &W)
    requires a.wf(), b.wf(), a.bit_vec.len > 0, a.inserted(u, b),
    ensures b.member(u), a.member(w) ==> b.member(w),
{
    assert forall|n: int| 0 <= n < b.hasher_count implies b.bit_vec@[#[trigger] b.pos(u, n)] by {
        assert(b.pos(u, n) == a.pos(u, n));
        assert(a.probed(u, a.pos(u, n)));
    }
    if a.member(w) {
        assert forall|n: int| 0 <= n < b.hasher_count implies b.bit_vec@[#[trigger] b.pos(w, n)] by {
            assert(b.pos(w, n) == a.pos(w, n));
            assert(a.bit_vec@[a.pos(w, n)]);
        }
    }
}
/// no false negatives over every history of insertions: `hist` are the successive states
pub proof fn lemma_bloom_history<T, B, U: ?Sized>(hist: Seq<BloomFilter<T, B>>, items: Seq<&U>, j: int, n: int)
    requires
        hist.len() == items.len() + 1,
        forall|i: int| 0 <= i < hist.len() ==> (#[trigger] hist[i]).wf() && hist[i].bit_vec.len > 0,
        forall|i: int| 0 <= i < items.len() ==> hist[i].inserted(#[trigger] items[i], hist[i + 1]),
        0 <= j < n <= items.len(),
    ensures hist[n].member(items[j]),
    decreases n,
{
    let x = items[n - 1];
    if n - 1 > j {
        lemma_bloom_history(hist, items, j, n - 1);
    }
    lemma_bloom_insert(hist[n - 1], items[n - 1], hist[n], items[j]);
}

impl<T, B> BloomFilter<T, B> {
    /// the same content: bits, number of hash functions, hash builders
    pub open spec fn same(self, o: Self) -> bool {
        self.bit_vec@ == o.bit_vec@ && self.hasher_count == o.hasher_count && self.hasher.hash_builders@ == o.hasher.hash_builders@
    }
}
/// empty filters of the same parameters and builders are the same: clearing leaves no trace
pub proof fn lemma_bloom_empty<T, B>(a: BloomFilter<T, B>, b: BloomFilter<T, B>)
    requires a.same_keys(b), forall|i: int| 0 <= i < a.bit_vec.len ==> !#[trigger] a.bit_vec@[i], forall|i: int| 0 <= i < b.bit_vec.len ==> !#[trigger] b.bit_vec@[i],
    ensures a.same(b),
{
    assert(a.bit_vec@ =~= b.bit_vec@);
}
/// filters which compare equal answer every query alike
pub proof fn lemma_bloom_equal<T, B, U: ?Sized>(a: BloomFilter<T, B>, b: BloomFilter<T, B>, item: &U)
    requires a.same(b),
    ensures a.member(item) == b.member(item),
{
    assert(a.bit_vec@.len() == b.bit_vec@.len());
    assert(dh_start(a.hasher, item) == dh_start(b.hasher, item));
    assert forall|n: int| a.pos(item, n) == b.pos(item, n) by {}
    if a.member(item) { assert forall|n: int| 0 <= n < b.hasher_count implies b.bit_vec@[#[trigger] b.pos(item, n)] by { assert(a.bit_vec@[a.pos(item, n)]); } }
    if b.member(item) { assert forall|n: int| 0 <= n < a.hasher_count implies a.bit_vec@[#[trigger] a.pos(item, n)] by { assert(b.bit_vec@[b.pos(item, n)]); } }
}

=== fn bloom_bloom_filter::BloomFilter::with_hashers
requires:
- item_count <= 0x100_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.hasher.hash_builders == hash_builders
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized(item_count, vr(fpp))

entry:
    proof { lemma_ln_2(); lemma_bloom_size(item_count as int, vr(fpp)); lemma_bloom_forms((item_count as int) as real, vr(fpp)); }

=== fn bloom_bloom_filter::BloomFilter::from_item_count_with_hashers
requires:
- bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.hasher.hash_builders == hash_builders
- r.bit_vec.len == bit_count
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] item_count > 0 ==> r.hasher_count as int == hashers_for(bit_count as int, item_count as int)

entry:
    //@real
    proof { lemma_ln_2(); }
    //@end

=== fn bloom_bloom_filter::BloomFilter::from_fpp_with_hashers
requires:
- bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.hasher.hash_builders == hash_builders
- r.bit_vec.len == bit_count
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized_bits(bit_count as int, vr(fpp))

entry:
    //@real
    proof { lemma_ln_2(); if bit_count > 0 && 0.0real < vr(fpp) < 1.0real { lemma_items_for(bit_count as int, vr(fpp)); lemma_floor(rdiv(rmul(rln(2.0real), (bit_count as int) as real), rlog2(vr(fpp)))); } }
    //@end

=== fn bloom_bloom_filter::BloomFilter::new
requires:
- item_count <= 0x100_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized(item_count, vr(fpp))

=== fn bloom_bloom_filter::BloomFilter::from_item_count
requires:
- bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.bit_vec.len == bit_count
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] item_count > 0 ==> r.hasher_count as int == hashers_for(bit_count as int, item_count as int)

=== fn bloom_bloom_filter::BloomFilter::from_fpp
requires:
- bit_count <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.bit_vec.len == bit_count
- r.bit_vec@ == Seq::new(r.bit_vec.len as nat, |i: int| false)
- [count] r.bit_vec.count_ok()
- [real] r.sized_bits(bit_count as int, vr(fpp))

=== fn bloom_bloom_filter::BloomFilter::insert
requires:
- old(self).wf()
- old(self).bit_vec.len > 0
- [count] old(self).bit_vec.count_ok()
ensures:
- final(self).wf()
- old(self).inserted(item, *final(self))
- final(self).member(item)
- [count] final(self).bit_vec.count_ok()
- [count] old(self).member(item) ==> cnt(final(self).bit_vec@) == cnt(old(self).bit_vec@)
- [grow] cnt(final(self).bit_vec@) <= cnt(old(self).bit_vec@) + old(self).hasher_count
inv 0:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(dh_start(old(self).hasher, item), $k as nat)
- $it.c == $k
- self.wf()
- self.same_keys(*old(self))
- [count] self.bit_vec.count_ok()
- forall|i: int| 0 <= i < self.bit_vec.len && #[trigger] self.bit_vec@[i] ==> old(self).bit_vec@[i] || old(self).probed(item, i)
- forall|i: int| 0 <= i < self.bit_vec.len && #[trigger] old(self).bit_vec@[i] ==> self.bit_vec@[i]
- forall|n: int| 0 <= n < $k ==> self.bit_vec@[#[trigger] old(self).pos(item, n)]
- [grow] cnt(self.bit_vec@) <= cnt(old(self).bit_vec@) + $k
top 0:
    //@grow
    let ghost vx_b = self.bit_vec@;
    //@end
begin 0:
    proof { let n = $k - 1; assert(old(self).probed(item, old(self).pos(item, n))); }
end 0:
    //@grow
    proof { let p = old(self).pos(item, $k - 1); lemma_cnt_update(vx_b, p, true); assert(self.bit_vec@ =~= vx_b.update(p, true)); }
    //@end
exit:
    proof { lemma_bloom_insert(*old(self), item, *self, item); }
    //@count
    proof { if old(self).member(item) { assert(self.bit_vec@ =~= old(self).bit_vec@) by { assert forall|i: int| 0 <= i < self.bit_vec.len implies #[trigger] self.bit_vec@[i] == old(self).bit_vec@[i] by { if old(self).probed(item, i) { let n = choose|n: int| 0 <= n < old(self).hasher_count && #[trigger] old(self).pos(item, n) == i; } } } } }
    //@end

=== fn bloom_bloom_filter::BloomFilter::contains
requires:
- self.wf()
- self.bit_vec.len > 0
ensures:
- r == self.member(item)
inv 0:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(dh_start(self.hasher, item), $k as nat)
- $it.c == $k
- $r == forall|n: int| 0 <= n < $k ==> self.bit_vec@[#[trigger] self.pos(item, n)]
begin 0:
    proof { let n = $k - 1; assert(0 <= self.pos(item, n)); }

=== fn bloom_bloom_filter::BloomFilter::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).bit_vec@ == Seq::new(old(self).bit_vec.len as nat, |i: int| false)
- [count] final(self).bit_vec.count_ok()
- [count] cnt(final(self).bit_vec@) == 0
exit:
    proof { lemma_cnt_const(self.bit_vec.len as nat, false); }

=== fn bloom_bloom_filter::BloomFilter::len
ensures:
- r == self.bit_vec.len

=== fn bloom_bloom_filter::BloomFilter::is_empty
ensures:
- r == (self.bit_vec.len == 0)

=== fn bloom_bloom_filter::BloomFilter::hasher_count
ensures:
- r == self.hasher_count

=== fn bloom_bloom_filter::BloomFilter::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn bloom_bloom_filter::BloomFilter::count_ones
requires:
- self.wf()
- [count] self.bit_vec.count_ok()
ensures:
- [count] r == cnt(self.bit_vec@)

=== fn bloom_bloom_filter::BloomFilter::count_zeros
requires:
- self.wf()
- self.bit_vec.count_ok()
ensures:
- [count] r + cnt(self.bit_vec@) == self.bit_vec.len

=== fn bloom_bloom_filter::BloomFilter::estimated_fpp
requires:
- self.wf()
- self.bit_vec.len > 0
- self.hasher_count <= i32::MAX
- [real] self.bit_vec.count_ok()
ensures:
- [real] vr(r) == self.est_fpp()

=== fn bloom_bloom_filter::BloomFilter::eq
ensures:
- self.wf() && other.wf() && self.bit_vec.count_ok() && other.bit_vec.count_ok() ==> r == self.same(*other)
exit:
    proof { assert((self.hasher.hash_builders@ =~= other.hasher.hash_builders@) == (self.hasher.hash_builders@[0] == other.hasher.hash_builders@[0] && self.hasher.hash_builders@[1] == other.hasher.hash_builders@[1])); }
