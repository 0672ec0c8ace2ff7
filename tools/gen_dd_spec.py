#!/usr/bin/env python3
"""Writes specs/22_dd.spec: the contracts of the three stream filters share most of their text."""
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "22_dd.spec")

FLAT = """
impl<T, B> NAME<T, B> {
    pub open spec fn wf(self) -> bool {
        self.bit_vec.wf() && self.bit_vec.len as int == self.bit_count as int * self.hasher_count as int
    }
    /// bit o of partition p
    pub open spec fn at(self, p: int, o: int) -> bool { self.bit_vec@[p * (self.bit_count as int) + o] }
    pub open spec fn same_bits(self, o: Self) -> bool { self.bit_vec == o.bit_vec }
    pub open spec fn all_zero(self) -> bool { self.bit_vec@ == Seq::new(self.bit_vec.len as nat, |i: int| false) }
    pub open spec fn counts_ok(self) -> bool { self.bit_vec.count_ok() }
    pub open spec fn total(self) -> nat { cnt(self.bit_vec@) }
"""
RL = """
impl<T, B> NAME<T, B> {
    pub open spec fn wf(self) -> bool {
        &&& self.bit_vecs@.len() == self.hasher_count
        &&& forall|p: int| 0 <= p < self.hasher_count ==> (#[trigger] self.bit_vecs@[p]).wf() && self.bit_vecs@[p].len == self.bit_count
        &&& self.bit_count as int * self.hasher_count as int <= 0xFFFF_FFFF_FFFF_FFF0
    }
    /// bit o of partition p
    pub open spec fn at(self, p: int, o: int) -> bool { self.bit_vecs@[p]@[o] }
    pub open spec fn same_bits(self, o: Self) -> bool { self.bit_vecs == o.bit_vecs }
    pub open spec fn all_zero(self) -> bool { forall|p: int| 0 <= p < self.hasher_count ==> (#[trigger] self.bit_vecs@[p])@ == Seq::new(self.bit_count as nat, |i: int| false) }
    pub open spec fn counts_ok(self) -> bool { forall|p: int| 0 <= p < self.hasher_count ==> (#[trigger] self.bit_vecs@[p]).count_ok() }
    pub open spec fn total(self) -> nat { sum_ones(self.bit_vecs@, self.bit_vecs@.len() as int) }
"""
COMMON = """
    /// probe offset of an item (by its generator) in partition p
    pub open spec fn off(self, h: HashIter, p: int) -> int { (hi_val(h, p as nat) as int) % (self.bit_count as int) }
    pub open spec fn probe(self, h: HashIter, p: int) -> bool { self.at(p, self.off(h, p)) }
    /// the answer of `contains`
    pub open spec fn member(self, h: HashIter) -> bool { forall|p: int| 0 <= p < self.hasher_count ==> #[trigger] self.probe(h, p) }
    pub open spec fn same_keys(self, o: Self) -> bool {
        self.hasher == o.hasher && self.hasher_count == o.hasher_count && self.bit_count == o.bit_count && self.wf() == o.wf()
    }
    /// partition p is unchanged
    pub open spec fn frame(self, b: Self, p: int) -> bool { forall|o: int| 0 <= o < self.bit_count ==> #[trigger] b.at(p, o) == self.at(p, o) }
    /// partition p lost at most bit e
    pub open spec fn lost(self, b: Self, p: int, e: int) -> bool { forall|o: int| 0 <= o < self.bit_count ==> #[trigger] b.at(p, o) == (self.at(p, o) && o != e) }
    pub open spec fn lost_at(self, b: Self, p: int, q: int, e: int) -> bool { self.lost(b, p, if p == q { e } else { -1 }) }
    pub open spec fn stepped_at(self, b: Self, h: HashIter, p: int, q: int, e: int) -> bool { self.stepped(b, h, p, if p == q { e } else { -1 }) }
    pub open spec fn lost_some(self, b: Self, p: int) -> bool { exists|e: int| #[trigger] self.lost(b, p, e) }
    pub open spec fn stepped_some(self, b: Self, h: HashIter, p: int) -> bool { exists|e: int| #[trigger] self.stepped(b, h, p, e) }
    /// partition p gained exactly the item's probe position
    pub open spec fn gained(self, b: Self, h: HashIter, p: int) -> bool { forall|o: int| 0 <= o < self.bit_count ==> #[trigger] b.at(p, o) == (self.at(p, o) || o == self.off(h, p)) }
    /// partition p lost at most bit e and then gained the item's probe position
    pub open spec fn stepped(self, b: Self, h: HashIter, p: int, e: int) -> bool {
        forall|o: int| 0 <= o < self.bit_count ==> #[trigger] b.at(p, o) == ((self.at(p, o) && o != e) || o == self.off(h, p))
    }
    /// one write: bit o of partition p became v, nothing else changed
    #[verifier::opaque]
    pub open spec fn wrote(self, b: Self, p: int, o: int, v: bool) -> bool {
        forall|q: int, r: int| 0 <= q < self.hasher_count && 0 <= r < self.bit_count ==> #[trigger] b.at(q, r) == if q == p && r == o { v } else { self.at(q, r) }
    }
    /// the first k partitions lost at most one bit each, the others are unchanged
    #[verifier::opaque]
    pub open spec fn evicted_upto(self, b: Self, k: int) -> bool {
        &&& b.hasher_count == self.hasher_count && b.bit_count == self.bit_count && b.hasher == self.hasher
        &&& forall|p: int| 0 <= p < k ==> #[trigger] self.lost_some(b, p)
        &&& forall|p: int| k <= p < self.hasher_count ==> #[trigger] self.frame(b, p)
    }
    #[verifier::opaque]
    pub open spec fn probed_upto(self, h: HashIter, k: int) -> bool { forall|n: int| 0 <= n < k ==> #[trigger] self.probe(h, n) }
    /// the first k partitions gained exactly the probe position, the others are unchanged
    #[verifier::opaque]
    pub open spec fn gained_upto(self, b: Self, h: HashIter, k: int) -> bool {
        &&& b.hasher_count == self.hasher_count && b.bit_count == self.bit_count && b.hasher == self.hasher
        &&& forall|p: int| 0 <= p < k ==> #[trigger] self.gained(b, h, p)
        &&& forall|p: int| k <= p < self.hasher_count ==> #[trigger] self.frame(b, p)
    }
}
pub proof fn lemma_NAME_start<T, B>(a: NAME<T, B>, h: HashIter)
    ensures a.evicted_upto(a, 0), a.gained_upto(a, h, 0),
{ reveal(NAME::evicted_upto); reveal(NAME::gained_upto); }
/// no write in partition k
pub proof fn lemma_NAME_evict0<T, B>(a: NAME<T, B>, b: NAME<T, B>, k: int)
    requires a.evicted_upto(b, k), 0 <= k < a.hasher_count,
    ensures a.evicted_upto(b, k + 1),
{
    reveal(NAME::evicted_upto);
    assert(a.frame(b, k));
    assert(a.lost(b, k, -1)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(k, r) == (a.at(k, r) && r != -1) by { } }
}
/// the generator state of the filter does not matter
pub proof fn lemma_NAME_evict_same<T, B>(a: NAME<T, B>, m: NAME<T, B>, b: NAME<T, B>, k: int)
    requires a.evicted_upto(m, k), b.same_bits(m), b.hasher_count == m.hasher_count, b.bit_count == m.bit_count, b.hasher == m.hasher,
    ensures a.evicted_upto(b, k),
{
    reveal(NAME::evicted_upto);
    assert forall|q: int| 0 <= q < k implies #[trigger] a.lost_some(b, q) by {
        assert(a.lost_some(m, q));
        let f = choose|f: int| #[trigger] a.lost(m, q, f);
        assert(a.lost(b, q, f)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == (a.at(q, r) && r != f) by { assert(m.at(q, r) == (a.at(q, r) && r != f)); } }
    }
    assert forall|q: int| k <= q < a.hasher_count implies #[trigger] a.frame(b, q) by { assert(a.frame(m, q)); assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == a.at(q, r) by { assert(m.at(q, r) == a.at(q, r)); } }
}
/// bit e of partition k was cleared
pub proof fn lemma_NAME_evict1<T, B>(a: NAME<T, B>, m: NAME<T, B>, b: NAME<T, B>, k: int, e: int)
    requires a.evicted_upto(m, k), m.wrote(b, k, e, false), 0 <= k < a.hasher_count,
        b.hasher_count == m.hasher_count, b.bit_count == m.bit_count, b.hasher == m.hasher,
    ensures a.evicted_upto(b, k + 1),
{
    reveal(NAME::evicted_upto); reveal(NAME::wrote);
    assert(a.frame(m, k));
    assert(a.lost(b, k, e)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(k, r) == (a.at(k, r) && r != e) by { assert(m.at(k, r) == a.at(k, r)); } }
    assert forall|q: int| 0 <= q < k implies #[trigger] a.lost_some(b, q) by {
        assert(a.lost_some(m, q));
        let f = choose|f: int| #[trigger] a.lost(m, q, f);
        assert(a.lost(b, q, f)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == (a.at(q, r) && r != f) by { assert(m.at(q, r) == (a.at(q, r) && r != f)); } }
    }
    assert forall|q: int| k < q < a.hasher_count implies #[trigger] a.frame(b, q) by { assert(a.frame(m, q)); assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == a.at(q, r) by { assert(m.at(q, r) == a.at(q, r)); } }
}
/// the probe position of partition k was set
pub proof fn lemma_NAME_gain1<T, B>(a: NAME<T, B>, m: NAME<T, B>, b: NAME<T, B>, h: HashIter, k: int)
    requires a.gained_upto(m, h, k), m.wrote(b, k, m.off(h, k), true), 0 <= k < a.hasher_count,
        b.hasher_count == m.hasher_count, b.bit_count == m.bit_count, b.hasher == m.hasher,
    ensures a.gained_upto(b, h, k + 1),
{
    reveal(NAME::gained_upto); reveal(NAME::wrote);
    assert(a.frame(m, k));
    assert forall|q: int| 0 <= q < k implies #[trigger] a.gained(b, h, q) by { assert(a.gained(m, h, q)); assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == (a.at(q, r) || r == a.off(h, q)) by { assert(m.at(q, r) == (a.at(q, r) || r == a.off(h, q))); } }
    assert(a.gained(b, h, k)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(k, r) == (a.at(k, r) || r == a.off(h, k)) by { assert(m.at(k, r) == a.at(k, r)); } }
    assert forall|q: int| k < q < a.hasher_count implies #[trigger] a.frame(b, q) by { assert(a.frame(m, q)); assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == a.at(q, r) by { assert(m.at(q, r) == a.at(q, r)); } }
}
/// the probe position of partition k was set: the first k + 1 probes hit
pub proof fn lemma_NAME_probed1<T, B>(m: NAME<T, B>, b: NAME<T, B>, h: HashIter, k: int)
    requires m.probed_upto(h, k), m.wrote(b, k, m.off(h, k), true), 0 <= k < m.hasher_count, m.bit_count > 0,
        b.hasher_count == m.hasher_count, b.bit_count == m.bit_count, b.hasher == m.hasher,
    ensures b.probed_upto(h, k + 1),
{
    reveal(NAME::probed_upto); reveal(NAME::wrote);
    assert forall|n: int| 0 <= n < k + 1 implies #[trigger] b.probe(h, n) by { assert(b.at(n, b.off(h, n)) == (if n == k { true } else { m.at(n, b.off(h, n)) })); if n < k { assert(m.probe(h, n)); } }
}
pub proof fn lemma_NAME_probed<T, B>(a: NAME<T, B>, h: HashIter)
    ensures a.probed_upto(h, 0), a.probed_upto(h, a.hasher_count as int) == a.member(h),
{ reveal(NAME::probed_upto); }
"""
EACH = """
impl<T, B> NAME<T, B> {
    /// insertion of a new item: at most one bit is cleared in each partition, only the probe positions are set
    pub open spec fn step(self, b: Self, h: HashIter) -> bool {
        forall|p: int| 0 <= p < self.hasher_count ==> #[trigger] self.stepped_some(b, h, p)
    }
}
pub proof fn lemma_NAME_step_each<T, B>(a: NAME<T, B>, m: NAME<T, B>, b: NAME<T, B>, h: HashIter)
    requires a.evicted_upto(m, a.hasher_count as int), m.gained_upto(b, h, a.hasher_count as int),
    ensures a.step(b, h),
{
    reveal(NAME::evicted_upto); reveal(NAME::gained_upto);
    assert forall|p: int| 0 <= p < a.hasher_count implies #[trigger] a.stepped_some(b, h, p) by {
        assert(a.lost_some(m, p));
        let e = choose|e: int| #[trigger] a.lost(m, p, e);
        assert(m.gained(b, h, p));
        assert(a.stepped(b, h, p, e)) by { assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(p, r) == ((a.at(p, r) && r != e) || r == a.off(h, p)) by { assert(m.at(p, r) == (a.at(p, r) && r != e)); } }
    }
}
/// membership changes only for items which share an evicted position or a probe position
pub proof fn lemma_NAME_step<T, B>(a: NAME<T, B>, b: NAME<T, B>, h: HashIter, w: HashIter)
    requires
        a.wf(), a.bit_count > 0, a.step(b, h), a.hasher_count == b.hasher_count, a.bit_count == b.bit_count,
        a.member(w) != b.member(w),
    ensures
        exists|p: int, o: int| 0 <= p < a.hasher_count && 0 <= o < a.bit_count && #[trigger] a.at(p, o) != b.at(p, o) && o == a.off(w, p),
{
    let p = if a.member(w) { choose|p: int| 0 <= p < b.hasher_count && !#[trigger] b.probe(w, p) } else { choose|p: int| 0 <= p < a.hasher_count && !#[trigger] a.probe(w, p) };
    assert(a.probe(w, p) != b.probe(w, p));
    assert(a.at(p, a.off(w, p)) != b.at(p, a.off(w, p)));
}
"""
ONE = """
pub proof fn lemma_NAME_step_one<T, B>(a: NAME<T, B>, m: NAME<T, B>, b: NAME<T, B>, h: HashIter, q: int, e: int)
    requires a.wrote(m, q, e, false), m.gained_upto(b, h, a.hasher_count as int), m.hasher_count == a.hasher_count, m.bit_count == a.bit_count, m.hasher == a.hasher, 0 <= e,
    ensures a.step(b, h),
{
    reveal(NAME::wrote); reveal(NAME::gained_upto);
    assert forall|p: int| 0 <= p < a.hasher_count implies #[trigger] a.stepped_at(b, h, p, q, e) by {
        let f = if p == q { e } else { -1 };
        assert(m.gained(b, h, p));
        assert forall|r: int| 0 <= r < a.bit_count implies #[trigger] b.at(p, r) == ((a.at(p, r) && r != f) || r == a.off(h, p)) by { assert(m.at(p, r) == (a.at(p, r) && r != f)); }
    }
    assert(a.step1(b, h, q, e));
}
impl<T, B> NAME<T, B> {
    /// insertion of a new item: at most one bit is cleared in the whole filter, only the probe positions are set
    pub open spec fn step1(self, b: Self, h: HashIter, q: int, e: int) -> bool {
        forall|p: int| 0 <= p < self.hasher_count ==> #[trigger] self.stepped_at(b, h, p, q, e)
    }
    pub open spec fn step(self, b: Self, h: HashIter) -> bool { exists|q: int, e: int| #[trigger] self.step1(b, h, q, e) }
}
/// membership changes only for items which share an evicted position or a probe position
pub proof fn lemma_NAME_step<T, B>(a: NAME<T, B>, b: NAME<T, B>, h: HashIter, w: HashIter)
    requires
        a.wf(), a.bit_count > 0, a.step(b, h), a.hasher_count == b.hasher_count, a.bit_count == b.bit_count,
        a.member(w) != b.member(w),
    ensures
        exists|p: int, o: int| 0 <= p < a.hasher_count && 0 <= o < a.bit_count && #[trigger] a.at(p, o) != b.at(p, o) && o == a.off(w, p),
{
    let p = if a.member(w) { choose|p: int| 0 <= p < b.hasher_count && !#[trigger] b.probe(w, p) } else { choose|p: int| 0 <= p < a.hasher_count && !#[trigger] a.probe(w, p) };
    assert(a.probe(w, p) != b.probe(w, p));
    assert(a.at(p, a.off(w, p)) != b.at(p, a.off(w, p)));
}
"""
LEM = """
/// addressing: partitions do not overlap and lie inside the bit vector
pub proof fn lemma_flat_idx(bc: int, hc: int, p: int)
    requires 0 <= p < hc, 0 < bc,
    ensures 0 <= p * bc, p * bc + bc <= bc * hc,
{
    assert(0 <= p * bc) by (nonlinear_arith) requires 0 <= p, bc > 0;
    assert((p + 1) * bc <= hc * bc) by (nonlinear_arith) requires p + 1 <= hc, bc > 0;
    assert((p + 1) * bc == p * bc + bc) by (nonlinear_arith);
    assert(hc * bc == bc * hc) by (nonlinear_arith);
}
pub proof fn lemma_flat_inj(bc: int, p: int, o: int, q: int, r: int)
    requires 0 <= p, 0 <= q, 0 <= o < bc, 0 <= r < bc,
    ensures (q * bc + r == p * bc + o) == (q == p && r == o),
{
    if q < p { assert((q + 1) * bc <= p * bc) by (nonlinear_arith) requires q + 1 <= p, bc > 0; assert((q + 1) * bc == q * bc + bc) by (nonlinear_arith); }
    if q > p { assert((p + 1) * bc <= q * bc) by (nonlinear_arith) requires p + 1 <= q, bc > 0; assert((p + 1) * bc == p * bc + bc) by (nonlinear_arith); }
}
/// ones in the first n partitions
pub open spec fn sum_ones(v: Seq<BitVec>, n: int) -> nat
    decreases n,
{
    if n <= 0 { 0 } else { sum_ones(v, n - 1) + cnt(v[n - 1]@) }
}
pub proof fn lemma_sum_zero(v: Seq<BitVec>, n: int, bc: nat)
    requires 0 <= n <= v.len(), forall|p: int| 0 <= p < v.len() ==> (#[trigger] v[p])@ == Seq::new(bc, |i: int| false),
    ensures sum_ones(v, n) == 0,
    decreases n,
{
    if n > 0 { lemma_sum_zero(v, n - 1, bc); lemma_cnt_const(bc, false); }
}
/// the number of hash functions for probability p: (1 + ln p / ln(1 - 1/e) + 1) / 2, rounded up
pub open spec fn dd_hashers(p: real) -> int {
    up(rdiv(1.0real + rdiv(rln(p), rln(1.0real - rdiv(1.0real, rexp(1.0real)))) + 1.0real, 2.0real))
}
/// ln(1 - 1/e) is defined and not zero
pub proof fn lemma_dd_base()
    ensures 0.0real < 1.0real - rdiv(1.0real, rexp(1.0real)) < 1.0real, rln(1.0real - rdiv(1.0real, rexp(1.0real))) < 0.0real, rexp(1.0real) > 0.0real,
{
    let e = rexp(1.0real);
    axiom_exp(1.0real, 0.0real);
    assert(0.0real < 1.0real / e && 1.0real / e <= 0.5real) by (nonlinear_arith) requires e >= 2.0real;
    reveal(rdiv);
    lemma_ln_sign(1.0real - 1.0real / e);
}
/// probabilities down to 2^-64 take few partitions
pub proof fn lemma_dd_size(p: real)
    requires p >= tiny(),
    ensures dd_hashers(p) <= 256, p > 0.0real,
{
    lemma_tiny(p); lemma_dd_base();
    let e = rexp(1.0real); let h = rexp(0.5real); let g = rexp(-0.5real);
    axiom_exp(0.5real, 0.5real); axiom_exp(0.5real, -0.5real); axiom_exp(-0.5real, 0.0real); lemma_ln_one();
    assert(0.5real + 0.5real == 1.0real && 0.5real + -0.5real == 0.0real);
    assert(h <= 2.0real) by (nonlinear_arith) requires h * g == 1.0real, g >= 0.5real, h > 0.0real;
    assert(e <= 4.0real) by (nonlinear_arith) requires e == h * h, 0.0real < h <= 2.0real;
    let i = rdiv(1.0real, e);
    assert(i >= 0.25real) by { reveal(rdiv); assert(1.0real / e >= 0.25real) by (nonlinear_arith) requires 0.0real < e <= 4.0real; }
    let b = rln(1.0real - i); lemma_ln_bounds(1.0real - i);
    let l = rln(p); let q = rdiv(l, b);
    assert(q <= 256.0real) by { reveal(rdiv); assert(l / b <= 256.0real) by (nonlinear_arith) requires l >= -64.0real, b <= -0.25real; }
    let x = rdiv(1.0real + q + 1.0real, 2.0real);
    assert(x <= 256.0real) by { reveal(rdiv); }
    lemma_up_le(x, 256);
}
"""
SETLEM_FLAT = """
/// effect of one write on the partitions
pub proof fn lemma_NAME_set<T, B>(a: NAME<T, B>, b: NAME<T, B>, p: int, o: int, v: bool)
    requires
        a.wf(), 0 <= p < a.hasher_count, 0 <= o < a.bit_count, b.bit_count == a.bit_count, b.hasher_count == a.hasher_count,
        b.bit_vec@ == a.bit_vec@.update(p * a.bit_count + o, v),
    ensures
        a.wrote(b, p, o, v),
{
    reveal(NAME::wrote);
    lemma_flat_idx(a.bit_count as int, a.hasher_count as int, p);
    assert forall|q: int, r: int| 0 <= q < a.hasher_count && 0 <= r < a.bit_count implies #[trigger] b.at(q, r) == if q == p && r == o { v } else { a.at(q, r) } by {
        lemma_flat_idx(a.bit_count as int, a.hasher_count as int, q);
        lemma_flat_inj(a.bit_count as int, p, o, q, r);
    }
}
"""
SETLEM_RL = """
/// effect of one write on the partitions
pub proof fn lemma_NAME_set<T, B>(a: NAME<T, B>, b: NAME<T, B>, p: int, o: int, v: bool)
    requires
        a.wf(), 0 <= p < a.hasher_count, 0 <= o < a.bit_count, b.bit_count == a.bit_count, b.hasher_count == a.hasher_count,
        b.bit_vecs@.len() == a.bit_vecs@.len(),
        forall|q: int| 0 <= q < a.hasher_count && q != p ==> #[trigger] b.bit_vecs@[q] == a.bit_vecs@[q],
        b.bit_vecs@[p].wf(), b.bit_vecs@[p].len == a.bit_count,
        b.bit_vecs@[p]@ == a.bit_vecs@[p]@.update(o, v),
    ensures
        b.wf(),
        a.wrote(b, p, o, v),
{
    reveal(NAME::wrote);
    assert(a.bit_vecs@[p].wf());
    assert forall|q: int| 0 <= q < b.hasher_count implies (#[trigger] b.bit_vecs@[q]).wf() && b.bit_vecs@[q].len == b.bit_count by { assert(a.bit_vecs@[q].wf()); }
}
"""

COMMON_FNS = """
=== fn M::NAME::contains_hashes
requires:
- self.wf()
- self.bit_count > 0
- hashes.c == 0
ensures:
- r == self.member(hashes)
inv 0:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(hashes, $k as nat)
- $it.c == $k
- $r == forall|n: int| 0 <= n < $k ==> #[trigger] self.probe(hashes, n)
begin 0:
    proof { let n = $k - 1; FLATPOS(n); assert(self.probe(hashes, n) == self.at(n, self.off(hashes, n))); }

=== fn M::NAME::contains
requires:
- self.wf()
- self.bit_count > 0
ensures:
- r == self.member(dh_start(self.hasher, item))

=== fn M::NAME::hasher_count
ensures:
- r == self.hasher_count

=== fn M::NAME::bit_count
ensures:
- r == self.bit_count
"""
FLAT_FNS = """
=== fn M::NAME::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn M::NAME::with_hashers
requires:
- bit_count <= 0x1_0000_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.bit_count == bit_count
- r.hasher.hash_builders == hash_builders
- r.all_zero()
- [count] r.counts_ok()
- [real] 0.0real < vr(fpp) ==> r.hasher_count as int == dd_hashers(vr(fpp))
entry:
    proof { lemma_prod48(); lemma_dd_base(); lemma_dd_size(vr(fpp)); }

=== fn M::NAME::new
requires:
- bit_count <= 0x1_0000_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.bit_count == bit_count
- r.all_zero()
- [count] r.counts_ok()
- [real] 0.0real < vr(fpp) ==> r.hasher_count as int == dd_hashers(vr(fpp))

=== fn M::NAME::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).all_zero()
- [count] final(self).counts_ok()
- [count] final(self).total() == 0
exit:
    proof { lemma_cnt_const(self.bit_vec.len as nat, false); }

=== fn M::NAME::len
ensures:
- r == self.bit_vec.len

=== fn M::NAME::is_empty
ensures:
- r == (self.bit_vec.len == 0)

=== fn M::NAME::count_ones
requires:
- self.wf()
- [count] self.counts_ok()
ensures:
- [count] r == self.total()

=== fn M::NAME::count_zeros
requires:
- self.wf()
- self.counts_ok()
ensures:
- [count] r + self.total() == self.bit_vec.len
"""
INSERT_HEAD = """
=== fn M::NAME::insert
requires:
- old(self).wf()
- old(self).bit_count > 0
- old(self).hasher_count > 0
- [count] old(self).counts_ok()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).member(dh_start(old(self).hasher, item))
- old(self).member(dh_start(old(self).hasher, item)) ==> final(self).same_bits(*old(self))
- [evict] !old(self).member(dh_start(old(self).hasher, item)) ==> old(self).step(*final(self), dh_start(old(self).hasher, item))
- [count] final(self).counts_ok()
- [count] old(self).member(dh_start(old(self).hasher, item)) ==> final(self).total() == old(self).total()
entry:
    let ghost vx_h = dh_start(self.hasher, item);
    let ghost mut vx_mid = *self;
    let ghost mut vx_b = *self;
    proof { lemma_NAME_start(*self, vx_h); }
"""
SETLOOP = """inv L:
- $n == self.hasher_count
- $k <= $n
- $it == hi_at(vx_h, $k as nat)
- $it.c == $k
- self.wf()
- self.same_keys(*old(self))
- vx_mid.wf() && vx_mid.same_keys(*old(self))
- [count] self.counts_ok()
- self.probed_upto(vx_h, $k as int)
- [evict] vx_mid.gained_upto(*self, vx_h, $k as int)
begin L:
    proof { vx_b = *self; let n = $k - 1; FLATPOS(n); }
stmt set SETNO:
    proof {
        let p = $k - 1; let o = self.off(vx_h, p);
        lemma_NAME_set(vx_b, *self, p, o, true);
        lemma_NAME_probed1(vx_b, *self, vx_h, p);
    }
    //@evict
    proof { lemma_NAME_gain1(vx_mid, vx_b, *self, vx_h, $k - 1); }
    //@end
"""
EVICTLOOP = """inv 0:
- $n == self.hasher_count
- $k <= $n
- self.wf()
- self.same_keys(*old(self))
- [count] self.counts_ok()
- [evict] old(self).evicted_upto(*self, $k as int)
begin 0:
    proof { vx_b = *self; let n = $k - 1; FLATPOS(n); }
    //@evict
    proof { lemma_NAME_evict0(*old(self), *self, $k - 1); }
    //@end
stmt set 0:
    proof { let p = $k - 1; let e = EVICTED; lemma_NAME_set(vx_b, *self, p, e, false); }
    //@evict
    proof { let p = $k - 1; let e = EVICTED; lemma_NAME_evict1(*old(self), vx_b, *self, p, e); }
    //@end
end 0:
    //@evict
    proof { if self.same_bits(vx_b) { lemma_NAME_evict_same(*old(self), vx_b, *self, $k as int); } }
    //@end
after 0:
    proof { vx_mid = *self; lemma_NAME_start(*self, vx_h); lemma_NAME_probed(*self, vx_h); }
"""
EXIT_EACH = """exit:
    //@evict
    proof { if !old(self).member(vx_h) { lemma_NAME_step_each(*old(self), vx_mid, *self, vx_h); } }
    //@end
    proof { lemma_NAME_probed(*self, vx_h); lemma_NAME_probed(*old(self), vx_h); }
"""
BSSD_MID = """let filter_index 0:
    proof { let n = filter_index as int; lemma_flat_idx(self.bit_count as int, self.hasher_count as int, n); }
stmt set 0:
    proof { vx_q = filter_index as int; vx_e = index as int; lemma_NAME_set(*old(self), *self, vx_q, vx_e, false); vx_mid = *self; lemma_NAME_start(*self, vx_h); lemma_NAME_probed(*self, vx_h); }
"""
BSSD_EXIT = """exit:
    //@evict
    proof { if !old(self).member(vx_h) { lemma_NAME_step_one(*old(self), vx_mid, *self, vx_h, vx_q, vx_e); } }
    //@end
    proof { lemma_NAME_probed(*self, vx_h); lemma_NAME_probed(*old(self), vx_h); }
"""
RL_FNS = """
=== fn M::NAME::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn M::NAME::with_hashers
requires:
- bit_count <= 0x1_0000_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.bit_count == bit_count
- r.hasher.hash_builders == hash_builders
- r.all_zero()
- [count] r.counts_ok()
- [real] 0.0real < vr(fpp) ==> r.hasher_count as int == dd_hashers(vr(fpp))
entry:
    proof { lemma_prod48(); lemma_dd_base(); lemma_dd_size(vr(fpp)); }

=== fn M::NAME::new
requires:
- bit_count <= 0x1_0000_0000_0000
- vr(fpp) >= tiny()
ensures:
- r.wf()
- r.bit_count == bit_count
- r.all_zero()
- [count] r.counts_ok()
- [real] 0.0real < vr(fpp) ==> r.hasher_count as int == dd_hashers(vr(fpp))

=== fn M::NAME::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).all_zero()
- [count] final(self).counts_ok()
- [count] final(self).total() == 0
exit:
    proof { lemma_sum_zero(self.bit_vecs@, self.bit_vecs@.len() as int, self.bit_count as nat); }
inv 0:
- $n == self.hasher_count
- self.wf()
- self.same_keys(*old(self))
- forall|p: int| 0 <= p < $k ==> (#[trigger] self.bit_vecs@[p])@ == Seq::new(self.bit_count as nat, |i: int| false)
- [count] forall|p: int| 0 <= p < $k ==> (#[trigger] self.bit_vecs@[p]).count_ok()

=== fn M::NAME::len
requires:
- self.wf()
ensures:
- r as int == self.bit_count * self.hasher_count

=== fn M::NAME::is_empty
requires:
- self.wf()
ensures:
- r == (self.bit_count * self.hasher_count == 0)

=== fn M::NAME::count_ones
requires:
- self.wf()
- self.counts_ok()
ensures:
- [count] r == self.total()
inv 0:
- $n == self.hasher_count
- $k <= $n
- $r == sum_ones(self.bit_vecs@, $k as int)
- $r <= self.bit_count * $k
begin 0:
    proof {
      let p = $k - 1; assert(self.bit_vecs@[p].wf() && self.bit_vecs@[p].count_ok()); lemma_cnt_bound(self.bit_vecs@[p]@);
      assert(self.bit_count * $k == self.bit_count * p + self.bit_count) by (nonlinear_arith) requires p == $k - 1;
      assert(self.bit_count * $k <= self.bit_count * self.hasher_count) by (nonlinear_arith) requires $k <= self.hasher_count;
    }

=== fn M::NAME::count_zeros
requires:
- self.wf()
- self.counts_ok()
ensures:
- [count] r + self.total() == self.bit_count * self.hasher_count
inv 0:
- $n == self.hasher_count
- $k <= $n
- $r + sum_ones(self.bit_vecs@, $k as int) == self.bit_count * $k
top 0:
    proof { assert(self.bit_vecs@[$k as int].wf() && self.bit_vecs@[$k as int].count_ok()); }
begin 0:
    proof {
      let p = $k - 1; lemma_cnt_bound(self.bit_vecs@[p]@);
      assert(self.bit_count * $k == self.bit_count * p + self.bit_count) by (nonlinear_arith) requires p == $k - 1;
      assert(self.bit_count * $k <= self.bit_count * self.hasher_count) by (nonlinear_arith) requires $k <= self.hasher_count;
    }
"""
M = "bloom_dd_bloom_filter"


def inst(t, name, **kw):
    t = t.replace("NAME", name).replace("M::", M + "::")
    flat = name != "RLBSBloomFilter"
    import re
    if flat:
        t = re.sub(r"FLATPOS\((\w+)\);", r"lemma_flat_idx(self.bit_count as int, self.hasher_count as int, \1);", t)
    else:
        t = re.sub(r"FLATPOS\((\w+)\);", r"assert(self.bit_vecs@[\1].wf());", t)
    t = t.replace("EVICTED", "$a0 - p * self.bit_count" if flat else "$a0 as int")
    for k, v in kw.items():
        t = t.replace(k, v)
    return t


def fh(t):
    out = []
    cur = "vx_h"
    for l in t.split("\n"):
        if l.startswith("=== fn"):
            cur = "hashes" if l.endswith("contains_hashes") else "vx_h"
        out.append(l.replace("FH", cur))
    return "\n".join(out)


o = "=== prelude %s%s" % (M, LEM)
for n, base, st, sl in (("BSBloomFilter", FLAT, EACH, SETLEM_FLAT), ("BSSDBloomFilter", FLAT, ONE, SETLEM_FLAT), ("RLBSBloomFilter", RL, EACH, SETLEM_RL)):
    o += inst(base + COMMON + st + sl, n)
for n in ("BSBloomFilter", "BSSDBloomFilter", "RLBSBloomFilter"):
    o += inst(COMMON_FNS, n)
    o += inst(FLAT_FNS if n != "RLBSBloomFilter" else RL_FNS, n)
    o += inst(INSERT_HEAD, n)
    if n == "BSSDBloomFilter":
        o += "    let ghost mut vx_q: int = -1;\n    let ghost mut vx_e: int = -1;\n"
        o += inst(BSSD_MID, n) + inst(SETLOOP.replace("inv L", "inv 0").replace("begin L", "begin 0").replace("$k", "vx_k0").replace("$n", "vx_n0").replace("$it", "vx_it0"), n, SETNO="1") + inst(BSSD_EXIT, n)
    else:
        o += inst(EVICTLOOP.replace("$k", "vx_k0").replace("$n", "vx_n0"), n)
        o += inst(SETLOOP.replace("inv L", "inv 1").replace("begin L", "begin 1").replace("$k", "vx_k1").replace("$n", "vx_n1").replace("$it", "vx_it1"), n, SETNO="1") + inst(EXIT_EACH, n)
open(OUT, "w").write(fh(o) + "\n")
