=== prelude hyperloglog
/// one plus the number of trailing one bits of the hash above its p index bits
pub open spec fn rank_of(hash: u64, p: usize) -> u8 { (vstd::std_specs::bits::u64_trailing_zeros(!hash >> p) + 1) as u8 }
/// register selected by a hash
pub open spec fn slot_of(hash: u64, n: int) -> int { (hash as usize & sub(n as usize, 1)) as int }
pub open spec fn max8(a: u8, b: u8) -> u8 { if b < a { a } else { b } }
impl<T, B> HyperLogLog<T, B> {
    pub open spec fn wf(self) -> bool { self.p <= 24 && self.registers@.len() == 1usize << self.p }
    /// same parameters
    pub open spec fn same_keys(self, o: Self) -> bool {
        self.p == o.p && self.hash_builder == o.hash_builder && self.alpha == o.alpha && self.registers@.len() == o.registers@.len()
    }
    /// every register is the largest rank of the hashes that select it, zero if there are none
    pub open spec fn holds(self, s: Set<u64>) -> bool {
        &&& forall|x: u64| #[trigger] s.contains(x) ==> rank_of(x, self.p) <= self.registers@[slot_of(x, self.registers@.len() as int)]
        &&& forall|i: int| 0 <= i < self.registers@.len() && #[trigger] self.registers@[i] != 0 ==> self.witness(s, i)
    }
    pub open spec fn witness(self, s: Set<u64>, i: int) -> bool {
        exists|x: u64| #[trigger] s.contains(x) && slot_of(x, self.registers@.len() as int) == i && rank_of(x, self.p) == self.registers@[i]
    }
    pub open spec fn item_hash<U: ?Sized>(self, item: &U) -> u64 { vx_hash::<B, U>(self.hash_builder, item) }
    /// `self` after inserting a hash gives `o`
    pub open spec fn inserted(self, x: u64, o: Self) -> bool {
        let i = slot_of(x, self.registers@.len() as int);
        &&& o.same_keys(self)
        &&& o.registers@ == self.registers@.update(i, max8(self.registers@[i], rank_of(x, self.p)))
    }
    pub open spec fn merged(self, b: Self, o: Self) -> bool {
        &&& o.same_keys(self)
        &&& forall|i: int| 0 <= i < self.registers@.len() ==> #[trigger] o.registers@[i] == max8(self.registers@[i], b.registers@[i])
    }
    /// the bias correction belongs to the number of registers
    pub open spec fn alpha_ok(self) -> bool { vr(self.alpha) == alpha_of(self.p) }
    pub open spec fn m(self) -> real { (self.registers@.len() as int) as real }
    /// the raw estimate: alpha * m^2 divided by the sum of 2^-register
    pub open spec fn raw(self) -> real { rdiv(rmul(rmul(alpha_of(self.p), self.m()), self.m()), hll_sum(self.registers@)) }
    /// the count reported: linear counting for small estimates as long as there are zero registers, a correction
    /// for hash collisions for large ones
    pub open spec fn count(self) -> real {
        let x = self.raw(); let z = hll_zeros(self.registers@);
        if x <= 2.5real * self.m() {
            if z == 0 { x } else { rmul(self.m(), rln(rdiv(self.m(), (z as int) as real))) }
        } else if x <= rdiv(18446744073709551616.0real, 3.0real) { x } else {
            -rmul(18446744073709551616.0real, rln(1.0real - rdiv(x, 18446744073709551616.0real)))
        }
    }
    /// 2^p registers, where p is log2((1.04 / error)^2), rounded up
    pub open spec fn sized(self, error: real) -> bool { self.p as int == up(rlog2(rpow(rdiv(1.04real, error), 2))) }
    /// state of a new sketch
    pub open spec fn blank(self) -> bool { forall|i: int| 0 <= i < self.registers@.len() ==> #[trigger] self.registers@[i] == 0 }
}
/// the registers suffice for the error: 1.04 / sqrt(registers) <= error, squared
pub proof fn lemma_hll_adequate<T, B>(a: HyperLogLog<T, B>, error: real)
    requires 0.0real < error, a.wf(), a.sized(error),
    ensures rpow(rdiv(1.04real, error), 2) <= a.m(),
{
    lemma_rdiv_pos(1.04real, error); lemma_rpow_pos(rdiv(1.04real, error), 2);
    let w = rpow(rdiv(1.04real, error), 2); let k = a.p as nat;
    lemma_ln_2(); lemma_up(rlog2(w));
    let l2 = rln(2.0real); let lw = rln(w); let kr = (k as int) as real;
    assert(kr * l2 >= lw) by { reveal(rdiv); assert(kr * l2 >= lw) by (nonlinear_arith) requires kr >= lw / l2, l2 > 0.0real; }
    lemma_rpowf_int(2.0real, k); axiom_ln(w);
    lemma_exp_mono(lw, kr * l2);
    assert(rpow(2.0real, k) >= w) by { reveal(rmul); }
    lemma_rpow_two(k);
    let p = a.p; let q = p as u64;
    assert((1usize << p) as u64 == 1u64 << q) by(bit_vector) requires p <= 24, q == p as u64;
}
pub open spec fn alpha_of(p: usize) -> real {
    if p == 4 { 0.673real } else if p == 5 { 0.697real } else if p == 6 { 0.709real } else {
        rdiv(0.7213real, 1.0real + rdiv(1.079real, ((1usize << p) as int) as real))
    }
}
pub open spec fn hll_sum(s: Seq<u8>) -> real
    decreases s.len(),
{
    if s.len() == 0 { 0.0real } else { hll_sum(s.drop_last()) + rdiv(1.0real, rpow(2.0real, s.last() as nat)) }
}
pub open spec fn hll_zeros(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { hll_zeros(s.drop_last()) + if s.last() == 0 { 1nat } else { 0 } }
}
pub proof fn lemma_hll_sum(s: Seq<u8>)
    ensures hll_sum(s) >= 0.0real, s.len() > 0 ==> hll_sum(s) > 0.0real, hll_zeros(s) <= s.len(),
    decreases s.len(),
{
    reveal(rdiv);
    if s.len() > 0 {
        lemma_hll_sum(s.drop_last());
        lemma_rpow_pos(2.0real, s.last() as nat);
        let y = rpow(2.0real, s.last() as nat);
        assert(1.0real / y > 0.0real) by (nonlinear_arith) requires y > 0.0real;
    }
}
pub proof fn lemma_alpha(p: usize)
    requires p <= 24,
    ensures 0.3real < alpha_of(p) < 0.8real,
{
    reveal(rdiv);
    assert(1usize << p >= 1) by (bit_vector) requires p <= 24;
    let n = ((1usize << p) as int) as real;
    let d = 1.079real / n;
    assert(0.0real < d <= 1.079real) by (nonlinear_arith) requires n >= 1.0real, d == 1.079real / n;
    let e = 1.0real + d;
    let q = 0.7213real / e;
    assert(0.3real < q < 0.8real) by (nonlinear_arith) requires 1.0real < e <= 2.079real, q == 0.7213real / e;
}
/// sum and zeros of registers that are all zero, and of others
pub proof fn lemma_hll_blank(s: Seq<u8>)
    ensures
        hll_sum(s) <= (s.len() as int) as real,
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0) == (hll_zeros(s) == s.len()),
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0) ==> hll_sum(s) == (s.len() as int) as real,
    decreases s.len(),
{
    reveal(rdiv);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_hll_blank(t); lemma_hll_sum(t);
        let k = s.last() as nat; let y = rpow(2.0real, k);
        lemma_rpow_ge_one(k);
        assert(1.0real / y <= 1.0real) by (nonlinear_arith) requires y >= 1.0real;
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
        if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 {
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == 0 by { assert(s[i] == 0); }
            assert(s[s.len() - 1] == 0);
            assert(y == 1.0real);
        } else {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] != 0;
            if i < t.len() { assert(t[i] != 0); }
        }
    }
}
/// a sketch reports itself empty exactly when all its registers are zero
pub proof fn lemma_hll_empty<T, B>(a: HyperLogLog<T, B>)
    requires a.wf(), a.raw() < 18446744073709551616.0real,
    ensures
        (a.count() < 0.0000000000000002220446049250313real) == a.blank(),
        a.blank() ==> a.count() == 0.0real,
        !a.blank() ==> a.count() > 0.3real,
{
    reveal(rdiv); reveal(rmul);
    let s = a.registers@; let m = a.m(); let al = alpha_of(a.p); let sum = hll_sum(s); let x = a.raw();
    lemma_slot(0, a.p); lemma_alpha(a.p); lemma_hll_blank(s); lemma_hll_sum(s); lemma_ln_bounds(1.0real);
    assert(m >= 1.0real);
    assert(x == al * m * m / sum);
    assert(x >= al * m) by (nonlinear_arith) requires x == al * m * m / sum, 0.0real < sum <= m, al > 0.0real, m >= 1.0real;
    assert(al * m > 0.3real) by (nonlinear_arith) requires al > 0.3real, m >= 1.0real;
    if a.blank() {
        assert(sum == m);
        assert(x == al * m) by (nonlinear_arith) requires x == al * m * m / sum, sum == m, m >= 1.0real;
        assert(al * m <= 2.5real * m) by (nonlinear_arith) requires al < 0.8real, m >= 1.0real;
        assert(m / m == 1.0real) by (nonlinear_arith) requires m >= 1.0real;
        assert(m * 0.0real == 0.0real);
    } else {
        let z = (hll_zeros(s) as int) as real;
        if x <= 2.5real * m {
            if hll_zeros(s) > 0 {
                let y = m / z;
                lemma_rdiv_pos(m, z);
                lemma_ln_bounds(y);
                let l = rln(y);
                assert(m * l >= 1.0real) by (nonlinear_arith) requires y * l >= y - 1.0real, y == m / z, z >= 1.0real, m >= z + 1.0real;
            }
        } else if x <= 18446744073709551616.0real / 3.0real {
        } else {
            let t = 1.0real - x / 18446744073709551616.0real;
            lemma_ln_bounds(t);
        }
    }
}
pub proof fn lemma_slot(x: u64, p: usize)
    requires p <= 24,
    ensures 0 <= slot_of(x, (1usize << p) as int) < (1usize << p), (1usize << p) > 0,
{
    let n = 1usize << p; let h = x as usize;
    assert(n > 0 && n <= 0x1000000) by(bit_vector) requires n == 1usize << p, p <= 24;
    assert(h & sub(n, 1) < n) by(bit_vector) requires n > 0;
}
pub proof fn lemma_rank(x: u64, p: usize)
    requires p <= 24,
    ensures 1 <= rank_of(x, p) <= 65,
{
    broadcast use vstd::std_specs::bits::axiom_u64_trailing_zeros;
    assert(vstd::std_specs::bits::u64_trailing_zeros(!x >> p) <= 64);
}
pub proof fn lemma_blank<T, B>(a: HyperLogLog<T, B>)
    requires a.blank(),
    ensures a.holds(Set::<u64>::empty()),
{ }
/// inserting adds the hash to the set that is represented
pub proof fn lemma_hll_insert<T, B>(a: HyperLogLog<T, B>, s: Set<u64>, x: u64, b: HyperLogLog<T, B>)
    requires a.wf(), a.holds(s), a.inserted(x, b),
    ensures b.holds(s.insert(x)), b.wf(),
{
    let n = a.registers@.len() as int;
    let t = s.insert(x);
    lemma_slot(x, a.p); lemma_rank(x, a.p);
    assert forall|y: u64| #[trigger] t.contains(y) implies rank_of(y, b.p) <= b.registers@[slot_of(y, n)] by {
        lemma_slot(y, a.p);
        if y != x { assert(s.contains(y)); }
    }
    assert forall|i: int| 0 <= i < b.registers@.len() && #[trigger] b.registers@[i] != 0 implies b.witness(t, i) by {
        if i == slot_of(x, n) && rank_of(x, a.p) >= a.registers@[i] {
            assert(t.contains(x));
        } else {
            assert(a.witness(s, i));
            let y = choose|y: u64| #[trigger] s.contains(y) && slot_of(y, n) == i && rank_of(y, a.p) == a.registers@[i];
            assert(t.contains(y));
        }
    }
}
/// the state is a function of the set of hashes
pub proof fn lemma_hll_unique<T, B>(a: HyperLogLog<T, B>, b: HyperLogLog<T, B>, s: Set<u64>)
    requires a.wf(), b.wf(), a.p == b.p, a.holds(s), b.holds(s),
    ensures a.registers@ == b.registers@,
{
    assert forall|i: int| 0 <= i < a.registers@.len() implies #[trigger] a.registers@[i] == b.registers@[i] by {
        if a.registers@[i] != 0 { assert(a.witness(s, i)); }
        if b.registers@[i] != 0 { assert(b.witness(s, i)); }
    }
    assert(a.registers@ =~= b.registers@);
}
/// merging gives the state for the union
pub proof fn lemma_hll_merge<T, B>(a: HyperLogLog<T, B>, s: Set<u64>, b: HyperLogLog<T, B>, t: Set<u64>, c: HyperLogLog<T, B>)
    requires a.wf(), b.wf(), a.p == b.p, a.holds(s), b.holds(t), a.merged(b, c),
    ensures c.holds(s.union(t)), c.wf(),
{
    let n = a.registers@.len() as int;
    let u = s.union(t);
    assert forall|y: u64| #[trigger] u.contains(y) implies rank_of(y, c.p) <= c.registers@[slot_of(y, n)] by {
        lemma_slot(y, a.p);
        if s.contains(y) { } else { assert(t.contains(y)); }
    }
    assert forall|i: int| 0 <= i < n && #[trigger] c.registers@[i] != 0 implies c.witness(u, i) by {
        if b.registers@[i] < a.registers@[i] {
            assert(a.witness(s, i));
            let y = choose|y: u64| #[trigger] s.contains(y) && slot_of(y, n) == i && rank_of(y, a.p) == a.registers@[i];
            assert(u.contains(y));
        } else {
            assert(b.witness(t, i));
            let y = choose|y: u64| #[trigger] t.contains(y) && slot_of(y, n) == i && rank_of(y, a.p) == b.registers@[i];
            assert(u.contains(y));
        }
    }
}
pub open spec fn hash_set<T, B, U>(a: HyperLogLog<T, B>, items: Seq<&U>) -> Set<u64>
    decreases items.len(),
{
    if items.len() == 0 { Set::empty() } else { hash_set(a, items.drop_last()).insert(a.item_hash(items.last())) }
}
/// every history of insertions: the final state holds exactly the set of hashes inserted
pub proof fn lemma_hll_history<T, B, U>(hist: Seq<HyperLogLog<T, B>>, items: Seq<&U>, n: int)
    requires
        hist.len() == items.len() + 1,
        hist[0].wf(), hist[0].blank(),
        forall|i: int| 0 <= i < items.len() ==> hist[i].inserted(hist[i].item_hash(#[trigger] items[i]), hist[i + 1]),
        0 <= n <= items.len(),
    ensures hist[n].wf(), hist[n].same_keys(hist[0]), hist[n].holds(hash_set(hist[0], items.take(n))),
    decreases n,
{
    if n == 0 {
        lemma_blank(hist[0]);
    } else {
        lemma_hll_history(hist, items, n - 1);
        let x = items[n - 1];
        assert(hist[n - 1].inserted(hist[n - 1].item_hash(x), hist[n]));
        lemma_hll_insert(hist[n - 1], hash_set(hist[0], items.take(n - 1)), hist[n - 1].item_hash(x), hist[n]);
        assert(items.take(n).drop_last() =~= items.take(n - 1));
    }
}

=== fn hyperloglog::HyperLogLog::get_alpha
attr: panic_if(bad)
ensures:
- p <= 24
- [real] vr(r) == alpha_of(p)
entry:
    let ghost bad = p > 24;
    //@real
    proof { if p <= 24 { assert(1i32 << p > 0 && (1i32 << p) as usize == 1usize << p) by(bit_vector) requires p <= 24; lemma_rdiv_pos(1.079real, ((1i32 << p) as int) as real); } }
    //@end

=== fn hyperloglog::HyperLogLog::with_hasher
attr: panic_if(bad)
ensures:
- r.wf()
- r.blank()
- r.hash_builder == hash_builder
- [real] r.alpha_ok()
- [real] r.sized(vr(error_probability))
entry:
    let ghost bad = !(0.0real < vr(error_probability) < 1.0real);
    //@real
    proof { if !bad { lemma_rdiv_pos(1.04real, vr(error_probability)); lemma_rpow_pos(rdiv(1.04real, vr(error_probability)), 2); lemma_ln_2(); } }
    //@end
exit:
    proof { let p = vx_ret.p; assert(1usize << p <= 0x1000000) by(bit_vector) requires p <= 24; }

=== fn hyperloglog::HyperLogLog::new
ensures:
- r.wf()
- r.blank()
- [real] r.alpha_ok()
- [real] r.sized(vr(error_probability))

=== fn hyperloglog::HyperLogLog::hasher
ensures:
- *r == self.hash_builder

=== fn hyperloglog::HyperLogLog::insert
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).inserted(old(self).item_hash(item), *final(self))
entry:
    proof { lemma_slot(self.item_hash(item), self.p); lemma_rank(self.item_hash(item), self.p); broadcast use vstd::std_specs::bits::axiom_u64_trailing_zeros; }
exit:
    proof {
        let x = old(self).item_hash(item); let i = slot_of(x, old(self).registers@.len() as int);
        assert(self.registers@ =~= old(self).registers@.update(i, max8(old(self).registers@[i], rank_of(x, self.p))));
    }

=== fn hyperloglog::HyperLogLog::merge
attr: panic_if(bad)
requires:
- old(self).wf()
- other.wf()
ensures:
- final(self).wf()
- old(self).p == other.p
- old(self).hash_builder == other.hash_builder
- old(self).merged(*other, *final(self))
entry:
    let ghost bad = self.p != other.p || self.hash_builder != other.hash_builder;
inv 0:
- $k <= $n
- $n == self.registers@.len()
- self.same_keys(*old(self))
- other.registers@.len() == $n
- forall|i: int| 0 <= i < $k ==> #[trigger] self.registers@[i] == max8(old(self).registers@[i], other.registers@[i])
- forall|i: int| $k <= i < $n ==> #[trigger] self.registers@[i] == old(self).registers@[i]

=== fn hyperloglog::HyperLogLog::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).blank()
inv 0:
- $k <= $n
- $n == self.registers@.len()
- self.same_keys(*old(self))
- forall|i: int| 0 <= i < $k ==> #[trigger] self.registers@[i] == 0

=== fn hyperloglog::HyperLogLog::get_estimate
requires:
- self.wf()
- [real] self.alpha_ok()
ensures:
- [real] vr(r) == self.raw()
inv 0:
- $k <= $n
- $n == self.registers@.len()
- [real] vr($r) == hll_sum(self.registers@.take($k as int))
begin 0:
    //@real
    proof { let s = self.registers@.take($k as int); assert(s.drop_last() =~= self.registers@.take($k - 1)); lemma_rpow_pos(2.0real, s.last() as nat); reveal(rdiv); reveal(rmul); }
    //@end
after 0:
    //@real
    proof { assert(self.registers@.take($k as int) =~= self.registers@); lemma_hll_sum(self.registers@); reveal(rdiv); reveal(rmul); }
    //@end
entry:
    proof { lemma_slot(0, self.p); }

=== fn hyperloglog::HyperLogLog::len
requires:
- self.wf()
- [real] self.alpha_ok()
ensures:
- [real] self.raw() < 18446744073709551616.0real ==> vr(r) == self.count()
inv 0:
- $k <= $n
- $n == self.registers@.len()
- $r <= $k
- [real] $r == hll_zeros(self.registers@.take($k as int))
begin 0:
    proof { let s = self.registers@.take($k as int); assert(s.drop_last() =~= self.registers@.take($k - 1)); }
after 0:
    proof { assert(self.registers@.take($k as int) =~= self.registers@); }
entry:
    proof { lemma_slot(0, self.p); }
    //@real
    proof { lemma_two_64(); lemma_hll_sum(self.registers@); reveal(rdiv); reveal(rmul); if hll_zeros(self.registers@) > 0 { lemma_rdiv_pos(self.m(), (hll_zeros(self.registers@) as int) as real); } }
    //@end

=== fn hyperloglog::HyperLogLog::is_empty
requires:
- self.wf()
- [real] self.alpha_ok()
ensures:
- [real] self.raw() < 18446744073709551616.0real ==> r == (self.count() < 0.0000000000000002220446049250313real)
- [real] self.raw() < 18446744073709551616.0real ==> r == self.blank()
exit:
    //@real
    proof { if self.raw() < 18446744073709551616.0real { lemma_hll_empty(*self); } }
    //@end
