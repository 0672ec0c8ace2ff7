=== prelude util
#[verifier::external]
impl BuildHasher for SipHasherBuilder { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
impl SipHasherBuilder {
    /// seeded with these keys
    pub open spec fn seeded(self, k0: u64, k1: u64) -> bool { self.k0 == k0 && self.k1 == k1 && self.hasher == vx_sip(k0, k1) }
    pub open spec fn wf(self) -> bool { self.hasher == vx_sip(self.k0, self.k1) }
}
/// the trait call `build_hasher` on a SipHasherBuilder is the function under contract below, which returns the `hasher` field
pub axiom fn axiom_sip_dispatch(b: SipHasherBuilder)
    ensures vx_init(b) == vx_state(b.hasher),
;
/// builders with equal keys hash every item alike
pub proof fn lemma_seeded<I: ?Sized>(a: SipHasherBuilder, b: SipHasherBuilder, i: &I)
    requires a.wf(), b.wf(), a.k0 == b.k0, a.k1 == b.k1,
    ensures a == b, vx_hash(a, i) == vx_hash(b, i),
{
}
/// n(n-1)(n-2)/6
pub open spec fn tet(n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { tet(n - 1) + tri(n - 1) }
}
/// n(n-1)/2
pub open spec fn tri(n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { tri(n - 1) + (n - 1) }
}
pub open spec fn m64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
/// the generator in closed form: enhanced double hashing
pub proof fn lemma_hi_closed(h: HashIter, n: nat)
    requires h.c == 0, n <= 0xFFFF_FFFF_FFFF_FFFF,
    ensures
        hi_at(h, n).c == n,
        hi_at(h, n).b as int == m64(h.b + tri(n as int)),
        hi_at(h, n).a as int == m64(h.a + n * h.b + tet(n as int)),
    decreases n,
{
    if n > 0 {
        let p = hi_at(h, (n - 1) as nat);
        lemma_hi_closed(h, (n - 1) as nat);
        let m = n - 1;
        assert(hi_at(h, n) == hi_step(p));
        assert(m * h.b + h.b == n * h.b) by (nonlinear_arith) requires m == n - 1;
        let big = 0x1_0000_0000_0000_0000int;
        vstd::arithmetic::div_mod::lemma_add_mod_noop(h.a + m * h.b + tet(m), h.b + tri(m), big);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(h.b + tri(m), m, big);
        vstd::arithmetic::div_mod::lemma_small_mod(m as nat, big as nat);
        assert(p.a.wrapping_add(p.b) as int == m64(p.a + p.b)) by { if p.a + p.b >= big { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p.a + p.b, big, 1, p.a + p.b - big); } else { vstd::arithmetic::div_mod::lemma_small_mod((p.a + p.b) as nat, big as nat); } }
        assert(p.b.wrapping_add(p.c) as int == m64(p.b + p.c)) by { if p.b + p.c >= big { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p.b + p.c, big, 1, p.b + p.c - big); } else { vstd::arithmetic::div_mod::lemma_small_mod((p.b + p.c) as nat, big as nat); } }
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod(h.a as nat, 0x1_0000_0000_0000_0000);
        vstd::arithmetic::div_mod::lemma_small_mod(h.b as nat, 0x1_0000_0000_0000_0000);
    }
}
/// one step of the enhanced double hashing generator
pub open spec fn hi_step(h: HashIter) -> HashIter {
    HashIter { a: h.a.wrapping_add(h.b), b: h.b.wrapping_add(h.c), c: (h.c + 1) as u64 }
}
/// generator state after n steps
pub open spec fn hi_at(h: HashIter, n: nat) -> HashIter
    decreases n,
{
    if n == 0 { h } else { hi_step(hi_at(h, (n - 1) as nat)) }
}
/// n-th hash value
pub open spec fn hi_val(h: HashIter, n: nat) -> u64 { hi_at(h, n).a }
/// generator for an item: a function of the two builders and the item only
pub open spec fn dh_start<T, B, U: ?Sized>(d: DoubleHasher<T, B>, item: &U) -> HashIter {
    HashIter { a: vx_hash::<B, U>(d.hash_builders@[0], item), b: vx_hash::<B, U>(d.hash_builders@[1], item), c: 0 }
}
pub open spec fn dh_val<T, B, U: ?Sized>(d: DoubleHasher<T, B>, item: &U, n: nat) -> u64 { hi_val(dh_start(d, item), n) }

=== fn util::hash
ensures:
- r == vx_hash(*hash_builder, item)

=== fn util::SipHasherBuilder::from_entropy
ensures:
- r.wf()

=== fn util::SipHasherBuilder::from_seed
ensures:
- r.seeded(k0, k1)

=== fn util::SipHasherBuilder::build_hasher
ensures:
- r == self.hasher

=== fn util::SipHasherBuilder::eq
ensures:
- r == (self.k0 == other.k0 && self.k1 == other.k1)
- self.wf() && other.wf() ==> r == (*self == *other)

=== fn util::DoubleHasher::eq
ensures:
- r == (self.hash_builders@ == other.hash_builders@)
exit:
    proof { assert(vx_ret == (self.hash_builders@ =~= other.hash_builders@)); }

=== fn util::HashIter::next
requires:
- old(self).c < u64::MAX
ensures:
- r == Some(old(self).a)
- *final(self) == hi_step(*old(self))

=== fn util::DoubleHasher::hash
ensures:
- r == dh_start(*self, item)

=== fn util::DoubleHasher::with_hashers
ensures:
- r.hash_builders == hash_builders

=== fn util::DoubleHasher::hashers
ensures:
- *r == self.hash_builders

=== fn util::DoubleHasher::new
ensures:
- true
