=== prelude bit_vec
pub open spec fn bit8(x: u8, k: usize) -> bool { (x >> k) & 1u8 != 0u8 }
impl BitVec {
    pub open spec fn bit(self, i: int) -> bool { bit8(self.blocks@[i / 8], (i % 8) as usize) }
    /// the stored bits
    pub open spec fn view(self) -> Seq<bool> { Seq::new(self.len as nat, |i: int| self.bit(i)) }
    pub open spec fn wf(self) -> bool {
        &&& self.len <= 0xFFFF_FFFF_FFFF_FFF0
        &&& self.blocks@.len() == (self.len + 7) / 8
        &&& forall|i: int| self.len <= i < 8 * self.blocks@.len() ==> !#[trigger] self.bit(i)
    }
    pub open spec fn count_ok(self) -> bool { self.one_count == cnt(self@) }
}
pub proof fn lemma_wf_blocks(a: BitVec, b: BitVec)
    requires a.wf(), a.blocks == b.blocks, a.len == b.len,
    ensures b.wf(),
{
    assert forall|i: int| #[trigger] b.bit(i) == a.bit(i) by {}
    assert(b@ =~= a@);
}
pub open spec fn same8(x: u8, y: u8, m: usize, b: bool) -> bool {
    forall|k: usize| k < 8 ==> #[trigger] bit8(y, k) == if k == m { b } else { bit8(x, k) }
}
pub proof fn lemma_set8(x: u8, m: usize)
    requires m < 8,
    ensures
        same8(x, x | (1u8 << m), m, true),
        same8(x, x & !(1u8 << m), m, false),
        same8(x, x ^ (1u8 << m), m, !bit8(x, m)),
{
    let y = x | (1u8 << m);
    assert forall|k: usize| k < 8 implies #[trigger] bit8(y, k) == if k == m { true } else { bit8(x, k) } by {
        assert((((x | (1u8 << m)) >> k) & 1u8 != 0u8) == (k == m || ((x >> k) & 1u8 != 0u8))) by (bit_vector) requires m < 8, k < 8;
    }
    let z = x & !(1u8 << m);
    assert forall|k: usize| k < 8 implies #[trigger] bit8(z, k) == if k == m { false } else { bit8(x, k) } by {
        assert((((x & !(1u8 << m)) >> k) & 1u8 != 0u8) == (k != m && ((x >> k) & 1u8 != 0u8))) by (bit_vector) requires m < 8, k < 8;
    }
    let w = x ^ (1u8 << m);
    assert forall|k: usize| k < 8 implies #[trigger] bit8(w, k) == if k == m { !bit8(x, m) } else { bit8(x, k) } by {
        assert((((x ^ (1u8 << m)) >> k) & 1u8 != 0u8) == (((x >> k) & 1u8 != 0u8) != (k == m))) by (bit_vector) requires m < 8, k < 8;
    }
}
pub proof fn lemma_test8(x: u8, m: usize)
    requires m < 8,
    ensures (x & (1u8 << m) != 0) == bit8(x, m), (x & (1u8 << m) == (1u8 << m)) == bit8(x, m), ((x >> m) & 1 == 1) == bit8(x, m), ((x >> m) % 2 == 1) == bit8(x, m),
{
    assert((x & (1u8 << m) != 0) == ((x >> m) & 1u8 != 0u8)) by (bit_vector) requires m < 8;
    assert((x & (1u8 << m) == (1u8 << m)) == ((x >> m) & 1u8 != 0u8)) by (bit_vector) requires m < 8;
    assert(((x >> m) & 1 == 1) == ((x >> m) & 1u8 != 0u8)) by (bit_vector) requires m < 8;
    assert(((x >> m) % 2 == 1) == ((x >> m) & 1u8 != 0u8)) by (bit_vector) requires m < 8;
}
pub proof fn lemma_const8()
    ensures forall|k: usize| k < 8 ==> !bit8(0u8, k), forall|k: usize| k < 8 ==> bit8(255u8, k), !0u8 == 255u8,
{
    assert forall|k: usize| k < 8 implies !bit8(0u8, k) by { assert((0u8 >> k) & 1u8 == 0u8) by (bit_vector) requires k < 8; }
    assert forall|k: usize| k < 8 implies bit8(255u8, k) by { assert((255u8 >> k) & 1u8 == 1u8) by (bit_vector) requires k < 8; }
    assert(!0u8 == 255u8) by (bit_vector);
}
pub open spec fn low8(x: u8, y: u8, m: usize) -> bool {
    forall|k: usize| k < 8 ==> #[trigger] bit8(y, k) == (k < m && bit8(x, k))
}
pub proof fn lemma_mask8(x: u8, m: usize)
    requires 0 < m < 8,
    ensures
        (1u8 << m) >= 1,
        low8(x, x & ((1u8 << m) - 1) as u8, m),
{
    assert((1u8 << m) >= 1) by (bit_vector) requires 0 < m < 8;
    let y = ((1u8 << m) - 1) as u8;
    assert(y == (sub(1u8 << m, 1u8))) ;
    let z = x & y;
    assert forall|k: usize| k < 8 implies #[trigger] bit8(z, k) == (k < m && bit8(x, k)) by {
        assert((((x & sub(1u8 << m, 1u8)) >> k) & 1u8 != 0u8) == (k < m && ((x >> k) & 1u8 != 0u8))) by (bit_vector) requires 0 < m < 8, k < 8;
    }
}
/// effect on the whole vector of a write of one bit of one block
pub proof fn lemma_block_update(o: BitVec, n: BitVec, index: int, b: bool)
    requires
        o.wf(), 0 <= index < o.len, n.len == o.len,
        n.blocks@ == o.blocks@.update(index / 8, n.blocks@[index / 8]),
        same8(o.blocks@[index / 8], n.blocks@[index / 8], (index % 8) as usize, b),
    ensures
        n.wf(), n@ =~= o@.update(index, b),
        cnt(n@) == cnt(o@) - (if o@[index] { 1int } else { 0int }) + (if b { 1int } else { 0int }),
        cnt(o@) <= o.len, cnt(n@) <= n.len,
{
    assert forall|i: int| 0 <= i < 8 * n.blocks@.len() implies #[trigger] n.bit(i) == if i == index { b } else { o.bit(i) } by {
        if i / 8 == index / 8 { assert(i == 8 * (i / 8) + i % 8); assert(((i % 8) as usize) < 8); }
    }
    assert(n@ =~= o@.update(index, b));
    lemma_cnt_update(o@, index, b);
    lemma_cnt_bound(o@);
    lemma_cnt_bound(n@);
}

/// number of one bits of a byte
pub open spec fn pop8(x: u8) -> nat { cnt(Seq::new(8, |k: int| bit8(x, k as usize))) }
#[verifier::external_body]
pub fn vx_count_ones_u8(x: u8) -> (r: u32) ensures r == pop8(x), { x.count_ones() }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lemma_cnt8(s: Seq<bool>)
    requires s.len() == 8,
    ensures cnt(s) <= 8, cnt(s) == one(s[0]) + one(s[1]) + one(s[2]) + one(s[3]) + one(s[4]) + one(s[5]) + one(s[6]) + one(s[7]),
{
    lemma_cnt_bound(s);
    assert(s.take(8) =~= s);
    assert(s.take(0) =~= Seq::<bool>::empty());
    assert forall|n: int| 0 < n <= 8 implies #[trigger] cnt(s.take(n)) == cnt(s.take(n - 1)) + one(s[n - 1]) by {
        assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(s.take(n).last() == s[n - 1]);
    }
    assert(cnt(s.take(0)) == 0);
    assert(cnt(s.take(1)) == one(s[0]));
    assert(cnt(s.take(2)) == cnt(s.take(1)) + one(s[1]));
    assert(cnt(s.take(3)) == cnt(s.take(2)) + one(s[2]));
    assert(cnt(s.take(4)) == cnt(s.take(3)) + one(s[3]));
    assert(cnt(s.take(5)) == cnt(s.take(4)) + one(s[4]));
    assert(cnt(s.take(6)) == cnt(s.take(5)) + one(s[5]));
    assert(cnt(s.take(7)) == cnt(s.take(6)) + one(s[6]));
    assert(cnt(s.take(8)) == cnt(s.take(7)) + one(s[7]));
}
/// the bits of a byte string, most significant first
pub open spec fn byte_bits(b: Seq<u8>) -> Seq<bool> { Seq::new(8 * b.len(), |i: int| bit8(b[i / 8], (7 - i % 8) as usize)) }
pub proof fn lemma_byte_step(b: Seq<u8>, k: int)
    requires 0 <= k < b.len(),
    ensures cnt(byte_bits(b).take(8 * k + 8)) == cnt(byte_bits(b).take(8 * k)) + pop8(b[k]), cnt(byte_bits(b).take(8 * k + 8)) <= 8 * k + 8,
{
    let v = byte_bits(b);
    let t = v.subrange(8 * k, 8 * k + 8);
    let s = Seq::new(8, |i: int| bit8(b[k], i as usize));
    assert(v.take(8 * k + 8) =~= v.take(8 * k) + t);
    lemma_cnt_concat(v.take(8 * k), t);
    lemma_cnt_bound(v.take(8 * k + 8));
    assert forall|i: int| 0 <= i < 8 implies #[trigger] t[i] == bit8(b[k], (7 - i) as usize) by { assert((8 * k + i) / 8 == k); assert((8 * k + i) % 8 == i); }
    lemma_cnt8(t);
    lemma_cnt8(s);
}
pub proof fn lemma_cnt_concat(a: Seq<bool>, b: Seq<bool>)
    ensures cnt(a + b) == cnt(a) + cnt(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_cnt_concat(a, b.drop_last()); }
}
pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the ones among the low bits of a block are those of the block shifted up
pub proof fn lemma_pop8_tail(t: Seq<bool>, x: u8, s: usize)
    requires 0 < s < 8, t.len() == 8 - s, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == bit8(x, i as usize),
    ensures cnt(t) == pop8(x << s),
{
    let y = x << s;
    let z = Seq::new(s as nat, |i: int| false);
    lemma_cnt_const(s as nat, false);
    let b = Seq::new(8, |i: int| bit8(y, i as usize));
    assert forall|i: usize| i < 8 implies #[trigger] bit8(y, i) == (i >= s && bit8(x, (i - s) as usize)) by {
        if i >= s {
            let d = (i - s) as usize;
            assert((((x << s) >> i) & 1u8 != 0u8) == ((x >> d) & 1u8 != 0u8)) by (bit_vector) requires s < 8, i < 8, i >= s, d == sub(i, s);
        } else {
            assert(((x << s) >> i) & 1u8 == 0u8) by (bit_vector) requires s < 8, i < s;
        }
    }
    assert forall|i: int| 0 <= i < 8 implies #[trigger] b[i] == (z + t)[i] by { if i < s { } else { assert(b[i] == bit8(x, (i - s) as usize)); assert(t[i - s] == bit8(x, (i - s) as usize)); } }
    assert(b =~= z + t);
    lemma_cnt_concat(z, t);
}
/// what one block adds to the count of the bits before it
pub proof fn lemma_count_block(v: BitVec, k: int)
    requires v.wf(), 0 <= k < v.blocks@.len(),
    ensures
        min_int(8 * k, v.len as int) == 8 * k,
        cnt(v@.take(min_int(8 * k + 8, v.len as int))) <= v.len,
        k == v.blocks@.len() - 1 ==> min_int(8 * k + 8, v.len as int) == v.len,
        k == v.blocks@.len() - 1 && v.len % 8 != 0 ==>
            cnt(v@.take(min_int(8 * k + 8, v.len as int))) == cnt(v@.take(8 * k)) + pop8(v.blocks@[k] << ((8 - v.len % 8) as usize)),
        !(k == v.blocks@.len() - 1 && v.len % 8 != 0) ==>
            cnt(v@.take(min_int(8 * k + 8, v.len as int))) == cnt(v@.take(8 * k)) + pop8(v.blocks@[k]),
{
    let e = min_int(8 * k + 8, v.len as int);
    let x = v.blocks@[k];
    let t = v@.subrange(8 * k, e);
    assert(v@.take(e) =~= v@.take(8 * k) + t);
    lemma_cnt_concat(v@.take(8 * k), t);
    lemma_cnt_bound(v@.take(e));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == bit8(x, i as usize) by { assert((8 * k + i) / 8 == k); assert((8 * k + i) % 8 == i); }
    if k == v.blocks@.len() - 1 && v.len % 8 != 0 {
        assert(t.len() == v.len % 8);
        lemma_pop8_tail(t, x, (8 - v.len % 8) as usize);
    } else {
        assert(e == 8 * k + 8);
        assert(t =~= Seq::new(8, |i: int| bit8(x, i as usize)));
    }
}
/// bit by bit combination of two vectors
pub open spec fn combined(o: BitVec, p: BitVec, n: BitVec, f: spec_fn(bool, bool) -> bool) -> bool {
    n@ == Seq::new(o.len as nat, |i: int| f(o@[i], p@[i]))
}
pub open spec fn rev8(x: u8, y: u8) -> bool { forall|k: usize| k < 8 ==> #[trigger] bit8(y, k) == bit8(x, (7 - k) as usize) }
pub proof fn lemma_combined(o: BitVec, p: BitVec, n: BitVec, g: spec_fn(u8, u8) -> u8, f: spec_fn(bool, bool) -> bool)
    requires
        o.wf(), p.wf(), o.len == p.len, n.len == o.len, n.blocks@.len() == o.blocks@.len(), !f(false, false),
        forall|q: int| 0 <= q < n.blocks@.len() ==> #[trigger] n.blocks@[q] == g(o.blocks@[q], p.blocks@[q]),
        forall|x: u8, y: u8, k: usize| k < 8 ==> bit8(#[trigger] g(x, y), k) == f(#[trigger] bit8(x, k), #[trigger] bit8(y, k)),
    ensures n.wf(), combined(o, p, n, f),
{
    assert forall|i: int| 0 <= i < 8 * n.blocks@.len() implies #[trigger] n.bit(i) == f(o.bit(i), p.bit(i)) by {
        let k = (i % 8) as usize; let x = o.blocks@[i / 8]; let y = p.blocks@[i / 8];
        assert(n.blocks@[i / 8] == g(x, y));
        assert(bit8(g(x, y), k) == f(bit8(x, k), bit8(y, k)));
    }
    assert forall|i: int| n.len <= i < 8 * n.blocks@.len() implies !#[trigger] n.bit(i) by { assert(!o.bit(i)); assert(!p.bit(i)); }
    assert(n@ =~= Seq::new(o.len as nat, |i: int| f(o@[i], p@[i])));
}

/// a byte is determined by its bits
pub proof fn lemma_ext8(x: u8, y: u8)
    requires forall|k: usize| k < 8 ==> bit8(x, k) == bit8(y, k),
    ensures x == y,
{
    assert(bit8(x, 0) == bit8(y, 0) && bit8(x, 1) == bit8(y, 1) && bit8(x, 2) == bit8(y, 2) && bit8(x, 3) == bit8(y, 3) && bit8(x, 4) == bit8(y, 4) && bit8(x, 5) == bit8(y, 5) && bit8(x, 6) == bit8(y, 6) && bit8(x, 7) == bit8(y, 7));
    assert(x == y) by (bit_vector) requires ((x >> 0usize) & 1u8 != 0u8) == ((y >> 0usize) & 1u8 != 0u8), ((x >> 1usize) & 1u8 != 0u8) == ((y >> 1usize) & 1u8 != 0u8), ((x >> 2usize) & 1u8 != 0u8) == ((y >> 2usize) & 1u8 != 0u8), ((x >> 3usize) & 1u8 != 0u8) == ((y >> 3usize) & 1u8 != 0u8), ((x >> 4usize) & 1u8 != 0u8) == ((y >> 4usize) & 1u8 != 0u8), ((x >> 5usize) & 1u8 != 0u8) == ((y >> 5usize) & 1u8 != 0u8), ((x >> 6usize) & 1u8 != 0u8) == ((y >> 6usize) & 1u8 != 0u8), ((x >> 7usize) & 1u8 != 0u8) == ((y >> 7usize) & 1u8 != 0u8);
}
/// the representation of a bit sequence is canonical
pub proof fn lemma_bits_canonical(a: BitVec, b: BitVec)
    requires a.wf(), b.wf(), a@ == b@,
    ensures a.blocks@ == b.blocks@, a.len == b.len,
{
    assert(a@.len() == a.len && b@.len() == b.len);
    assert(a.blocks@.len() == b.blocks@.len());
    assert forall|t: int| 0 <= t < a.blocks@.len() implies a.blocks@[t] == b.blocks@[t] by {
        assert forall|k: usize| k < 8 implies bit8(a.blocks@[t], k) == bit8(b.blocks@[t], k) by {
            let i = 8 * t + k;
            assert(i / 8 == t && i % 8 == k as int);
            assert(bit8(a.blocks@[t], k) == a.bit(i) && bit8(b.blocks@[t], k) == b.bit(i));
            if i < a.len { assert(a@[i] == a.bit(i) && b@[i] == b.bit(i)); } else { assert(!a.bit(i) && !b.bit(i)); }
        }
        lemma_ext8(a.blocks@[t], b.blocks@[t]);
    }
    assert(a.blocks@ =~= b.blocks@);
}

=== fn bit_vec::BitVec::get_block_count
requires:
- len <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r == (len + 7) / 8

=== fn bit_vec::BitVec::clear_extra_bits
requires:
- old(self).len <= 0xFFFF_FFFF_FFFF_FFF0
- old(self).blocks@.len() == (old(self).len + 7) / 8
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self).one_count == old(self).one_count
- forall|i: int| 0 <= i < old(self).len ==> #[trigger] final(self).bit(i) == old(self).bit(i)
entry:
    proof { if self.len % 8 > 0 { lemma_mask8(self.blocks@[self.blocks@.len() - 1], (self.len % 8) as usize); } }
exit:
    proof {
        let ob = old(self).blocks@; let nb = self.blocks@;
        if self.len % 8 > 0 {
            let m = (self.len % 8) as usize;
            lemma_mask8(ob[ob.len() - 1], m);
        }
        assert forall|i: int| self.len <= i < 8 * nb.len() implies !#[trigger] self.bit(i) by {
            assert(i / 8 == nb.len() - 1);
            assert(((i % 8) as usize) < 8);
        }
        assert forall|i: int| 0 <= i < self.len implies #[trigger] self.bit(i) == old(self).bit(i) by {
            assert(((i % 8) as usize) < 8);
        }
    }

=== fn bit_vec::BitVec::new
requires:
- len <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.len == len
- r@ == Seq::new(len as nat, |i: int| false)
- [count] r.count_ok()
exit:
    proof { lemma_const8(); assert forall|i: int| 0 <= i < 8 * vx_ret.blocks@.len() implies !#[trigger] vx_ret.bit(i) by { assert(((i % 8) as usize) < 8); }
      lemma_cnt_const(len as nat, false); assert(vx_ret@ =~= Seq::new(len as nat, |i: int| false)); }

=== fn bit_vec::BitVec::from_elem
requires:
- len <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.len == len
- r@ == Seq::new(len as nat, |i: int| bit)
- [count] r.count_ok()
let ret 0:
    let ghost vx_o = ret;
exit:
    proof { lemma_const8(); assert forall|i: int| 0 <= i < len implies #[trigger] vx_ret.bit(i) == bit by { assert(((i % 8) as usize) < 8); assert(vx_o.bit(i) == bit); }
      lemma_cnt_const(len as nat, bit); assert(vx_ret@ =~= Seq::new(len as nat, |i: int| bit)); }

=== fn bit_vec::BitVec::with_capacity
requires:
- len <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.len == 0
- [count] r.count_ok()
exit:
    proof { assert(vx_ret@ =~= Seq::empty()); }

=== fn bit_vec::BitVec::set
attr: wrap(count,one_count)
requires:
- old(self).wf()
- index < old(self).len
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self)@ == old(self)@.update(index as int, bit)
- [count] final(self).count_ok()
entry:
    proof { lemma_set8(self.blocks@[index as int / 8], (index % 8) as usize); lemma_cnt_update(self@, index as int, bit); lemma_cnt_bound(self@); lemma_cnt_bound(self@.update(index as int, bit)); }
exit:
    proof {
        assert(old(self)@[index as int] == old(self).bit(index as int));
        assert(self.blocks@ =~= old(self).blocks@.update(index as int / 8, self.blocks@[index as int / 8]));
        lemma_block_update(*old(self), *self, index as int, bit);
    }
never:
- old(self).wf()
- index >= old(self).len

=== fn bit_vec::BitVec::get
requires:
- self.wf()
ensures:
- r == if index < self.len { Some(self@[index as int]) } else { None }
entry:
    proof { if index < self.len { lemma_test8(self.blocks@[index as int / 8], (index % 8) as usize); } }

=== fn bit_vec::BitVec::set_all
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self)@ == Seq::new(old(self).len as nat, |i: int| bit)
- [count] final(self).count_ok()
inv 0:
- self.len == old(self).len
- self.blocks@.len() == old(self).blocks@.len()
- $n == self.blocks@.len()
- $k <= $n
- [count] self.one_count == $s.one_count
- forall|j: int| 0 <= j < $k ==> self.blocks@[j] == if bit { 255u8 } else { 0u8 }
entry:
    let ghost mut vx_o = *self;
    proof { lemma_const8(); }
after 0:
    proof { vx_o = *self; }
exit:
    proof { lemma_const8(); assert forall|i: int| 0 <= i < self.len implies #[trigger] self.bit(i) == bit by { assert(((i % 8) as usize) < 8); assert(vx_o.bit(i) == bit); }
      lemma_cnt_const(self.len as nat, bit); assert(self@ =~= Seq::new(old(self).len as nat, |i: int| bit)); }

=== fn bit_vec::BitVec::flip
attr: wrap(count,one_count)
requires:
- old(self).wf()
- index < old(self).len
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self)@ == old(self)@.update(index as int, !old(self)@[index as int])
- [count] final(self).count_ok()
entry:
    proof { let b = !self@[index as int]; lemma_set8(self.blocks@[index as int / 8], (index % 8) as usize); lemma_cnt_update(self@, index as int, b); lemma_cnt_bound(self@); lemma_cnt_bound(self@.update(index as int, b)); }
exit:
    proof { lemma_block_update(*old(self), *self, index as int, !old(self)@[index as int]); assert(old(self)@[index as int] == old(self).bit(index as int)); }
never:
- old(self).wf()
- index >= old(self).len

=== fn bit_vec::BitVec::pop
attr: wrap(count,one_count)
requires:
- old(self).wf()
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- old(self).len == 0 ==> r.is_none() && *final(self) == *old(self)
- old(self).len > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() && final(self).len == old(self).len - 1
- [count] final(self).count_ok()
entry:
    let ghost mut vx_mid = *self;
stmt set 0:
    proof { vx_mid = *self; }
exit t:
    proof {
      if old(self).len > 0 {
        let n = old(self).len - 1;
        assert forall|i: int| 0 <= i < 8 * self.blocks@.len() implies #[trigger] self.bit(i) == (i < n && old(self).bit(i)) by {
            assert(self.bit(i) == vx_mid.bit(i));
            if i < n { assert(vx_mid@[i] == old(self)@[i]); } else if i == n { assert(!vx_mid@[i]); } else { assert(!vx_mid.bit(i)); }
        }
        assert(self@ =~= old(self)@.drop_last());
        lemma_cnt_push(self@, false);
        assert(vx_mid@ =~= self@.push(false));
      }
    }

=== fn bit_vec::BitVec::push
attr: wrap(count,one_count)
requires:
- old(self).wf()
- old(self).len < 0xFFFF_FFFF_FFFF_FFF0
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self)@ == old(self)@.push(bit)
- final(self).len == old(self).len + 1
- [count] final(self).count_ok()
let index 0:
    proof {
        lemma_const8();
        let n = BitVec { blocks: self.blocks, len: (self.len + 1) as usize, one_count: self.one_count };
        assert forall|i: int| 0 <= i < 8 * n.blocks@.len() implies #[trigger] n.bit(i) == (i < old(self).len && old(self).bit(i)) by { assert(((i % 8) as usize) < 8); if i < 8 * old(self).blocks@.len() { if i >= old(self).len { assert(!old(self).bit(i)); } } }
        assert(n@ =~= old(self)@.push(false));
        lemma_cnt_push(old(self)@, false);
    }
exit:
    proof { assert(self@ =~= old(self)@.push(bit)); }

=== fn bit_vec::BitVec::is_empty
ensures:
- r == (self.len == 0)

=== fn bit_vec::BitVec::len
ensures:
- r == self.len

=== fn bit_vec::BitVec::count_ones
requires:
- self.wf()
- [count] self.count_ok()
ensures:
- [count] r == cnt(self@)

=== fn bit_vec::BitVec::count_zeros
requires:
- self.wf()
- self.count_ok()
ensures:
- [count] r + cnt(self@) == self.len
entry:
    proof { lemma_cnt_bound(self@); }

=== fn bit_vec::BitVec::clone
ensures:
- r.len == self.len
- r@ == self@
- self.wf() ==> r.wf()
- r.one_count == self.one_count
exit:
    proof { assert(vx_ret.blocks@ =~= self.blocks@); assert(vx_ret@ =~= self@);
      if self.wf() { assert forall|i: int| vx_ret.len <= i < 8 * vx_ret.blocks@.len() implies !#[trigger] vx_ret.bit(i) by { assert(!self.bit(i)); } } }

=== fn bit_vec::BitVec::index
requires:
- self.wf()
- index < self.len
ensures:
- *r == self@[index as int]

=== fn bit_vec::BitVecIter::next
requires:
- old(self).bit_vec.wf()
- old(self).range.end <= old(self).bit_vec.len
ensures:
- final(self).bit_vec == old(self).bit_vec
- final(self).range.end == old(self).range.end
- old(self).range.start < old(self).range.end ==> r == Some(old(self).bit_vec@[old(self).range.start as int]) && final(self).range.start == old(self).range.start + 1
- old(self).range.start >= old(self).range.end ==> r.is_none() && final(self).range.start == old(self).range.start

=== fn bit_vec::BitVec::iter
ensures:
- r.bit_vec == self
- r.range.start == 0
- r.range.end == self.len

=== fn bit_vec::BitVec::truncate
requires:
- old(self).wf()
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self)@ == old(self)@.take(if len < old(self).len { len as int } else { old(self).len as int })
- [count] final(self).count_ok()
inv 0:
- self.wf()
- self.len <= old(self).len
- self.len >= len || self.len == old(self).len
- self@ == old(self)@.take(self.len as int)
- [count] self.count_ok()
dec 0: self.len
end 0:
    proof { assert(self@ =~= old(self)@.take(self.len as int)); }
entry:
    proof { assert(self@ =~= self@.take(self.len as int)); }

=== fn bit_vec::BitVec::flip_all
attr: wrap(count,one_count)
requires:
- old(self).wf()
- old(self).count_ok()
ensures:
- final(self).wf()
- final(self)@ == Seq::new(old(self).len as nat, |i: int| !old(self)@[i])
- [count] final(self).count_ok()
inv 0:
- $n == self.blocks@.len()
- $n == old(self).blocks@.len()
- $k <= $n
- self.len == old(self).len
- self.one_count == $s.one_count
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == !old(self).blocks@[q]
- forall|q: int| $k <= q < $n ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
entry:
    let ghost mut vx_m = *self; let ghost mut vx_c = *self;
    proof { lemma_cnt_bound(self@); }
after 0:
    proof { vx_m = *self; }
stmt clear_extra_bits 0:
    proof { vx_c = *self; }
exit:
    proof {
        assert forall|i: int| 0 <= i < old(self).len implies #[trigger] self.bit(i) == !old(self).bit(i) by {
            let q = i / 8; let k = (i % 8) as usize; let x = old(self).blocks@[q];
            assert(self.bit(i) == vx_c.bit(i));
            assert(vx_c.bit(i) == vx_m.bit(i));
            assert(vx_m.blocks@[q] == !x);
            assert((((!x) >> k) & 1u8 != 0u8) == !((x >> k) & 1u8 != 0u8)) by (bit_vector) requires k < 8;
        }
        if vx_c.blocks == self.blocks && vx_c.len == self.len { lemma_wf_blocks(vx_c, *self); }
        let f = Seq::new(old(self).len as nat, |i: int| !old(self)@[i]);
        assert(self@ =~= f);
        lemma_cnt_not(old(self)@, f);
    }

=== fn bit_vec::BitVec::capacity
ensures:
- r >= self.blocks@.len() * 8

=== fn bit_vec::BitVec::reserve
requires:
- old(self).wf()
- old(self).len + additional <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- final(self).blocks@ == old(self).blocks@
- final(self).len == old(self).len
- final(self).one_count == old(self).one_count

=== fn bit_vec::BitVec::reserve_exact
requires:
- old(self).wf()
- old(self).len + additional <= 0xFFFF_FFFF_FFFF_FFF0
ensures:
- final(self).blocks@ == old(self).blocks@
- final(self).len == old(self).len
- final(self).one_count == old(self).one_count

=== fn bit_vec::BitVec::clone_from
ensures:
- final(self).len == source.len
- final(self)@ == source@
- source.wf() ==> final(self).wf()
- final(self).one_count == source.one_count
exit:
    proof { assert(self@ =~= source@);
      if source.wf() { assert forall|i: int| self.len <= i < 8 * self.blocks@.len() implies !#[trigger] self.bit(i) by { assert(!source.bit(i)); } } }

=== fn bit_vec::BitVec::union
attr: wrap(count,one_count)
requires:
- old(self).wf()
- other.wf()
- old(self).len == other.len
ensures:
- final(self).wf()
- final(self).len == old(self).len
- combined(*old(self), *other, *final(self), |a: bool, b: bool| a || b)
- [count] final(self).count_ok()
inv 0:
- $n == self.blocks@.len()
- vx_n0b == other.blocks@.len()
- vx_k0b == $k
- $k <= $n
- self.len == old(self).len
- self.blocks@.len() == old(self).blocks@.len()
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == vx_g(old(self).blocks@[q], other.blocks@[q])
- forall|q: int| $k <= q < $n ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
entry:
    let ghost vx_g = |x: u8, y: u8| x | y;
    let ghost vx_f = |a: bool, b: bool| a || b;
    let ghost mut vx_m = *self;
after 0:
    proof {
        vx_m = *self;
        assert forall|x: u8, y: u8, k: usize| k < 8 implies bit8(#[trigger] vx_g(x, y), k) == vx_f(#[trigger] bit8(x, k), #[trigger] bit8(y, k)) by {
            assert((((x | y) >> k) & 1u8 != 0u8) == ({ let a = (x >> k) & 1u8 != 0u8; let b = (y >> k) & 1u8 != 0u8; a || b })) by (bit_vector) requires k < 8;
        }
        lemma_combined(*old(self), *other, *self, vx_g, vx_f);
        assert(vx_m@.take(0) =~= Seq::<bool>::empty());
        assert(vx_m.wf());
    }
inv 1:
- vx_m.wf()
- vx_m.len == old(self).len
- combined(*old(self), *other, vx_m, |a: bool, b: bool| a || b)
- self.blocks == vx_m.blocks
- self.len == vx_m.len
- $n == self.blocks@.len()
- $k <= $n
- [count] self.one_count == cnt(vx_m@.take(min_int(8 * $k, vx_m.len as int)))
begin 1:
    proof { lemma_count_block(vx_m, $k - 1); }
exit:
    proof { assert(self@ =~= vx_m@); assert(min_int(8 * self.blocks@.len() as int, self.len as int) == self.len); assert(vx_m@.take(vx_m.len as int) =~= vx_m@); assert forall|i: int| self.len <= i < 8 * self.blocks@.len() implies !#[trigger] self.bit(i) by { assert(!vx_m.bit(i)); } }

=== fn bit_vec::BitVec::intersection
attr: wrap(count,one_count)
requires:
- old(self).wf()
- other.wf()
- old(self).len == other.len
ensures:
- final(self).wf()
- final(self).len == old(self).len
- combined(*old(self), *other, *final(self), |a: bool, b: bool| a && b)
- [count] final(self).count_ok()
inv 0:
- $n == self.blocks@.len()
- vx_n0b == other.blocks@.len()
- vx_k0b == $k
- $k <= $n
- self.len == old(self).len
- self.blocks@.len() == old(self).blocks@.len()
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == vx_g(old(self).blocks@[q], other.blocks@[q])
- forall|q: int| $k <= q < $n ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
entry:
    let ghost vx_g = |x: u8, y: u8| x & y;
    let ghost vx_f = |a: bool, b: bool| a && b;
    let ghost mut vx_m = *self;
after 0:
    proof {
        vx_m = *self;
        assert forall|x: u8, y: u8, k: usize| k < 8 implies bit8(#[trigger] vx_g(x, y), k) == vx_f(#[trigger] bit8(x, k), #[trigger] bit8(y, k)) by {
            assert((((x & y) >> k) & 1u8 != 0u8) == ({ let a = (x >> k) & 1u8 != 0u8; let b = (y >> k) & 1u8 != 0u8; a && b })) by (bit_vector) requires k < 8;
        }
        lemma_combined(*old(self), *other, *self, vx_g, vx_f);
        assert(vx_m@.take(0) =~= Seq::<bool>::empty());
        assert(vx_m.wf());
    }
inv 1:
- vx_m.wf()
- vx_m.len == old(self).len
- combined(*old(self), *other, vx_m, |a: bool, b: bool| a && b)
- self.blocks == vx_m.blocks
- self.len == vx_m.len
- $n == self.blocks@.len()
- $k <= $n
- [count] self.one_count == cnt(vx_m@.take(min_int(8 * $k, vx_m.len as int)))
begin 1:
    proof { lemma_count_block(vx_m, $k - 1); }
exit:
    proof { assert(self@ =~= vx_m@); assert(min_int(8 * self.blocks@.len() as int, self.len as int) == self.len); assert(vx_m@.take(vx_m.len as int) =~= vx_m@); assert forall|i: int| self.len <= i < 8 * self.blocks@.len() implies !#[trigger] self.bit(i) by { assert(!vx_m.bit(i)); } }

=== fn bit_vec::BitVec::difference
attr: wrap(count,one_count)
requires:
- old(self).wf()
- other.wf()
- old(self).len == other.len
ensures:
- final(self).wf()
- final(self).len == old(self).len
- combined(*old(self), *other, *final(self), |a: bool, b: bool| a && !b)
- [count] final(self).count_ok()
inv 0:
- $n == self.blocks@.len()
- vx_n0b == other.blocks@.len()
- vx_k0b == $k
- $k <= $n
- self.len == old(self).len
- self.blocks@.len() == old(self).blocks@.len()
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == vx_g(old(self).blocks@[q], other.blocks@[q])
- forall|q: int| $k <= q < $n ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
entry:
    let ghost vx_g = |x: u8, y: u8| x & !y;
    let ghost vx_f = |a: bool, b: bool| a && !b;
    let ghost mut vx_m = *self;
after 0:
    proof {
        vx_m = *self;
        assert forall|x: u8, y: u8, k: usize| k < 8 implies bit8(#[trigger] vx_g(x, y), k) == vx_f(#[trigger] bit8(x, k), #[trigger] bit8(y, k)) by {
            assert((((x & !y) >> k) & 1u8 != 0u8) == ({ let a = (x >> k) & 1u8 != 0u8; let b = (y >> k) & 1u8 != 0u8; a && !b })) by (bit_vector) requires k < 8;
        }
        lemma_combined(*old(self), *other, *self, vx_g, vx_f);
        assert(vx_m@.take(0) =~= Seq::<bool>::empty());
        assert(vx_m.wf());
    }
inv 1:
- vx_m.wf()
- vx_m.len == old(self).len
- combined(*old(self), *other, vx_m, |a: bool, b: bool| a && !b)
- self.blocks == vx_m.blocks
- self.len == vx_m.len
- $n == self.blocks@.len()
- $k <= $n
- [count] self.one_count == cnt(vx_m@.take(min_int(8 * $k, vx_m.len as int)))
begin 1:
    proof { lemma_count_block(vx_m, $k - 1); }
exit:
    proof { assert(self@ =~= vx_m@); assert(min_int(8 * self.blocks@.len() as int, self.len as int) == self.len); assert(vx_m@.take(vx_m.len as int) =~= vx_m@); assert forall|i: int| self.len <= i < 8 * self.blocks@.len() implies !#[trigger] self.bit(i) by { assert(!vx_m.bit(i)); } }

=== fn bit_vec::BitVec::symmetric_difference
attr: wrap(count,one_count)
requires:
- old(self).wf()
- other.wf()
- old(self).len == other.len
ensures:
- final(self).wf()
- final(self).len == old(self).len
- combined(*old(self), *other, *final(self), |a: bool, b: bool| a != b)
- [count] final(self).count_ok()
inv 0:
- $n == self.blocks@.len()
- vx_n0b == other.blocks@.len()
- vx_k0b == $k
- $k <= $n
- self.len == old(self).len
- self.blocks@.len() == old(self).blocks@.len()
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == vx_g(old(self).blocks@[q], other.blocks@[q])
- forall|q: int| $k <= q < $n ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
entry:
    let ghost vx_g = |x: u8, y: u8| (x & !y) | (!x & y);
    let ghost vx_f = |a: bool, b: bool| a != b;
    let ghost mut vx_m = *self;
after 0:
    proof {
        vx_m = *self;
        assert forall|x: u8, y: u8, k: usize| k < 8 implies bit8(#[trigger] vx_g(x, y), k) == vx_f(#[trigger] bit8(x, k), #[trigger] bit8(y, k)) by {
            assert(((((x & !y) | (!x & y)) >> k) & 1u8 != 0u8) == ({ let a = (x >> k) & 1u8 != 0u8; let b = (y >> k) & 1u8 != 0u8; a != b })) by (bit_vector) requires k < 8;
        }
        lemma_combined(*old(self), *other, *self, vx_g, vx_f);
        assert(vx_m@.take(0) =~= Seq::<bool>::empty());
        assert(vx_m.wf());
    }
inv 1:
- vx_m.wf()
- vx_m.len == old(self).len
- combined(*old(self), *other, vx_m, |a: bool, b: bool| a != b)
- self.blocks == vx_m.blocks
- self.len == vx_m.len
- $n == self.blocks@.len()
- $k <= $n
- [count] self.one_count == cnt(vx_m@.take(min_int(8 * $k, vx_m.len as int)))
begin 1:
    proof { lemma_count_block(vx_m, $k - 1); }
exit:
    proof { assert(self@ =~= vx_m@); assert(min_int(8 * self.blocks@.len() as int, self.len as int) == self.len); assert(vx_m@.take(vx_m.len as int) =~= vx_m@); assert forall|i: int| self.len <= i < 8 * self.blocks@.len() implies !#[trigger] self.bit(i) by { assert(!vx_m.bit(i)); } }

=== fn bit_vec::BitVec::reverse_byte
ensures:
- rev8(byte, r)
inv 0:
- $n == 8
- $k <= 8
- forall|j: usize| j < 8 ==> #[trigger] bit8(ret, j) == (j >= 8 - $k && bit8(byte, (7 - j) as usize))
entry:
    proof { lemma_const8(); }
begin 0:
    let ghost vx_o = ret;
end 0:
    proof {
        let i = ($k - 1) as usize;
        let x = vx_o; let y = ret;
        assert(y == x | ((byte >> i & 1u8) << ((7 - i) as usize)));
        assert forall|j: usize| j < 8 implies #[trigger] bit8(ret, j) == (j >= 8 - $k && bit8(byte, (7 - j) as usize)) by {
            let d = (7 - i) as usize;
            let c = (7 - j) as usize;
            assert(bit8(x, j) == (j >= 8 - i && bit8(byte, c)));
            assert((((x | ((byte >> i & 1u8) << d)) >> j) & 1u8 != 0u8) == (((x >> j) & 1u8 != 0u8) || (j == d && ((byte >> i) & 1u8 != 0u8)))) by (bit_vector) requires i < 8, d == sub(7usize, i), j < 8;
        }
    }

=== fn bit_vec::BitVec::to_bytes
requires:
- self.wf()
ensures:
- r@.len() == self.blocks@.len()
- forall|i: int| 0 <= i < self.len ==> bit8(#[trigger] r@[i / 8], (7 - i % 8) as usize) == self@[i]
inv 0:
- $n == self.blocks@.len()
- $k <= $n
- $r@.len() == $k
- forall|q: int| 0 <= q < $k ==> rev8(self.blocks@[q], #[trigger] $r@[q])
exit:
    proof { assert forall|i: int| 0 <= i < self.len implies bit8(#[trigger] vx_ret@[i / 8], (7 - i % 8) as usize) == self@[i] by { assert(rev8(self.blocks@[i / 8], vx_ret@[i / 8])); assert(self.bit(i) == bit8(vx_ret@[i / 8], (7 - i % 8) as usize)); } }

=== fn bit_vec::BitVec::from_bytes
attr: wrap(count,one_count)
requires:
- bytes@.len() <= 0x1FFF_FFFF_FFFF_FFF0
ensures:
- r.wf()
- r.len == 8 * bytes@.len()
- r@ == byte_bits(bytes@)
- [count] r.count_ok()
inv 0:
- $n == bytes@.len()
- $k <= $n
- $r@.len() == $k
- forall|q: int| 0 <= q < $k ==> rev8(bytes@[q], #[trigger] $r@[q])
inv 1:
- $n == bytes@.len()
- $n <= 0x1FFF_FFFF_FFFF_FFF0
- $k <= $n
- $r <= 8 * $k
- [count] $r == cnt(byte_bits(bytes@).take(8 * $k))
begin 1:
    proof { lemma_byte_step(bytes@, $k - 1); lemma_cnt_bound(Seq::new(8, |k: int| bit8(bytes@[$k - 1], k as usize))); }
entry:
    proof { assert(byte_bits(bytes@).take(0) =~= Seq::<bool>::empty()); }
exit:
    proof {
        assert forall|i: int| 0 <= i < 8 * bytes@.len() implies #[trigger] vx_ret.bit(i) == bit8(bytes@[i / 8], (7 - i % 8) as usize) by { assert(rev8(bytes@[i / 8], vx_ret.blocks@[i / 8])); }
        assert(vx_ret@ =~= byte_bits(bytes@));
        assert(byte_bits(bytes@).take(8 * bytes@.len() as int) =~= byte_bits(bytes@));
    }

=== fn bit_vec::BitVecIntoIter::next
requires:
- old(self).bit_vec.wf()
- old(self).range.end <= old(self).bit_vec.len
ensures:
- final(self).bit_vec == old(self).bit_vec
- final(self).range.end == old(self).range.end
- old(self).range.start < old(self).range.end ==> r == Some(old(self).bit_vec@[old(self).range.start as int]) && final(self).range.start == old(self).range.start + 1
- old(self).range.start >= old(self).range.end ==> r.is_none() && final(self).range.start == old(self).range.start

=== fn bit_vec::BitVec::eq
ensures:
- self.wf() && other.wf() && self.count_ok() && other.count_ok() ==> r == (self@ == other@)
exit:
    proof { if self.wf() && other.wf() {
      if self@ == other@ { lemma_bits_canonical(*self, *other); }
      if self.len == other.len && self.blocks@ == other.blocks@ { assert(self@ =~= other@); } } }
