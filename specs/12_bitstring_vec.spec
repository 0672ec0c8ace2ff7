=== prelude bitstring_vec
pub open spec fn bit64(x: u64, k: usize) -> bool { (x >> k) & 1u64 != 0u64 }
pub open spec fn mask64(w: usize) -> u64 { if w == 64 { !0u64 } else { ((1u64 << w) - 1) as u64 } }
/// v fits in w bits
pub open spec fn fits(v: u64, w: usize) -> bool { v & !mask64(w) == 0 }
/// w bits from bit b of the two words
pub open spec fn entry64(x: u64, y: u64, w: usize, b: usize) -> u64 {
    let lo = (x >> b) & mask64(w);
    if b + w > 64 { lo | ((y & mask64((b + w - 64) as usize)) << ((64 - b) as usize)) } else { lo }
}
impl BitstringVec {
    pub open spec fn bit(self, p: int) -> bool { bit64(self.blocks@[p / 64], (p % 64) as usize) }
    pub open spec fn at(self, i: int) -> u64 {
        let off = i * (self.bit_count as int);
        entry64(self.blocks@[off / 64], self.blocks@[off / 64 + 1], self.bit_count, (off % 64) as usize)
    }
    /// the stored entries
    pub open spec fn view(self) -> Seq<u64> { Seq::new(self.len as nat, |i: int| self.at(i)) }
    pub open spec fn wf(self) -> bool {
        &&& 1 <= self.bit_count <= 64
        &&& self.len as int * self.bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
        &&& self.blocks@.len() == (self.len as int * self.bit_count as int + 63) / 64
        &&& forall|p: int| self.len as int * self.bit_count as int <= p < 64 * self.blocks@.len() ==> !#[trigger] self.bit(p)
    }
    /// which entries are occupied
    pub open spec fn occ(self) -> Seq<bool> { Seq::new(self.len as nat, |i: int| self.at(i) != 0) }
    pub open spec fn count_ok(self) -> bool { self.occupied_len == cnt(self.occ()) }
}
pub proof fn lemma_shl64(w: usize)
    requires w < 64,
    ensures (1u64 << w) >= 1, mask64(w) == sub(1u64 << w, 1u64), mask64(w) as int == (1u64 << w) - 1,
{
    assert((1u64 << w) >= 1) by (bit_vector) requires w < 64;
}
pub proof fn lemma_mask64(w: usize)
    requires w <= 64,
    ensures forall|k: usize| k < 64 ==> #[trigger] bit64(mask64(w), k) == (k < w), w < 64 ==> (1u64 << w) >= 1, w < 64 ==> mask64(w) == sub(1u64 << w, 1u64), w == 64 ==> mask64(w) == !0u64,
{
    let m = mask64(w);
    if w < 64 { lemma_shl64(w); }
    assert forall|k: usize| k < 64 implies #[trigger] bit64(m, k) == (k < w) by {
        if w == 64 { assert((!0u64 >> k) & 1u64 != 0u64) by (bit_vector) requires k < 64; }
        else { assert(((sub(1u64 << w, 1u64) >> k) & 1u64 != 0u64) == (k < w)) by (bit_vector) requires w < 64, k < 64; }
    }
}
/// bits of the connectives
pub proof fn lemma_ops64(x: u64, y: u64, k: usize)
    requires k < 64,
    ensures
        bit64(x & y, k) == (bit64(x, k) && bit64(y, k)),
        bit64(x | y, k) == (bit64(x, k) || bit64(y, k)),
        bit64(!x, k) == !bit64(x, k),
{
    assert((((x & y) >> k) & 1u64 != 0u64) == (((x >> k) & 1u64 != 0u64) && ((y >> k) & 1u64 != 0u64))) by (bit_vector) requires k < 64;
    assert((((x | y) >> k) & 1u64 != 0u64) == (((x >> k) & 1u64 != 0u64) || ((y >> k) & 1u64 != 0u64))) by (bit_vector) requires k < 64;
    assert((((!x) >> k) & 1u64 != 0u64) == !((x >> k) & 1u64 != 0u64)) by (bit_vector) requires k < 64;
}
pub proof fn lemma_shift64(x: u64, b: usize, k: usize)
    requires k < 64, b < 64,
    ensures
        bit64(x << b, k) == (k >= b && bit64(x, (k - b) as usize)),
        bit64(x >> b, k) == (k + b < 64 && bit64(x, (k + b) as usize)),
{
    let j = (k - b) as usize;
    if k >= b { assert((((x << b) >> k) & 1u64 != 0u64) == ((x >> j) & 1u64 != 0u64)) by (bit_vector) requires k < 64, b <= k, j == sub(k, b); }
    else { assert(((x << b) >> k) & 1u64 == 0u64) by (bit_vector) requires k < b, b < 64; }
    let l = (k + b) as usize;
    if k + b < 64 { assert((((x >> b) >> k) & 1u64 != 0u64) == ((x >> l) & 1u64 != 0u64)) by (bit_vector) requires k < 64, b < 64, l == add(k, b), l < 64; }
    else { assert(((x >> b) >> k) & 1u64 == 0u64) by (bit_vector) requires k < 64, b < 64, l == add(k, b), l >= 64; }
}
pub proof fn lemma_ext64(x: u64, y: u64)
    requires forall|k: usize| k < 64 ==> bit64(x, k) == bit64(y, k),
    ensures x == y,
{
    assert(bit64(x, 0) == bit64(y, 0) && bit64(x, 1) == bit64(y, 1) && bit64(x, 2) == bit64(y, 2) && bit64(x, 3) == bit64(y, 3) && bit64(x, 4) == bit64(y, 4) && bit64(x, 5) == bit64(y, 5) && bit64(x, 6) == bit64(y, 6) && bit64(x, 7) == bit64(y, 7) && bit64(x, 8) == bit64(y, 8) && bit64(x, 9) == bit64(y, 9) && bit64(x, 10) == bit64(y, 10) && bit64(x, 11) == bit64(y, 11) && bit64(x, 12) == bit64(y, 12) && bit64(x, 13) == bit64(y, 13) && bit64(x, 14) == bit64(y, 14) && bit64(x, 15) == bit64(y, 15) && bit64(x, 16) == bit64(y, 16) && bit64(x, 17) == bit64(y, 17) && bit64(x, 18) == bit64(y, 18) && bit64(x, 19) == bit64(y, 19) && bit64(x, 20) == bit64(y, 20) && bit64(x, 21) == bit64(y, 21) && bit64(x, 22) == bit64(y, 22) && bit64(x, 23) == bit64(y, 23) && bit64(x, 24) == bit64(y, 24) && bit64(x, 25) == bit64(y, 25) && bit64(x, 26) == bit64(y, 26) && bit64(x, 27) == bit64(y, 27) && bit64(x, 28) == bit64(y, 28) && bit64(x, 29) == bit64(y, 29) && bit64(x, 30) == bit64(y, 30) && bit64(x, 31) == bit64(y, 31) && bit64(x, 32) == bit64(y, 32) && bit64(x, 33) == bit64(y, 33) && bit64(x, 34) == bit64(y, 34) && bit64(x, 35) == bit64(y, 35) && bit64(x, 36) == bit64(y, 36) && bit64(x, 37) == bit64(y, 37) && bit64(x, 38) == bit64(y, 38) && bit64(x, 39) == bit64(y, 39) && bit64(x, 40) == bit64(y, 40) && bit64(x, 41) == bit64(y, 41) && bit64(x, 42) == bit64(y, 42) && bit64(x, 43) == bit64(y, 43) && bit64(x, 44) == bit64(y, 44) && bit64(x, 45) == bit64(y, 45) && bit64(x, 46) == bit64(y, 46) && bit64(x, 47) == bit64(y, 47) && bit64(x, 48) == bit64(y, 48) && bit64(x, 49) == bit64(y, 49) && bit64(x, 50) == bit64(y, 50) && bit64(x, 51) == bit64(y, 51) && bit64(x, 52) == bit64(y, 52) && bit64(x, 53) == bit64(y, 53) && bit64(x, 54) == bit64(y, 54) && bit64(x, 55) == bit64(y, 55) && bit64(x, 56) == bit64(y, 56) && bit64(x, 57) == bit64(y, 57) && bit64(x, 58) == bit64(y, 58) && bit64(x, 59) == bit64(y, 59) && bit64(x, 60) == bit64(y, 60) && bit64(x, 61) == bit64(y, 61) && bit64(x, 62) == bit64(y, 62) && bit64(x, 63) == bit64(y, 63));
    assert(x == y) by (bit_vector) requires ((x >> 0usize) & 1u64 != 0u64) == ((y >> 0usize) & 1u64 != 0u64), ((x >> 1usize) & 1u64 != 0u64) == ((y >> 1usize) & 1u64 != 0u64), ((x >> 2usize) & 1u64 != 0u64) == ((y >> 2usize) & 1u64 != 0u64), ((x >> 3usize) & 1u64 != 0u64) == ((y >> 3usize) & 1u64 != 0u64), ((x >> 4usize) & 1u64 != 0u64) == ((y >> 4usize) & 1u64 != 0u64), ((x >> 5usize) & 1u64 != 0u64) == ((y >> 5usize) & 1u64 != 0u64), ((x >> 6usize) & 1u64 != 0u64) == ((y >> 6usize) & 1u64 != 0u64), ((x >> 7usize) & 1u64 != 0u64) == ((y >> 7usize) & 1u64 != 0u64), ((x >> 8usize) & 1u64 != 0u64) == ((y >> 8usize) & 1u64 != 0u64), ((x >> 9usize) & 1u64 != 0u64) == ((y >> 9usize) & 1u64 != 0u64), ((x >> 10usize) & 1u64 != 0u64) == ((y >> 10usize) & 1u64 != 0u64), ((x >> 11usize) & 1u64 != 0u64) == ((y >> 11usize) & 1u64 != 0u64), ((x >> 12usize) & 1u64 != 0u64) == ((y >> 12usize) & 1u64 != 0u64), ((x >> 13usize) & 1u64 != 0u64) == ((y >> 13usize) & 1u64 != 0u64), ((x >> 14usize) & 1u64 != 0u64) == ((y >> 14usize) & 1u64 != 0u64), ((x >> 15usize) & 1u64 != 0u64) == ((y >> 15usize) & 1u64 != 0u64), ((x >> 16usize) & 1u64 != 0u64) == ((y >> 16usize) & 1u64 != 0u64), ((x >> 17usize) & 1u64 != 0u64) == ((y >> 17usize) & 1u64 != 0u64), ((x >> 18usize) & 1u64 != 0u64) == ((y >> 18usize) & 1u64 != 0u64), ((x >> 19usize) & 1u64 != 0u64) == ((y >> 19usize) & 1u64 != 0u64), ((x >> 20usize) & 1u64 != 0u64) == ((y >> 20usize) & 1u64 != 0u64), ((x >> 21usize) & 1u64 != 0u64) == ((y >> 21usize) & 1u64 != 0u64), ((x >> 22usize) & 1u64 != 0u64) == ((y >> 22usize) & 1u64 != 0u64), ((x >> 23usize) & 1u64 != 0u64) == ((y >> 23usize) & 1u64 != 0u64), ((x >> 24usize) & 1u64 != 0u64) == ((y >> 24usize) & 1u64 != 0u64), ((x >> 25usize) & 1u64 != 0u64) == ((y >> 25usize) & 1u64 != 0u64), ((x >> 26usize) & 1u64 != 0u64) == ((y >> 26usize) & 1u64 != 0u64), ((x >> 27usize) & 1u64 != 0u64) == ((y >> 27usize) & 1u64 != 0u64), ((x >> 28usize) & 1u64 != 0u64) == ((y >> 28usize) & 1u64 != 0u64), ((x >> 29usize) & 1u64 != 0u64) == ((y >> 29usize) & 1u64 != 0u64), ((x >> 30usize) & 1u64 != 0u64) == ((y >> 30usize) & 1u64 != 0u64), ((x >> 31usize) & 1u64 != 0u64) == ((y >> 31usize) & 1u64 != 0u64), ((x >> 32usize) & 1u64 != 0u64) == ((y >> 32usize) & 1u64 != 0u64), ((x >> 33usize) & 1u64 != 0u64) == ((y >> 33usize) & 1u64 != 0u64), ((x >> 34usize) & 1u64 != 0u64) == ((y >> 34usize) & 1u64 != 0u64), ((x >> 35usize) & 1u64 != 0u64) == ((y >> 35usize) & 1u64 != 0u64), ((x >> 36usize) & 1u64 != 0u64) == ((y >> 36usize) & 1u64 != 0u64), ((x >> 37usize) & 1u64 != 0u64) == ((y >> 37usize) & 1u64 != 0u64), ((x >> 38usize) & 1u64 != 0u64) == ((y >> 38usize) & 1u64 != 0u64), ((x >> 39usize) & 1u64 != 0u64) == ((y >> 39usize) & 1u64 != 0u64), ((x >> 40usize) & 1u64 != 0u64) == ((y >> 40usize) & 1u64 != 0u64), ((x >> 41usize) & 1u64 != 0u64) == ((y >> 41usize) & 1u64 != 0u64), ((x >> 42usize) & 1u64 != 0u64) == ((y >> 42usize) & 1u64 != 0u64), ((x >> 43usize) & 1u64 != 0u64) == ((y >> 43usize) & 1u64 != 0u64), ((x >> 44usize) & 1u64 != 0u64) == ((y >> 44usize) & 1u64 != 0u64), ((x >> 45usize) & 1u64 != 0u64) == ((y >> 45usize) & 1u64 != 0u64), ((x >> 46usize) & 1u64 != 0u64) == ((y >> 46usize) & 1u64 != 0u64), ((x >> 47usize) & 1u64 != 0u64) == ((y >> 47usize) & 1u64 != 0u64), ((x >> 48usize) & 1u64 != 0u64) == ((y >> 48usize) & 1u64 != 0u64), ((x >> 49usize) & 1u64 != 0u64) == ((y >> 49usize) & 1u64 != 0u64), ((x >> 50usize) & 1u64 != 0u64) == ((y >> 50usize) & 1u64 != 0u64), ((x >> 51usize) & 1u64 != 0u64) == ((y >> 51usize) & 1u64 != 0u64), ((x >> 52usize) & 1u64 != 0u64) == ((y >> 52usize) & 1u64 != 0u64), ((x >> 53usize) & 1u64 != 0u64) == ((y >> 53usize) & 1u64 != 0u64), ((x >> 54usize) & 1u64 != 0u64) == ((y >> 54usize) & 1u64 != 0u64), ((x >> 55usize) & 1u64 != 0u64) == ((y >> 55usize) & 1u64 != 0u64), ((x >> 56usize) & 1u64 != 0u64) == ((y >> 56usize) & 1u64 != 0u64), ((x >> 57usize) & 1u64 != 0u64) == ((y >> 57usize) & 1u64 != 0u64), ((x >> 58usize) & 1u64 != 0u64) == ((y >> 58usize) & 1u64 != 0u64), ((x >> 59usize) & 1u64 != 0u64) == ((y >> 59usize) & 1u64 != 0u64), ((x >> 60usize) & 1u64 != 0u64) == ((y >> 60usize) & 1u64 != 0u64), ((x >> 61usize) & 1u64 != 0u64) == ((y >> 61usize) & 1u64 != 0u64), ((x >> 62usize) & 1u64 != 0u64) == ((y >> 62usize) & 1u64 != 0u64), ((x >> 63usize) & 1u64 != 0u64) == ((y >> 63usize) & 1u64 != 0u64);
}
pub proof fn lemma_fits(v: u64, w: usize)
    requires 1 <= w <= 64, fits(v, w),
    ensures forall|k: usize| w <= k < 64 ==> !#[trigger] bit64(v, k),
{
    lemma_mask64(w);
    assert forall|k: usize| w <= k < 64 implies !#[trigger] bit64(v, k) by {
        lemma_ops64(v, !mask64(w), k); lemma_ops64(mask64(w), 0, k);
        assert(!bit64(0u64, k)) by { assert((0u64 >> k) & 1u64 == 0u64) by (bit_vector); }
    }
}
pub proof fn lemma_zero64()
    ensures forall|k: usize| k < 64 ==> !#[trigger] bit64(0u64, k), forall|v: u64| #[trigger] (0u64 | v) == v, forall|w: usize| 1 <= w <= 64 ==> #[trigger] fits(0u64, w),
{
    assert forall|k: usize| k < 64 implies !#[trigger] bit64(0u64, k) by { assert((0u64 >> k) & 1u64 == 0u64) by (bit_vector) requires k < 64; }
    assert forall|v: u64| #[trigger] (0u64 | v) == v by { assert((0u64 | v) == v) by (bit_vector); }
    assert forall|w: usize| 1 <= w <= 64 implies #[trigger] fits(0u64, w) by { let m = mask64(w); assert(0u64 & !m == 0u64) by (bit_vector); }
}
/// bits of an entry
pub proof fn lemma_entry64(x: u64, y: u64, w: usize, b: usize, k: usize)
    requires 1 <= w <= 64, b < 64, k < 64,
    ensures bit64(entry64(x, y, w, b), k) == (k < w && (if b + k < 64 { bit64(x, (b + k) as usize) } else { bit64(y, (b + k - 64) as usize) })),
{
    lemma_mask64(w);
    lemma_shift64(x, b, k);
    lemma_ops64(x >> b, mask64(w), k);
    if b + w > 64 {
        let l = (b + w - 64) as usize; let s = (64 - b) as usize;
        lemma_mask64(l);
        let z = y & mask64(l);
        lemma_shift64(z, s, k);
        if k >= s { lemma_ops64(y, mask64(l), (k - s) as usize); }
        lemma_ops64((x >> b) & mask64(w), z << s, k);
    }
}
/// an entry with the mask applied once, at the end
pub proof fn lemma_entry_late(x: u64, y: u64, w: usize, b: usize)
    requires 1 <= w <= 64, b < 64,
    ensures
        b + w <= 64 ==> entry64(x, y, w, b) == (x >> b) & mask64(w),
        b + w > 64 ==> entry64(x, y, w, b) == ((x >> b) | (y << ((64 - b) as usize))) & mask64(w),
{
    let m = mask64(w); let s = (64 - b) as usize; let l = (b + w - 64) as usize;
    if w < 64 { lemma_shl64(w); }
    if b + w > 64 {
        let n = mask64(l);
        if l < 64 { lemma_shl64(l); }
        let z = (x >> b) | (y << s);
        if w < 64 {
            assert((z & m) == (((x >> b) & m) | ((y & n) << s))) by (bit_vector)
                requires z == (x >> b) | (y << s), m == sub(1u64 << w, 1u64), n == sub(1u64 << l, 1u64), w < 64, b < 64, add(b, w) > 64, s == sub(64, b), l == sub(add(b, w), 64);
        } else {
            assert((z & m) == (((x >> b) & m) | ((y & n) << s))) by (bit_vector)
                requires z == (x >> b) | (y << s), m == !0u64, n == sub(1u64 << l, 1u64), 0 < b < 64, s == sub(64, b), l == b;
        }
    }
}
/// addressing: entries do not overlap
pub proof fn lemma_addr(w: int, len: int, i: int, j: int)
    requires 1 <= w, 0 <= i < len, 0 <= j,
    ensures 0 <= i * w, i * w + w <= len * w, j < i ==> j * w + w <= i * w, i < j ==> i * w + w <= j * w, j <= len ==> j * w <= len * w,
{
    assert(0 <= i * w) by (nonlinear_arith) requires 0 <= i, 1 <= w;
    assert((i + 1) * w <= len * w) by (nonlinear_arith) requires i + 1 <= len, 1 <= w;
    assert((i + 1) * w == i * w + w) by (nonlinear_arith);
    assert((j + 1) * w == j * w + w) by (nonlinear_arith);
    if j < i { assert((j + 1) * w <= i * w) by (nonlinear_arith) requires j + 1 <= i, 1 <= w; }
    if i < j { assert((i + 1) * w <= j * w) by (nonlinear_arith) requires i + 1 <= j, 1 <= w; }
    if j <= len { assert(j * w <= len * w) by (nonlinear_arith) requires j <= len, 1 <= w; }
}
pub proof fn lemma_blocks(n: int)
    requires 0 <= n,
    ensures 64 * ((n + 63) / 64) >= n, 64 * ((n + 63) / 64) < n + 64,
{}
/// bits of entry i
pub proof fn lemma_at(a: BitstringVec, i: int, k: usize)
    requires 1 <= a.bit_count <= 64, k < 64, 0 <= i,
    ensures bit64(a.at(i), k) == (k < a.bit_count && a.bit(i * (a.bit_count as int) + k)),
{
    let off = i * (a.bit_count as int);
    assert(0 <= off) by (nonlinear_arith) requires off == i * (a.bit_count as int), i >= 0, a.bit_count >= 1;
    let t = off / 64; let b = (off % 64) as usize;
    lemma_entry64(a.blocks@[t], a.blocks@[t + 1], a.bit_count, b, k);
    let p = off + k;
    if b + k < 64 { assert(p / 64 == t && p % 64 == b + k); } else { assert(p / 64 == t + 1 && p % 64 == b + k - 64); }
}
/// two vectors with the same bits in entries i resp. j hold the same entry
pub proof fn lemma_same_entry(a: BitstringVec, b: BitstringVec, i: int)
    requires 1 <= a.bit_count <= 64, b.bit_count == a.bit_count, 0 <= i,
        forall|p: int| i * (a.bit_count as int) <= p < i * (a.bit_count as int) + a.bit_count ==> #[trigger] a.bit(p) == b.bit(p),
    ensures a.at(i) == b.at(i),
{
    assert forall|k: usize| k < 64 implies bit64(a.at(i), k) == bit64(b.at(i), k) by {
        lemma_at(a, i, k); lemma_at(b, i, k);
        if k < a.bit_count { assert(a.bit(i * (a.bit_count as int) + k) == b.bit(i * (a.bit_count as int) + k)); }
    }
    lemma_ext64(a.at(i), b.at(i));
}
/// a written entry
pub proof fn lemma_written_entry(b: BitstringVec, i: int, v: u64)
    requires 1 <= b.bit_count <= 64, 0 <= i, fits(v, b.bit_count),
        forall|p: int| i * (b.bit_count as int) <= p < i * (b.bit_count as int) + b.bit_count ==> #[trigger] b.bit(p) == bit64(v, (p - i * (b.bit_count as int)) as usize),
    ensures b.at(i) == v,
{
    lemma_fits(v, b.bit_count);
    assert forall|k: usize| k < 64 implies bit64(b.at(i), k) == bit64(v, k) by {
        lemma_at(b, i, k);
        if k < b.bit_count { assert(b.bit(i * (b.bit_count as int) + k) == bit64(v, k)); }
    }
    lemma_ext64(b.at(i), v);
}
/// effect of writing v in bits b.. of the word x
pub open spec fn low_written(x: u64, z: u64, v: u64, w: usize, b: usize) -> bool {
    forall|k: usize| k < 64 ==> #[trigger] bit64(z, k) == if b <= k < b + w { bit64(v, (k - b) as usize) } else { bit64(x, k) }
}
/// effect of writing the upper l bits of v in the low bits of the word y
pub open spec fn high_written(y: u64, z: u64, v: u64, l: usize, s: usize) -> bool {
    forall|k: usize| k < 64 ==> #[trigger] bit64(z, k) == if k < l { bit64(v, (k + s) as usize) } else { bit64(y, k) }
}
pub proof fn lemma_write_low(x: u64, v: u64, w: usize, b: usize)
    requires 1 <= w <= 64, b < 64, fits(v, w),
    ensures low_written(x, (x & !(mask64(w) << b)) | (v << b), v, w, b),
{
    lemma_mask64(w); lemma_fits(v, w);
    let m = mask64(w) << b; let z = (x & !m) | (v << b);
    assert forall|k: usize| k < 64 implies #[trigger] bit64(z, k) == if b <= k < b + w { bit64(v, (k - b) as usize) } else { bit64(x, k) } by {
        lemma_shift64(mask64(w), b, k); lemma_shift64(v, b, k);
        lemma_ops64(m, 0, k); lemma_ops64(x, !m, k); lemma_ops64(x & !m, v << b, k);
    }
}
pub proof fn lemma_write_high(y: u64, v: u64, w: usize, b: usize)
    requires 1 <= w <= 64, 0 < b < 64, fits(v, w), b + w > 64,
    ensures high_written(y, (y & !mask64((b + w - 64) as usize)) | (v >> ((64 - b) as usize)), v, (b + w - 64) as usize, (64 - b) as usize),
{
    let l = (b + w - 64) as usize; let s = (64 - b) as usize;
    lemma_mask64(l); lemma_fits(v, w);
    let m = mask64(l); let z = (y & !m) | (v >> s);
    assert forall|k: usize| k < 64 implies #[trigger] bit64(z, k) == if k < l { bit64(v, (k + s) as usize) } else { bit64(y, k) } by {
        lemma_shift64(v, s, k);
        lemma_ops64(m, 0, k); lemma_ops64(y, !m, k); lemma_ops64(y & !m, v >> s, k);
    }
}
/// effect on the whole vector of a write of one entry
pub proof fn lemma_entry_update(o: BitstringVec, n: BitstringVec, index: int, v: u64)
    requires
        o.wf(), 0 <= index < o.len, n.len == o.len, n.bit_count == o.bit_count, fits(v, o.bit_count),
        n.blocks@.len() == o.blocks@.len(),
        ({
            let off = index * (o.bit_count as int); let t = off / 64; let b = (off % 64) as usize; let w = o.bit_count;
            &&& low_written(o.blocks@[t], n.blocks@[t], v, w, b)
            &&& b + w > 64 ==> high_written(o.blocks@[t + 1], n.blocks@[t + 1], v, (b + w - 64) as usize, (64 - b) as usize)
            &&& forall|q: int| 0 <= q < o.blocks@.len() && q != t && !(b + w > 64 && q == t + 1) ==> #[trigger] n.blocks@[q] == o.blocks@[q]
        }),
    ensures
        n.wf(), n@ == o@.update(index, v), n.occ() == o.occ().update(index, v != 0),
        cnt(n.occ()) == cnt(o.occ()) - (if o@[index] != 0 { 1int } else { 0int }) + (if v != 0 { 1int } else { 0int }),
        cnt(o.occ()) <= o.len, cnt(n.occ()) <= n.len,
{
    let w = o.bit_count as int; let off = index * w; let t = off / 64; let b = (off % 64) as usize;
    let len = o.len as int;
    lemma_addr(w, len, index, 0);
    lemma_blocks(len * w);
    assert forall|p: int| 0 <= p < 64 * n.blocks@.len() implies #[trigger] n.bit(p) == if off <= p < off + w { bit64(v, (p - off) as usize) } else { o.bit(p) } by {
        let q = p / 64; let k = (p % 64) as usize;
        assert(p == 64 * q + k && k < 64 && off == 64 * t + b);
        if q == t { } else if q == t + 1 && b + w > 64 { } else { assert(n.blocks@[q] == o.blocks@[q]); }
    }
    assert forall|p: int| len * w <= p < 64 * n.blocks@.len() implies !#[trigger] n.bit(p) by { assert(!o.bit(p)); }
    assert forall|i: int| 0 <= i < len implies #[trigger] n@[i] == o@.update(index, v)[i] by {
        lemma_addr(w, len, i, 0);
        if i == index { lemma_written_entry(n, i, v); }
        else {
            lemma_addr(w, len, index, i);
            assert forall|p: int| i * w <= p < i * w + w implies #[trigger] n.bit(p) == o.bit(p) by { assert(p < 64 * n.blocks@.len()); }
            lemma_same_entry(n, o, i);
        }
    }
    assert(n@ =~= o@.update(index, v));
    assert forall|i: int| 0 <= i < len implies #[trigger] n.occ()[i] == o.occ().update(index, v != 0)[i] by { assert(n@[i] == o@.update(index, v)[i]); }
    assert(n.occ() =~= o.occ().update(index, v != 0));
    lemma_cnt_update(o.occ(), index, v != 0);
    lemma_cnt_bound(o.occ());
    lemma_cnt_bound(n.occ());
}
/// an all zero vector
pub proof fn lemma_zero_vec(a: BitstringVec)
    requires 1 <= a.bit_count <= 64, forall|q: int| 0 <= q < a.blocks@.len() ==> #[trigger] a.blocks@[q] == 0, a.len as int * a.bit_count as int <= 0xFFFF_FFFF_FFFF_FF00,
        a.blocks@.len() == (a.len as int * a.bit_count as int + 63) / 64,
    ensures a.wf(), a@ == Seq::new(a.len as nat, |i: int| 0u64), a.occ() == Seq::new(a.len as nat, |i: int| false), cnt(a.occ()) == 0,
{
    lemma_zero64();
    let w = a.bit_count as int; let len = a.len as int;
    lemma_blocks(len * w);
    assert forall|p: int| 0 <= p < 64 * a.blocks@.len() implies !#[trigger] a.bit(p) by { assert(a.blocks@[p / 64] == 0); }
    assert forall|i: int| 0 <= i < len implies a.at(i) == 0 by {
        lemma_addr(w, len, i, 0);
        assert forall|p: int| i * w <= p < i * w + w implies #[trigger] a.bit(p) == bit64(0u64, (p - i * w) as usize) by { }
        lemma_written_entry(a, i, 0);
    }
    assert(a@ =~= Seq::new(a.len as nat, |i: int| 0u64));
    assert(a.occ() =~= Seq::new(a.len as nat, |i: int| false));
    lemma_cnt_const(a.len as nat, false);
}
/// one zero entry appended
pub proof fn lemma_grow(o: BitstringVec, g: BitstringVec)
    requires o.wf(), g.bit_count == o.bit_count, g.len == o.len + 1, g.len as int * g.bit_count as int <= 0xFFFF_FFFF_FFFF_FF00,
        g.blocks@.len() == (g.len as int * g.bit_count as int + 63) / 64,
        forall|q: int| 0 <= q < o.blocks@.len() ==> #[trigger] g.blocks@[q] == o.blocks@[q],
        forall|q: int| o.blocks@.len() <= q < g.blocks@.len() ==> #[trigger] g.blocks@[q] == 0,
    ensures g.wf(), g@ == o@.push(0), g.occ() == o.occ().push(false), cnt(g.occ()) == cnt(o.occ()),
{
    let w = o.bit_count as int; let l = g.len as int;
    lemma_zero64(); lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w);
    assert forall|p: int| 0 <= p < 64 * g.blocks@.len() implies #[trigger] g.bit(p) == (p < (l - 1) * w && o.bit(p)) by {
        let q = p / 64;
        assert(0 <= q < g.blocks@.len());
        if q < o.blocks@.len() { assert(g.blocks@[q] == o.blocks@[q]); } else { assert(g.blocks@[q] == 0); }
        assert(g.bit(p) == if q < o.blocks@.len() { o.bit(p) } else { false });
    }
    assert forall|i: int| 0 <= i < l implies #[trigger] g@[i] == o@.push(0)[i] by {
        lemma_addr(w, l, i, l - 1);
        if i == l - 1 { assert forall|p: int| i * w <= p < i * w + w implies #[trigger] g.bit(p) == bit64(0u64, (p - i * w) as usize) by { } lemma_written_entry(g, i, 0); }
        else { lemma_addr(w, l - 1, i, 0); assert forall|p: int| i * w <= p < i * w + w implies #[trigger] g.bit(p) == o.bit(p) by { assert(p < (l - 1) * w); } lemma_same_entry(g, o, i); }
    }
    assert(g@ =~= o@.push(0));
    assert forall|i: int| 0 <= i < l implies #[trigger] g.occ()[i] == o.occ().push(false)[i] by { assert(g@[i] == o@.push(0)[i]); }
    assert(g.occ() =~= o.occ().push(false));
    lemma_cnt_push(o.occ(), false);
}
/// only the count differs
pub proof fn lemma_count_only(a: BitstringVec, b: BitstringVec)
    requires b.blocks == a.blocks, b.bit_count == a.bit_count, b.len == a.len, a.wf(),
    ensures b.wf(), b@ == a@, b.occ() == a.occ(),
{
    assert forall|p: int| b.len as int * b.bit_count as int <= p < 64 * b.blocks@.len() implies !#[trigger] b.bit(p) by { assert(!a.bit(p)); }
    assert(b@ =~= a@); assert(b.occ() =~= a.occ());
}
/// the same bits below, one entry less
pub open spec fn shrunk(o: BitstringVec, g: BitstringVec) -> bool {
    &&& o.wf() && o.len >= 1
    &&& g.bit_count == o.bit_count && g.len == o.len - 1
    &&& g.blocks@.len() == (g.len as int * g.bit_count as int + 63) / 64
    &&& forall|q: int| 0 <= q < g.blocks@.len() ==> #[trigger] g.blocks@[q] == o.blocks@[q]
}
pub proof fn lemma_shrink_bits(o: BitstringVec, g: BitstringVec)
    requires shrunk(o, g),
    ensures g.blocks@.len() <= o.blocks@.len(), forall|p: int| 0 <= p < 64 * g.blocks@.len() ==> #[trigger] g.bit(p) == o.bit(p),
{
    let w = o.bit_count as int; let l = o.len as int;
    lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w);
    assert((l - 1) * w + w == l * w) by (nonlinear_arith);
    assert forall|p: int| 0 <= p < 64 * g.blocks@.len() implies #[trigger] g.bit(p) == o.bit(p) by { assert(g.blocks@[p / 64] == o.blocks@[p / 64]); }
}
pub proof fn lemma_shrink_wf(o: BitstringVec, g: BitstringVec)
    requires shrunk(o, g), o@[o.len - 1] == 0,
    ensures g.wf(),
{
    let w = o.bit_count as int; let l = o.len as int;
    lemma_shrink_bits(o, g);
    lemma_zero64(); lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w);
    assert((l - 1) * w + w == l * w) by (nonlinear_arith);
    assert forall|p: int| (l - 1) * w <= p < 64 * g.blocks@.len() implies !#[trigger] g.bit(p) by {
        assert(g.bit(p) == o.bit(p));
        if p < l * w {
            let k = (p - (l - 1) * w) as usize;
            lemma_at(o, l - 1, k);
            assert(o.at(l - 1) == o@[l - 1]);
        } else { assert(p < 64 * o.blocks@.len()); assert(!o.bit(p)); }
    }
}
pub proof fn lemma_shrink_view(o: BitstringVec, g: BitstringVec)
    requires shrunk(o, g), g.wf(),
    ensures g@ == o@.drop_last(),
{
    let w = o.bit_count as int; let l = o.len as int;
    lemma_shrink_bits(o, g);
    lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w);
    assert((l - 1) * w + w == l * w) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < l - 1 implies #[trigger] g@[i] == o@.drop_last()[i] by {
        lemma_addr(w, l - 1, i, 0);
        assert forall|p: int| i * w <= p < i * w + w implies #[trigger] g.bit(p) == o.bit(p) by { assert(p < (l - 1) * w); }
        lemma_same_entry(g, o, i);
    }
    assert(g@ =~= o@.drop_last());
}
/// the last entry, zero, dropped
pub proof fn lemma_shrink(o: BitstringVec, g: BitstringVec)
    requires shrunk(o, g), o@[o.len - 1] == 0,
    ensures g.wf(), g@ == o@.drop_last(), g.occ() == o.occ().drop_last(), cnt(g.occ()) == cnt(o.occ()),
{
    let l = o.len as int;
    lemma_shrink_wf(o, g);
    lemma_shrink_view(o, g);
    assert forall|i: int| 0 <= i < l - 1 implies #[trigger] g.occ()[i] == o.occ().drop_last()[i] by { assert(g@[i] == o@.drop_last()[i]); }
    assert(g.occ() =~= o.occ().drop_last());
    assert(o.occ() =~= g.occ().push(false));
    lemma_cnt_push(g.occ(), false);
}

/// the representation of a sequence of entries is canonical
pub proof fn lemma_entries_canonical(a: BitstringVec, b: BitstringVec)
    requires a.wf(), b.wf(), a.bit_count == b.bit_count, a@ == b@,
    ensures a.blocks@ == b.blocks@, a.len == b.len, a.occ() == b.occ(),
{
    let w = a.bit_count as int;
    assert(a@.len() == a.len && b@.len() == b.len);
    assert(a.blocks@.len() == b.blocks@.len());
    assert forall|t: int| 0 <= t < a.blocks@.len() implies a.blocks@[t] == b.blocks@[t] by {
        assert forall|k: usize| k < 64 implies bit64(a.blocks@[t], k) == bit64(b.blocks@[t], k) by {
            let p = 64 * t + k;
            assert(p / 64 == t && p % 64 == k as int);
            assert(bit64(a.blocks@[t], k) == a.bit(p) && bit64(b.blocks@[t], k) == b.bit(p));
            if p < a.len as int * w {
                let i = p / w; let j = p % w;
                assert(i * w + j == p && 0 <= j < w && 0 <= i && i < a.len) by (nonlinear_arith) requires i == p / w, j == p % w, 0 <= p < a.len as int * w, w >= 1;
                lemma_at(a, i, j as usize); lemma_at(b, i, j as usize);
                assert(a@[i] == a.at(i) && b@[i] == b.at(i));
            } else { assert(!a.bit(p) && !b.bit(p)); }
        }
        lemma_ext64(a.blocks@[t], b.blocks@[t]);
    }
    assert(a.blocks@ =~= b.blocks@);
    assert(a.occ() =~= b.occ()) by { assert forall|i: int| 0 <= i < a.len implies a.occ()[i] == b.occ()[i] by { assert(a@[i] == b@[i]); } }
}

=== fn bitstring_vec::BitstringVec::new
requires:
- 1 <= bit_count <= 64
- len as int * bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- r.wf()
- r.bit_count == bit_count
- r.len == len
- r@ == Seq::new(len as nat, |i: int| 0u64)
- [count] r.count_ok()
entry:
    proof { assert(bit_count as int * len as int == len as int * bit_count as int) by (nonlinear_arith); }
exit:
    proof { lemma_zero_vec(vx_ret); }

=== fn bitstring_vec::BitstringVec::get
requires:
- self.wf()
- index < self.len
ensures:
- r == self@[index as int]
entry:
    proof {
        let w = self.bit_count as int; let off = index as int * w;
        lemma_addr(w, self.len as int, index as int, 0); lemma_blocks(self.len as int * w);
        lemma_zero64(); lemma_mask64(self.bit_count);
        if off % 64 + w > 64 { lemma_mask64((off % 64 + w - 64) as usize); }
        lemma_entry_late(self.blocks@[off / 64], self.blocks@[off / 64 + 1], self.bit_count, (off % 64) as usize);
        let z = 0u64; let x = self.blocks@[off / 64] >> ((off % 64) as usize);
        assert(z | x == x) by (bit_vector) requires z == 0;
    }
never:
- self.wf()
- index >= self.len

=== fn bitstring_vec::BitstringVec::set
attr: wrap(count,occupied_len)
requires:
- old(self).wf()
- index < old(self).len
- fits(bitstring, old(self).bit_count)
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self).bit_count == old(self).bit_count
- final(self)@ == old(self)@.update(index as int, bitstring)
- [count] final(self).count_ok()
entry:
    proof {
        let w = self.bit_count as int; let off = index as int * w; let t = off / 64; let b = (off % 64) as usize;
        lemma_addr(w, self.len as int, index as int, 0); lemma_blocks(self.len as int * w);
        lemma_mask64(self.bit_count);
        lemma_write_low(self.blocks@[t], bitstring, self.bit_count, b);
        if b + w > 64 { lemma_mask64((b + w - 64) as usize); lemma_write_high(self.blocks@[t + 1], bitstring, self.bit_count, b); }
        lemma_cnt_update(self.occ(), index as int, bitstring != 0); lemma_cnt_bound(self.occ()); lemma_cnt_bound(self.occ().update(index as int, bitstring != 0));
    }
exit:
    proof { lemma_entry_update(*old(self), *self, index as int, bitstring); }
never:
- old(self).wf()
- index >= old(self).len

=== fn bitstring_vec::BitstringVec::from_elem
requires:
- 1 <= bit_count <= 64
- len as int * bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
- fits(bitstring, bit_count)
ensures:
- r.wf()
- r.bit_count == bit_count
- r.len == len
- r@ == Seq::new(len as nat, |i: int| bitstring)
- [count] r.count_ok()
entry:
    proof { assert(bit_count as int * len as int == len as int * bit_count as int) by (nonlinear_arith); }
let ret 0:
    proof { lemma_zero_vec(ret); }
inv 0:
- $n == len
- $k <= $n
- ret.wf()
- ret.bit_count == bit_count
- ret.len == len
- forall|i: int| 0 <= i < $k ==> #[trigger] ret@[i] == bitstring
- [count] ret.count_ok()
exit:
    proof { assert(vx_ret@ =~= Seq::new(len as nat, |i: int| bitstring)); }

=== fn bitstring_vec::BitstringVec::with_capacity
requires:
- 1 <= bit_count <= 64
- len as int * bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- r.wf()
- r.bit_count == bit_count
- r.len == 0
- r@ == Seq::<u64>::empty()
- [count] r.count_ok()
entry:
    proof { assert(bit_count as int * len as int == len as int * bit_count as int) by (nonlinear_arith); }
exit:
    proof { lemma_zero_vec(vx_ret); assert(vx_ret@ =~= Seq::<u64>::empty()); }

=== fn bitstring_vec::BitstringVec::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).len == old(self).len
- final(self).bit_count == old(self).bit_count
- final(self)@ == Seq::new(old(self).len as nat, |i: int| 0u64)
- [count] final(self).count_ok()
- [count] final(self).occupied_len == 0
inv 0:
- $n == self.blocks@.len()
- $n == old(self).blocks@.len()
- $k <= $n
- self.len == old(self).len
- self.bit_count == old(self).bit_count
- [count] self.occupied_len == $s.occupied_len
- forall|q: int| 0 <= q < $k ==> #[trigger] self.blocks@[q] == 0
exit:
    proof { lemma_zero_vec(*self); }

=== fn bitstring_vec::BitstringVec::push
attr: wrap(count,occupied_len)
requires:
- old(self).wf()
- fits(bitstring, old(self).bit_count)
- (old(self).len + 1) * old(self).bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).len == old(self).len + 1
- final(self).bit_count == old(self).bit_count
- final(self)@ == old(self)@.push(bitstring)
- [count] final(self).count_ok()
entry:
    proof { let l = self.len as int + 1; let w = self.bit_count as int; lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w); assert(l * w == w * l) by (nonlinear_arith); assert(self.len <= self.len as int * w) by (nonlinear_arith) requires w >= 1; lemma_cnt_bound(self.occ()); }
inv 0:
- $n == new_block_len - block_len
- $k <= $n
- self.len == old(self).len
- self.bit_count == old(self).bit_count
- self.occupied_len == old(self).occupied_len
- self.blocks@.len() == block_len + $k
- forall|q: int| 0 <= q < old(self).blocks@.len() ==> #[trigger] self.blocks@[q] == old(self).blocks@[q]
- forall|q: int| old(self).blocks@.len() <= q < self.blocks@.len() ==> #[trigger] self.blocks@[q] == 0
after 0:
    proof {
        let g = BitstringVec { blocks: self.blocks, bit_count: self.bit_count, occupied_len: self.occupied_len, len: (self.len + 1) as usize };
        assert(g.len as int * g.bit_count as int == g.bit_count as int * g.len as int) by (nonlinear_arith);
        lemma_grow(*old(self), g);
        lemma_cnt_bound(g.occ());
        assert(old(self)@.push(0).update(self.len as int, bitstring) =~= old(self)@.push(bitstring));
        lemma_cnt_update(g.occ(), self.len as int, bitstring != 0);
    }
stmt set 0:
    let ghost vx_m = *self;
    proof { assert(vx_m.occ() =~= old(self).occ().push(bitstring != 0)) by { assert forall|i: int| 0 <= i < vx_m.len implies #[trigger] vx_m.occ()[i] == old(self).occ().push(bitstring != 0)[i] by { assert(vx_m@[i] == old(self)@.push(bitstring)[i]); if i < old(self).len { assert(old(self)@[i] == vx_m@[i]); } } } lemma_cnt_push(old(self).occ(), bitstring != 0); }
exit:
    proof { lemma_count_only(vx_m, *self); }

=== fn bitstring_vec::BitstringVec::pop
attr: wrap(count,occupied_len)
requires:
- old(self).wf()
- old(self).len > 0
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).len == old(self).len - 1
- final(self).bit_count == old(self).bit_count
- final(self)@ == old(self)@.drop_last()
- r == old(self)@.last()
- [count] final(self).count_ok()
entry:
    proof { lemma_zero64(); let l = self.len as int; let w = self.bit_count as int; lemma_addr(w, l, l - 1, 0); lemma_blocks(l * w); lemma_blocks((l - 1) * w); assert((l - 1) * w == w * (l - 1)) by (nonlinear_arith); }
stmt set 0:
    let ghost vx_m = *self;
exit:
    proof { lemma_shrink(vx_m, *self); assert(self@ =~= old(self)@.drop_last()); }

=== fn bitstring_vec::BitstringVec::truncate
requires:
- old(self).wf()
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- final(self).bit_count == old(self).bit_count
- final(self)@ == old(self)@.take(if len < old(self).len { len as int } else { old(self).len as int })
- [count] final(self).count_ok()
inv 0:
- self.wf()
- self.bit_count == old(self).bit_count
- self.len <= old(self).len
- self.len >= len || self.len == old(self).len
- self@ == old(self)@.take(self.len as int)
- [count] self.count_ok()
dec 0: self.len
end 0:
    proof { assert(self@ =~= old(self)@.take(self.len as int)); }
entry:
    proof { assert(self@ =~= self@.take(self.len as int)); }

=== fn bitstring_vec::BitstringVec::reserve
requires:
- old(self).wf()
- (old(self).len + additional) * old(self).bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- final(self).blocks@ == old(self).blocks@
- final(self).len == old(self).len
- final(self).bit_count == old(self).bit_count
- final(self).occupied_len == old(self).occupied_len
entry:
    proof { let l = self.len + additional; let w = self.bit_count as int; assert(l * w == w * l) by (nonlinear_arith); assert(l <= l * w) by (nonlinear_arith) requires w >= 1, l >= 0; assert(self.len * w <= l * w) by (nonlinear_arith) requires self.len <= l, w >= 1; }

=== fn bitstring_vec::BitstringVec::reserve_exact
requires:
- old(self).wf()
- (old(self).len + additional) * old(self).bit_count as int <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- final(self).blocks@ == old(self).blocks@
- final(self).len == old(self).len
- final(self).bit_count == old(self).bit_count
- final(self).occupied_len == old(self).occupied_len
entry:
    proof { let l = self.len + additional; let w = self.bit_count as int; assert(l * w == w * l) by (nonlinear_arith); assert(l <= l * w) by (nonlinear_arith) requires w >= 1, l >= 0; assert(self.len * w <= l * w) by (nonlinear_arith) requires self.len <= l, w >= 1; }

=== fn bitstring_vec::BitstringVec::len
ensures:
- r == self.len

=== fn bitstring_vec::BitstringVec::is_empty
ensures:
- r == (self.len == 0)

=== fn bitstring_vec::BitstringVec::occupied_len
requires:
- [count] self.count_ok()
ensures:
- [count] r == cnt(self.occ())

=== fn bitstring_vec::BitstringVec::bit_count
ensures:
- r == self.bit_count

=== fn bitstring_vec::BitstringVec::iter
ensures:
- r.bitstring_vec == self
- r.range.start == 0
- r.range.end == self.len

=== fn bitstring_vec::BitstringVecIter::next
requires:
- old(self).bitstring_vec.wf()
- old(self).range.end <= old(self).bitstring_vec.len
ensures:
- final(self).bitstring_vec == old(self).bitstring_vec
- final(self).range.end == old(self).range.end
- old(self).range.start < old(self).range.end ==> r == Some(old(self).bitstring_vec@[old(self).range.start as int]) && final(self).range.start == old(self).range.start + 1
- old(self).range.start >= old(self).range.end ==> r.is_none() && final(self).range.start == old(self).range.start

=== fn bitstring_vec::BitstringVecIntoIter::next
requires:
- old(self).bitstring_vec.wf()
- old(self).range.end <= old(self).bitstring_vec.len
ensures:
- final(self).bitstring_vec == old(self).bitstring_vec
- final(self).range.end == old(self).range.end
- old(self).range.start < old(self).range.end ==> r == Some(old(self).bitstring_vec@[old(self).range.start as int]) && final(self).range.start == old(self).range.start + 1
- old(self).range.start >= old(self).range.end ==> r.is_none() && final(self).range.start == old(self).range.start

=== fn bitstring_vec::BitstringVec::capacity
requires:
- self.wf()
ensures:
- r >= self.len
exit:
    proof {
        let c = vx_cap_of(self.blocks);
        let l = self.len as int; let b = self.bit_count as int; let n = self.blocks@.len() as int;
        assert(64 * n >= l * b) by (nonlinear_arith) requires n == (l * b + 63) / 64;
        assert(c * 64 >= l * b);
        assert((c * 64) / b >= l) by (nonlinear_arith) requires c * 64 >= l * b, b >= 1;
    }

=== fn bitstring_vec::BitstringVec::eq
ensures:
- self.wf() && other.wf() && self.count_ok() && other.count_ok() ==> r == (self.bit_count == other.bit_count && self@ == other@)
exit:
    proof { if self.wf() && other.wf() {
      if self.bit_count == other.bit_count && self@ == other@ { lemma_entries_canonical(*self, *other); }
      if self.bit_count == other.bit_count && self.len == other.len && self.blocks@ == other.blocks@ { assert(self@ =~= other@); } } }
