=== prelude root
#[verifier::external_body]
pub fn vx_next_power_of_two(n: usize) -> (r: usize)
    requires n <= 0x4000_0000_0000_0000,
    ensures is_pow2(r), n <= r, n >= 1 ==> r < 2 * n, n == 0 ==> r == 1,
{ n.next_power_of_two() }
pub open spec fn is_pow2(n: usize) -> bool { n > 0 && n & sub(n, 1) == 0 }

=== prelude cuckoo_cuckoo_filter
/// the number of fingerprint bits for probability p with b entries per index: log2(2 / (1 - (1 - p)^(1 / 2b))), rounded up
pub open spec fn bits_for(p: real, b: int) -> int {
    up(rlog2(rdiv(2.0real, 1.0real - rpowf(1.0real - p, rdiv(1.0real, rmul(2.0real, b as real))))))
}
/// the probability that two fingerprints of f bits, zero excluded, differ
pub open spec fn differ(f: nat) -> real { let n = rpow(2.0real, f); rdiv(n - 2.0real, n - 1.0real) }
/// the number of entries per index for probability p with fingerprints of f bits: log(1 - p) / 2 to the base of `differ`, rounded down
pub open spec fn entries_for(p: real, f: nat) -> int { down(rdiv(rlog(1.0real - p, differ(f)), 2.0real)) }
pub proof fn lemma_root(p: real, b: int)
    requires 0.0real < p < 1.0real, b > 0,
    ensures ({ let t = rpowf(1.0real - p, rdiv(1.0real, rmul(2.0real, b as real))); 0.0real < t < 1.0real && rpow(t, (2 * b) as nat) == 1.0real - p }),
        rmul(2.0real, b as real) > 0.0real,
        ({ let t = rpowf(1.0real - p, rdiv(1.0real, rmul(2.0real, b as real))); rdiv(2.0real, 1.0real - t) > 2.0real }),
        rln(2.0real) > 0.0real,
{
    lemma_ln_2();
    let q = 1.0real - p; let l = rln(q); let c = 2.0real * b as real;
    lemma_ln_sign(q); axiom_ln(q);
    reveal(rmul); reveal(rdiv);
    let y = 1.0real / c;
    assert(y > 0.0real && y * c == 1.0real) by (nonlinear_arith) requires c >= 2.0real, y == 1.0real / c;
    let a = y * l;
    assert(a < 0.0real) by (nonlinear_arith) requires a == y * l, y > 0.0real, l < 0.0real;
    let t = rexp(a);
    lemma_ln_one(); lemma_exp_mono(a, 0.0real); axiom_exp(a, 0.0real);
    assert(t < 1.0real) by { if t == 1.0real { assert(rln(t) == a); } }
    assert(t == rpowf(q, rdiv(1.0real, rmul(2.0real, b as real))));
    lemma_rpowf_int(t, (2 * b) as nat);
    assert(((2 * b) as int) as real == c);
    assert(c * a == l) by (nonlinear_arith) requires a == y * l, y * c == 1.0real;
    assert(2.0real / (1.0real - t) > 2.0real) by (nonlinear_arith) requires 0.0real < t < 1.0real;
}
pub proof fn lemma_differ(f: nat)
    requires 1 < f <= 64,
    ensures 0.0real < differ(f) < 1.0real, rpow(2.0real, f) >= 4.0real, differ(f) >= 1.0real - rdiv(2.0real, rpow(2.0real, f)),
        rpow(2.0real, f) - 1.0real != 0.0real,
{
    let n = rpow(2.0real, f); let m = rpow(2.0real, (f - 2) as nat);
    assert(n >= 4.0real) by {
        lemma_rpow_ge_one((f - 2) as nat);
        let o = rpow(2.0real, (f - 1) as nat);
        assert(o == rmul(m, 2.0real));
        assert(n == rmul(o, 2.0real));
        reveal(rmul);
        assert(m * 2.0real >= 2.0real) by (nonlinear_arith) requires m >= 1.0real;
        assert(o * 2.0real >= 4.0real) by (nonlinear_arith) requires o >= 2.0real;
    }
    reveal(rdiv);
    let d = (n - 2.0real) / (n - 1.0real);
    let e = 2.0real / n;
    assert(0.0real < d && d < 1.0real) by (nonlinear_arith) requires d == (n - 2.0real) / (n - 1.0real), n >= 4.0real;
    assert(d * (n - 1.0real) == n - 2.0real) by (nonlinear_arith) requires d == (n - 2.0real) / (n - 1.0real), n >= 4.0real;
    assert(e * n == 2.0real) by (nonlinear_arith) requires e == 2.0real / n, n >= 4.0real;
    assert(d >= 1.0real - e) by (nonlinear_arith) requires d * (n - 1.0real) == n - 2.0real, e * n == 2.0real, n >= 4.0real;
}
/// what both ways of sizing achieve: at any fill the estimate is at most p
pub proof fn lemma_cuckoo_fill<T, B>(f: CuckooFilter<T, B>, p: real)
    requires
        0.0real < p < 1.0real, f.wf(), 1 < f.fingerprint_vec.bit_count <= 64, f.entries_per_index > 0,
        rpow(differ(f.fingerprint_vec.bit_count as nat), (2 * f.entries_per_index) as nat) >= 1.0real - p,
    ensures f.est_fpp() <= p,
{
    let d = differ(f.fingerprint_vec.bit_count as nat);
    lemma_differ(f.fingerprint_vec.bit_count as nat);
    let c = (cnt(f.fingerprint_vec.occ()) as int) as real; let m = (f.fingerprint_vec.len as int) as real;
    lemma_cnt_bound(f.fingerprint_vec.occ());
    let b2 = (2 * f.entries_per_index) as real;
    let fill = rdiv(c, m);
    let x = rmul(2.0real * (f.entries_per_index as int) as real, fill);
    assert(m > 0.0real && 0.0real <= c <= m);
    assert(x <= b2) by {
        reveal(rmul); reveal(rdiv);
        assert(c / m <= 1.0real) by (nonlinear_arith) requires 0.0real <= c <= m, m > 0.0real;
        assert(b2 * fill <= b2) by (nonlinear_arith) requires fill <= 1.0real, b2 >= 0.0real;
    }
    lemma_rpowf_int(d, (2 * f.entries_per_index) as nat);
    lemma_rpowf_anti(d, x, b2);
}
/// a filter with the fingerprint bits for probability p never estimates more than p
pub proof fn lemma_cuckoo_adequate<T, B>(f: CuckooFilter<T, B>, p: real)
    requires
        0.0real < p < 1.0real, f.wf(), f.entries_per_index > 0, 1 < f.fingerprint_vec.bit_count <= 64,
        f.fingerprint_vec.bit_count as int == bits_for(p, f.entries_per_index as int),
    ensures f.est_fpp() <= p,
{
    let b = f.entries_per_index as int; let k = f.fingerprint_vec.bit_count as nat;
    lemma_root(p, b); lemma_differ(k);
    let t = rpowf(1.0real - p, rdiv(1.0real, rmul(2.0real, b as real)));
    let w = rdiv(2.0real, 1.0real - t);
    let n = rpow(2.0real, k);
    lemma_up(rlog2(w));
    let l2 = rln(2.0real); let lw = rln(w); let kr = (k as int) as real;
    assert(kr * l2 >= lw) by { reveal(rdiv); assert(kr * l2 >= lw) by (nonlinear_arith) requires kr >= lw / l2, l2 > 0.0real; }
    lemma_rpowf_int(2.0real, k); axiom_ln(w);
    lemma_exp_mono(lw, kr * l2);
    assert(n >= w) by { reveal(rmul); }
    assert(1.0real - rdiv(2.0real, n) >= t) by {
        reveal(rdiv);
        assert(w * (1.0real - t) == 2.0real) by (nonlinear_arith) requires w == 2.0real / (1.0real - t), t < 1.0real;
        let e = 2.0real / n;
        assert(e * n == 2.0real) by (nonlinear_arith) requires e == 2.0real / n, n >= 4.0real;
        assert(e <= 1.0real - t) by (nonlinear_arith) requires e * n == 2.0real, w * (1.0real - t) == 2.0real, n >= w, w > 0.0real, t < 1.0real;
    }
    lemma_rpow_mono(t, differ(k), (2 * b) as nat);
    lemma_cuckoo_fill(f, p);
}
/// a filter with the entries per index for probability p never estimates more than p
pub proof fn lemma_cuckoo_adequate_entries<T, B>(f: CuckooFilter<T, B>, p: real)
    requires
        0.0real < p < 1.0real, f.wf(), 1 < f.fingerprint_vec.bit_count <= 64, f.entries_per_index > 0,
        f.entries_per_index as int == entries_for(p, f.fingerprint_vec.bit_count as nat),
    ensures f.est_fpp() <= p,
{
    let k = f.fingerprint_vec.bit_count as nat; let b = f.entries_per_index as int;
    lemma_differ(k);
    let d = differ(k); let q = 1.0real - p;
    lemma_ln_sign(d); lemma_ln_sign(q); axiom_ln(q);
    let ld = rln(d); let lq = rln(q);
    let x = rdiv(rlog(q, d), 2.0real);
    assert(x >= 0.0real && x * 2.0real * ld == lq) by {
        reveal(rdiv);
        let y = lq / ld;
        assert(y >= 0.0real && y * ld == lq) by (nonlinear_arith) requires y == lq / ld, lq < 0.0real, ld < 0.0real;
        assert(x == y / 2.0real);
    }
    lemma_down(x);
    let b2 = ((2 * b) as int) as real;
    assert(b2 <= x * 2.0real);
    assert(b2 * ld >= lq) by (nonlinear_arith) requires b2 <= x * 2.0real, x * 2.0real * ld == lq, ld < 0.0real;
    lemma_rpowf_int(d, (2 * b) as nat);
    lemma_exp_mono(lq, b2 * ld);
    assert(rpow(d, (2 * b) as nat) >= q) by { reveal(rmul); }
    lemma_cuckoo_fill(f, p);
}
/// low w bits, as the code takes them
pub open spec fn low_bits(h: u64, w: usize) -> u64 { (h << ((64 - w) as usize)) >> ((64 - w) as usize) }
pub open spec fn fp_next(x: u64) -> u64 { if x == 0xFFFF_FFFF_FFFF_FFFF { 0 } else { (x + 1) as u64 } }
/// successive hashes tried for a fingerprint
pub open spec fn fp_try<X>(b: X, h: u64, n: nat) -> u64
    decreases n,
{
    if n == 0 { h } else { vx_hash::<X, u64>(b, &fp_next(fp_try(b, h, (n - 1) as nat))) }
}
/// f is the first non-zero fingerprint
pub open spec fn fp_found<X>(b: X, h: u64, w: usize, f: u64, n: nat) -> bool {
    &&& f != 0
    &&& f == low_bits(fp_try(b, h, n), w)
    &&& forall|m: nat| m < n ==> low_bits(#[trigger] fp_try(b, h, m), w) == 0
}
/// the fingerprint of an item whose hash is h
pub open spec fn fp_of<X>(b: X, h: u64, w: usize) -> u64 { choose|f: u64| #[trigger] is_fp(b, h, w, f) }
pub open spec fn is_fp<X>(b: X, h: u64, w: usize, f: u64) -> bool { exists|n: nat| #[trigger] fp_found(b, h, w, f, n) }
pub proof fn lemma_fp_of<X>(b: X, h: u64, w: usize, f: u64, n: nat)
    requires fp_found(b, h, w, f, n),
    ensures fp_of(b, h, w) == f,
{
    let g = fp_of(b, h, w);
    assert(is_fp(b, h, w, f));
    let m = choose|m: nat| #[trigger] fp_found(b, h, w, g, m);
    if m < n { assert(low_bits(fp_try(b, h, m), w) == 0); }
    if n < m { assert(low_bits(fp_try(b, h, n), w) == 0); }
}
pub proof fn lemma_low_bits(h: u64, w: usize)
    requires 1 <= w <= 64,
    ensures fits(low_bits(h, w), w),
{
    let z = (64 - w) as usize;
    lemma_mask64(w);
    if w == 64 {
        assert(low_bits(h, w) & !(!0u64) == 0) by (bit_vector) requires true;
    } else {
        let m = sub(1u64 << w, 1);
        assert((h << z) >> z & !m == 0) by (bit_vector) requires m == sub(1u64 << w, 1), z == sub(64, w), w < 64, w >= 1;
    }
}
/// the other candidate bucket of a fingerprint with bucket hash g
pub open spec fn alt_of(i: int, g: u64, nb: usize) -> int { (((i as usize) ^ (g as usize)) as int) % (nb as int) }
pub proof fn lemma_mod_pow2(x: usize, n: usize)
    requires is_pow2(n),
    ensures x as int % n as int == (x & sub(n, 1)) as int,
{
    assert(n == 0x1 || n == 0x2 || n == 0x4 || n == 0x8 || n == 0x10 || n == 0x20 || n == 0x40 || n == 0x80 || n == 0x100 || n == 0x200 || n == 0x400 || n == 0x800 || n == 0x1000 || n == 0x2000 || n == 0x4000 || n == 0x8000 || n == 0x10000 || n == 0x20000 || n == 0x40000 || n == 0x80000 || n == 0x100000 || n == 0x200000 || n == 0x400000 || n == 0x800000 || n == 0x1000000 || n == 0x2000000 || n == 0x4000000 || n == 0x8000000 || n == 0x10000000 || n == 0x20000000 || n == 0x40000000 || n == 0x80000000 || n == 0x100000000 || n == 0x200000000 || n == 0x400000000 || n == 0x800000000 || n == 0x1000000000 || n == 0x2000000000 || n == 0x4000000000 || n == 0x8000000000 || n == 0x10000000000 || n == 0x20000000000 || n == 0x40000000000 || n == 0x80000000000 || n == 0x100000000000 || n == 0x200000000000 || n == 0x400000000000 || n == 0x800000000000 || n == 0x1000000000000 || n == 0x2000000000000 || n == 0x4000000000000 || n == 0x8000000000000 || n == 0x10000000000000 || n == 0x20000000000000 || n == 0x40000000000000 || n == 0x80000000000000 || n == 0x100000000000000 || n == 0x200000000000000 || n == 0x400000000000000 || n == 0x800000000000000 || n == 0x1000000000000000 || n == 0x2000000000000000 || n == 0x4000000000000000 || n == 0x8000000000000000) by (bit_vector) requires n > 0, n & sub(n, 1) == 0;
    assert(sub(n, 1) == n - 1);
    if n == 0x1 { assert(x % 0x1 == x & 0x0) by (bit_vector); }
    if n == 0x2 { assert(x % 0x2 == x & 0x1) by (bit_vector); }
    if n == 0x4 { assert(x % 0x4 == x & 0x3) by (bit_vector); }
    if n == 0x8 { assert(x % 0x8 == x & 0x7) by (bit_vector); }
    if n == 0x10 { assert(x % 0x10 == x & 0xf) by (bit_vector); }
    if n == 0x20 { assert(x % 0x20 == x & 0x1f) by (bit_vector); }
    if n == 0x40 { assert(x % 0x40 == x & 0x3f) by (bit_vector); }
    if n == 0x80 { assert(x % 0x80 == x & 0x7f) by (bit_vector); }
    if n == 0x100 { assert(x % 0x100 == x & 0xff) by (bit_vector); }
    if n == 0x200 { assert(x % 0x200 == x & 0x1ff) by (bit_vector); }
    if n == 0x400 { assert(x % 0x400 == x & 0x3ff) by (bit_vector); }
    if n == 0x800 { assert(x % 0x800 == x & 0x7ff) by (bit_vector); }
    if n == 0x1000 { assert(x % 0x1000 == x & 0xfff) by (bit_vector); }
    if n == 0x2000 { assert(x % 0x2000 == x & 0x1fff) by (bit_vector); }
    if n == 0x4000 { assert(x % 0x4000 == x & 0x3fff) by (bit_vector); }
    if n == 0x8000 { assert(x % 0x8000 == x & 0x7fff) by (bit_vector); }
    if n == 0x10000 { assert(x % 0x10000 == x & 0xffff) by (bit_vector); }
    if n == 0x20000 { assert(x % 0x20000 == x & 0x1ffff) by (bit_vector); }
    if n == 0x40000 { assert(x % 0x40000 == x & 0x3ffff) by (bit_vector); }
    if n == 0x80000 { assert(x % 0x80000 == x & 0x7ffff) by (bit_vector); }
    if n == 0x100000 { assert(x % 0x100000 == x & 0xfffff) by (bit_vector); }
    if n == 0x200000 { assert(x % 0x200000 == x & 0x1fffff) by (bit_vector); }
    if n == 0x400000 { assert(x % 0x400000 == x & 0x3fffff) by (bit_vector); }
    if n == 0x800000 { assert(x % 0x800000 == x & 0x7fffff) by (bit_vector); }
    if n == 0x1000000 { assert(x % 0x1000000 == x & 0xffffff) by (bit_vector); }
    if n == 0x2000000 { assert(x % 0x2000000 == x & 0x1ffffff) by (bit_vector); }
    if n == 0x4000000 { assert(x % 0x4000000 == x & 0x3ffffff) by (bit_vector); }
    if n == 0x8000000 { assert(x % 0x8000000 == x & 0x7ffffff) by (bit_vector); }
    if n == 0x10000000 { assert(x % 0x10000000 == x & 0xfffffff) by (bit_vector); }
    if n == 0x20000000 { assert(x % 0x20000000 == x & 0x1fffffff) by (bit_vector); }
    if n == 0x40000000 { assert(x % 0x40000000 == x & 0x3fffffff) by (bit_vector); }
    if n == 0x80000000 { assert(x % 0x80000000 == x & 0x7fffffff) by (bit_vector); }
    if n == 0x100000000 { assert(x % 0x100000000 == x & 0xffffffff) by (bit_vector); }
    if n == 0x200000000 { assert(x % 0x200000000 == x & 0x1ffffffff) by (bit_vector); }
    if n == 0x400000000 { assert(x % 0x400000000 == x & 0x3ffffffff) by (bit_vector); }
    if n == 0x800000000 { assert(x % 0x800000000 == x & 0x7ffffffff) by (bit_vector); }
    if n == 0x1000000000 { assert(x % 0x1000000000 == x & 0xfffffffff) by (bit_vector); }
    if n == 0x2000000000 { assert(x % 0x2000000000 == x & 0x1fffffffff) by (bit_vector); }
    if n == 0x4000000000 { assert(x % 0x4000000000 == x & 0x3fffffffff) by (bit_vector); }
    if n == 0x8000000000 { assert(x % 0x8000000000 == x & 0x7fffffffff) by (bit_vector); }
    if n == 0x10000000000 { assert(x % 0x10000000000 == x & 0xffffffffff) by (bit_vector); }
    if n == 0x20000000000 { assert(x % 0x20000000000 == x & 0x1ffffffffff) by (bit_vector); }
    if n == 0x40000000000 { assert(x % 0x40000000000 == x & 0x3ffffffffff) by (bit_vector); }
    if n == 0x80000000000 { assert(x % 0x80000000000 == x & 0x7ffffffffff) by (bit_vector); }
    if n == 0x100000000000 { assert(x % 0x100000000000 == x & 0xfffffffffff) by (bit_vector); }
    if n == 0x200000000000 { assert(x % 0x200000000000 == x & 0x1fffffffffff) by (bit_vector); }
    if n == 0x400000000000 { assert(x % 0x400000000000 == x & 0x3fffffffffff) by (bit_vector); }
    if n == 0x800000000000 { assert(x % 0x800000000000 == x & 0x7fffffffffff) by (bit_vector); }
    if n == 0x1000000000000 { assert(x % 0x1000000000000 == x & 0xffffffffffff) by (bit_vector); }
    if n == 0x2000000000000 { assert(x % 0x2000000000000 == x & 0x1ffffffffffff) by (bit_vector); }
    if n == 0x4000000000000 { assert(x % 0x4000000000000 == x & 0x3ffffffffffff) by (bit_vector); }
    if n == 0x8000000000000 { assert(x % 0x8000000000000 == x & 0x7ffffffffffff) by (bit_vector); }
    if n == 0x10000000000000 { assert(x % 0x10000000000000 == x & 0xfffffffffffff) by (bit_vector); }
    if n == 0x20000000000000 { assert(x % 0x20000000000000 == x & 0x1fffffffffffff) by (bit_vector); }
    if n == 0x40000000000000 { assert(x % 0x40000000000000 == x & 0x3fffffffffffff) by (bit_vector); }
    if n == 0x80000000000000 { assert(x % 0x80000000000000 == x & 0x7fffffffffffff) by (bit_vector); }
    if n == 0x100000000000000 { assert(x % 0x100000000000000 == x & 0xffffffffffffff) by (bit_vector); }
    if n == 0x200000000000000 { assert(x % 0x200000000000000 == x & 0x1ffffffffffffff) by (bit_vector); }
    if n == 0x400000000000000 { assert(x % 0x400000000000000 == x & 0x3ffffffffffffff) by (bit_vector); }
    if n == 0x800000000000000 { assert(x % 0x800000000000000 == x & 0x7ffffffffffffff) by (bit_vector); }
    if n == 0x1000000000000000 { assert(x % 0x1000000000000000 == x & 0xfffffffffffffff) by (bit_vector); }
    if n == 0x2000000000000000 { assert(x % 0x2000000000000000 == x & 0x1fffffffffffffff) by (bit_vector); }
    if n == 0x4000000000000000 { assert(x % 0x4000000000000000 == x & 0x3fffffffffffffff) by (bit_vector); }
    if n == 0x8000000000000000 { assert(x % 0x8000000000000000 == x & 0x7fffffffffffffff) by (bit_vector); }
}
pub proof fn lemma_alt(i: int, g: u64, nb: usize)
    requires is_pow2(nb), 0 <= i < nb,
    ensures 0 <= alt_of(i, g, nb) < nb, alt_of(alt_of(i, g, nb), g, nb) == i,
{
    let x = i as usize; let h = g as usize; let m = sub(nb, 1); let y = (x ^ h) & m;
    lemma_mod_pow2(x ^ h, nb);
    lemma_mod_pow2(y ^ h, nb);
    assert(x <= m ==> (((x ^ h) & m) ^ h) & m == x) by (bit_vector) requires nb > 0 && nb & sub(nb, 1) == 0, m == sub(nb, 1);
}
pub open spec fn min2(a: int, b: int) -> int { if b < a { b } else { a } }
pub proof fn lemma_slot_of(i: int, j: int, e: int, nb: int)
    requires 0 <= i < nb, 0 <= j < e,
    ensures 0 <= i * e + j < nb * e, (i * e + j) / e == i, (i * e + j) % e == j,
{
    assert(0 <= i * e) by (nonlinear_arith) requires 0 <= i, 0 < e;
    assert(i * e + e <= nb * e) by (nonlinear_arith) requires i + 1 <= nb, 0 < e;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * e + j, e, i, j);
}
pub proof fn lemma_slot_bucket(p: int, e: int, nb: int)
    requires 0 <= p < nb * e, 0 < e,
    ensures 0 <= p / e < nb, 0 <= p % e < e, p == (p / e) * e + p % e,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, e);
    assert((p / e) * e == e * (p / e)) by (nonlinear_arith);
    assert(p / e < nb) by (nonlinear_arith) requires p < nb * e, p == e * (p / e) + p % e, p % e >= 0, e > 0;
    assert(0 <= p / e) by (nonlinear_arith) requires 0 <= p, e > 0;
}

pub open spec fn slot(i: int, j: int, e: int) -> int { i * e + j }
pub proof fn lemma_entry_fits(v: BitstringVec, i: int)
    requires v.wf(), 0 <= i < v.len,
    ensures fits(v@[i], v.bit_count),
{
    assert(v@[i] == v.at(i));
    let x = v.at(i); let m = !mask64(v.bit_count); let z = x & m;
    lemma_mask64(v.bit_count);
    assert forall|k: usize| k < 64 implies bit64(z, k) == bit64(0, k) by {
        lemma_at(v, i, k); lemma_ops64(x, m, k); lemma_ops64(mask64(v.bit_count), 0, k); lemma_zero64();
    }
    lemma_ext64(z, 0);
}
pub proof fn lemma_zero_fits(w: usize)
    ensures fits(0, w),
{
    let m = !mask64(w);
    assert(0u64 & m == 0) by (bit_vector);
}

impl<T, B> CuckooFilter<T, B> {
    /// number of buckets
    pub open spec fn nb(self) -> usize { (self.fingerprint_vec.len as int / self.entries_per_index as int) as usize }
    pub open spec fn tab(self) -> Seq<u64> { self.fingerprint_vec@ }
    /// the other candidate bucket
    pub open spec fn alt(self, i: int, f: u64) -> int { alt_of(i, vx_hash::<B, u64>(self.hash_builders@[1], &f), self.nb()) }
    /// class of a fingerprint held in bucket i: the fingerprint and the smaller of its two buckets
    pub open spec fn cls(self, f: u64, i: int) -> (u64, int) { (f, min2(i, self.alt(i, f))) }
    /// class of the entry in slot p
    pub open spec fn cell(self, p: int) -> (u64, int) { self.cls(self.tab()[p], p / (self.entries_per_index as int)) }
    pub open spec fn extra(self, j: int) -> (u64, int) { (self.extra_items@[j].0, self.extra_items@[j].1 as int) }
    pub open spec fn full_slot(self, p: int) -> bool { 0 <= p < self.fingerprint_vec.len && self.tab()[p] != 0 }
    /// the class is held by an entry of the table
    pub open spec fn in_table(self, c: (u64, int)) -> bool { exists|p: int| #[trigger] self.full_slot(p) && self.cell(p) == c }
    pub open spec fn in_extra(self, c: (u64, int)) -> bool { exists|j: int| 0 <= j < self.extra_items@.len() && #[trigger] self.extra(j) == c }
    pub open spec fn held(self, c: (u64, int)) -> bool { self.in_table(c) || self.in_extra(c) }
    /// the classes held
    pub open spec fn classes(self) -> ISet<(u64, int)> { ISet::new(|c: (u64, int)| self.held(c)) }
    pub open spec fn shape(self) -> bool {
        &&& self.fingerprint_vec.wf()
        &&& self.entries_per_index > 0
        &&& self.max_kicks > 0
        &&& self.fingerprint_vec.len as int == self.nb() as int * self.entries_per_index as int
        &&& is_pow2(self.nb())
        &&& forall|j: int| 0 <= j < self.extra_items@.len() ==> (#[trigger] self.extra(j)).0 != 0 && 0 <= self.extra(j).1 < self.nb() && self.extra(j) == self.cls(self.extra(j).0, self.extra(j).1)
    }
    /// no class is held twice
    pub open spec fn unique(self) -> bool {
        &&& forall|p: int, q: int| #[trigger] self.full_slot(p) && #[trigger] self.full_slot(q) && self.cell(p) == self.cell(q) ==> p == q
        &&& forall|j: int, k: int| 0 <= j < self.extra_items@.len() && 0 <= k < self.extra_items@.len() && #[trigger] self.extra(j) == #[trigger] self.extra(k) ==> j == k
        &&& forall|p: int, j: int| #[trigger] self.full_slot(p) && 0 <= j < self.extra_items@.len() ==> self.cell(p) != #[trigger] self.extra(j)
    }
    pub open spec fn wf(self) -> bool { self.shape() && self.unique() }
    /// number of entries: occupied slots and overflow
    pub open spec fn total(self) -> nat { cnt(self.fingerprint_vec.occ()) + self.extra_items@.len() }
    /// the counts are right: one entry for each class held
    pub open spec fn count_ok(self) -> bool { self.fingerprint_vec.count_ok() && self.classes().finite() && self.classes().len() == self.total() }
    /// 1 - s^(2 * entries per index * occupied fraction), where s is the probability (2^f - 2) / (2^f - 1) that
    /// two fingerprints of f bits, zero excluded, differ
    pub open spec fn est_fpp(self) -> real {
        let n = rpow(2.0real, self.fingerprint_vec.bit_count as nat);
        let fill = rdiv((cnt(self.fingerprint_vec.occ()) as int) as real, (self.fingerprint_vec.len as int) as real);
        1.0real - rpowf(rdiv(n - 2.0real, n - 1.0real), rmul(2.0real * (self.entries_per_index as int) as real, fill))
    }
    /// as many buckets as the smallest power of two with room for n items
    pub open spec fn sized(self, n: usize, entries: usize) -> bool {
        &&& self.entries_per_index == entries
        &&& entries > 0 && exists|b: usize| #[trigger] is_pow2(b) && self.fingerprint_vec.len == b * entries && b * entries >= n && (b as int) < 2 * ((n + entries - 1) / (entries as int))
    }
    pub open spec fn same_keys(self, o: Self) -> bool {
        &&& o.hash_builders == self.hash_builders
        &&& o.entries_per_index == self.entries_per_index
        &&& o.max_kicks == self.max_kicks
        &&& o.fingerprint_vec.len == self.fingerprint_vec.len
        &&& o.fingerprint_vec.bit_count == self.fingerprint_vec.bit_count
    }
    pub open spec fn item_fp<U: ?Sized>(self, item: &U) -> u64 { fp_of::<B>(self.hash_builders@[0], vx_hash::<B, U>(self.hash_builders@[0], item), self.fingerprint_vec.bit_count) }
    pub open spec fn item_bucket<U: ?Sized>(self, item: &U) -> int { (vx_hash::<B, U>(self.hash_builders@[1], item) as usize as int) % (self.nb() as int) }
    /// class of an item
    pub open spec fn class_of<U: ?Sized>(self, item: &U) -> (u64, int) { self.cls(self.item_fp(item), self.item_bucket(item)) }
    /// the answer of `contains`
    pub open spec fn member<U: ?Sized>(self, item: &U) -> bool { self.held(self.class_of(item)) }
    /// a fingerprint with its candidate buckets
    pub open spec fn good(self, f: FingerprintAndIndexes) -> bool {
        &&& f.fingerprint != 0 && fits(f.fingerprint, self.fingerprint_vec.bit_count)
        &&& f.index_1 < self.nb() && f.index_2 == self.alt(f.index_1 as int, f.fingerprint)
    }
    pub open spec fn bucket_full(self, i: int) -> bool { forall|p: int| 0 <= p < self.fingerprint_vec.len && p / (self.entries_per_index as int) == i ==> #[trigger] self.full_slot(p) }
    /// `o` is `self` with slot p overwritten by f
    pub open spec fn wrote(self, o: Self, p: int, f: u64) -> bool {
        &&& self.same_keys(o)
        &&& 0 <= p < self.fingerprint_vec.len
        &&& o.tab() == self.tab().update(p, f)
        &&& o.extra_items@ == self.extra_items@
        &&& o.fingerprint_vec.wf()
    }
}
pub proof fn lemma_cls<T, B>(a: CuckooFilter<T, B>, f: u64, i: int)
    requires a.shape(), 0 <= i < a.nb(),
    ensures 0 <= a.alt(i, f) < a.nb(), a.alt(a.alt(i, f), f) == i, a.cls(f, a.alt(i, f)) == a.cls(f, i), 0 <= a.cls(f, i).1 < a.nb(),
        a.cls(f, a.cls(f, i).1) == a.cls(f, i),
        forall|k: int| 0 <= k < a.nb() && #[trigger] a.cls(f, k) == a.cls(f, i) ==> k == i || k == a.alt(i, f),
{
    let g = vx_hash::<B, u64>(a.hash_builders@[1], &f);
    lemma_alt(i, g, a.nb());
    assert forall|k: int| 0 <= k < a.nb() && #[trigger] a.cls(f, k) == a.cls(f, i) implies k == i || k == a.alt(i, f) by { lemma_alt(k, g, a.nb()); }
}
pub proof fn lemma_wrote_shape<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, p: int, f: u64)
    requires a.shape(), a.wrote(b, p, f),
    ensures b.shape(), b.nb() == a.nb(), b.tab().len() == a.tab().len(),
        0 <= p / (a.entries_per_index as int) < a.nb(),
        forall|g: u64, i: int| #[trigger] b.cls(g, i) == a.cls(g, i),
        forall|g: u64, i: int| #[trigger] b.alt(i, g) == a.alt(i, g),
        forall|j: int| #[trigger] b.extra(j) == a.extra(j),
        forall|q: int| q != p ==> #[trigger] b.full_slot(q) == a.full_slot(q),
        forall|q: int| q != p && 0 <= q < a.tab().len() ==> #[trigger] b.cell(q) == a.cell(q),
        b.full_slot(p) == (f != 0),
        b.cell(p) == a.cls(f, p / (a.entries_per_index as int)),
        forall|c: (u64, int)| #[trigger] b.in_extra(c) == a.in_extra(c),
        cnt(b.fingerprint_vec.occ()) == cnt(a.fingerprint_vec.occ()) - (if a.full_slot(p) { 1int } else { 0int }) + (if f != 0 { 1int } else { 0int }),
{
    let e = a.entries_per_index as int;
    lemma_slot_bucket(p, e, a.nb() as int);
    assert forall|j: int| 0 <= j < b.extra_items@.len() implies (#[trigger] b.extra(j)).0 != 0 && 0 <= b.extra(j).1 < b.nb() && b.extra(j) == b.cls(b.extra(j).0, b.extra(j).1) by { assert(b.extra(j) == a.extra(j)); }
    assert forall|q: int| q != p && 0 <= q < a.tab().len() implies #[trigger] b.cell(q) == a.cell(q) by { assert(b.tab()[q] == a.tab()[q]); }
    assert forall|q: int| q != p implies #[trigger] b.full_slot(q) == a.full_slot(q) by { if 0 <= q < a.tab().len() { assert(b.tab()[q] == a.tab()[q]); } }
    assert forall|c: (u64, int)| #[trigger] b.in_extra(c) == a.in_extra(c) by {
        if a.in_extra(c) { let j = choose|j: int| 0 <= j < a.extra_items@.len() && #[trigger] a.extra(j) == c; assert(b.extra(j) == c); }
        if b.in_extra(c) { let j = choose|j: int| 0 <= j < b.extra_items@.len() && #[trigger] b.extra(j) == c; assert(a.extra(j) == c); }
    }
    assert forall|q: int| 0 <= q < a.fingerprint_vec.len implies #[trigger] b.fingerprint_vec.occ()[q] == a.fingerprint_vec.occ().update(p, f != 0)[q] by { assert(b.tab()[q] == a.tab().update(p, f)[q]); assert(a.tab()[q] == a.fingerprint_vec.at(q)); }
    assert(b.fingerprint_vec.occ() =~= a.fingerprint_vec.occ().update(p, f != 0));
    lemma_cnt_update(a.fingerprint_vec.occ(), p, f != 0);
    assert(a.tab()[p] == a.fingerprint_vec.at(p));
}
/// writing a class not held over an entry (or an empty slot): the class comes in, the class of the old entry goes out
pub proof fn lemma_wrote_classes<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, p: int, f: u64)
    requires a.wf(), a.wrote(b, p, f), f != 0, !a.held(a.cls(f, p / (a.entries_per_index as int))),
    ensures
        b.wf(),
        !a.full_slot(p) ==> b.classes() == a.classes().insert(a.cls(f, p / (a.entries_per_index as int))),
        a.full_slot(p) ==> a.held(a.cell(p)) && b.classes() == a.classes().insert(a.cls(f, p / (a.entries_per_index as int))).remove(a.cell(p)),
{
    lemma_wrote_shape(a, b, p, f);
    let c = a.cls(f, p / (a.entries_per_index as int));
    assert forall|q: int, r: int| #[trigger] b.full_slot(q) && #[trigger] b.full_slot(r) && b.cell(q) == b.cell(r) implies q == r by {
        if q != p { assert(a.full_slot(q) && b.cell(q) == a.cell(q)); }
        if r != p { assert(a.full_slot(r) && b.cell(r) == a.cell(r)); }
        if q == p && r != p { assert(a.in_table(c)); }
        if q != p && r == p { assert(a.in_table(c)); }
    }
    assert forall|j: int, k: int| 0 <= j < b.extra_items@.len() && 0 <= k < b.extra_items@.len() && #[trigger] b.extra(j) == #[trigger] b.extra(k) implies j == k by { assert(a.extra(j) == a.extra(k)); }
    assert forall|q: int, j: int| #[trigger] b.full_slot(q) && 0 <= j < b.extra_items@.len() implies b.cell(q) != #[trigger] b.extra(j) by {
        assert(b.extra(j) == a.extra(j));
        if q != p { assert(a.full_slot(q) && b.cell(q) == a.cell(q)); } else if a.extra(j) == c { assert(a.in_extra(c)); }
    }
    if a.full_slot(p) { assert(a.in_table(a.cell(p))); }
    assert forall|x: (u64, int)| #[trigger] b.held(x) == ((a.held(x) && !(a.full_slot(p) && x == a.cell(p))) || x == c) by {
        assert(b.full_slot(p) && b.cell(p) == c);
        if b.in_table(x) {
            let q = choose|q: int| #[trigger] b.full_slot(q) && b.cell(q) == x;
            if q != p { assert(a.full_slot(q) && a.cell(q) == x); assert(a.in_table(x)); }
        }
        if a.in_table(x) && !(a.full_slot(p) && x == a.cell(p)) {
            let q = choose|q: int| #[trigger] a.full_slot(q) && a.cell(q) == x;
            assert(b.full_slot(q) && b.cell(q) == x);
        }
        if a.in_extra(x) && a.full_slot(p) && x == a.cell(p) {
            let j = choose|j: int| 0 <= j < a.extra_items@.len() && #[trigger] a.extra(j) == x;
            assert(false);
        }
        if x == c { assert(b.in_table(x)); }
        if b.in_extra(x) { assert(a.in_extra(x)); }
    }
    let s = if a.full_slot(p) { a.classes().insert(c).remove(a.cell(p)) } else { a.classes().insert(c) };
    assert forall|x: (u64, int)| #[trigger] b.classes().contains(x) == s.contains(x) by { assert(b.held(x) == b.held(x)); }
    assert(b.classes() =~= s);
}
/// the classes held depend on the table and the overflow list only
pub proof fn lemma_same_entries<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>)
    requires a.wf(), a.same_keys(b), b.fingerprint_vec == a.fingerprint_vec, b.extra_items@ == a.extra_items@,
    ensures b.wf(), b.classes() == a.classes(), b.nb() == a.nb(), b.total() == a.total(),
        forall|f: u64, i: int| #[trigger] b.cls(f, i) == a.cls(f, i),
        forall|c: (u64, int)| #[trigger] b.held(c) == a.held(c),
        forall|p: int| #[trigger] b.full_slot(p) == a.full_slot(p),
        forall|i: int| #[trigger] b.bucket_full(i) == a.bucket_full(i),
{
    assert(b.nb() == a.nb());
    assert forall|p: int| #[trigger] b.cell(p) == a.cell(p) by { }
    assert forall|p: int| #[trigger] b.full_slot(p) == a.full_slot(p) by { }
    assert forall|j: int| #[trigger] b.extra(j) == a.extra(j) by { }
    assert forall|c: (u64, int)| #[trigger] b.held(c) == a.held(c) by {
        if b.in_table(c) { let p = choose|p: int| #[trigger] b.full_slot(p) && b.cell(p) == c; assert(a.full_slot(p) && a.cell(p) == c); }
        if a.in_table(c) { let p = choose|p: int| #[trigger] a.full_slot(p) && a.cell(p) == c; assert(b.full_slot(p) && b.cell(p) == c); }
        if b.in_extra(c) { let j = choose|j: int| 0 <= j < b.extra_items@.len() && #[trigger] b.extra(j) == c; assert(a.extra(j) == c); }
        if a.in_extra(c) { let j = choose|j: int| 0 <= j < a.extra_items@.len() && #[trigger] a.extra(j) == c; assert(b.extra(j) == c); }
    }
    assert(b.classes() =~= a.classes());
    assert forall|i: int| #[trigger] b.bucket_full(i) == a.bucket_full(i) by {
        if a.bucket_full(i) { assert forall|p: int| 0 <= p < b.fingerprint_vec.len && p / (b.entries_per_index as int) == i implies #[trigger] b.full_slot(p) by { assert(a.full_slot(p)); } }
        if b.bucket_full(i) { assert forall|p: int| 0 <= p < a.fingerprint_vec.len && p / (a.entries_per_index as int) == i implies #[trigger] a.full_slot(p) by { assert(b.full_slot(p)); } }
    }
}
/// emptying slots that hold fingerprint f in one of its buckets, and the overflow entry
pub proof fn lemma_removed<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, f: u64, i: int)
    requires a.wf(), a.same_keys(b), b.fingerprint_vec.wf(), f != 0, 0 <= i < a.nb(),
        forall|p: int| 0 <= p < a.fingerprint_vec.len ==> #[trigger] b.tab()[p] == a.tab()[p] || (b.tab()[p] == 0 && a.tab()[p] == f && a.cell(p) == a.cls(f, i)),
        !b.in_table(a.cls(f, i)),
        a.in_extra(a.cls(f, i)) ==> exists|j: int| #[trigger] a.extra(j) == a.cls(f, i) && 0 <= j < a.extra_items@.len() && b.extra_items@ == a.extra_items@.update(j, a.extra_items@.last()).drop_last(),
        !a.in_extra(a.cls(f, i)) ==> b.extra_items@ == a.extra_items@,
    ensures b.wf(), b.classes() == a.classes().remove(a.cls(f, i)),
        b.total() == if a.held(a.cls(f, i)) { a.total() - 1 } else { a.total() as int },
        !a.held(a.cls(f, i)) ==> b.tab() == a.tab() && b.extra_items@ == a.extra_items@,
{
    let c = a.cls(f, i); let e = a.entries_per_index as int; let n = a.fingerprint_vec.len as int;
    assert(b.nb() == a.nb());
    assert forall|p: int| #[trigger] b.full_slot(p) implies a.full_slot(p) && b.cell(p) == a.cell(p) by { assert(b.tab()[p] == a.tab()[p]); }
    assert forall|p: int| #[trigger] a.full_slot(p) && a.cell(p) != c implies b.full_slot(p) by { assert(b.tab()[p] == a.tab()[p]); }
    // overflow
    let j0 = if a.in_extra(c) { choose|j: int| #[trigger] a.extra(j) == c && 0 <= j < a.extra_items@.len() && b.extra_items@ == a.extra_items@.update(j, a.extra_items@.last()).drop_last() } else { -1 };
    let m = a.extra_items@.len() as int;
    assert forall|j: int| 0 <= j < b.extra_items@.len() implies #[trigger] b.extra(j) == a.extra(if j == j0 { m - 1 } else { j }) && b.extra(j) != c by {
        let k = if j == j0 { m - 1 } else { j };
        assert(b.extra(j) == a.extra(k));
        if a.in_extra(c) { assert(a.extra(j0) == c); if a.extra(k) == c { assert(k == j0); } }
        else { if a.extra(k) == c { assert(a.in_extra(c)); } }
    }
    assert forall|j: int, k: int| 0 <= j < b.extra_items@.len() && 0 <= k < b.extra_items@.len() && #[trigger] b.extra(j) == #[trigger] b.extra(k) implies j == k by {
        let x = if j == j0 { m - 1 } else { j }; let y = if k == j0 { m - 1 } else { k };
        assert(a.extra(x) == a.extra(y));
    }
    assert(b.shape());
    assert(b.unique());
    assert forall|x: (u64, int)| #[trigger] b.in_extra(x) == (a.in_extra(x) && x != c) by {
        if b.in_extra(x) { let j = choose|j: int| 0 <= j < b.extra_items@.len() && #[trigger] b.extra(j) == x; let k = if j == j0 { m - 1 } else { j }; assert(a.extra(k) == x); }
        if a.in_extra(x) && x != c { let j = choose|j: int| 0 <= j < a.extra_items@.len() && #[trigger] a.extra(j) == x;
            if j == m - 1 && j0 >= 0 { assert(j0 != j); assert(b.extra(j0) == x); } else { assert(b.extra(j) == x); } }
    }
    assert forall|x: (u64, int)| #[trigger] b.in_table(x) == (a.in_table(x) && x != c) by {
        if b.in_table(x) { let p = choose|p: int| #[trigger] b.full_slot(p) && b.cell(p) == x; assert(a.full_slot(p) && a.cell(p) == x); }
        if a.in_table(x) && x != c { let p = choose|p: int| #[trigger] a.full_slot(p) && a.cell(p) == x; assert(b.full_slot(p) && b.cell(p) == x); }
    }
    assert forall|x: (u64, int)| #[trigger] b.classes().contains(x) == a.classes().remove(c).contains(x) by { assert(b.held(x) == (b.in_table(x) || b.in_extra(x))); assert(a.in_table(x) == a.in_table(x) && a.in_extra(x) == a.in_extra(x)); }
    assert(b.classes() =~= a.classes().remove(c));
    // counts
    if a.in_table(c) {
        let p = choose|p: int| #[trigger] a.full_slot(p) && a.cell(p) == c;
        if a.in_extra(c) { assert(a.extra(j0) == c); assert(a.cell(p) != a.extra(j0)); }
        assert(b.tab()[p] == 0) by { if b.tab()[p] != 0 { assert(b.full_slot(p)); assert(b.in_table(c)); } }
        assert forall|q: int| 0 <= q < n implies #[trigger] b.fingerprint_vec.occ()[q] == a.fingerprint_vec.occ().update(p, false)[q] by {
            assert(a.tab()[q] == a.fingerprint_vec.at(q) && b.tab()[q] == b.fingerprint_vec.at(q));
            if q != p && a.tab()[q] != 0 { assert(a.full_slot(q)); assert(a.cell(q) != c); }
        }
        assert(b.fingerprint_vec.occ() =~= a.fingerprint_vec.occ().update(p, false));
        lemma_cnt_update(a.fingerprint_vec.occ(), p, false);
        assert(a.fingerprint_vec.occ()[p]) by { assert(a.tab()[p] == a.fingerprint_vec.at(p)); }
    } else {
        assert forall|q: int| 0 <= q < n implies #[trigger] b.tab()[q] == a.tab()[q] by { if a.tab()[q] != 0 { assert(a.full_slot(q)); } }
        assert(b.tab() =~= a.tab());
        assert forall|q: int| 0 <= q < n implies #[trigger] b.fingerprint_vec.occ()[q] == a.fingerprint_vec.occ()[q] by { assert(a.tab()[q] == a.fingerprint_vec.at(q) && b.tab()[q] == b.fingerprint_vec.at(q)); }
        assert(b.fingerprint_vec.occ() =~= a.fingerprint_vec.occ());
    }
}
/// pushing a class not held on the overflow list
pub proof fn lemma_pushed<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, f: u64, i: int, x: (u64, usize))
    requires a.wf(), a.same_keys(b), f != 0, 0 <= i < a.nb(), !a.held(a.cls(f, i)), b.fingerprint_vec == a.fingerprint_vec,
        b.extra_items@ == a.extra_items@.push(x), x.0 == f, x.1 == a.cls(f, i).1,
    ensures b.wf(), b.classes() == a.classes().insert(a.cls(f, i)),
{
    let c = a.cls(f, i); let m = a.extra_items@.len() as int;
    lemma_cls(a, f, i);
    assert(b.nb() == a.nb());
    assert forall|p: int| #[trigger] b.full_slot(p) implies a.full_slot(p) && b.cell(p) == a.cell(p) by { }
    assert forall|j: int| 0 <= j < m implies #[trigger] b.extra(j) == a.extra(j) by { }
    assert(b.extra(m) == c);
    assert(b.shape());
    assert forall|j: int| 0 <= j < m implies #[trigger] b.extra(j) != c by { assert(a.extra(j) == b.extra(j)); if a.extra(j) == c { assert(a.in_extra(c)); } }
    assert forall|p: int| #[trigger] b.full_slot(p) implies b.cell(p) != c by { assert(a.full_slot(p)); if a.cell(p) == c { assert(a.in_table(c)); } }
    assert forall|j: int, k: int| 0 <= j < b.extra_items@.len() && 0 <= k < b.extra_items@.len() && #[trigger] b.extra(j) == #[trigger] b.extra(k) implies j == k by {
        if j < m && k < m { assert(a.extra(j) == a.extra(k)); }
    }
    assert(b.unique());
    assert forall|x: (u64, int)| #[trigger] b.held(x) == (a.held(x) || x == c) by {
        if b.in_table(x) { let p = choose|p: int| #[trigger] b.full_slot(p) && b.cell(p) == x; assert(a.full_slot(p) && a.cell(p) == x); }
        if a.in_table(x) { let p = choose|p: int| #[trigger] a.full_slot(p) && a.cell(p) == x; assert(b.full_slot(p) && b.cell(p) == x); }
        if b.in_extra(x) { let j = choose|j: int| 0 <= j < b.extra_items@.len() && #[trigger] b.extra(j) == x; if j < m { assert(a.extra(j) == x); } }
        if a.in_extra(x) { let j = choose|j: int| 0 <= j < m && #[trigger] a.extra(j) == x; assert(b.extra(j) == x); }
        if x == c { assert(b.in_extra(x)); }
    }
    assert forall|x: (u64, int)| #[trigger] b.classes().contains(x) == a.classes().insert(c).contains(x) by { assert(b.held(x) == b.held(x)); }
    assert(b.classes() =~= a.classes().insert(c));
}
/// an empty filter holds no class
pub proof fn lemma_none<T, B>(a: CuckooFilter<T, B>)
    requires a.fingerprint_vec.wf(), a.extra_items@.len() == 0, a.tab() == Seq::new(a.fingerprint_vec.len as nat, |i: int| 0u64),
    ensures a.unique(), a.classes() == ISet::<(u64, int)>::empty(), cnt(a.fingerprint_vec.occ()) == 0,
{
    assert forall|p: int| !#[trigger] a.full_slot(p) by { }
    assert(a.classes() =~= ISet::<(u64, int)>::empty());
    let n = a.fingerprint_vec.len as nat;
    assert forall|q: int| 0 <= q < n implies !#[trigger] a.fingerprint_vec.occ()[q] by { assert(a.tab()[q] == a.fingerprint_vec.at(q)); }
    assert(a.fingerprint_vec.occ() =~= Seq::new(n, |i: int| false));
    lemma_cnt_const(n, false);
}
/// over every history from an empty filter: a class is held exactly when it was inserted and not removed since
pub proof fn lemma_cuckoo_history<T, B>(hist: Seq<CuckooFilter<T, B>>, ins: Seq<bool>, ops: Seq<(u64, int)>, n: int, c: (u64, int))
    requires
        hist.len() == ops.len() + 1, ins.len() == ops.len(), 0 <= n <= ops.len(),
        hist[0].classes() == ISet::<(u64, int)>::empty(),
        forall|i: int| 0 <= i < ops.len() ==> (#[trigger] hist[i + 1]).classes() == if ins[i] { hist[i].classes().insert(ops[i]) } else { hist[i].classes().remove(ops[i]) },
    ensures
        hist[n].held(c) == exists|i: int| 0 <= i < n && ins[i] && #[trigger] ops[i] == c && forall|k: int| i < k < n && !ins[k] ==> #[trigger] ops[k] != c,
    decreases n,
{
    assert(hist[n].held(c) == hist[n].classes().contains(c));
    if n > 0 {
        lemma_cuckoo_history(hist, ins, ops, n - 1, c);
        assert(hist[n - 1].held(c) == hist[n - 1].classes().contains(c));
        assert(hist[(n - 1) + 1].classes() == if ins[n - 1] { hist[n - 1].classes().insert(ops[n - 1]) } else { hist[n - 1].classes().remove(ops[n - 1]) });
        if hist[n].held(c) {
            if ins[n - 1] && ops[n - 1] == c { } else {
                let i = choose|i: int| 0 <= i < n - 1 && ins[i] && #[trigger] ops[i] == c && forall|k: int| i < k < n - 1 && !ins[k] ==> #[trigger] ops[k] != c;
                assert(0 <= i < n && ins[i] && ops[i] == c);
            }
        }
        if exists|i: int| 0 <= i < n && ins[i] && #[trigger] ops[i] == c && forall|k: int| i < k < n && !ins[k] ==> #[trigger] ops[k] != c {
            let i = choose|i: int| 0 <= i < n && ins[i] && #[trigger] ops[i] == c && forall|k: int| i < k < n && !ins[k] ==> #[trigger] ops[k] != c;
            if i < n - 1 { assert(ops[n - 1] == ops[n - 1]); assert(hist[n - 1].held(c)); }
        }
    }
}
/// sizes of a new filter
pub proof fn lemma_sizes(ic: int, e: int, x: int, nb: int, w: int)
    requires 0 < ic <= 0x80_0000_0000_0000, 0 < e <= 0x80_0000_0000_0000, x == (ic + e - 1) / e, x <= nb, x >= 1 ==> nb < 2 * x, 1 <= w <= 64, nb > 0,
    ensures 1 <= x <= ic, ic <= nb * e, nb * e <= 0x200_0000_0000_0000, nb * e * w <= 0xFFFF_FFFF_FFFF_FF00, (nb * e) / e == nb,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(ic + e - 1, e);
    assert(e * x == x * e) by (nonlinear_arith);
    assert(x * e >= ic);
    assert(x * e <= ic + e - 1);
    assert(x >= 1) by (nonlinear_arith) requires x * e >= ic, ic > 0, e > 0;
    assert(x <= ic) by (nonlinear_arith) requires x * e <= ic + e - 1, e > 0, ic > 0;
    assert(x * e <= nb * e) by (nonlinear_arith) requires x <= nb, e > 0;
    assert((nb + 1) * e <= 2 * x * e) by (nonlinear_arith) requires nb + 1 <= 2 * x, e > 0;
    assert((nb + 1) * e == nb * e + e) by (nonlinear_arith);
    assert(2 * x * e == 2 * (x * e)) by (nonlinear_arith);
    assert(nb * e <= 2 * ic + e);
    assert(0 <= nb * e) by (nonlinear_arith) requires nb > 0, e > 0;
    assert(nb * e * w <= 64 * (nb * e)) by (nonlinear_arith) requires 0 <= nb * e, w <= 64;
    vstd::arithmetic::div_mod::lemma_div_by_multiple(nb, e);
}

impl<T, B> CuckooFilter<T, B> {
    /// the same content: parameters, table, overflow list, hash builders
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.max_kicks == o.max_kicks && self.entries_per_index == o.entries_per_index
        &&& self.fingerprint_vec.bit_count == o.fingerprint_vec.bit_count && self.tab() == o.tab()
        &&& self.extra_items@ == o.extra_items@
        &&& self.hash_builders@ == o.hash_builders@
    }
}
/// empty filters of the same parameters and builders are the same: clearing leaves no trace
pub proof fn lemma_cuckoo_empty<T, B>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>)
    requires a.same_keys(b), a.classes() == ISet::<(u64, int)>::empty(), b.classes() == ISet::<(u64, int)>::empty(),
    ensures a.same(b),
{
    assert forall|p: int| 0 <= p < a.fingerprint_vec.len implies a.tab()[p] == 0 by { if a.tab()[p] != 0 { assert(a.full_slot(p)); assert(a.held(a.cell(p))); assert(a.classes().contains(a.cell(p))); } }
    assert forall|p: int| 0 <= p < b.fingerprint_vec.len implies b.tab()[p] == 0 by { if b.tab()[p] != 0 { assert(b.full_slot(p)); assert(b.held(b.cell(p))); assert(b.classes().contains(b.cell(p))); } }
    assert(a.tab() =~= b.tab());
    if a.extra_items@.len() > 0 { assert(a.held(a.extra(0))); assert(a.classes().contains(a.extra(0))); }
    if b.extra_items@.len() > 0 { assert(b.held(b.extra(0))); assert(b.classes().contains(b.extra(0))); }
    assert(a.extra_items@ =~= b.extra_items@);
}
/// filters which compare equal answer every query alike
pub proof fn lemma_cuckoo_equal<T, B, U: ?Sized>(a: CuckooFilter<T, B>, b: CuckooFilter<T, B>, item: &U)
    requires a.same(b),
    ensures a.member(item) == b.member(item), a.classes() == b.classes(), a.total() == b.total(),
{
    assert(a.tab().len() == b.tab().len());
    assert forall|c: (u64, int)| a.held(c) == b.held(c) by {
        assert forall|p: int| a.full_slot(p) == b.full_slot(p) && a.cell(p) == b.cell(p) by {}
        assert forall|j: int| a.extra(j) == b.extra(j) by {}
        if a.in_table(c) { let p = choose|p: int| #[trigger] a.full_slot(p) && a.cell(p) == c; assert(b.full_slot(p) && b.cell(p) == c); }
        if b.in_table(c) { let p = choose|p: int| #[trigger] b.full_slot(p) && b.cell(p) == c; assert(a.full_slot(p) && a.cell(p) == c); }
        if a.in_extra(c) { let j = choose|j: int| 0 <= j < a.extra_items@.len() && #[trigger] a.extra(j) == c; assert(b.extra(j) == c); }
        if b.in_extra(c) { let j = choose|j: int| 0 <= j < b.extra_items@.len() && #[trigger] b.extra(j) == c; assert(a.extra(j) == c); }
    }
    assert(a.classes() =~= b.classes());
    assert(a.fingerprint_vec.occ() =~= b.fingerprint_vec.occ()) by {
        assert forall|i: int| 0 <= i < a.fingerprint_vec.len implies a.fingerprint_vec.occ()[i] == b.fingerprint_vec.occ()[i] by { assert(a.tab()[i] == b.tab()[i]); }
    }
}

=== fn cuckoo_cuckoo_filter::CuckooFilter::get_fingerprint_and_indexes
attr: nonterm
requires:
- self.shape()
ensures:
- self.good(r)
- r.fingerprint == self.item_fp(item)
- r.index_1 == self.item_bucket(item)
- self.cls(r.fingerprint, r.index_1 as int) == self.class_of(item)
entry:
    let ghost mut vx_m: nat = 0;
    let ghost vx_h = vx_hash::<B, U>(self.hash_builders@[0], item);
    let ghost vx_b = self.hash_builders@[0];
    let ghost vx_w = self.fingerprint_vec.bit_count;
inv 0:
- h0 == fp_try(vx_b, vx_h, vx_m)
- fingerprint == low_bits(h0, vx_w)
- forall|m: nat| m < vx_m ==> low_bits(#[trigger] fp_try(vx_b, vx_h, m), vx_w) == 0
end 0:
    proof { vx_m = vx_m + 1; }
exit:
    proof {
        assert(fp_found(vx_b, vx_h, vx_w, fingerprint, vx_m));
        lemma_fp_of(vx_b, vx_h, vx_w, fingerprint, vx_m);
        lemma_low_bits(h0, vx_w);
    }

=== fn cuckoo_cuckoo_filter::CuckooFilter::contains_fingerprint
requires:
- self.wf()
- self.good(*fingerprint_and_indexes)
ensures:
- r == self.held(self.cls(fingerprint_and_indexes.fingerprint, fingerprint_and_indexes.index_1 as int))
entry:
    let ghost vx_f = fingerprint_and_indexes.fingerprint;
    let ghost vx_i = fingerprint_and_indexes.index_1 as int;
    let ghost vx_c = self.cls(vx_f, vx_i);
    let ghost vx_e = self.entries_per_index as int;
    proof { lemma_cls(*self, vx_f, vx_i); }
inv 0:
- $n == self.extra_items@.len()
- $k <= $n
- $r == exists|j: int| 0 <= j < $k && #[trigger] self.extra(j) == vx_c
begin 0:
    proof { assert(self.extra($k - 1).0 == self.extra_items@[$k - 1].0); }
after 0:
    proof { assert($r ==> self.in_extra(vx_c)); }
inv 1:
- $n == self.entries_per_index
- $k <= $n
- $r ==> self.in_table(vx_c)
- !$r ==> forall|j: int| 0 <= j < $k ==> self.tab()[#[trigger] slot(vx_i, j, vx_e)] != vx_f && self.tab()[slot(self.alt(vx_i, vx_f), j, vx_e)] != vx_f
begin 1:
    proof {
        let j = $k - 1; let i2 = self.alt(vx_i, vx_f);
        lemma_slot_of(vx_i, j, vx_e, self.nb() as int); lemma_slot_of(i2, j, vx_e, self.nb() as int);
        let p = slot(vx_i, j, vx_e); let q = slot(i2, j, vx_e);
        if self.tab()[p] == vx_f { assert(self.full_slot(p) && self.cell(p) == vx_c); }
        if self.tab()[q] == vx_f { assert(self.full_slot(q) && self.cell(q) == vx_c); }
    }
after 1:
    proof {
        if !$r && self.in_table(vx_c) {
            let p = choose|p: int| #[trigger] self.full_slot(p) && self.cell(p) == vx_c;
            lemma_slot_bucket(p, vx_e, self.nb() as int);
            let i = p / vx_e; let j = p % vx_e;
            assert(self.cls(vx_f, i) == vx_c);
            assert(p == slot(i, j, vx_e));
            assert(self.tab()[slot(vx_i, j, vx_e)] != vx_f && self.tab()[slot(self.alt(vx_i, vx_f), j, vx_e)] != vx_f);
        }
    }

=== fn cuckoo_cuckoo_filter::CuckooFilter::insert_fingerprint
requires:
- old(self).wf()
- index < old(self).nb()
- fingerprint != 0
- fits(fingerprint, old(self).fingerprint_vec.bit_count)
- !old(self).held(old(self).cls(fingerprint, index as int))
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- old(self).same_keys(*final(self))
- r ==> final(self).classes() == old(self).classes().insert(old(self).cls(fingerprint, index as int))
- !r ==> *final(self) == *old(self) && old(self).bucket_full(index as int)
- [count] final(self).count_ok()
entry:
    let ghost vx_e = self.entries_per_index as int;
inv 0:
- $n == self.entries_per_index
- $k <= $n
- *self == *old(self)
- forall|j: int| 0 <= j < $k ==> self.tab()[#[trigger] slot(index as int, j, vx_e)] != 0
begin 0:
    let ghost vx_p = slot(index as int, $k - 1, vx_e);
    proof { lemma_slot_of(index as int, $k - 1, vx_e, self.nb() as int); }
exit 0:
    proof {
        assert(old(self).wrote(*self, vx_p, fingerprint));
        lemma_wrote_shape(*old(self), *self, vx_p, fingerprint);
        lemma_wrote_classes(*old(self), *self, vx_p, fingerprint);
    }
after 0:
    proof {
        assert forall|p: int| 0 <= p < self.fingerprint_vec.len && p / vx_e == index implies #[trigger] self.full_slot(p) by {
            lemma_slot_bucket(p, vx_e, self.nb() as int);
            assert(self.tab()[slot(index as int, p % vx_e, vx_e)] != 0);
        }
    }

=== fn cuckoo_cuckoo_filter::CuckooFilter::insert
requires:
- old(self).wf()
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- old(self).same_keys(*final(self))
- final(self).classes() == old(self).classes().insert(old(self).class_of(item))
- final(self).member(item)
- old(self).member(item) ==> final(self).tab() == old(self).tab() && final(self).extra_items@ == old(self).extra_items@
- [count] final(self).count_ok()
- [count] final(self).total() == old(self).total() + if old(self).member(item) { 0int } else { 1int }
entry:
    let ghost vx_c = self.class_of(item);
    let ghost mut vx_m = *self;
then 0:
    proof { lemma_cls(*self, fingerprint_and_indexes.fingerprint, fingerprint_and_indexes.index_1 as int); }
let index 0:
    proof { lemma_same_entries(*old(self), *self); }
inv 0:
- $n == self.max_kicks
- $k <= $n
- self.wf()
- old(self).same_keys(*self)
- fingerprint != 0
- fits(fingerprint, self.fingerprint_vec.bit_count)
- index < self.nb()
- prev_index < self.nb()
- $k > 0 ==> index == self.alt(prev_index as int, fingerprint)
- !self.held(self.cls(fingerprint, index as int))
- self.classes().insert(self.cls(fingerprint, index as int)) =~= old(self).classes().insert(vx_c)
- self.bucket_full(index as int)
- [count] self.count_ok()
- [count] self.total() == old(self).total()
begin 0:
    proof { vx_m = *self; }
    let ghost vx_f = fingerprint; let ghost vx_i = index as int;
let bucket_index 0:
    proof {
        lemma_same_entries(vx_m, *self);
        lemma_slot_of(index as int, bucket_index as int, self.entries_per_index as int, self.nb() as int);
        assert(self.full_slot(slot(index as int, bucket_index as int, self.entries_per_index as int)));
    }
stmt set 0:
    proof {
        lemma_entry_fits(vx_m.fingerprint_vec, vec_index as int);
        assert(vx_m.wrote(*self, vec_index as int, vx_f));
        lemma_wrote_shape(vx_m, *self, vec_index as int, vx_f);
        lemma_wrote_classes(vx_m, *self, vec_index as int, vx_f);
        lemma_cls(*self, new_fingerprint, vx_i);
        assert(self.cls(new_fingerprint, vx_i) == vx_m.cell(vec_index as int));
        assert(self.cls(new_fingerprint, vx_i) != vx_m.cls(vx_f, vx_i));
        let c0 = vx_m.cls(vx_f, vx_i); let c1 = vx_m.cell(vec_index as int);
        assert(self.classes().insert(c1) =~= vx_m.classes().insert(c0));
    }
after 0:
    proof { vx_m = *self; lemma_cls(*self, fingerprint, index as int); lemma_cls(*self, fingerprint, prev_index as int); }
stmt push 0:
    proof { lemma_pushed(vx_m, *self, fingerprint, index as int, self.extra_items@.last()); }
exit:
    proof { assert(self.class_of(item) == vx_c); assert(self.classes().contains(vx_c)); }
    //@count
    proof { assert(old(self).member(item) == old(self).classes().contains(vx_c)); }
    //@end

=== fn cuckoo_cuckoo_filter::CuckooFilter::remove_fingerprint
requires:
- old(self).wf()
- old(self).good(*fingerprint_and_indexes)
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- old(self).same_keys(*final(self))
- final(self).classes() == old(self).classes().remove(old(self).cls(fingerprint_and_indexes.fingerprint, fingerprint_and_indexes.index_1 as int))
- !old(self).held(old(self).cls(fingerprint_and_indexes.fingerprint, fingerprint_and_indexes.index_1 as int)) ==> final(self).tab() == old(self).tab() && final(self).extra_items@ == old(self).extra_items@
- [count] final(self).count_ok()
- [count] final(self).total() == old(self).total() - if old(self).held(old(self).cls(fingerprint_and_indexes.fingerprint, fingerprint_and_indexes.index_1 as int)) { 1int } else { 0int }
- [grow] final(self).extra_items@.len() <= old(self).extra_items@.len()
entry:
    let ghost vx_f = fingerprint_and_indexes.fingerprint;
    let ghost vx_i = fingerprint_and_indexes.index_1 as int;
    let ghost vx_c = self.cls(vx_f, vx_i);
    let ghost vx_i2 = self.alt(vx_i, vx_f);
    let ghost vx_e = self.entries_per_index as int;
    proof { lemma_cls(*self, vx_f, vx_i); assert(self.shape()); }
inv 0:
- $n == self.extra_items@.len()
- $k <= $n
- $r.is_none() ==> forall|j: int| 0 <= j < $k ==> #[trigger] self.extra(j) != vx_c
- $r.is_some() ==> 0 <= $r.unwrap() < $n && self.extra($r.unwrap() as int) == vx_c
begin 0:
    proof { assert(self.extra($k - 1).0 == self.extra_items@[$k - 1].0); }
after 0:
    proof { if $r.is_some() { assert(self.in_extra(vx_c)); } }
inv 1:
- $n == old(self).entries_per_index
- $k <= $n
- old(self).same_keys(*self)
- self.fingerprint_vec.wf()
- [count] self.fingerprint_vec.count_ok()
- old(self).in_extra(vx_c) ==> exists|j: int| #[trigger] old(self).extra(j) == vx_c && 0 <= j < old(self).extra_items@.len() && self.extra_items@ == old(self).extra_items@.update(j, old(self).extra_items@.last()).drop_last()
- !old(self).in_extra(vx_c) ==> self.extra_items@ == old(self).extra_items@
- forall|p: int| 0 <= p < old(self).fingerprint_vec.len ==> #[trigger] self.tab()[p] == old(self).tab()[p] || (self.tab()[p] == 0 && old(self).tab()[p] == vx_f && old(self).cell(p) == vx_c)
- forall|j: int| 0 <= j < $k ==> self.tab()[#[trigger] slot(vx_i, j, vx_e)] != vx_f && self.tab()[slot(vx_i2, j, vx_e)] != vx_f
begin 1:
    proof {
        let j = $k - 1; let nb = self.nb() as int;
        lemma_slot_of(vx_i, j, vx_e, nb); lemma_slot_of(vx_i2, j, vx_e, nb);
        let p = slot(vx_i, j, vx_e); let q = slot(vx_i2, j, vx_e);
        if old(self).tab()[p] == vx_f { assert(old(self).full_slot(p) && old(self).cell(p) == vx_c); }
        if old(self).tab()[q] == vx_f { assert(old(self).full_slot(q) && old(self).cell(q) == vx_c); }
        if self.tab()[p] == vx_f { assert(old(self).tab()[p] == vx_f); }
        if self.tab()[q] == vx_f { assert(old(self).tab()[q] == vx_f); }
        lemma_zero_fits(self.fingerprint_vec.bit_count);
        assert forall|k: int| 0 <= k < j implies slot(vx_i, k, vx_e) != p && slot(vx_i, k, vx_e) < old(self).fingerprint_vec.len && slot(vx_i2, k, vx_e) < old(self).fingerprint_vec.len && slot(vx_i, k, vx_e) >= 0 && slot(vx_i2, k, vx_e) >= 0 by {
            lemma_slot_of(vx_i, k, vx_e, nb); lemma_slot_of(vx_i2, k, vx_e, nb);
        }
    }
exit:
    proof {
        if self.in_table(vx_c) {
            let p = choose|p: int| #[trigger] self.full_slot(p) && self.cell(p) == vx_c;
            lemma_slot_bucket(p, vx_e, old(self).nb() as int);
            let i = p / vx_e; let j = p % vx_e;
            assert(old(self).cls(vx_f, i) == vx_c);
            assert(p == slot(i, j, vx_e) && 0 <= j < vx_e);
            assert(i == vx_i || i == vx_i2);
            assert(self.tab()[p] == vx_f);
            let u = self.tab()[slot(vx_i, j, vx_e)]; let w = self.tab()[slot(vx_i2, j, vx_e)];
            assert(u != vx_f && w != vx_f);
        }
        lemma_removed(*old(self), *self, vx_f, vx_i);
    }

=== fn cuckoo_cuckoo_filter::CuckooFilter::remove
requires:
- old(self).wf()
- [count] old(self).count_ok()
ensures:
- final(self).wf()
- old(self).same_keys(*final(self))
- final(self).classes() == old(self).classes().remove(old(self).class_of(item))
- !final(self).member(item)
- !old(self).member(item) ==> final(self).tab() == old(self).tab() && final(self).extra_items@ == old(self).extra_items@
- [count] final(self).count_ok()
- [count] final(self).total() == old(self).total() - if old(self).member(item) { 1int } else { 0int }
- [grow] final(self).extra_items@.len() <= old(self).extra_items@.len()
exit:
    proof { assert(self.class_of(item) == old(self).class_of(item)); assert(!self.classes().contains(old(self).class_of(item))); }

=== fn cuckoo_cuckoo_filter::CuckooFilter::contains
requires:
- self.wf()
ensures:
- r == self.member(item)

=== fn cuckoo_cuckoo_filter::CuckooFilter::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).same_keys(*final(self))
- final(self).classes() == ISet::<(u64, int)>::empty()
- final(self).extra_items@.len() == 0
- [count] final(self).count_ok()
- [count] final(self).total() == 0
exit:
    proof { lemma_none(*self); }

=== fn cuckoo_cuckoo_filter::CuckooFilter::len
requires:
- [count] self.fingerprint_vec.count_ok()
ensures:
- [count] r == cnt(self.fingerprint_vec.occ())

=== fn cuckoo_cuckoo_filter::CuckooFilter::is_empty
requires:
- [count] self.fingerprint_vec.count_ok()
ensures:
- [count] r == (cnt(self.fingerprint_vec.occ()) == 0)

=== fn cuckoo_cuckoo_filter::CuckooFilter::capacity
requires:
- self.shape()
ensures:
- r == self.fingerprint_vec.len
- [count] r as int == self.nb() as int * self.entries_per_index as int

=== fn cuckoo_cuckoo_filter::CuckooFilter::bucket_len
requires:
- self.shape()
ensures:
- r == self.nb()
- is_pow2(r)

=== fn cuckoo_cuckoo_filter::CuckooFilter::entries_per_index
ensures:
- r == self.entries_per_index

=== fn cuckoo_cuckoo_filter::CuckooFilter::extra_items_len
ensures:
- r == self.extra_items@.len()

=== fn cuckoo_cuckoo_filter::CuckooFilter::is_nearly_full
ensures:
- r == (self.extra_items@.len() > 0)

=== fn cuckoo_cuckoo_filter::CuckooFilter::fingerprint_bit_count
ensures:
- r == self.fingerprint_vec.bit_count

=== fn cuckoo_cuckoo_filter::CuckooFilter::hashers
ensures:
- *r == self.hash_builders

=== fn cuckoo_cuckoo_filter::CuckooFilter::with_hashers
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.hash_builders == hash_builders
- r.fingerprint_vec.bit_count == DEFAULT_FINGERPRINT_BIT_COUNT
- r.entries_per_index == DEFAULT_ENTRIES_PER_INDEX
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, DEFAULT_ENTRIES_PER_INDEX)
entry:
    let ghost bad = item_count == 0;
exit:
    proof { lemma_none(vx_ret); }
let bucket_len 0:
    proof { let e = DEFAULT_ENTRIES_PER_INDEX as int; lemma_sizes(item_count as int, e, (item_count as int + e - 1) / e, bucket_len as int, DEFAULT_FINGERPRINT_BIT_COUNT as int); assert(bucket_len as int * e / e == bucket_len); }

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_parameters_with_hashers
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.hash_builders == hash_builders
- r.fingerprint_vec.bit_count == fingerprint_bit_count
- r.entries_per_index == entries_per_index
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, entries_per_index)
entry:
    let ghost bad = item_count == 0 || fingerprint_bit_count <= 1 || fingerprint_bit_count > 64 || entries_per_index == 0;
exit:
    proof { lemma_none(vx_ret); }
let bucket_len 0:
    proof { let e = entries_per_index as int; lemma_sizes(item_count as int, e, (item_count as int + e - 1) / e, bucket_len as int, fingerprint_bit_count as int); assert(bucket_len as int * e / e == bucket_len); }

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_entries_per_index_with_hashers
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.hash_builders == hash_builders
- r.entries_per_index == entries_per_index
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.fingerprint_vec.bit_count as int == bits_for(vr(fpp), entries_per_index as int)
entry:
    let ghost mut bad = item_count == 0 || entries_per_index == 0;
    //@real
    proof { if 0.0real < vr(fpp) < 1.0real && entries_per_index > 0 { lemma_root(vr(fpp), entries_per_index as int); } }
    //@end
exit:
    proof { lemma_none(vx_ret); }
let bucket_len 0:
    proof { let e = entries_per_index as int; lemma_sizes(item_count as int, e, (item_count as int + e - 1) / e, bucket_len as int, fingerprint_bit_count as int); assert(bucket_len as int * e / e == bucket_len); }
let fingerprint_bit_count 0:
    proof { bad = bad || fingerprint_bit_count == 0 || fingerprint_bit_count > 64; }
    //@real
    proof { assert(0.0real < vr(fpp) < 1.0real && entries_per_index > 0 ==> fingerprint_bit_count as int == bits_for(vr(fpp), entries_per_index as int)); }
    //@end

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_fingerprint_bit_count_with_hashers
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- 0.0real < vr(fpp) < 1.0real
- entries_for(vr(fpp), fingerprint_bit_count as nat) <= 0x8000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.hash_builders == hash_builders
- r.fingerprint_vec.bit_count == fingerprint_bit_count
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, r.entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.entries_per_index as int == entries_for(vr(fpp), fingerprint_bit_count as nat)
entry:
    let ghost mut bad = item_count == 0 || fingerprint_bit_count <= 1 || fingerprint_bit_count > 64;
    proof { if 1 < fingerprint_bit_count <= 64 { lemma_differ(fingerprint_bit_count as nat); } }
exit:
    proof { lemma_none(vx_ret); }
let bucket_len 0:
    proof { let e = entries_per_index as int; lemma_sizes(item_count as int, e, (item_count as int + e - 1) / e, bucket_len as int, fingerprint_bit_count as int); assert(bucket_len as int * e / e == bucket_len); }
let entries_per_index 0:
    proof { bad = bad || entries_per_index == 0; }
    //@real
    proof { assert(1 < fingerprint_bit_count <= 64 ==> entries_per_index as int == entries_for(vr(fpp), fingerprint_bit_count as nat)); }
    //@end

=== fn cuckoo_cuckoo_filter::CuckooFilter::new
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.fingerprint_vec.bit_count == DEFAULT_FINGERPRINT_BIT_COUNT
- r.entries_per_index == DEFAULT_ENTRIES_PER_INDEX
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, DEFAULT_ENTRIES_PER_INDEX)
entry:
    let ghost bad = item_count == 0;

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_parameters
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.fingerprint_vec.bit_count == fingerprint_bit_count
- r.entries_per_index == entries_per_index
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, entries_per_index)
entry:
    let ghost bad = item_count == 0 || fingerprint_bit_count <= 1 || fingerprint_bit_count > 64 || entries_per_index == 0;

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_entries_per_index
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- entries_per_index <= 0x80_0000_0000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.entries_per_index == entries_per_index
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.fingerprint_vec.bit_count as int == bits_for(vr(fpp), entries_per_index as int)
entry:
    let ghost bad = item_count == 0 || entries_per_index == 0;

=== fn cuckoo_cuckoo_filter::CuckooFilter::from_fingerprint_bit_count
attr: panic_if(bad)
requires:
- item_count <= 0x80_0000_0000_0000
- 0.0real < vr(fpp) < 1.0real
- entries_for(vr(fpp), fingerprint_bit_count as nat) <= 0x8000_0000
ensures:
- r.wf()
- r.classes() == ISet::<(u64, int)>::empty()
- r.extra_items@.len() == 0
- item_count > 0
- r.fingerprint_vec.bit_count == fingerprint_bit_count
- [count] r.count_ok()
- [count] r.total() == 0
- [count] r.fingerprint_vec.len >= item_count
- [real] r.sized(item_count, r.entries_per_index)
- [real] 0.0real < vr(fpp) < 1.0real ==> r.entries_per_index as int == entries_for(vr(fpp), fingerprint_bit_count as nat)
entry:
    let ghost bad = item_count == 0 || fingerprint_bit_count <= 1 || fingerprint_bit_count > 64;

=== fn cuckoo_cuckoo_filter::CuckooFilter::estimated_fpp
requires:
- self.wf()
- self.fingerprint_vec.bit_count > 1
- [count] self.count_ok()
ensures:
- [real] vr(r) == self.est_fpp()
entry:
    //@real
    proof {
        reveal(rmul);
        let f = self.fingerprint_vec.bit_count as nat; let n = rpow(2.0real, f);
        lemma_rpow_add(2.0real, 2, (f - 2) as nat); lemma_rpow_ge_one((f - 2) as nat);
        assert(rpow(2.0real, 2) == 4.0real) by { reveal_with_fuel(rpow, 3); }
        assert(n >= 4.0real);
        lemma_rdiv_pos(n - 2.0real, n - 1.0real);
    }
    //@end

=== fn cuckoo_cuckoo_filter::CuckooFilter::eq
ensures:
- self.wf() && other.wf() && self.fingerprint_vec.count_ok() && other.fingerprint_vec.count_ok() && self.hash_builders@[0].wf() && self.hash_builders@[1].wf() && other.hash_builders@[0].wf() && other.hash_builders@[1].wf() ==> r == self.same(*other)
exit:
    proof { assert((self.hash_builders@ =~= other.hash_builders@) == (self.hash_builders@[0] == other.hash_builders@[0] && self.hash_builders@[1] == other.hash_builders@[1])); }
