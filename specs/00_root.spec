=== prelude root
use core::slice;

// ---------------------------------------------------------------- trusted library stubs
// assertions of the code: must be proved (vx_assert), or document a panic of a constructor (vx_check)
pub fn vx_assert(b: bool) requires b, { }
#[verifier::external_body]
pub fn vx_check(b: bool) ensures b, { assert!(b) }
#[verifier::external_body]
pub fn vx_panic<A>() -> (r: A) requires false, { panic!() }
/// a documented panic: only in the state `g`
#[verifier::external_body]
pub fn vx_check_if(b: bool, g: Ghost<bool>) requires b || g@, ensures b, { assert!(b) }
#[verifier::external_body]
pub fn vx_panic_if<A>(g: Ghost<bool>) -> (r: A) requires g@, ensures false, { panic!() }
#[verifier::external_body]
pub fn vx_havoc_f64() -> f64 { 0.0 }
#[verifier::external_body]
pub fn vx_havoc_bool() -> bool { true }

// ---------------------------------------------------------------- floating point, as real numbers
// Every operation on f64 is a function of the operand values (fl_*) and its real value is that of the
// operation on the reals: rounding, overflow, NaN and infinities are not modelled (assumption).
/// the real number an f64 stands for
pub uninterp spec fn vr(x: f64) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
/// for x > 0
pub open spec fn rpowf(x: real, y: real) -> real { rexp(rmul(y, rln(x))) }
pub uninterp spec fn rsqrt(x: real) -> real;
#[verifier::opaque]
pub open spec fn rmul(x: real, y: real) -> real { x * y }
#[verifier::opaque]
pub open spec fn rdiv(x: real, y: real) -> real { x / y }
pub open spec fn rlog2(x: real) -> real { rdiv(rln(x), rln(2.0real)) }
pub open spec fn rlog(x: real, b: real) -> real { rdiv(rln(x), rln(b)) }
#[verifier::opaque]
pub open spec fn rfloor(x: real) -> real { x.floor() as real }
#[verifier::opaque]
pub open spec fn rceil(x: real) -> real { -((-x).floor() as real) }
/// to the nearest integer, halves away from zero
pub open spec fn rround(x: real) -> real { if x >= 0.0real { rfloor(x + 0.5real) } else { -rfloor(-x + 0.5real) } }
pub open spec fn rabs(x: real) -> real { if x >= 0.0real { x } else { -x } }
#[verifier::opaque]
pub open spec fn rtrunc(x: real) -> int { if x >= 0.0real { x.floor() } else { -((-x).floor()) } }
pub open spec fn clamp(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1.0real } else { rmul(rpow(x, (n - 1) as nat), x) } }
pub open spec fn rpowi(x: real, n: int) -> real { if n >= 0 { rpow(x, n as nat) } else { rdiv(1.0real, rpow(x, (-n) as nat)) } }

/// a size computed in floating point, rounded up or down
pub open spec fn up(x: real) -> int { clamp(rtrunc(rceil(x)), 0, usize::MAX as int) }
pub open spec fn down(x: real) -> int { clamp(rtrunc(rfloor(x)), 0, usize::MAX as int) }

/// not a number: the value of zero divided by zero
pub uninterp spec fn fl_nan(a: f64) -> bool;
pub uninterp spec fn fl_int(a: int) -> f64;
pub uninterp spec fn fl_neg(a: f64) -> f64;
pub uninterp spec fn fl_add(a: f64, b: f64) -> f64;
pub uninterp spec fn fl_sub(a: f64, b: f64) -> f64;
pub uninterp spec fn fl_mul(a: f64, b: f64) -> f64;
pub uninterp spec fn fl_div(a: f64, b: f64) -> f64;
pub uninterp spec fn fl_round(a: f64) -> f64;
pub uninterp spec fn fl_to_i64(a: f64) -> i64;
/// the quotient of two integers as f64
pub open spec fn vx_ratio_spec(a: int, b: int) -> f64 { fl_div(fl_int(a), fl_int(b)) }

#[verifier::external_body]
pub fn vx_flit(g: Ghost<real>) -> (r: f64) ensures vr(r) == g@, { 0.0 }
#[verifier::external_body]
pub fn vx_fconst_e() -> (r: f64) ensures vr(r) == rexp(1.0real), { core::f64::consts::E }
#[verifier::external_body]
pub fn vx_fconst_ln_2() -> (r: f64) ensures vr(r) == rln(2.0real), { core::f64::consts::LN_2 }
#[verifier::external_body]
pub fn vx_fconst_epsilon() -> (r: f64) ensures vr(r) == 0.0000000000000002220446049250313real, { f64::EPSILON }
#[verifier::external_body]
pub fn vx_fu(a: u64) -> (r: f64) ensures r == fl_int(a as int), vr(r) == a as real, !fl_nan(r), { a as f64 }
#[verifier::external_body]
pub fn vx_fi(a: i64) -> (r: f64) ensures r == fl_int(a as int), vr(r) == a as real, !fl_nan(r), { a as f64 }
#[verifier::external_body]
pub fn vx_fneg(a: f64) -> (r: f64) ensures r == fl_neg(a), vr(r) == -vr(a), { -a }
#[verifier::external_body]
pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == fl_add(a, b), vr(r) == vr(a) + vr(b), { a + b }
#[verifier::external_body]
pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == fl_sub(a, b), vr(r) == vr(a) - vr(b), { a - b }
#[verifier::external_body]
pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == fl_mul(a, b), vr(r) == rmul(vr(a), vr(b)), { a * b }
#[verifier::external_body]
pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == fl_div(a, b), vr(b) != 0.0real ==> vr(r) == rdiv(vr(a), vr(b)) && fl_nan(r) == (fl_nan(a) || fl_nan(b)), vr(a) == 0.0real && vr(b) == 0.0real ==> fl_nan(r), { a / b }
#[verifier::external_body]
pub fn vx_frecip(a: f64) -> (r: f64) ensures vr(a) != 0.0real ==> vr(r) == rdiv(1.0real, vr(a)), { a.recip() }
#[verifier::external_body]
pub fn vx_fln(a: f64) -> (r: f64) ensures vr(a) > 0.0real ==> vr(r) == rln(vr(a)), { a.ln() }
#[verifier::external_body]
pub fn vx_fln_1p(a: f64) -> (r: f64) ensures vr(a) > -1.0real ==> vr(r) == rln(1.0real + vr(a)), { a.ln_1p() }
#[verifier::external_body]
pub fn vx_fexp_m1(a: f64) -> (r: f64) ensures vr(r) == rexp(vr(a)) - 1.0real, { a.exp_m1() }
#[verifier::external_body]
pub fn vx_flog2(a: f64) -> (r: f64) ensures vr(a) > 0.0real ==> vr(r) == rlog2(vr(a)), { a.log2() }
#[verifier::external_body]
pub fn vx_flog(a: f64, b: f64) -> (r: f64) ensures vr(a) > 0.0real && vr(b) > 0.0real && vr(b) != 1.0real ==> vr(r) == rlog(vr(a), vr(b)), { a.log(b) }
#[verifier::external_body]
pub fn vx_fexp(a: f64) -> (r: f64) ensures vr(r) == rexp(vr(a)), { a.exp() }
#[verifier::external_body]
pub fn vx_fsqrt(a: f64) -> (r: f64) ensures vr(a) >= 0.0real ==> vr(r) == rsqrt(vr(a)), { a.sqrt() }
#[verifier::external_body]
pub fn vx_fpowf(a: f64, b: f64) -> (r: f64) ensures vr(a) > 0.0real ==> vr(r) == rpowf(vr(a), vr(b)), { a.powf(b) }
#[verifier::external_body]
pub fn vx_fpowi(a: f64, b: i32) -> (r: f64) ensures vr(a) != 0.0real || b >= 0 ==> vr(r) == rpowi(vr(a), b as int), { a.powi(b) }
#[verifier::external_body]
pub fn vx_fceil(a: f64) -> (r: f64) ensures fl_nan(r) == fl_nan(a), vr(r) == rceil(vr(a)), { a.ceil() }
#[verifier::external_body]
pub fn vx_ffloor(a: f64) -> (r: f64) ensures fl_nan(r) == fl_nan(a), vr(r) == rfloor(vr(a)), { a.floor() }
#[verifier::external_body]
pub fn vx_fround(a: f64) -> (r: f64) ensures fl_nan(r) == fl_nan(a), r == fl_round(a), vr(r) == rround(vr(a)), { a.round() }
#[verifier::external_body]
pub fn vx_fabs(a: f64) -> (r: f64) ensures vr(r) == rabs(vr(a)), { a.abs() }
#[verifier::external_body]
pub fn vx_fmin(a: f64, b: f64) -> (r: f64) ensures vr(r) == if vr(a) < vr(b) { vr(a) } else { vr(b) }, { a.min(b) }
#[verifier::external_body]
pub fn vx_fmax(a: f64, b: f64) -> (r: f64) ensures vr(r) == if vr(a) < vr(b) { vr(b) } else { vr(a) }, { a.max(b) }
#[verifier::external_body]
pub fn vx_flt(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) < vr(b)), { a < b }
#[verifier::external_body]
pub fn vx_fle(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) <= vr(b)), { a <= b }
#[verifier::external_body]
pub fn vx_fgt(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) > vr(b)), { a > b }
#[verifier::external_body]
pub fn vx_fge(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) >= vr(b)), { a >= b }
#[verifier::external_body]
pub fn vx_feq(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) == vr(b)), { a == b }
#[verifier::external_body]
pub fn vx_fne(a: f64, b: f64) -> (r: bool) ensures r == (vr(a) != vr(b)), { a != b }
/// sizes computed in floating point: assumed to be at most 2^31
#[verifier::external_body]
pub fn vx_f64_to_usize(a: f64) -> (r: usize) ensures r == clamp(rtrunc(vr(a)), 0, usize::MAX as int), { a as usize }
/// bit counts computed in floating point: assumed to be at most 40
#[verifier::external_body]
pub fn vx_f64_to_u8(a: f64) -> (r: u8) ensures r == clamp(rtrunc(vr(a)), 0, 255), { a as u8 }
#[verifier::external_body]
pub fn vx_f64_to_u64(a: f64) -> (r: u64) ensures r == clamp(rtrunc(vr(a)), 0, u64::MAX as int), { a as u64 }
#[verifier::external_body]
pub fn vx_f64_to_u32(a: f64) -> (r: u32) ensures r == clamp(rtrunc(vr(a)), 0, u32::MAX as int), { a as u32 }
#[verifier::external_body]
pub fn vx_f64_to_i32(a: f64) -> (r: i32) ensures r == clamp(rtrunc(vr(a)), i32::MIN as int, i32::MAX as int), { a as i32 }
#[verifier::external_body]
pub fn vx_f64_to_i64(a: f64) -> (r: i64) ensures r == fl_to_i64(a), !fl_nan(a) ==> r == clamp(rtrunc(vr(a)), i64::MIN as int, i64::MAX as int), fl_nan(a) ==> r == 0, { a as i64 }
#[verifier::external_body]
pub fn vx_clone<A>(a: &A) -> (r: A) ensures r == *a, { unimplemented!() }
pub uninterp spec fn vx_cap_of<A>(v: Vec<A>) -> int;
#[verifier::external_body]
pub fn vx_capacity<A>(v: &Vec<A>) -> (r: usize) ensures r == vx_cap_of(*v), r >= v@.len(), r <= 0xFFFF_FFFF_FFFF, { v.capacity() }
#[verifier::external_body]
pub fn vx_reserve<A>(v: &mut Vec<A>, n: usize) ensures final(v)@ == old(v)@, { v.reserve(n) }
#[verifier::external_body]
pub fn vx_clone_from<A: Copy>(v: &mut Vec<A>, s: &Vec<A>) ensures final(v)@ == s@, { v.clone_from(s) }
#[verifier::external_body]
pub fn vx_range_next(r: &mut Range<usize>) -> (x: Option<usize>)
    ensures
        old(r).start < old(r).end ==> x == Some(old(r).start) && final(r).start == old(r).start + 1 && final(r).end == old(r).end,
        old(r).start >= old(r).end ==> x.is_none() && *final(r) == *old(r),
{ r.next() }
#[verifier::external_body]
pub fn vx_to_vec<A: Copy>(s: &[A]) -> (r: Vec<A>) ensures r@ == s@, { s.to_vec() }
#[verifier::external_body]
pub fn vx_subvec<A: Copy>(s: &Vec<A>, lo: usize, hi: usize) -> (r: Vec<A>)
    requires lo <= hi <= s@.len(),
    ensures r@ == s@.subrange(lo as int, hi as int),
{ s[lo..hi].to_vec() }

/// A finite stream read front to back: stands for a generic `Iterator` parameter.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VxIter<A> { v: std::vec::IntoIter<A> }
impl<A> VxIter<A> {
    pub uninterp spec fn view(&self) -> Seq<A>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<A>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.v.next() }
}
#[verifier::external_body]
pub fn vx_into_iter<A>(v: Vec<A>) -> (r: VxIter<A>) ensures r@ == v@, { VxIter { v: v.into_iter() } }

/// a std HashSet, as a mathematical set
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VxHashSet<A> { v: std::collections::HashSet<A> }
impl<A: Hash + Eq> VxHashSet<A> {
    pub uninterp spec fn view(&self) -> Set<A>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<A>::empty(), { VxHashSet { v: std::collections::HashSet::new() } }
    #[verifier::external_body]
    pub fn insert(&mut self, x: A) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x), { self.v.insert(x) }
    #[verifier::external_body]
    pub fn contains(&self, x: &A) -> (r: bool) ensures r == self@.contains(*x), { self.v.contains(x) }
    #[verifier::external_body]
    pub fn vx_from_iter(it: VxIter<A>) -> (r: Self) ensures r@ == it@.to_set(), { VxHashSet { v: it.v.collect() } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7FFF_FFFF_FFFF_FFFF, { self.v.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { self.v.is_empty() }
    #[verifier::external_body]
    pub fn vx_intersection_count(&self, o: &Self) -> (r: usize) ensures r == self@.intersect(o@).len(), { self.v.intersection(&o.v).count() }
    #[verifier::external_body]
    pub fn vx_union_count(&self, o: &Self) -> (r: usize) ensures r == self@.union(o@).len(), { self.v.union(&o.v).count() }
    #[verifier::external_body]
    pub fn vx_difference_count(&self, o: &Self) -> (r: usize) ensures r == self@.difference(o@).len(), { self.v.difference(&o.v).count() }
    #[verifier::external_body]
    pub fn vx_symmetric_difference_count(&self, o: &Self) -> (r: usize) ensures r == self@.difference(o@).len() + o@.difference(self@).len(), { self.v.symmetric_difference(&o.v).count() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<A>) ensures r@.no_duplicates(), forall|x: A| #[trigger] r@.contains(x) == self@.contains(x), { self.v.into_iter().collect() }
}
/// t is a rearrangement of s
pub open spec fn rearranged<A>(s: Seq<A>, t: Seq<A>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& t.len() == s.len() && p.len() == s.len() && q.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] p[i] < s.len() && q[p[i]] == i && t[i] == s[p[i]]
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] q[i] < s.len() && p[q[i]] == i
}
pub open spec fn lex(a: (u64, usize), b: (u64, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
#[verifier::external_body]
pub fn vx_sort_u64_usize(v: &mut Vec<(u64, usize)>)
    ensures
        exists|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(old(v)@, final(v)@, p, q),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> lex(#[trigger] final(v)@[i], #[trigger] final(v)@[j]),
{ v.sort() }
#[verifier::external_body]
pub fn vx_sort_i64(v: &mut Vec<i64>)
    ensures
        exists|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(old(v)@, final(v)@, p, q),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]) <= #[trigger] final(v)@[j],
{ v.sort() }
pub open spec fn rot(x: u64, n: int) -> u64 { if n % 64 == 0 { x } else { (x << ((n % 64) as u64)) | (x >> ((64 - n % 64) as u64)) } }
#[verifier::external_body]
pub fn vx_rotate_left(x: u64, n: u32) -> (r: u64) ensures r == rot(x, n as int), { x.rotate_left(n) }

// ---------------------------------------------------------------- hashing
/// Hash, BuildHasher and Hasher: a builder determines the initial state of its hashers, hashing an item moves the state to one
/// determined by the state and the item, and the result is determined by the final state. Nothing else is assumed of them.
pub use vx_model::*;
pub mod vx_model {
use super::*;
#[verifier::external_body]
pub struct VxHState { x: u64 }
pub uninterp spec fn vx_state<H>(h: H) -> VxHState;
pub uninterp spec fn vx_init<X>(b: X) -> VxHState;
pub uninterp spec fn vx_step<I: ?Sized>(s: VxHState, i: &I) -> VxHState;
pub uninterp spec fn vx_fin(s: VxHState) -> u64;
#[verifier::external_body]
pub fn vx_build_hasher<X: BuildHasher>(b: &X) -> (h: X::Hasher) ensures vx_state(h) == vx_init(*b), { b.build_hasher() }
#[verifier::external_body]
pub fn vx_hash_item<I: Hash + ?Sized, H: std::hash::Hasher>(i: &I, h: &mut H) ensures vx_state(*final(h)) == vx_step(vx_state(*old(h)), i), { i.hash(h) }
#[verifier::external_body]
pub fn vx_finish<H: std::hash::Hasher>(h: &H) -> (r: u64) ensures r == vx_fin(vx_state(*h)), { h.finish() }
/// the hash of an item: a function of the builder and the item
pub open spec fn vx_hash<X, I: ?Sized>(b: X, i: &I) -> u64 { vx_fin(vx_step(vx_init(b), i)) }
/// testing a bit by a mask or by a shift
pub broadcast proof fn lemma_bit_test(h: u64, i: usize)
    requires i < 64,
    ensures ((#[trigger] (h & (1u64 << i))) == 0) == ((h >> i) & 1 == 0),
{ assert(((h & (1u64 << i)) == 0) == ((h >> i) & 1 == 0)) by (bit_vector) requires i < 64; }
/// combinations of the three metadata bits
pub broadcast proof fn lemma_m6(v: u64)
    ensures ((#[trigger] (v & 6)) != 0) == (v & 2 != 0 || v & 4 != 0),
{ assert((v & 6 != 0) == (v & 2 != 0 || v & 4 != 0)) by (bit_vector); }
pub broadcast proof fn lemma_m3(v: u64)
    ensures ((#[trigger] (v & 3)) != 0) == (v & 1 != 0 || v & 2 != 0),
{ assert((v & 3 != 0) == (v & 1 != 0 || v & 2 != 0)) by (bit_vector); }
pub broadcast proof fn lemma_m5(v: u64)
    ensures ((#[trigger] (v & 5)) != 0) == (v & 1 != 0 || v & 4 != 0),
{ assert((v & 5 != 0) == (v & 1 != 0 || v & 4 != 0)) by (bit_vector); }
pub broadcast proof fn lemma_or_consts(a: u64, b: u64)
    requires (a == 1 || a == 2 || a == 4), (b == 1 || b == 2 || b == 4),
    ensures #[trigger] (a | b) == (if a == b { a } else { (a + b) as u64 }),
{ assert((a | b) == (if a == b { a } else { add(a, b) })) by (bit_vector) requires (a == 1 || a == 2 || a == 4), (b == 1 || b == 2 || b == 4); }
/// `impl Hash for &I` hashes the referent
pub broadcast axiom fn axiom_hash_ref<I: ?Sized>(s: VxHState, i: &&I)
    ensures #[trigger] vx_step::<&I>(s, i) == vx_step::<I>(s, *i),
;
}
#[verifier::external_body]
pub fn vx_vec_eq<X: PartialEq>(a: &Vec<X>, b: &Vec<X>) -> (r: bool) ensures r == (a@ == b@), { *a == *b }
#[verifier::external_body]
pub fn vx_generic_eq<X: PartialEq>(a: &X, b: &X) -> (r: bool) ensures r == (*a == *b), { *a == *b }

// ---------------------------------------------------------------- lemmas about real numbers
pub proof fn lemma_rpow_pos(x: real, n: nat)
    requires x > 0.0real,
    ensures rpow(x, n) > 0.0real,
    decreases n,
{
    reveal(rmul);
    if n > 0 {
        lemma_rpow_pos(x, (n - 1) as nat);
        let y = rpow(x, (n - 1) as nat);
        assert(y * x > 0.0real) by (nonlinear_arith) requires y > 0.0real, x > 0.0real;
    }
}
pub proof fn lemma_rpow_ge_one(n: nat)
    ensures rpow(2.0real, n) >= 1.0real,
    decreases n,
{
    reveal(rmul);
    if n > 0 { lemma_rpow_ge_one((n - 1) as nat); }
}
pub proof fn lemma_rpow_add(x: real, a: nat, b: nat)
    ensures rpow(x, a + b) == rmul(rpow(x, a), rpow(x, b)),
    decreases b,
{
    reveal(rmul);
    if b > 0 {
        lemma_rpow_add(x, a, (b - 1) as nat);
        let p = rpow(x, a); let q = rpow(x, (b - 1) as nat);
        assert((p * q) * x == p * (q * x)) by (nonlinear_arith);
    } 
}
/// powers of two, as integers and as reals
pub proof fn lemma_rpow_two(n: nat)
    requires n < 64,
    ensures rpow(2.0real, n) == ((1u64 << (n as u64)) as int) as real, (1u64 << (n as u64)) > 0,
    decreases n,
{
    reveal(rmul);
    let k = n as u64;
    if n == 0 {
        assert(1u64 << k == 1) by (bit_vector) requires k == 0;
    } else {
        lemma_rpow_two((n - 1) as nat);
        assert(1u64 << k == mul(2, 1u64 << sub(k, 1)) && 1u64 << sub(k, 1) < 0x8000_0000_0000_0000) by (bit_vector) requires 0 < k < 64;
    }
}
pub proof fn lemma_two_64()
    ensures rpow(2.0real, 64) == 18446744073709551616.0real,
{
    lemma_rpow_two(32); lemma_rpow_add(2.0real, 32, 32);
    assert(1u64 << 32u64 == 0x1_0000_0000) by (bit_vector);
    let x = rpow(2.0real, 32);
    assert(x == 4294967296.0real);
    assert(rmul(x, x) == 4294967296.0real * 4294967296.0real) by { reveal(rmul); }
}
pub proof fn lemma_rdiv_pos(a: real, b: real)
    requires a > 0.0real, b > 0.0real,
    ensures rdiv(a, b) > 0.0real, rmul(rdiv(a, b), b) == a,
{
    reveal(rdiv); reveal(rmul);
    assert(a / b > 0.0real && (a / b) * b == a) by (nonlinear_arith) requires a > 0.0real, b > 0.0real;
}
/// what is assumed about the exponential function and the natural logarithm
pub axiom fn axiom_exp(x: real, y: real)
    ensures rexp(x) > 0.0real, rexp(x) >= 1.0real + x, rexp(x + y) == rexp(x) * rexp(y), rln(rexp(x)) == x,
;
pub axiom fn axiom_ln(x: real)
    requires x > 0.0real,
    ensures rexp(rln(x)) == x,
;
pub proof fn lemma_ln_bounds(x: real)
    requires x > 0.0real,
    ensures rln(x) <= x - 1.0real, x * rln(x) >= x - 1.0real,
{
    let l = rln(x);
    axiom_ln(x); axiom_exp(l, -l); axiom_exp(-l, 0.0real); axiom_exp(0.0real, 0.0real);
    let e0 = rexp(0.0real);
    assert(e0 == 1.0real) by (nonlinear_arith) requires e0 == e0 * e0, e0 > 0.0real;
    let y = rexp(-l);
    assert(x * y == 1.0real) by { assert(l + (-l) == 0.0real); }
    assert(x * l >= x - 1.0real) by (nonlinear_arith) requires x * y == 1.0real, y >= 1.0real - l, x > 0.0real;
}
/// raising to an integer power, as real and as integer
pub proof fn lemma_rpowf_int(x: real, n: nat)
    requires x > 0.0real,
    ensures rpowf(x, (n as int) as real) == rpow(x, n),
    decreases n,
{
    reveal(rmul);
    let l = rln(x);
    axiom_ln(x);
    if n == 0 {
        axiom_exp(0.0real, 0.0real);
        let e0 = rexp(0.0real);
        assert(e0 == 1.0real) by (nonlinear_arith) requires e0 == e0 * e0, e0 > 0.0real;
        assert(0.0real * l == 0.0real);
    } else {
        lemma_rpowf_int(x, (n - 1) as nat);
        let a = ((n - 1) as int) as real; let b = (n as int) as real;
        assert(b * l == a * l + l) by (nonlinear_arith) requires b == a + 1.0real;
        axiom_exp(a * l, l);
    }
}

pub proof fn lemma_exp_mono(x: real, y: real)
    requires x <= y,
    ensures rexp(x) <= rexp(y), rexp(x) > 0.0real,
{
    let d = y - x;
    axiom_exp(x, d); axiom_exp(d, 0.0real);
    assert(x + d == y);
    let a = rexp(x); let b = rexp(d);
    assert(a <= a * b) by (nonlinear_arith) requires a > 0.0real, b >= 1.0real;
}
pub proof fn lemma_ln_mono(x: real, y: real)
    requires 0.0real < x <= y,
    ensures rln(x) <= rln(y),
{
    axiom_ln(x); axiom_ln(y);
    let d = rln(x) - rln(y);
    if d > 0.0real {
        axiom_exp(rln(y), d); axiom_exp(d, 0.0real);
        assert(rln(y) + d == rln(x));
        let e = rexp(d);
        assert(y * e > y) by (nonlinear_arith) requires y > 0.0real, e > 1.0real;
    }
}
pub proof fn lemma_ln_mul(x: real, y: real)
    requires x > 0.0real, y > 0.0real,
    ensures rln(x * y) == rln(x) + rln(y), x * y > 0.0real,
{
    axiom_ln(x); axiom_ln(y);
    axiom_exp(rln(x), rln(y)); axiom_exp(rln(x) + rln(y), 0.0real);
    assert(x * y > 0.0real) by (nonlinear_arith) requires x > 0.0real, y > 0.0real;
}
pub proof fn lemma_ln_one()
    ensures rln(1.0real) == 0.0real, rexp(0.0real) == 1.0real,
{
    axiom_exp(0.0real, 0.0real);
    let e0 = rexp(0.0real);
    assert(e0 == 1.0real) by (nonlinear_arith) requires e0 == e0 * e0, e0 > 0.0real;
}
pub proof fn lemma_ln_inv(x: real)
    requires x > 0.0real,
    ensures rdiv(1.0real, x) > 0.0real, rln(rdiv(1.0real, x)) == -rln(x),
{
    lemma_rdiv_pos(1.0real, x); reveal(rmul);
    lemma_ln_mul(rdiv(1.0real, x), x); lemma_ln_one();
}
/// the logarithm of two lies between 1/2 and 1
pub proof fn lemma_ln_2()
    ensures 0.5real <= rln(2.0real) <= 1.0real,
{ lemma_ln_bounds(2.0real); }
pub proof fn lemma_ln_sign(x: real)
    requires x > 0.0real,
    ensures x < 1.0real ==> rln(x) < 0.0real, x > 1.0real ==> rln(x) > 0.0real,
{
    lemma_ln_bounds(x); let l = rln(x);
    if x > 1.0real { assert(l > 0.0real) by (nonlinear_arith) requires x * l >= x - 1.0real, x > 1.0real; }
}
/// x is at most 2^k: log2(x) is at most k
pub proof fn lemma_log2_ge(x: real, k: nat)
    requires 0.0real < x <= rpow(2.0real, k),
    ensures rlog2(x) <= (k as int) as real,
{
    lemma_ln_2();
    let l2 = rln(2.0real); let l = rln(x); let kr = (k as int) as real;
    lemma_rpowf_int(2.0real, k); lemma_ln_mono(x, rpow(2.0real, k)); axiom_exp(rmul(kr, l2), 0.0real);
    assert(l <= kr * l2) by { reveal(rmul); }
    assert(rdiv(l, l2) <= kr) by { reveal(rdiv); assert(l / l2 <= kr) by (nonlinear_arith) requires l <= kr * l2, l2 > 0.0real; }
}
pub proof fn lemma_two_40()
    ensures rpow(2.0real, 40) == 1099511627776.0real, rpow(2.0real, 41) == 2199023255552.0real,
{
    lemma_rpow_two(40); lemma_rpow_two(41);
    assert(1u64 << 40u64 == 0x100_0000_0000) by (bit_vector);
    assert(1u64 << 41u64 == 0x200_0000_0000) by (bit_vector);
}
/// an integer above x lies above its rounded value
pub proof fn lemma_ceil_le(x: real, k: int)
    requires x <= k as real,
    ensures rceil(x) <= k as real, rtrunc(rceil(x)) <= k,
{
    lemma_floor(x);
    let b = -((-x).floor());
    assert(b as real <= k as real) by { assert((b as real) - 1.0real < x); assert(b - 1 < k) by { assert((b as real) - 1.0real < k as real); } }
}
pub proof fn lemma_fl(x: real) -> (b: int) ensures b as real <= x < b as real + 1.0real, b == x.floor(), rfloor(x) == b as real { reveal(rfloor); x.floor() }
pub proof fn lemma_fl_int(b: int) ensures (b as real).floor() == b { }
pub proof fn lemma_fl_nint(b: int) ensures (-(b as real)).floor() == -b { let m = -b; assert(m as real == -(b as real)); lemma_fl_int(m); }
pub proof fn lemma_tr_int(b: int) ensures rtrunc(b as real) == b { reveal(rtrunc); lemma_fl_int(b); lemma_fl_nint(b); }
pub proof fn lemma_floor(x: real)
    ensures
        rfloor(x) <= x < rfloor(x) + 1.0real, rfloor(x) == (x.floor()) as real, rtrunc(rfloor(x)) == x.floor(),
        rceil(x) - 1.0real < x <= rceil(x), rceil(x) == -((-x).floor() as real), rtrunc(rceil(x)) == -((-x).floor()),
        rceil(-x) == -rfloor(x), rfloor(-x) == -rceil(x), -(-x) == x,
{
    let y = -x;
    let a = lemma_fl(x); let b = lemma_fl(y);
    lemma_tr_int(a); lemma_tr_int(-b);
    let m = -b; assert(m as real == -(b as real));
    assert(rceil(x) == m as real) by { reveal(rceil); }
    assert(-y == x);
    assert(rceil(y) == -rfloor(x)) by { reveal(rceil); }
}
pub proof fn lemma_up(x: real)
    ensures up(x) < usize::MAX ==> (up(x) as real) >= x, x > 0.0real ==> up(x) >= 1, up(x) > 0 ==> (up(x) as real) < x + 1.0real,
{
    lemma_floor(x);
    let b = -((-x).floor());
    assert(b as real - 1.0real < x <= b as real);
    if x > 0.0real { assert(b >= 1) by { assert(b as real > 0.0real); } }
}
pub proof fn lemma_down(x: real)
    requires x >= 0.0real,
    ensures (down(x) as real) <= x, down(x) < usize::MAX ==> x < (down(x) as real) + 1.0real,
{ lemma_floor(x); }
pub proof fn lemma_rpow_mono(x: real, y: real, n: nat)
    requires 0.0real <= x <= y,
    ensures 0.0real <= rpow(x, n) <= rpow(y, n),
    decreases n,
{
    reveal(rmul);
    if n > 0 {
        lemma_rpow_mono(x, y, (n - 1) as nat);
        let a = rpow(x, (n - 1) as nat); let b = rpow(y, (n - 1) as nat);
        assert(0.0real <= a * x && a * x <= b * y) by (nonlinear_arith) requires 0.0real <= a <= b, 0.0real <= x <= y;
    }
}
/// k hash functions suffice for the probability p while at most half of the bits are set
pub proof fn lemma_half_pow(x: real, k: nat, p: real)
    requires 0.0real < p < 1.0real, 0.0real <= x <= 0.5real, (k as int) as real >= -rlog2(p),
    ensures rpow(x, k) <= p,
{
    lemma_rpow_mono(x, 0.5real, k);
    lemma_rpowf_int(0.5real, k); lemma_ln_2(); axiom_ln(p);
    lemma_ln_inv(2.0real);
    assert(rdiv(1.0real, 2.0real) == 0.5real) by { reveal(rdiv); }
    let l2 = rln(2.0real); let lp = rln(p); let kr = (k as int) as real;
    assert(kr * l2 >= -lp) by { reveal(rdiv); assert(kr * l2 >= -lp) by (nonlinear_arith) requires kr >= -(lp / l2), l2 > 0.0real; }
    assert(rmul(kr, -l2) <= lp) by { reveal(rmul); assert(kr * -l2 == -(kr * l2)) by (nonlinear_arith); }
    lemma_exp_mono(rmul(kr, -l2), lp);
}
/// exponents of a base below one
pub proof fn lemma_rpowf_anti(s: real, x: real, y: real)
    requires 0.0real < s < 1.0real, x <= y,
    ensures rpowf(s, y) <= rpowf(s, x),
{
    lemma_ln_sign(s); reveal(rmul);
    let l = rln(s);
    assert(y * l <= x * l) by (nonlinear_arith) requires l < 0.0real, x <= y;
    lemma_exp_mono(y * l, x * l);
}

/// the smallest probability for which sizes are checked: 2^-64
pub open spec fn tiny() -> real { 1.0real / 18446744073709551616.0real }
pub proof fn lemma_tiny(p: real)
    requires p >= tiny(),
    ensures p > 0.0real, rln(p) >= -64.0real * rln(2.0real), rln(p) >= -64.0real, rlog2(p) >= -64.0real, 0.5real <= rln(2.0real) <= 1.0real,
{
    let t = tiny(); let w = 18446744073709551616.0real; let l2 = rln(2.0real);
    lemma_ln_2(); lemma_two_64(); lemma_rpowf_int(2.0real, 64);
    axiom_exp(rmul(64.0real, l2), 0.0real);
    assert(rln(w) == rmul(64.0real, l2));
    assert(rmul(64.0real, l2) == 64.0real * l2) by { reveal(rmul); }
    lemma_ln_inv(w);
    assert(rdiv(1.0real, w) == t) by { reveal(rdiv); }
    assert(t > 0.0real);
    lemma_ln_mono(t, p);
    let l = rln(p);
    assert(rdiv(l, l2) >= -64.0real) by { reveal(rdiv); assert(l / l2 >= -64.0real) by (nonlinear_arith) requires l >= -64.0real * l2, l2 > 0.0real; }
}
pub proof fn lemma_up_le(x: real, k: int)
    requires x <= k as real, k >= 0,
    ensures up(x) <= k,
{ lemma_ceil_le(x, k); }
/// products of sizes that fit
pub proof fn lemma_prod48()
    ensures forall|a: int, b: int| (0 <= a <= 0x1_0000_0000_0000 && 0 <= b <= 256) || (0 <= b <= 0x1_0000_0000_0000 && 0 <= a <= 256) ==> 0 <= #[trigger] (a * b) <= 0x100_0000_0000_0000,
{
    assert forall|a: int, b: int| (0 <= a <= 0x1_0000_0000_0000 && 0 <= b <= 256) || (0 <= b <= 0x1_0000_0000_0000 && 0 <= a <= 256) implies 0 <= #[trigger] (a * b) <= 0x100_0000_0000_0000 by {
        if 0 <= a <= 0x1_0000_0000_0000 && 0 <= b <= 256 { assert(0 <= a * b <= 0x1_0000_0000_0000 * 256) by (nonlinear_arith) requires 0 <= a <= 0x1_0000_0000_0000, 0 <= b <= 256; }
        else { assert(0 <= a * b <= 0x1_0000_0000_0000 * 256) by (nonlinear_arith) requires 0 <= b <= 0x1_0000_0000_0000, 0 <= a <= 256; }
    }
}
// ---------------------------------------------------------------- for a second attempt at a failed obligation
pub broadcast proof fn wide_ln_inv(x: real)
    requires x > 0.0real,
    ensures #[trigger] rln(rdiv(1.0real, x)) == -rln(x),
{ lemma_ln_inv(x); }
pub broadcast proof fn wide_ceil(x: real)
    ensures rceil(x) - 1.0real < x <= #[trigger] rceil(x), rceil(x) == -rfloor(-x),
{ lemma_floor(-x); lemma_floor(x); }
pub broadcast proof fn wide_floor(x: real)
    ensures #[trigger] rfloor(x) <= x < rfloor(x) + 1.0real, rfloor(x) == -rceil(-x),
{ lemma_floor(-x); lemma_floor(x); }
pub broadcast proof fn wide_trunc(x: real)
    ensures x >= 0.0real ==> #[trigger] rtrunc(x) == rtrunc(rfloor(x)),
{ lemma_floor(x); reveal(rtrunc); }
#[verifier::opaque]
pub open spec fn rinv(x: real) -> real { 1.0real / x }
pub broadcast proof fn wide_div(a: real, b: real)
    requires b != 0.0real,
    ensures #[trigger] rdiv(a, b) == a * rinv(b), b * rinv(b) == 1.0real,
{ reveal(rdiv); reveal(rinv); assert(a / b == a * (1.0real / b) && b * (1.0real / b) == 1.0real) by (nonlinear_arith) requires b != 0.0real; }
pub broadcast proof fn wide_inv(a: real)
    requires a != 0.0real,
    ensures a * #[trigger] rinv(a) == 1.0real, rinv(a) != 0.0real, a > 0.0real ==> rinv(a) > 0.0real, a < 0.0real ==> rinv(a) < 0.0real,
{
    reveal(rinv);
    let b = 1.0real / a;
    assert(a * (1.0real / a) == 1.0real) by (nonlinear_arith) requires a != 0.0real;
    assert(a > 0.0real ==> b > 0.0real) by (nonlinear_arith) requires a * b == 1.0real;
    assert(a < 0.0real ==> b < 0.0real) by (nonlinear_arith) requires a * b == 1.0real;
}
pub broadcast proof fn wide_inv_mul(a: real, b: real)
    requires a != 0.0real, b != 0.0real,
    ensures #[trigger] rinv(rmul(a, b)) == rinv(a) * rinv(b), rmul(a, b) != 0.0real,
{
    reveal(rmul); wide_inv(a); wide_inv(b);
    let c = a * b; let x = rinv(a); let y = rinv(b);
    assert(c != 0.0real) by (nonlinear_arith) requires c == a * b, a != 0.0real, b != 0.0real;
    wide_inv(c);
    let z = rinv(c);
    assert(z == x * y) by (nonlinear_arith) requires c == a * b, c * z == 1.0real, a * x == 1.0real, b * y == 1.0real;
}
pub broadcast proof fn wide_inv_div(a: real, b: real)
    requires a != 0.0real, b != 0.0real,
    ensures #[trigger] rinv(rdiv(a, b)) == b * rinv(a), rdiv(a, b) != 0.0real,
{
    wide_div(a, b); wide_inv(a); wide_inv(b);
    let x = rinv(a); let y = rinv(b); let c = a * y;
    assert(c != 0.0real) by (nonlinear_arith) requires c == a * y, a != 0.0real, y != 0.0real;
    wide_inv(c);
    let z = rinv(c);
    assert(z == b * x) by (nonlinear_arith) requires c == a * y, c * z == 1.0real, a * x == 1.0real, b * y == 1.0real;
}
pub broadcast proof fn wide_inv_neg(a: real, b: real)
    requires a != 0.0real, a == -b,
    ensures #[trigger] rinv(a) == -#[trigger] rinv(b),
{
    wide_inv(a); wide_inv(b);
    let x = rinv(a); let y = rinv(b);
    assert(x == -y) by (nonlinear_arith) requires a * x == 1.0real, b * y == 1.0real, a == -b, a != 0.0real;
}
pub broadcast proof fn wide_exp_neg(x: real)
    ensures #[trigger] rexp(x) == rdiv(1.0real, rexp(-x)), rexp(x) > 0.0real,
{
    axiom_exp(x, -x); axiom_exp(-x, 0.0real); lemma_ln_one(); reveal(rdiv);
    assert(x + (-x) == 0.0real);
    let a = rexp(x); let b = rexp(-x);
    assert(a == 1.0real / b) by (nonlinear_arith) requires a * b == 1.0real, b > 0.0real;
}
pub broadcast proof fn wide_ln_sign(x: real)
    requires x > 0.0real,
    ensures x < 1.0real ==> #[trigger] rln(x) < 0.0real, x > 1.0real ==> rln(x) > 0.0real, x == 1.0real ==> rln(x) == 0.0real,
{ lemma_ln_sign(x); lemma_ln_one(); }
pub broadcast proof fn wide_mod(a: int, b: int)
    requires 0 <= a < b + b,
    ensures #[trigger] (a % b) == (if a < b { a } else { a - b }),
{
    if a < b { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, b as nat); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, 1, a - b); }
}
pub broadcast group group_wide { wide_mod, wide_ln_sign, wide_ln_inv, wide_exp_neg, wide_ceil, wide_floor, wide_trunc, wide_div, wide_inv, wide_inv_mul, wide_inv_div, wide_inv_neg }

// ---------------------------------------------------------------- random numbers
#[verifier::external_body]
pub struct XorShiftRng { x: u64 }
impl Clone for XorShiftRng {
    #[verifier::external_body]
    fn clone(&self) -> Self { XorShiftRng { x: self.x } }
}
impl XorShiftRng {
    #[verifier::external_body]
    pub fn from_entropy() -> XorShiftRng { XorShiftRng { x: 1 } }
    #[verifier::external_body]
    pub fn gen_range(&mut self, lo: usize, hi: usize) -> (r: usize) requires lo < hi, ensures lo <= r < hi, { lo }
    #[verifier::external_body]
    pub fn vx_gen_<A>(&mut self) -> A { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_gen_bool(&mut self) -> bool { true }
    #[verifier::external_body]
    pub fn vx_gen_f64(&mut self) -> f64 { 0.0 }
}
pub mod rand {
    use super::*;
    #[verifier::external_body]
    pub fn thread_rng() -> XorShiftRng { unimplemented!() }
}
/// siphasher::sip::SipHasher
#[derive(Clone, Copy)]
pub struct SipHasher { pub vx: u64 }
pub uninterp spec fn vx_sip(k0: u64, k1: u64) -> SipHasher;
impl SipHasher {
    #[verifier::external_body]
    pub fn new_with_keys(k0: u64, k1: u64) -> (r: SipHasher) ensures r == vx_sip(k0, k1), { SipHasher { vx: k0 ^ k1 } }
}

// ---------------------------------------------------------------- counting trues
pub open spec fn cnt(s: Seq<bool>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { cnt(s.drop_last()) + if s.last() { 1nat } else { 0nat } }
}
pub proof fn lemma_cnt_bound(s: Seq<bool>)
    ensures cnt(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_cnt_bound(s.drop_last()); }
}
pub proof fn lemma_cnt_update(s: Seq<bool>, i: int, b: bool)
    requires 0 <= i < s.len(),
    ensures cnt(s.update(i, b)) == cnt(s) - (if s[i] { 1int } else { 0int }) + (if b { 1int } else { 0int }),
    decreases s.len(),
{
    let t = s.update(i, b);
    if i == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(i, b));
        lemma_cnt_update(s.drop_last(), i, b);
    }
}
pub proof fn lemma_cnt_const(n: nat, b: bool)
    ensures cnt(Seq::new(n, |i: int| b)) == if b { n } else { 0 },
    decreases n,
{
    if n > 0 {
        lemma_cnt_const((n - 1) as nat, b);
        assert(Seq::new(n, |i: int| b).drop_last() =~= Seq::new((n - 1) as nat, |i: int| b));
    }
}
pub proof fn lemma_cnt_push(s: Seq<bool>, b: bool)
    ensures cnt(s.push(b)) == cnt(s) + if b { 1nat } else { 0nat },
{
    assert(s.push(b).drop_last() =~= s);
}
pub proof fn lemma_cnt_not(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == !#[trigger] t[i],
    ensures cnt(s) + cnt(t) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_cnt_not(s.drop_last(), t.drop_last()); assert(s.last() == !t.last()); }
}
pub proof fn lemma_cnt_mono(s: Seq<bool>, t: Seq<bool>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() && s[i] ==> t[i],
    ensures cnt(s) <= cnt(t),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] implies t.drop_last()[i] by { assert(s[i]); }
        lemma_cnt_mono(s.drop_last(), t.drop_last());
    }
}

