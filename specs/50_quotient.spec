=== prelude quotient
/// The table is read periodically: position x stands for slot x mod n.
pub open spec fn sl(s: Seq<u64>, x: int) -> u64 { s[x % (s.len() as int)] }
pub open spec fn sh(s: Seq<u64>, x: int) -> bool { sl(s, x) & 1 != 0 }
pub open spec fn ct(s: Seq<u64>, x: int) -> bool { sl(s, x) & 2 != 0 }
pub open spec fn oc(s: Seq<u64>, x: int) -> bool { sl(s, x) & 4 != 0 }
pub open spec fn us(s: Seq<u64>, x: int) -> bool { sl(s, x) & 7 != 0 }
pub open spec fn rm(s: Seq<u64>, x: int) -> u64 { sl(s, x) >> 3 }
/// the quotient of position x under the displacements d
pub open spec fn qt(d: Seq<int>, x: int) -> int { x - d[x % (d.len() as int)] }
/// the metadata of position x say what the displacements say
pub open spec fn slot_ok(s: Seq<u64>, d: Seq<int>, x: int) -> bool {
    &&& qt(d, x) <= x
    &&& sh(s, x) == (qt(d, x) < x)
    &&& us(s, x) ==> oc(s, qt(d, x))
    &&& ct(s, x) ==> qt(d, x) == qt(d, x - 1) && us(s, x - 1) && rm(s, x - 1) < rm(s, x)
    &&& !ct(s, x) ==> qt(d, x - 1) < qt(d, x) && (forall|t: int| qt(d, x - 1) < t < qt(d, x) ==> !#[trigger] oc(s, t))
}
pub open spec fn valid(s: Seq<u64>, d: Seq<int>) -> bool {
    &&& s.len() >= 2 && d.len() == s.len()
    &&& forall|x: int| #[trigger] slot_ok(s, d, x)
    &&& exists|a: int| #[trigger] qt(d, a) == a
}
/// the table has an entry with quotient q and remainder r
pub open spec fn entry_at(s: Seq<u64>, d: Seq<int>, q: int, r: u64, x: int) -> bool { us(s, x) && qt(d, x) == q && rm(s, x) == r }
pub open spec fn held(s: Seq<u64>, d: Seq<int>, q: int, r: u64) -> bool { exists|x: int| #[trigger] entry_at(s, d, q, r, x) }
/// positions that hold an entry
pub open spec fn useds(s: Seq<u64>) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i] & 7 != 0) }

//@broadcast crate::vx_model::lemma_m6, crate::vx_model::lemma_m3, crate::vx_model::lemma_m5, crate::vx_model::lemma_or_consts
pub proof fn lemma_bits(v: u64)
    ensures (v & 7 != 0) == (v & 1 != 0 || v & 2 != 0 || v & 4 != 0),
{
    assert((v & 7 != 0) == (v & 1 != 0 || v & 2 != 0 || v & 4 != 0)) by (bit_vector);
}
pub proof fn lemma_us(s: Seq<u64>, x: int)
    ensures us(s, x) == (sh(s, x) || ct(s, x) || oc(s, x)),
{
    lemma_bits(sl(s, x));
}
pub proof fn lemma_mod_shift(x: int, j: int, n: int)
    requires n > 0,
    ensures (x + n * j) % n == x % n,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(j, x, n);
    assert(n * j + x == x + n * j);
}
pub proof fn lemma_mod_near(x: int, n: int)
    requires n > 0,
    ensures 0 <= x % n < n, (x + n) % n == x % n, (x - n) % n == x % n, 0 <= x < n ==> x % n == x, n <= x < 2 * n ==> x % n == x - n, -n <= x < 0 ==> x % n == x + n,
{
    lemma_mod_shift(x, 1, n); lemma_mod_shift(x, -1, n);
    assert(n * 1 == n && n * -1 == -n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, n);
    if 0 <= x < n { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, n as nat); }
    if n <= x < 2 * n { vstd::arithmetic::div_mod::lemma_small_mod((x - n) as nat, n as nat); }
    if -n <= x < 0 { vstd::arithmetic::div_mod::lemma_small_mod((x + n) as nat, n as nat); }
}
/// x in terms of its place in the window that starts at b
pub proof fn lemma_window(x: int, b: int, n: int)
    requires n > 0,
    ensures 0 <= (x - b) % n < n, x == b + (x - b) % n + n * ((x - b) / n), (b + (x - b) % n) % n == x % n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x - b, n);
    lemma_mod_near(x - b, n);
    lemma_mod_shift(b + (x - b) % n, (x - b) / n, n);
}
/// the place of x depends on x mod n only
pub proof fn lemma_place(x: int, b: int, n: int)
    requires n > 0,
    ensures (x % n - b) % n == (x - b) % n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    lemma_mod_shift(x % n - b, x / n, n);
}
/// two positions less than n apart stand for different slots
pub proof fn lemma_same_slot(x: int, y: int, n: int)
    requires n > 0, x % n == y % n, -n < x - y < n,
    ensures x == y,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, n);
    let j = x / n - y / n;
    assert(x - y == n * j) by (nonlinear_arith) requires x == n * (x / n) + x % n, y == n * (y / n) + y % n, x % n == y % n, j == x / n - y / n;
    assert(j == 0) by (nonlinear_arith) requires -n < n * j < n, n > 0;
    assert(n * j == 0) by (nonlinear_arith) requires j == 0;
}
pub proof fn lemma_next_mod(x: int, n: int)
    requires n > 0,
    ensures (x + 1) % n == if x % n == n - 1 { 0 } else { x % n + 1 },
        (x - 1) % n == if x % n == 0 { n - 1 } else { x % n - 1 },
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    lemma_mod_near(x, n);
    lemma_mod_shift(x % n + 1, x / n, n); lemma_mod_shift(x % n - 1, x / n, n);
    lemma_mod_near(x % n + 1, n); lemma_mod_near(x % n - 1, n);
}
pub proof fn lemma_sl_shift(s: Seq<u64>, x: int, j: int)
    requires s.len() > 0,
    ensures sl(s, x + s.len() * j) == sl(s, x),
{
    lemma_mod_shift(x, j, s.len() as int);
}
pub proof fn lemma_qt_shift(d: Seq<int>, x: int, j: int)
    requires d.len() > 0,
    ensures qt(d, x + d.len() * j) == qt(d, x) + d.len() * j,
{
    lemma_mod_shift(x, j, d.len() as int);
}
pub proof fn lemma_ok_shift(s: Seq<u64>, d: Seq<int>, x: int, j: int)
    requires s.len() > 0, d.len() == s.len(), slot_ok(s, d, x),
    ensures slot_ok(s, d, x + s.len() * j),
{
    let m = s.len() * j;
    lemma_sl_shift(s, x, j); lemma_sl_shift(s, x - 1, j); lemma_qt_shift(d, x, j); lemma_qt_shift(d, x - 1, j);
    assert(x + m - 1 == x - 1 + m);
    lemma_sl_shift(s, qt(d, x), j);
    if !ct(s, x) {
        assert forall|t: int| qt(d, x + m - 1) < t < qt(d, x + m) implies !#[trigger] oc(s, t) by {
            lemma_sl_shift(s, t - m, j);
            assert(!oc(s, t - m));
        }
    }
}
/// a window of n positions decides the whole table
pub proof fn lemma_all_ok(s: Seq<u64>, d: Seq<int>, b: int)
    requires s.len() > 0, d.len() == s.len(), forall|x: int| b <= x < b + s.len() ==> #[trigger] slot_ok(s, d, x),
    ensures forall|x: int| #[trigger] slot_ok(s, d, x),
{
    let n = s.len() as int;
    assert forall|x: int| #[trigger] slot_ok(s, d, x) by {
        lemma_window(x, b, n);
        assert(slot_ok(s, d, b + (x - b) % n));
        lemma_ok_shift(s, d, b + (x - b) % n, (x - b) / n);
    }
}
pub proof fn lemma_mono(s: Seq<u64>, d: Seq<int>, x: int, y: int)
    requires valid(s, d), x <= y,
    ensures qt(d, x) <= qt(d, y),
    decreases y - x,
{
    if x < y { lemma_mono(s, d, x, y - 1); assert(slot_ok(s, d, y)); }
}
pub proof fn lemma_anchor(s: Seq<u64>, d: Seq<int>, b: int) -> (a: int)
    requires valid(s, d),
    ensures b <= a < b + s.len(), qt(d, a) == a, !sh(s, a), !ct(s, a),
{
    let n = s.len() as int;
    let a0 = choose|a: int| #[trigger] qt(d, a) == a;
    lemma_window(a0, b, n);
    let a = b + (a0 - b) % n;
    lemma_qt_shift(d, a, (a0 - b) / n);
    assert(slot_ok(s, d, a)); assert(slot_ok(s, d, a - 1));
    a
}
/// an unshifted slot starts a cluster or is empty
pub proof fn lemma_unshifted(s: Seq<u64>, d: Seq<int>, a: int)
    requires valid(s, d), !sh(s, a),
    ensures qt(d, a) == a, !ct(s, a), us(s, a) == oc(s, a),
{
    assert(slot_ok(s, d, a)); assert(slot_ok(s, d, a - 1)); lemma_us(s, a);
}
pub proof fn lemma_uniq_at(s: Seq<u64>, d: Seq<int>, f: Seq<int>, a: int, x: int)
    requires valid(s, d), valid(s, f), qt(d, a) == a, qt(f, a) == a, a <= x,
    ensures qt(d, x) == qt(f, x),
    decreases x - a,
{
    if a < x {
        lemma_uniq_at(s, d, f, a, x - 1);
        assert(slot_ok(s, d, x)); assert(slot_ok(s, f, x));
        if !ct(s, x) {
            if !sh(s, x) { } else {
                lemma_us(s, x);
                assert(oc(s, qt(d, x)) && oc(s, qt(f, x)));
            }
        }
    }
}
/// the metadata determine the quotients
pub proof fn lemma_uniq(s: Seq<u64>, d: Seq<int>, f: Seq<int>)
    requires valid(s, d), valid(s, f),
    ensures d == f,
{
    let n = s.len() as int;
    let a = lemma_anchor(s, d, -n);
    assert(slot_ok(s, f, a));
    assert forall|i: int| 0 <= i < n implies d[i] == f[i] by {
        lemma_uniq_at(s, d, f, a, i);
        lemma_mod_near(i, n);
    }
    assert(d =~= f);
}
/// remainders rise along a run
pub proof fn lemma_run(s: Seq<u64>, d: Seq<int>, x: int, y: int)
    requires valid(s, d), x < y, qt(d, x) == qt(d, y),
    ensures ct(s, y), rm(s, x) < rm(s, y),
    decreases y - x,
{
    lemma_mono(s, d, x, y - 1); lemma_mono(s, d, y - 1, y);
    assert(slot_ok(s, d, y));
    if x < y - 1 { lemma_run(s, d, x, y - 1); }
}
/// entries used from quotient q on reach no further than the first empty slot
pub proof fn lemma_stretch(s: Seq<u64>, q: int, y: int, z: int)
    requires s.len() > 0, q <= y, forall|t: int| q <= t < y ==> #[trigger] us(s, t), !us(s, z),
    ensures y < q + s.len(),
{
    let n = s.len() as int;
    if y >= q + n {
        lemma_window(z, q, n);
        assert(us(s, q + (z - q) % n));
    }
}
pub open spec fn has_empty(s: Seq<u64>) -> bool { exists|z: int| !#[trigger] us(s, z) }
pub proof fn lemma_has_empty(s: Seq<u64>)
    requires cnt(useds(s)) < s.len(),
    ensures has_empty(s),
{
    let n = s.len();
    if forall|z: int| 0 <= z < n ==> #[trigger] us(s, z) {
        assert forall|i: int| 0 <= i < n implies useds(s)[i] == Seq::new(n, |i: int| true)[i] by { assert(us(s, i)); lemma_mod_near(i, n as int); }
        assert(useds(s) =~= Seq::new(n, |i: int| true));
        lemma_cnt_const(n, true);
    }
}

// ---------------------------------------------------------------- counting runs
/// runs starting in [a, y]
pub open spec fn runs(s: Seq<u64>, a: int, y: int) -> int
    decreases y - a + 1,
{
    if y < a { 0 } else { runs(s, a, y - 1) + if ct(s, y) { 0int } else { 1int } }
}
/// occupied quotients in [a, y]
pub open spec fn occs(s: Seq<u64>, a: int, y: int) -> int
    decreases y - a + 1,
{
    if y < a { 0 } else { occs(s, a, y - 1) + if oc(s, y) { 1int } else { 0int } }
}
pub proof fn lemma_occs_mono(s: Seq<u64>, a: int, x: int, y: int)
    requires x <= y,
    ensures 0 <= occs(s, a, x) <= occs(s, a, y), y >= a - 1 ==> occs(s, a, y) <= y - a + 1, oc(s, y) && x < y && a <= y ==> occs(s, a, x) < occs(s, a, y),
    decreases y - a + 1,
{
    if y >= a { if x < y { lemma_occs_mono(s, a, x, y - 1); } else { lemma_occs_mono(s, a, x - 1, x - 1); } }
}
pub proof fn lemma_runs_mono(s: Seq<u64>, a: int, x: int, y: int)
    requires x <= y,
    ensures 0 <= runs(s, a, x) <= runs(s, a, y), y >= a - 1 ==> runs(s, a, y) <= y - a + 1,
    decreases y - a + 1,
{
    if y >= a { if x < y { lemma_runs_mono(s, a, x, y - 1); } else { lemma_runs_mono(s, a, x - 1, x - 1); } }
}
/// no occupied quotient in between
pub proof fn lemma_occs_gap(s: Seq<u64>, a: int, x: int, y: int)
    requires x <= y, forall|t: int| x < t <= y ==> !#[trigger] oc(s, t),
    ensures occs(s, a, x) == occs(s, a, y),
    decreases y - x,
{
    if x < y { lemma_occs_gap(s, a, x, y - 1); assert(!oc(s, y)); }
}
pub proof fn lemma_occs_split(s: Seq<u64>, a: int, b: int, y: int)
    requires a - 1 <= b <= y,
    ensures occs(s, a, y) == occs(s, a, b) + occs(s, b + 1, y),
    decreases y - b,
{
    if b < y { lemma_occs_split(s, a, b, y - 1); }
}
/// in a cluster the runs are in the order of the occupied quotients
pub proof fn lemma_runs_occs(s: Seq<u64>, d: Seq<int>, a: int, y: int)
    requires valid(s, d), qt(d, a) == a, a <= y, forall|t: int| a <= t <= y ==> #[trigger] us(s, t),
    ensures runs(s, a, y) == occs(s, a, qt(d, y)), qt(d, y) >= a, oc(s, qt(d, y)),
    decreases y - a,
{
    assert(us(s, y)); assert(slot_ok(s, d, y));
    lemma_mono(s, d, a, y);
    if a < y {
        lemma_runs_occs(s, d, a, y - 1);
        if !ct(s, y) { lemma_occs_gap(s, a, qt(d, y - 1), qt(d, y) - 1); }
    } else {
        lemma_unshifted(s, d, a);
        assert(runs(s, a, a - 1) == 0); assert(occs(s, a, a - 1) == 0);
    }
}
/// what `get_run_start(q)` finds: a the start of the cluster of q, x the slot where the runs counted from a reach the quotients counted up to q
pub open spec fn run_at(s: Seq<u64>, q: int, a: int, x: int) -> bool {
    &&& q - s.len() < a <= q && a <= x < a + s.len()
    &&& !sh(s, a)
    &&& forall|t: int| a < t <= q ==> #[trigger] sh(s, t)
    &&& runs(s, a, x) == occs(s, a, q)
    &&& forall|t: int| a <= t < x ==> #[trigger] runs(s, a, t) < occs(s, a, q)
}
/// p is s with the occupied bit of q set
pub open spec fn marked(s: Seq<u64>, p: Seq<u64>, q: int) -> bool {
    &&& p.len() == s.len()
    &&& forall|x: int| #[trigger] sh(p, x) == sh(s, x)
    &&& forall|x: int| #[trigger] ct(p, x) == ct(s, x)
    &&& forall|x: int| #[trigger] oc(p, x) == (oc(s, x) || (x - q) % (s.len() as int) == 0)
}
pub proof fn lemma_marked_counts(s: Seq<u64>, p: Seq<u64>, q: int, a: int, y: int)
    requires marked(s, p, q), q - s.len() < a <= q, y < q + s.len(), s.len() > 0,
    ensures runs(p, a, y) == runs(s, a, y), occs(p, a, y) == occs(s, a, y) + if y >= q && !oc(s, q) { 1int } else { 0int },
    decreases y - a + 1,
{
    if y >= a {
        lemma_marked_counts(s, p, q, a, y - 1);
        assert(ct(p, y) == ct(s, y));
        let n = s.len() as int;
        lemma_mod_near(y - q, n);
        assert(oc(p, y) == (oc(s, y) || (y - q) % n == 0));
    }
}
/// the place of the run of quotient q: everything from the cluster start to x belongs to smaller quotients
pub open spec fn placed(s: Seq<u64>, d: Seq<int>, q: int, a: int, x: int) -> bool {
    &&& q - s.len() < a <= q && a <= x && q <= x
    &&& qt(d, a) == a
    &&& forall|t: int| a <= t < x ==> #[trigger] us(s, t)
    &&& forall|t: int| a <= t < x ==> #[trigger] qt(d, t) < q
    &&& !ct(s, x) && q <= qt(d, x) && qt(d, x - 1) < q
    &&& oc(s, q) ==> qt(d, x) == q && us(s, x)
}
pub proof fn lemma_first_from(s: Seq<u64>, d: Seq<int>, q: int, a: int, y: int) -> (x: int)
    requires valid(s, d), a <= y, qt(d, a) == a, a <= q, qt(d, y) >= q,
    ensures a <= x <= y, qt(d, x) >= q, forall|t: int| a <= t < x ==> #[trigger] qt(d, t) < q,
    decreases y - a,
{
    if y == a { y } else if qt(d, y - 1) >= q { lemma_first_from(s, d, q, a, y - 1) } else {
        assert forall|t: int| a <= t < y implies #[trigger] qt(d, t) < q by { lemma_mono(s, d, t, y - 1); }
        y
    }
}
/// the counts locate the run of q, whether it is there or about to be made
pub proof fn lemma_locate(s: Seq<u64>, d: Seq<int>, p: Seq<u64>, q: int, a: int) -> (x: int)
    requires valid(s, d), marked(s, p, q), oc(s, q) || (us(s, q) && has_empty(s)),
        q - s.len() < a <= q, !sh(s, a), forall|t: int| a < t <= q ==> #[trigger] sh(s, t),
    ensures run_at(p, q, a, x), placed(s, d, q, a, x),
{
    let n = s.len() as int;
    lemma_unshifted(s, d, a);
    lemma_qt_shift(d, a, 1); assert(n * 1 == n);
    // everything from a to q is in use
    assert forall|t: int| a <= t <= q implies #[trigger] us(s, t) by {
        if t == a {
            if a < q {
                assert(sh(s, a + 1)); assert(slot_ok(s, d, a + 1)); lemma_us(s, a + 1);
                lemma_mono(s, d, a, a + 1);
            } else { lemma_us(s, q); }
        } else { assert(sh(s, t)); lemma_us(s, t); }
    }
    assert(qt(d, a + n) == a + n);
    let x = lemma_first_from(s, d, q, a, a + n);
    assert(slot_ok(s, d, x)); assert(slot_ok(s, d, x - 1)); assert(slot_ok(s, d, q));
    if x == a { assert(q == a); }
    assert forall|t: int| a <= t < x implies #[trigger] us(s, t) by {
        if !us(s, t) { lemma_us(s, t); lemma_unshifted(s, d, t); assert(qt(d, t) < q); assert(us(s, t)); }
    }
    if x < q { lemma_mono(s, d, x, q); }
    if ct(s, x) { if x == a { } else { assert(qt(d, x - 1) < q); } }
    if x > a { assert(qt(d, x - 1) < q); }
    if oc(s, q) {
        if qt(d, x) > q { assert(!oc(s, q)); }
        lemma_us(s, x);
        if !us(s, x) { lemma_unshifted(s, d, x); }
        if x == a + n { }
    } else {
        let z = choose|z: int| !#[trigger] us(s, z);
        if x == a + n {
            lemma_window(z, a, n);
            assert(us(s, a + (z - a) % n));
        }
    }
    assert(x < a + n);
    // the counts
    lemma_marked_counts(s, p, q, a, q);
    assert(runs(s, a, x) == occs(p, a, q)) by {
        if x > a {
            assert forall|t: int| a <= t <= x - 1 implies #[trigger] us(s, t) by {}
            lemma_runs_occs(s, d, a, x - 1);
            lemma_occs_gap(s, a, qt(d, x - 1), q - 1);
        } else {
            assert(runs(s, a, a - 1) == 0); assert(occs(s, a, a - 1) == 0);
        }
    }
    assert(x < q + n);
    lemma_marked_counts(s, p, q, a, x);
    assert forall|t: int| a <= t < x implies #[trigger] runs(p, a, t) < occs(p, a, q) by {
        lemma_marked_counts(s, p, q, a, t);
        lemma_runs_mono(s, a, t, x - 1);
    }
    assert(sh(p, a) == sh(s, a));
    assert forall|t: int| a < t <= q implies #[trigger] sh(p, t) by { assert(sh(s, t)); }
    x
}
/// the slot found is unique
pub proof fn lemma_run_at_uniq(s: Seq<u64>, q: int, a: int, x: int, b: int, y: int)
    requires run_at(s, q, a, x), run_at(s, q, b, y),
    ensures a == b, x == y,
{
    if a < b { assert(sh(s, b)); }
    if b < a { assert(sh(s, a)); }
    if x < y { assert(runs(s, a, x) < occs(s, a, q)); }
    if y < x { assert(runs(s, a, y) < occs(s, a, q)); }
}

// ---------------------------------------------------------------- insertion
pub open spec fn ins_d(d: Seq<int>, q: int, y: int, z: int) -> Seq<int> {
    let n = d.len() as int;
    Seq::new(d.len(), |i: int| if (i - y) % n == 0 { y - q } else if (i - y) % n <= z { d[(i - 1) % n] + 1 } else { d[i] })
}
pub proof fn lemma_ins_qt(d: Seq<int>, q: int, y: int, z: int, x: int)
    requires d.len() > 0,
    ensures
        ins_d(d, q, y, z).len() == d.len(),
        (x - y) % (d.len() as int) == 0 ==> qt(ins_d(d, q, y, z), x) == x - (y - q),
        0 < (x - y) % (d.len() as int) <= z ==> qt(ins_d(d, q, y, z), x) == qt(d, x - 1),
        (x - y) % (d.len() as int) != 0 && (x - y) % (d.len() as int) > z ==> qt(ins_d(d, q, y, z), x) == qt(d, x),
{
    let n = d.len() as int;
    lemma_mod_near(x, n); lemma_place(x, y, n); lemma_place(x, 1, n);
}
/// where the entry goes: a new run, the front of the run, later in the run
pub open spec fn ins_new(s: Seq<u64>, d: Seq<int>, q: int, y: int) -> bool { !oc(s, q) && !ct(s, y) && qt(d, y - 1) < q <= qt(d, y) }
pub open spec fn ins_front(s: Seq<u64>, d: Seq<int>, q: int, y: int, r: u64) -> bool { !ct(s, y) && us(s, y) && qt(d, y) == q && r < rm(s, y) }
pub open spec fn ins_later(s: Seq<u64>, d: Seq<int>, q: int, y: int, r: u64) -> bool {
    us(s, y - 1) && qt(d, y - 1) == q && rm(s, y - 1) < r && (ct(s, y) ==> r < rm(s, y))
}
/// t is s with an entry for quotient q and remainder r put at y and the z entries from there on moved up by one
pub open spec fn inserted(s: Seq<u64>, t: Seq<u64>, q: int, r: u64, y: int, z: int, front: bool, later: bool) -> bool {
    let n = s.len() as int;
    &&& t.len() == s.len()
    &&& forall|x: int| #[trigger] oc(t, x) == (oc(s, x) || (x - q) % n == 0)
    &&& sh(t, y) == (y != q) && ct(t, y) == later && rm(t, y) == r
    &&& forall|x: int| y < x <= y + z ==> #[trigger] sh(t, x)
    &&& forall|x: int| y < x <= y + z ==> #[trigger] ct(t, x) == (ct(s, x - 1) || (front && x == y + 1))
    &&& forall|x: int| y < x <= y + z ==> #[trigger] rm(t, x) == rm(s, x - 1)
    &&& forall|x: int| y + z < x < y + n ==> #[trigger] sh(t, x) == sh(s, x)
    &&& forall|x: int| y + z < x < y + n ==> #[trigger] ct(t, x) == ct(s, x)
    &&& forall|x: int| y + z < x < y + n ==> #[trigger] rm(t, x) == rm(s, x)
}
pub open spec fn ins_pre(s: Seq<u64>, d: Seq<int>, q: int, r: u64, y: int, z: int, front: bool, later: bool) -> bool {
    &&& valid(s, d)
    &&& q <= y && 0 <= z && y + z < q + s.len()
    &&& forall|x: int| q <= x < y ==> #[trigger] us(s, x)
    &&& forall|x: int| y <= x < y + z ==> #[trigger] us(s, x)
    &&& !us(s, y + z)
    &&& if front { !later && ins_front(s, d, q, y, r) } else if later { ins_later(s, d, q, y, r) } else { ins_new(s, d, q, y) }
}
pub proof fn lemma_insert_ok(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, r: u64, y: int, z: int, front: bool, later: bool, x: int)
    requires ins_pre(s, d, q, r, y, z, front, later), inserted(s, t, q, r, y, z, front, later), y <= x < y + s.len(),
    ensures slot_ok(t, ins_d(d, q, y, z), x), us(t, x) == (us(s, x) || x == y + z),
{
    let n = s.len() as int; let f = ins_d(d, q, y, z);
    lemma_ins_qt(d, q, y, z, x); lemma_ins_qt(d, q, y, z, x - 1);
    lemma_mod_near(x - y, n); lemma_mod_near(x - 1 - y, n);
    lemma_us(s, x); lemma_us(t, x); lemma_us(s, x - 1); lemma_us(t, x - 1); lemma_us(s, y + z);
    lemma_us(t, y); lemma_us(s, y);
    assert(slot_ok(s, d, x)); assert(slot_ok(s, d, x - 1)); assert(slot_ok(s, d, y)); assert(slot_ok(s, d, y - 1)); assert(slot_ok(s, d, y + z));
    lemma_qt_shift(d, y - 1, 1); assert(n * 1 == n); assert(y - 1 + n == y + n - 1);
    lemma_sl_shift(s, y - 1, 1); lemma_sl_shift(t, y - 1, 1);
    lemma_mono(s, d, x, y + n - 1);
    // the new entry is in use
    assert(oc(t, q)) by { lemma_mod_near(0, n); }
    // quotients near q
    let a = lemma_anchor(s, d, y - n);
    lemma_mono(s, d, a, y - 1);
    assert(qt(d, y - 1) >= q - n);
    assert forall|u: int| q - n < u < q + n implies oc(t, u) == (oc(s, u) || u == q) by { lemma_mod_near(u - q, n); }
    if front || later {
        assert(oc(s, q));
        assert forall|u: int| oc(t, u) == oc(s, u) by {
            if (u - q) % n == 0 {
                lemma_window(u, q, n);
                assert(sl(s, u) == sl(s, q));
            }
        }
    }
    // the empty slot that is filled
    lemma_unshifted(s, d, y + z);
    if x == y {
        if z == n - 1 {
            assert(!us(s, y - 1));
            assert(y == q);
            assert(slot_ok(s, d, y - 1)); assert(slot_ok(s, d, y - 2));
            lemma_unshifted(s, d, y - 1);
            assert(qt(d, y) > y - 1);
            assert(front);
            assert(qt(f, y - 1) == qt(d, y - 2));
            assert(slot_ok(t, f, x));
        } else {
            assert(qt(f, y - 1) == qt(d, y - 1));
            assert(us(t, y));
            if later {
                assert(us(s, y - 1));
                assert(sl(s, y - 1) == sl(s, y + n - 1));
                assert(us(s, y + n - 1)); lemma_us(s, y + n - 1); lemma_us(t, y + n - 1);
                assert(sh(t, y + n - 1) == sh(s, y + n - 1)); assert(ct(t, y + n - 1) == ct(s, y + n - 1)); assert(rm(t, y + n - 1) == rm(s, y + n - 1));
                assert(oc(t, y + n - 1) == oc(s, y + n - 1));
                assert(us(t, y - 1));
                assert(rm(t, y - 1) == rm(s, y - 1));
            }
            assert(slot_ok(t, f, x));
        }
    } else if x <= y + z {
        assert(us(s, x - 1)); lemma_us(s, x - 2); lemma_us(t, x - 2);
        assert(slot_ok(s, d, x - 2));
        assert(sh(t, x));
        if x == y + 1 {
            assert(qt(f, x) == qt(d, y)); assert(qt(f, x - 1) == q);
            assert(slot_ok(t, f, x));
        } else {
            assert(qt(f, x - 1) == qt(d, x - 2));
            lemma_mono(s, d, y, x - 2);
            assert(us(t, x - 1)) by { assert(sh(t, x - 1)); }
            assert(rm(t, x - 1) == rm(s, x - 2));
            assert(slot_ok(t, f, x));
        }
    } else {
        assert(qt(f, x) == qt(d, x));
        assert(us(t, x) == us(s, x)) by {
            assert(sh(t, x) == sh(s, x)); assert(ct(t, x) == ct(s, x));
            lemma_mod_near(x - q, n);
            if (x - q) % n == 0 && !oc(s, x) {
                lemma_window(x, q, n); lemma_same_slot(x, q + n, n); 
                assert(us(s, q));
                lemma_sl_shift(s, q, 1);
            }
        }
        if x == y + z + 1 {
            assert(!ct(s, x));
            if z == 0 {
                assert(qt(f, x - 1) == q);
            } else {
                assert(qt(f, x - 1) == qt(d, x - 2));
                assert(slot_ok(s, d, x - 2)); assert(us(s, x - 2));
                lemma_mono(s, d, y, x - 2);
            }
            assert(slot_ok(t, f, x));
        } else {
            assert(qt(f, x - 1) == qt(d, x - 1));
            assert(us(t, x - 1) == us(s, x - 1));
            lemma_mono(s, d, y, x - 1);
            assert(slot_ok(t, f, x));
        }
    }
}
pub proof fn lemma_insert_qt_place(y: int, x: int, n: int)
    requires n > 1,
    ensures 0 <= (x - y) % n < n,
        (x - y) % n != 0 ==> (x - 1 - y) % n == (x - y) % n - 1,
        (x - y) % n == 0 ==> (x - 1 - y) % n == n - 1,
        (x - y) % n != n - 1 ==> (x + 1 - y) % n == (x - y) % n + 1,
{
    lemma_mod_near(x - y, n);
    lemma_next_mod(x - y, n);
}
/// slot x of the new table, in the window of y
pub proof fn lemma_ins_entry(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, r: u64, y: int, z: int, front: bool, later: bool, p: int, u: u64, x: int)
    requires ins_pre(s, d, q, r, y, z, front, later), inserted(s, t, q, r, y, z, front, later), 0 <= q < s.len(), 0 <= p < s.len(),
        entry_at(t, ins_d(d, q, y, z), p, u, x),
    ensures held(s, d, p, u) || (p == q && u == r),
{
    let n = s.len() as int; let f = ins_d(d, q, y, z);
    lemma_window(x, y, n); lemma_ins_qt(d, q, y, z, x); lemma_insert_qt_place(y, x, n);
    let k = (x - y) % n; let v = y + k; let j = (x - y) / n;
    lemma_insert_ok(s, d, t, q, r, y, z, front, later, v);
    assert(sl(t, x) == sl(t, v) && sl(s, x) == sl(s, v));
    if k == 0 {
        assert(x == y + n * j);
        assert(p == q + n * j);
        assert(j == 0) by (nonlinear_arith) requires p == q + n * j, 0 <= p < n, 0 <= q < n;
    } else if k <= z {
        lemma_mod_shift(v - 1, j, n);
        assert(v - 1 + n * j == x - 1);
        assert(rm(t, v) == rm(s, v - 1)); assert(us(s, v - 1));
        assert(entry_at(s, d, p, u, x - 1));
    } else {
        assert(rm(t, v) == rm(s, v));
        assert(entry_at(s, d, p, u, x));
    }
}
pub proof fn lemma_ins_entry_back(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, r: u64, y: int, z: int, front: bool, later: bool, p: int, u: u64, x: int)
    requires ins_pre(s, d, q, r, y, z, front, later), inserted(s, t, q, r, y, z, front, later), 0 <= q < s.len(), 0 <= p < s.len(),
        entry_at(s, d, p, u, x),
    ensures held(t, ins_d(d, q, y, z), p, u),
{
    let n = s.len() as int; let f = ins_d(d, q, y, z);
    lemma_window(x, y, n); lemma_insert_qt_place(y, x, n);
    let k = (x - y) % n; let v = y + k; let j = (x - y) / n;
    assert(sl(s, x) == sl(s, v));
    if k < z {
        lemma_ins_qt(d, q, y, z, x + 1);
        lemma_insert_ok(s, d, t, q, r, y, z, front, later, v + 1);
        assert(us(s, v + 1) || v + 1 == y + z);
        lemma_mod_shift(v + 1, j, n);
        assert(v + 1 + n * j == x + 1);
        assert(rm(t, v + 1) == rm(s, v));
        assert(entry_at(t, f, p, u, x + 1));
    } else {
        lemma_insert_ok(s, d, t, q, r, y, z, front, later, v);
        assert(v != y + z);
        lemma_ins_qt(d, q, y, z, x);
        assert(rm(t, v) == rm(s, v));
        assert(entry_at(t, f, p, u, x));
    }
}
/// a new entry and nothing else
pub proof fn lemma_insert(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, r: u64, y: int, z: int, front: bool, later: bool)
    requires ins_pre(s, d, q, r, y, z, front, later), inserted(s, t, q, r, y, z, front, later), 0 <= q < s.len(),
    ensures valid(t, ins_d(d, q, y, z)), useds(t) == useds(s).update((y + z) % (s.len() as int), true), useds(s)[(y + z) % (s.len() as int)] == false,
        forall|p: int, u: u64| 0 <= p < s.len() ==> #[trigger] held(t, ins_d(d, q, y, z), p, u) == (held(s, d, p, u) || (p == q && u == r)),
{
    let n = s.len() as int; let f = ins_d(d, q, y, z);
    assert forall|x: int| y <= x < y + n implies #[trigger] slot_ok(t, f, x) by { lemma_insert_ok(s, d, t, q, r, y, z, front, later, x); }
    lemma_ins_qt(d, q, y, z, y);
    lemma_all_ok(t, f, y);
    lemma_mod_near(0, n);
    assert(exists|b: int| #[trigger] qt(f, b) == b) by {
        if y == q { assert(qt(f, y) == y); } else {
            // the slot after the empty one
            lemma_us(s, y + z); lemma_unshifted(s, d, y + z);
            assert(slot_ok(s, d, y + z + 1)); assert(slot_ok(s, d, y + z));
            lemma_ins_qt(d, q, y, z, y + z + 1); lemma_mod_near(z + 1, n);
            assert(qt(f, y + z + 1) == y + z + 1);
        }
    }
    assert forall|i: int| 0 <= i < n implies useds(t)[i] == useds(s).update((y + z) % n, true)[i] by {
        lemma_window(i, y, n);
        let x = y + (i - y) % n;
        lemma_insert_ok(s, d, t, q, r, y, z, front, later, x);
        lemma_mod_near(i, n);
        if i == (y + z) % n { lemma_same_slot(x, y + z, n); }
        assert(sl(s, x) == s[i] && sl(t, x) == t[i]);
    }
    lemma_mod_near(y + z, n);
    assert(useds(t) =~= useds(s).update((y + z) % n, true));
    assert forall|p: int, u: u64| 0 <= p < n implies #[trigger] held(t, f, p, u) == (held(s, d, p, u) || (p == q && u == r)) by {
        if held(t, f, p, u) {
            let x = choose|x: int| #[trigger] entry_at(t, f, p, u, x);
            lemma_ins_entry(s, d, t, q, r, y, z, front, later, p, u, x);
        }
        if p == q && u == r {
            lemma_insert_ok(s, d, t, q, r, y, z, front, later, y);
            assert(us(t, y)) by { lemma_us(t, y); lemma_mod_near(0, n); assert(oc(t, q)); }
            assert(entry_at(t, f, p, u, y));
        } else if held(s, d, p, u) {
            let x = choose|x: int| #[trigger] entry_at(s, d, p, u, x);
            lemma_ins_entry_back(s, d, t, q, r, y, z, front, later, p, u, x);
        }
    }
}

// ---------------------------------------------------------------- removal
pub open spec fn rem_d(d: Seq<int>, y: int, w: int) -> Seq<int> {
    let n = d.len() as int;
    Seq::new(d.len(), |i: int| if (i - y) % n < w - y { d[(i + 1) % n] - 1 } else if (i - y) % n == w - y { 0 } else { d[i] })
}
pub proof fn lemma_rem_qt(d: Seq<int>, y: int, w: int, x: int)
    requires d.len() > 0,
    ensures
        rem_d(d, y, w).len() == d.len(),
        (x - y) % (d.len() as int) < w - y ==> qt(rem_d(d, y, w), x) == qt(d, x + 1),
        (x - y) % (d.len() as int) == w - y ==> qt(rem_d(d, y, w), x) == x,
        (x - y) % (d.len() as int) > w - y ==> qt(rem_d(d, y, w), x) == qt(d, x),
{
    let n = d.len() as int;
    lemma_mod_near(x, n); lemma_place(x, y, n); lemma_place(x, -1, n);
}
/// the entry at y is the only one of its run
pub open spec fn single(s: Seq<u64>, y: int) -> bool { !ct(s, y) && !ct(s, y + 1) }
/// t is s without the entry at y, the entries up to w moved down by one
pub open spec fn removed(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, w: int) -> bool {
    let n = s.len() as int;
    &&& t.len() == s.len()
    &&& forall|x: int| y <= x < y + n && x != w ==> #[trigger] oc(t, x) == (oc(s, x) && !(single(s, y) && (x - q) % n == 0))
    &&& sl(t, w) == 0
    &&& forall|x: int| y <= x < w ==> #[trigger] sh(t, x) == (qt(d, x + 1) < x)
    &&& forall|x: int| y <= x < w ==> #[trigger] ct(t, x) == (ct(s, x + 1) && !(x == y && !ct(s, y)))
    &&& forall|x: int| y <= x < w ==> #[trigger] rm(t, x) == rm(s, x + 1)
    &&& forall|x: int| w < x < y + n ==> #[trigger] sh(t, x) == sh(s, x)
    &&& forall|x: int| w < x < y + n ==> #[trigger] ct(t, x) == ct(s, x)
    &&& forall|x: int| w < x < y + n ==> #[trigger] rm(t, x) == rm(s, x)
}
pub open spec fn moved(s: Seq<u64>, x: int) -> bool { sh(s, x) || ct(s, x) }
pub open spec fn rem_pre(s: Seq<u64>, d: Seq<int>, q: int, y: int, w: int) -> bool {
    &&& valid(s, d)
    &&& us(s, y) && qt(d, y) == q && y <= w
    &&& forall|x: int| y < x <= w ==> #[trigger] moved(s, x)
    &&& !moved(s, w + 1)
}
pub proof fn lemma_rem_bounds(s: Seq<u64>, d: Seq<int>, q: int, y: int, w: int)
    requires valid(s, d), us(s, y), qt(d, y) == q, y <= w, forall|x: int| y < x <= w ==> #[trigger] moved(s, x),
    ensures w < y + s.len(), y - s.len() < q <= y, oc(s, q), w == y + s.len() - 1 ==> q == y && !ct(s, y),
{
    let n = s.len() as int;
    let a = lemma_anchor(s, d, y + 1);
    if w >= y + n { assert(moved(s, a)); }
    let b = lemma_anchor(s, d, y - n + 1);
    lemma_mono(s, d, b, y);
    assert(slot_ok(s, d, y));
    if w == y + n - 1 {
        if a <= w { assert(moved(s, a)); }
        assert(a == y + n);
        lemma_qt_shift(d, y, 1); assert(n * 1 == n);
        lemma_sl_shift(s, y, 1);
    }
}
/// no other position has the quotient of a run of one
pub proof fn lemma_single(s: Seq<u64>, d: Seq<int>, q: int, y: int, x: int)
    requires valid(s, d), us(s, y), qt(d, y) == q, single(s, y), qt(d, x) == q,
    ensures x == y,
{
    assert(slot_ok(s, d, y)); assert(slot_ok(s, d, y + 1));
    if x < y { lemma_mono(s, d, x, y - 1); }
    if x > y { lemma_mono(s, d, y + 1, x); }
}
/// the occupied bit of the last slot moved goes with its run
pub proof fn lemma_rem_last(s: Seq<u64>, d: Seq<int>, q: int, y: int, w: int)
    requires rem_pre(s, d, q, y, w),
    ensures oc(s, w) ==> single(s, y) && w == q && w == y, qt(d, w + 1) == w + 1, y < w ==> qt(d, w) < w,
{
    lemma_unshifted(s, d, w + 1); lemma_us(s, w);
    assert(slot_ok(s, d, w + 1)); assert(slot_ok(s, d, w)); assert(slot_ok(s, d, w - 1)); assert(slot_ok(s, d, y));
    if w > y { assert(moved(s, w)); }
}
pub proof fn lemma_remove_ok(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, w: int, x: int)
    requires rem_pre(s, d, q, y, w), removed(s, d, t, q, y, w), y <= x < y + s.len(),
    ensures slot_ok(t, rem_d(d, y, w), x), us(t, x) == (us(s, x) && x != w), y < x <= w ==> us(s, x), us(s, x) && x != y && single(s, y) ==> (qt(d, x) - q) % (s.len() as int) != 0,
{
    let n = s.len() as int; let f = rem_d(d, y, w);
    lemma_rem_bounds(s, d, q, y, w); lemma_rem_last(s, d, q, y, w);
    lemma_rem_qt(d, y, w, x); lemma_rem_qt(d, y, w, x - 1);
    lemma_mod_near(x - y, n); lemma_mod_near(x - 1 - y, n);
    lemma_us(s, x); lemma_us(t, x); lemma_us(s, x - 1); lemma_us(t, x - 1); lemma_us(s, x + 1); lemma_us(s, y); lemma_us(s, w); lemma_us(t, w);
    assert(slot_ok(s, d, x)); assert(slot_ok(s, d, x - 1)); assert(slot_ok(s, d, x + 1)); assert(slot_ok(s, d, y)); assert(slot_ok(s, d, y - 1)); assert(slot_ok(s, d, y + 1));
    assert(slot_ok(s, d, w)); assert(slot_ok(s, d, w + 1));
    lemma_qt_shift(d, y - 1, 1); assert(n * 1 == n); assert(y - 1 + n == y + n - 1);
    lemma_sl_shift(s, y - 1, 1); lemma_sl_shift(t, y - 1, 1);
    assert(0u64 & 1 == 0 && 0u64 & 2 == 0 && 0u64 & 4 == 0 && 0u64 & 7 == 0) by (bit_vector);
    // occupied quotients of the new table
    let one = single(s, y);
    assert forall|u: int| #[trigger] oc(t, u) == (oc(s, u) && !(one && (u - q) % n == 0)) by {
        lemma_window(u, y, n);
        let v = y + (u - y) % n; let j = (u - y) / n;
        lemma_mod_shift(v - q, j, n);
        assert(v - q + n * j == u - q);
        assert(sl(s, v) == sl(s, u) && sl(t, v) == sl(t, u));
        if v == w {
            lemma_mod_near(0, n);
        } else { assert(oc(t, v) == (oc(s, v) && !(one && (v - q) % n == 0))); }
    }
    // in use, and the quotient goes on being occupied unless it is the one removed
    assert forall|v: int| y <= v < y + n && v != y && one && us(s, v) implies (#[trigger] qt(d, v) - q) % n != 0 by {
        if (qt(d, v) - q) % n == 0 {
            lemma_window(qt(d, v), q, n);
            let j = (qt(d, v) - q) / n;
            lemma_qt_shift(d, v, -j);
            assert(n * -j == -(n * j)) by (nonlinear_arith);
            lemma_single(s, d, q, y, v - n * j);
            assert(v - y == n * j);
            assert(j == 0) by (nonlinear_arith) requires 0 <= n * j < n, n > 0;
            assert(n * j == 0) by (nonlinear_arith) requires j == 0;
        }
    }
    if x <= w && x > y { assert(moved(s, x)); }
    if x < w {
        assert(moved(s, x + 1));
        assert(us(s, x + 1));
        assert(qt(f, x) == qt(d, x + 1));
        assert(qt(d, x + 1) <= x);
        assert(sh(t, x) == (qt(d, x + 1) < x));
        assert(us(t, x)) by {
            if qt(d, x + 1) == x {
                assert(oc(s, x));
                if one { assert((qt(d, x + 1) - q) % n != 0); }
            }
        }
        assert(oc(t, qt(d, x + 1)));
        if x == y {
            if w == y + n - 1 {
                assert(qt(f, y - 1) == y - 1);
                if one { assert(qt(d, y + 1) <= y); }
                assert(slot_ok(t, f, x));
            } else {
                assert(qt(f, y - 1) == qt(d, y - 1));
                if ct(s, y) {
                    assert(us(s, y - 1));
                    lemma_us(s, y + n - 1); lemma_us(t, y + n - 1);
                    assert(sh(t, y + n - 1) == sh(s, y + n - 1)); assert(ct(t, y + n - 1) == ct(s, y + n - 1)); assert(rm(t, y + n - 1) == rm(s, y + n - 1));
                    assert(us(t, y - 1));
                    assert(rm(t, y - 1) == rm(s, y - 1));
                    assert(rm(s, y - 1) < rm(s, y));
                }
                lemma_mod_near(0, n);
                assert(slot_ok(t, f, x));
            }
        } else {
            assert(qt(f, x - 1) == qt(d, x));
            assert(rm(t, x - 1) == rm(s, x));
            assert(us(t, x - 1)) by {
                assert(sh(t, x - 1) == (qt(d, x) < x - 1));
                if qt(d, x) == x - 1 {
                    assert(us(s, x)); assert(oc(s, x - 1));
                    if one { assert((qt(d, x) - q) % n != 0); }
                }
            }
            assert(slot_ok(t, f, x));
        }
    } else if x == w {
        assert(qt(f, x) == x);
        if w == y { assert(qt(f, y - 1) == qt(d, y - 1)); lemma_mod_near(0, n); } else { assert(qt(f, w - 1) == qt(d, w)); }
        assert(slot_ok(t, f, x));
    } else {
        assert(qt(f, x) == qt(d, x));
        assert(us(t, x) == us(s, x)) by {
            assert(sh(t, x) == sh(s, x)); assert(ct(t, x) == ct(s, x));
            if oc(s, x) && !oc(t, x) && !sh(s, x) {
                assert(qt(d, x) == x);
                assert((qt(d, x) - q) % n != 0);
            }
        }
        if us(s, x) { if one { assert((qt(d, x) - q) % n != 0); } assert(oc(t, qt(d, x))); }
        if x == w + 1 {
            assert(qt(f, w) == w);
            assert(slot_ok(t, f, x));
        } else {
            assert(qt(f, x - 1) == qt(d, x - 1));
            assert(us(t, x - 1) == us(s, x - 1)) by {
                assert(sh(t, x - 1) == sh(s, x - 1)); assert(ct(t, x - 1) == ct(s, x - 1));
                if oc(s, x - 1) && !oc(t, x - 1) && !sh(s, x - 1) {
                    assert(qt(d, x - 1) == x - 1);
                    assert((qt(d, x - 1) - q) % n != 0);
                }
            }
            assert(slot_ok(t, f, x));
        }
    }
}
pub proof fn lemma_rem_entry(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, w: int, p: int, u: u64, x: int)
    requires rem_pre(s, d, q, y, w), removed(s, d, t, q, y, w), 0 <= q < s.len(), 0 <= p < s.len(),
        entry_at(t, rem_d(d, y, w), p, u, x),
    ensures held(s, d, p, u) && !(p == q && u == rm(s, y)),
{
    let n = s.len() as int; let f = rem_d(d, y, w);
    lemma_rem_bounds(s, d, q, y, w);
    lemma_window(x, y, n); lemma_rem_qt(d, y, w, x); lemma_insert_qt_place(y, x, n);
    let k = (x - y) % n; let v = y + k; let j = (x - y) / n;
    lemma_remove_ok(s, d, t, q, y, w, v);
    assert(sl(t, x) == sl(t, v) && sl(s, x) == sl(s, v));
    let b = if k < w - y { x + 1 } else { x };
    if k < w - y {
        lemma_mod_shift(v + 1, j, n);
        assert(v + 1 + n * j == x + 1);
        lemma_remove_ok(s, d, t, q, y, w, v + 1);
        assert(rm(t, v) == rm(s, v + 1));
        assert(us(s, v + 1));
    } else {
        assert(v != w);
        assert(rm(t, v) == rm(s, v));
    }
    assert(entry_at(s, d, p, u, b));
    if p == q {
        if b < y { lemma_run(s, d, b, y); }
        if b > y { lemma_run(s, d, y, b); }
        if b == y { lemma_mod_near(0, n); lemma_mod_near(-1, n); }
    }
}
pub proof fn lemma_rem_entry_back(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, w: int, p: int, u: u64, x: int)
    requires rem_pre(s, d, q, y, w), removed(s, d, t, q, y, w), 0 <= q < s.len(), 0 <= p < s.len(),
        entry_at(s, d, p, u, x), !(p == q && u == rm(s, y)),
    ensures held(t, rem_d(d, y, w), p, u),
{
    let n = s.len() as int; let f = rem_d(d, y, w);
    lemma_rem_bounds(s, d, q, y, w);
    lemma_window(x, y, n); lemma_insert_qt_place(y, x, n);
    let k = (x - y) % n; let v = y + k; let j = (x - y) / n;
    assert(sl(s, x) == sl(s, v));
    if k == 0 {
        assert(x == y + n * j);
        lemma_qt_shift(d, y, j);
        assert(j == 0) by (nonlinear_arith) requires p == q + n * j, 0 <= p < n, 0 <= q < n;
        assert(false);
    } else if k <= w - y {
        lemma_rem_qt(d, y, w, x - 1);
        lemma_remove_ok(s, d, t, q, y, w, v - 1);
        lemma_remove_ok(s, d, t, q, y, w, v);
        lemma_mod_shift(v - 1, j, n);
        assert(v - 1 + n * j == x - 1);
        assert(rm(t, v - 1) == rm(s, v));
        assert(us(s, v - 1));
        assert(entry_at(t, f, p, u, x - 1));
    } else {
        lemma_remove_ok(s, d, t, q, y, w, v);
        lemma_rem_qt(d, y, w, x);
        assert(rm(t, v) == rm(s, v));
        assert(entry_at(t, f, p, u, x));
    }
}
/// the entry at y goes and nothing else
pub proof fn lemma_remove(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, w: int)
    requires rem_pre(s, d, q, y, w), removed(s, d, t, q, y, w), 0 <= q < s.len(),
    ensures valid(t, rem_d(d, y, w)), useds(t) == useds(s).update(w % (s.len() as int), false), useds(s)[w % (s.len() as int)] == true,
        forall|p: int, u: u64| 0 <= p < s.len() ==> #[trigger] held(t, rem_d(d, y, w), p, u) == (held(s, d, p, u) && !(p == q && u == rm(s, y))),
        held(s, d, q, rm(s, y)),
{
    let n = s.len() as int; let f = rem_d(d, y, w);
    lemma_rem_bounds(s, d, q, y, w);
    assert forall|x: int| y <= x < y + n implies #[trigger] slot_ok(t, f, x) by { lemma_remove_ok(s, d, t, q, y, w, x); }
    lemma_rem_qt(d, y, w, w); lemma_mod_near(w - y, n);
    lemma_all_ok(t, f, y);
    assert(qt(f, w) == w);
    assert forall|i: int| 0 <= i < n implies useds(t)[i] == useds(s).update(w % n, false)[i] by {
        lemma_window(i, y, n);
        let x = y + (i - y) % n;
        lemma_remove_ok(s, d, t, q, y, w, x);
        lemma_mod_near(i, n);
        if i == w % n { lemma_same_slot(x, w, n); }
        assert(sl(s, x) == s[i] && sl(t, x) == t[i]);
    }
    lemma_mod_near(w, n);
    lemma_remove_ok(s, d, t, q, y, w, w);
    assert(useds(t) =~= useds(s).update(w % n, false));
    assert(us(s, w));
    assert(entry_at(s, d, q, rm(s, y), y));
    assert forall|p: int, u: u64| 0 <= p < n implies #[trigger] held(t, f, p, u) == (held(s, d, p, u) && !(p == q && u == rm(s, y))) by {
        if held(t, f, p, u) {
            let x = choose|x: int| #[trigger] entry_at(t, f, p, u, x);
            lemma_rem_entry(s, d, t, q, y, w, p, u, x);
        }
        if held(s, d, p, u) && !(p == q && u == rm(s, y)) {
            let x = choose|x: int| #[trigger] entry_at(s, d, p, u, x);
            lemma_rem_entry_back(s, d, t, q, y, w, p, u, x);
        }
    }
}

// ---------------------------------------------------------------- bits of a slot
pub proof fn lemma_zero_slot()
    ensures 0u64 & 1 == 0, 0u64 & 2 == 0, 0u64 & 4 == 0, 0u64 & 7 == 0, 0u64 >> 3 == 0,
{
    assert(0u64 & 1 == 0 && 0u64 & 2 == 0 && 0u64 & 4 == 0 && 0u64 & 7 == 0 && 0u64 >> 3 == 0) by (bit_vector);
}
pub proof fn lemma_set_occ(v: u64)
    ensures (v | 4) & 1 == v & 1, (v | 4) & 2 == v & 2, (v | 4) & 4 != 0, (v | 4) >> 3 == v >> 3,
        (v & !4) & 1 == v & 1, (v & !4) & 2 == v & 2, (v & !4) & 4 == 0, (v & !4) >> 3 == v >> 3,
        v & 4 != 0 ==> (v | 4) == v, v & 4 == 0 ==> (v & !4) == v,
{
    assert((v | 4) & 1 == v & 1 && (v | 4) & 2 == v & 2 && (v | 4) & 4 != 0 && (v | 4) >> 3 == v >> 3) by (bit_vector);
    assert((v & !4) & 1 == v & 1 && (v & !4) & 2 == v & 2 && (v & !4) & 4 == 0 && (v & !4) >> 3 == v >> 3) by (bit_vector);
    assert(v & 4 != 0 ==> (v | 4) == v) by (bit_vector);
    assert(v & 4 == 0 ==> (v & !4) == v) by (bit_vector);
}
pub proof fn lemma_set_ct(v: u64)
    ensures (v | 2) & 1 == v & 1, (v | 2) & 2 != 0, (v | 2) & 4 == v & 4, (v | 2) >> 3 == v >> 3,
{
    assert((v | 2) & 1 == v & 1 && (v | 2) & 2 != 0 && (v | 2) & 4 == v & 4 && (v | 2) >> 3 == v >> 3) by (bit_vector);
}
pub proof fn lemma_set_sh(v: u64)
    ensures (v | 1) & 1 != 0, (v | 1) & 2 == v & 2, (v | 1) & 4 == v & 4, (v | 1) >> 3 == v >> 3,
{
    assert((v | 1) & 1 != 0 && (v | 1) & 2 == v & 2 && (v | 1) & 4 == v & 4 && (v | 1) >> 3 == v >> 3) by (bit_vector);
}
/// metadata taken off and put back
pub proof fn lemma_keep(v: u64)
    ensures (v & 4) & 1 == 0, (v & 4) & 2 == 0, (v & 4) & 4 == v & 4, (v & 4) >> 3 == 0, (v & 4 == 0) == ((v & 4) == 0), v & 4 == 0 || v & 4 == 4,
{
    assert((v & 4) & 1 == 0 && (v & 4) & 2 == 0 && (v & 4) & 4 == v & 4 && (v & 4) >> 3 == 0 && (v & 4 == 0 || v & 4 == 4)) by (bit_vector);
}
pub proof fn lemma_join(v: u64, x: u64)
    requires v >> 3 == 0,
    ensures (v | (x & !7)) & 1 == v & 1, (v | (x & !7)) & 2 == v & 2, (v | (x & !7)) & 4 == v & 4, (v | (x & !7)) >> 3 == x >> 3,
{
    assert((v | (x & !7)) & 1 == v & 1) by (bit_vector);
    assert((v | (x & !7)) & 2 == v & 2) by (bit_vector);
    assert((v | (x & !7)) & 4 == v & 4) by (bit_vector);
    assert((v | (x & !7)) >> 3 == x >> 3) by (bit_vector) requires v >> 3 == 0;
}
pub proof fn lemma_fits_ops(v: u64, x: u64, w: usize)
    requires fits(v, w), 3 <= w <= 64,
    ensures fits(v | 1, w), fits(v | 2, w), fits(v | 4, w), fits(v & !4, w), fits(v & 4, w), fits(v & !7, w), fits(0, w), fits(x, w) ==> fits(v | x, w), fits(x, w) ==> fits(v | (x & !7), w),
{
    let m = mask64(w);
    if w < 64 { assert(7u64 & !sub(1u64 << w, 1) == 0) by (bit_vector) requires 3 <= w < 64; lemma_shl64(w); assert(m == sub(1u64 << w, 1)); } else { assert(7u64 & !(!0u64) == 0) by (bit_vector); }
    assert((v | 1) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert((v | 2) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert((v | 4) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert((v & !4) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert((v & 4) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert((v & !7) & !m == 0) by (bit_vector) requires 7 & !m == 0, v & !m == 0;
    assert(0u64 & !m == 0) by (bit_vector);
    if fits(x, w) {
        assert((v | x) & !m == 0) by (bit_vector) requires x & !m == 0, v & !m == 0;
        assert((v | (x & !7)) & !m == 0) by (bit_vector) requires x & !m == 0, v & !m == 0;
    }
}
/// quotient and remainder of a hash
pub proof fn lemma_hash_parts(h: u64, qb: u8, rb: u8)
    requires 1 <= qb, 1 <= rb, qb + rb <= 64, rb <= 61,
    ensures 0 <= (h >> rb) & sub(1u64 << qb, 1) < (1u64 << qb),
        ((h & sub(1u64 << rb, 1)) << 3) >> 3 == h & sub(1u64 << rb, 1),
        ((h & sub(1u64 << rb, 1)) << 3) & 7 == 0, ((h & sub(1u64 << rb, 1)) << 3) & 1 == 0, ((h & sub(1u64 << rb, 1)) << 3) & 2 == 0, ((h & sub(1u64 << rb, 1)) << 3) & 4 == 0,
        fits((h & sub(1u64 << rb, 1)) << 3, (rb + 3) as usize),
{
    assert((h >> rb) & sub(1u64 << qb, 1) < (1u64 << qb)) by (bit_vector) requires qb < 64;
    let r = h & sub(1u64 << rb, 1);
    assert((r << 3) >> 3 == r) by (bit_vector) requires r == h & sub(1u64 << rb, 1), rb <= 61;
    assert((r << 3) & 7 == 0 && (r << 3) & 1 == 0 && (r << 3) & 2 == 0 && (r << 3) & 4 == 0) by (bit_vector);
    let w = (rb + 3) as usize;
    if w < 64 {
        lemma_shl64(w);
        assert((r << 3) & !sub(1u64 << w, 1) == 0) by (bit_vector) requires r == h & sub(1u64 << rb, 1), rb <= 61, w == add(rb as usize, 3), w < 64;
    } else { assert((r << 3) & !(!0u64) == 0) by (bit_vector); }
}
pub proof fn lemma_two_pow(qb: u8)
    requires 1 <= qb < 64,
    ensures (1usize << qb) >= 2, (1u64 << qb) as int == (1usize << qb) as int, sub(1u64 << qb, 1) == (1u64 << qb) - 1,
{
    assert((1usize << qb) >= 2 && (1u64 << qb) >= 2) by (bit_vector) requires 1 <= qb < 64;
    assert((1u64 << qb) == (1usize << qb) as u64) by (bit_vector) requires 1 <= qb < 64;
}

// ---------------------------------------------------------------- the filter
impl<T, B> QuotientFilter<T, B> {
    pub open spec fn n(self) -> int { (1usize << self.quotient_bits) as int }
    pub open spec fn tab(self) -> Seq<u64> { Seq::new(self.n() as nat, |i: int| self.slot_vec@[i]) }
    /// sizes and masks fit together
    pub open spec fn geo(self) -> bool {
        &&& 1 <= self.quotient_bits && 1 <= self.remainder_bits && self.quotient_bits + self.remainder_bits <= 64 && self.remainder_bits <= 61
        &&& self.quotient_mask == sub(1u64 << self.quotient_bits, 1)
        &&& self.remainder_mask == sub(1u64 << self.remainder_bits, 1)
        &&& self.slot_vec.wf()
        &&& self.slot_vec.bit_count == self.remainder_bits + 3
        &&& self.n() <= self.slot_vec.len
        &&& forall|i: int| 0 <= i < self.n() ==> fits(#[trigger] self.tab()[i], self.slot_vec.bit_count)
    }
    pub open spec fn disp(self) -> Seq<int> { choose|d: Seq<int>| #[trigger] valid(self.tab(), d) }
    /// the fingerprints held
    pub open spec fn fps(self) -> ISet<(int, u64)> { ISet::new(|p: (int, u64)| 0 <= p.0 < self.n() && held(self.tab(), self.disp(), p.0, p.1)) }
    pub open spec fn wf(self) -> bool {
        &&& self.geo()
        &&& exists|d: Seq<int>| #[trigger] valid(self.tab(), d)
        &&& self.len == cnt(useds(self.tab()))
        &&& self.fps().finite() && self.fps().len() == self.len
    }
    /// 1 - e^(-(fraction of full slots) / 2^remainder bits)
    pub open spec fn est_fpp(self) -> real {
        let fill = rdiv((self.len as int) as real, (self.n() as int) as real);
        1.0real - rpowf(rexp(1.0real), -rdiv(fill, rpow(2.0real, self.remainder_bits as nat)))
    }
    /// sized for c items and probability p
    pub open spec fn sized(self, c: usize, p: real) -> bool {
        &&& self.quotient_bits as int == slots_for(c as int)
        &&& self.remainder_bits as int == if remainder_for(p) < 1 { 1 } else { remainder_for(p) }
    }
    pub open spec fn same_shape(self, o: Self) -> bool {
        &&& o.quotient_bits == self.quotient_bits && o.remainder_bits == self.remainder_bits
        &&& o.quotient_mask == self.quotient_mask && o.remainder_mask == self.remainder_mask
        &&& o.hash_builder == self.hash_builder
        &&& o.slot_vec.bit_count == self.slot_vec.bit_count && o.slot_vec.len == self.slot_vec.len
    }
    /// fingerprint of an item
    pub open spec fn item_fp<U: ?Sized>(self, item: &U) -> (int, u64) {
        let h = vx_hash::<B, U>(self.hash_builder, item);
        (((h >> self.remainder_bits) & self.quotient_mask) as int, h & self.remainder_mask)
    }
}
pub proof fn lemma_geo<T, B>(a: QuotientFilter<T, B>)
    requires a.geo(),
    ensures 2 <= a.n() <= 0x4000_0000_0000_0000, a.tab().len() == a.n(), a.n() == (1usize << a.quotient_bits) as int,
        forall|x: int| 0 <= #[trigger] (x % a.n()) < a.n(),
        forall|x: int| #[trigger] sl(a.tab(), x) == a.slot_vec@[x % a.n()],
        forall|x: int| fits(#[trigger] sl(a.tab(), x), a.slot_vec.bit_count),
{
    lemma_two_pow(a.quotient_bits);
    let w = a.slot_vec.bit_count as int; let l = a.slot_vec.len as int; let n = a.n();
    assert(n * 4 <= l * w) by (nonlinear_arith) requires n <= l, 4 <= w, 0 <= n;
    assert forall|x: int| 0 <= #[trigger] (x % n) < n by { lemma_mod_near(x, n); }
    assert forall|x: int| #[trigger] sl(a.tab(), x) == a.slot_vec@[x % n] by { lemma_mod_near(x, n); }
    assert forall|x: int| fits(#[trigger] sl(a.tab(), x), a.slot_vec.bit_count) by { lemma_mod_near(x, n); assert(sl(a.tab(), x) == a.tab()[x % n]); }
}
pub proof fn lemma_item<T, B, U: ?Sized>(a: QuotientFilter<T, B>, item: &U)
    requires a.geo(),
    ensures 0 <= a.item_fp(item).0 < a.n(), (a.item_fp(item).1 << 3) >> 3 == a.item_fp(item).1, fits(a.item_fp(item).1 << 3, a.slot_vec.bit_count),
        (a.item_fp(item).1 << 3) & 1 == 0, (a.item_fp(item).1 << 3) & 2 == 0, (a.item_fp(item).1 << 3) & 4 == 0,
{
    lemma_two_pow(a.quotient_bits);
    lemma_hash_parts(vx_hash::<B, U>(a.hash_builder, item), a.quotient_bits, a.remainder_bits);
}
pub proof fn lemma_same_place(x: int, y: int, n: int)
    requires n > 0,
    ensures ((y - x) % n == 0) == (y % n == x % n), -n < y - x < n && y != x ==> y % n != x % n,
{
    lemma_window(y, x, n);
    if y % n == x % n { lemma_mod_near(y - x, n); lemma_same_slot(x + (y - x) % n, x, n); }
}
pub proof fn lemma_upd(s: Seq<u64>, x: int, v: u64, y: int)
    requires s.len() > 0,
    ensures sl(s.update(x % (s.len() as int), v), y) == if (y - x) % (s.len() as int) == 0 { v } else { sl(s, y) },
        -s.len() < y - x < s.len() && y != x ==> sl(s.update(x % (s.len() as int), v), y) == sl(s, y),
{
    let n = s.len() as int;
    lemma_same_place(x, y, n); lemma_mod_near(x, n); lemma_mod_near(y, n);
}
/// a slot overwritten
pub proof fn lemma_wrote<T, B>(a: QuotientFilter<T, B>, b: QuotientFilter<T, B>, x: int, v: u64)
    requires a.geo(), a.same_shape(b), b.slot_vec.wf(), b.slot_vec@ == a.slot_vec@.update(x % a.n(), v), fits(v, a.slot_vec.bit_count),
    ensures b.geo(), b.n() == a.n(), b.tab() == a.tab().update(x % a.n(), v),
        sl(b.tab(), x) == v,
        forall|y: int| x - a.n() < y < x + a.n() && y != x ==> #[trigger] sl(b.tab(), y) == sl(a.tab(), y),
        forall|y: int| (y - x) % a.n() != 0 ==> #[trigger] sl(b.tab(), y) == sl(a.tab(), y),
        forall|y: int| (y - x) % a.n() == 0 ==> #[trigger] sl(b.tab(), y) == v,
{
    let n = a.n();
    lemma_geo(a);
    lemma_mod_near(x, n);
    assert(b.tab() =~= a.tab().update(x % n, v));
    assert forall|i: int| 0 <= i < b.n() implies fits(#[trigger] b.tab()[i], b.slot_vec.bit_count) by { if i != x % n { assert(fits(a.tab()[i], a.slot_vec.bit_count)); } }
    lemma_upd(a.tab(), x, v, x); lemma_mod_near(0, n);
    assert forall|y: int| x - n < y < x + n && y != x implies #[trigger] sl(b.tab(), y) == sl(a.tab(), y) by { lemma_upd(a.tab(), x, v, y); }
    assert forall|y: int| (y - x) % n != 0 implies #[trigger] sl(b.tab(), y) == sl(a.tab(), y) by { lemma_upd(a.tab(), x, v, y); }
    assert forall|y: int| (y - x) % n == 0 implies #[trigger] sl(b.tab(), y) == v by { lemma_upd(a.tab(), x, v, y); }
}
/// the entries of a table agree with its fingerprints, whatever witness is taken
pub proof fn lemma_fps<T, B>(a: QuotientFilter<T, B>, d: Seq<int>)
    requires valid(a.tab(), d),
    ensures a.disp() == d, forall|p: (int, u64)| #[trigger] a.fps().contains(p) == (0 <= p.0 < a.n() && held(a.tab(), d, p.0, p.1)),
{
    lemma_uniq(a.tab(), a.disp(), d);
}
pub proof fn lemma_fps_insert<T, B>(a: QuotientFilter<T, B>, d: Seq<int>, b: QuotientFilter<T, B>, f: Seq<int>, q: int, r: u64, i: int)
    requires a.wf(), valid(a.tab(), d), b.geo(), b.n() == a.n(), valid(b.tab(), f), 0 <= q < a.n(), !held(a.tab(), d, q, r),
        0 <= i < a.n(), !useds(a.tab())[i], useds(b.tab()) == useds(a.tab()).update(i, true), b.len == a.len + 1,
        forall|p: int, u: u64| 0 <= p < a.n() ==> #[trigger] held(b.tab(), f, p, u) == (held(a.tab(), d, p, u) || (p == q && u == r)),
    ensures b.wf(), b.fps() == a.fps().insert((q, r)), !a.fps().contains((q, r)),
{
    lemma_geo(a);
    lemma_fps(a, d); lemma_fps(b, f);
    lemma_cnt_update(useds(a.tab()), i, true);
    assert forall|p: (int, u64)| #[trigger] b.fps().contains(p) == a.fps().insert((q, r)).contains(p) by {
        if 0 <= p.0 < a.n() { assert(held(b.tab(), f, p.0, p.1) == (held(a.tab(), d, p.0, p.1) || (p.0 == q && p.1 == r))); }
    }
    assert(b.fps() =~= a.fps().insert((q, r)));
}
pub proof fn lemma_fps_remove<T, B>(a: QuotientFilter<T, B>, d: Seq<int>, b: QuotientFilter<T, B>, f: Seq<int>, q: int, r: u64, i: int)
    requires a.wf(), valid(a.tab(), d), b.geo(), b.n() == a.n(), valid(b.tab(), f), 0 <= q < a.n(), held(a.tab(), d, q, r),
        0 <= i < a.n(), useds(a.tab())[i], useds(b.tab()) == useds(a.tab()).update(i, false), b.len == a.len - 1,
        forall|p: int, u: u64| 0 <= p < a.n() ==> #[trigger] held(b.tab(), f, p, u) == (held(a.tab(), d, p, u) && !(p == q && u == r)),
    ensures b.wf(), b.fps() == a.fps().remove((q, r)), a.fps().contains((q, r)),
{
    lemma_geo(a);
    lemma_fps(a, d); lemma_fps(b, f);
    lemma_cnt_update(useds(a.tab()), i, false);
    assert forall|p: (int, u64)| #[trigger] b.fps().contains(p) == a.fps().remove((q, r)).contains(p) by {
        if 0 <= p.0 < a.n() { assert(held(b.tab(), f, p.0, p.1) == (held(a.tab(), d, p.0, p.1) && !(p.0 == q && p.1 == r))); }
    }
    assert(b.fps() =~= a.fps().remove((q, r)));
}
/// an empty table
pub proof fn lemma_empty_table<T, B>(a: QuotientFilter<T, B>)
    requires a.geo(), a.len == 0, forall|i: int| 0 <= i < a.n() ==> #[trigger] a.slot_vec@[i] == 0,
    ensures a.wf(), a.fps() == ISet::<(int, u64)>::empty(),
{
    lemma_geo(a); lemma_zero_slot();
    let n = a.n(); let s = a.tab();
    let d = Seq::new(n as nat, |i: int| 0int);
    assert forall|x: int| #[trigger] slot_ok(s, d, x) by {
        lemma_mod_near(x, n); lemma_mod_near(x - 1, n);
        assert(sl(s, x) == 0);
        assert(qt(d, x) == x); assert(qt(d, x - 1) == x - 1);
    }
    lemma_mod_near(0, n);
    assert(qt(d, 0) == 0);
    assert(valid(s, d));
    lemma_fps(a, d);
    assert forall|p: (int, u64)| !#[trigger] a.fps().contains(p) by {
        if held(s, d, p.0, p.1) { let x = choose|x: int| #[trigger] entry_at(s, d, p.0, p.1, x); assert(sl(s, x) == 0); }
    }
    assert(a.fps() =~= ISet::<(int, u64)>::empty());
    assert(useds(s) =~= Seq::new(n as nat, |i: int| false));
    lemma_cnt_const(n as nat, false);
}
/// nothing with this fingerprint next to position x, where it would have to be
pub proof fn lemma_absent(s: Seq<u64>, d: Seq<int>, q: int, r: u64, x: int)
    requires valid(s, d), qt(d, x - 1) < q || (qt(d, x - 1) == q && rm(s, x - 1) < r), qt(d, x) > q || (qt(d, x) == q && r < rm(s, x)),
    ensures !held(s, d, q, r),
{
    if held(s, d, q, r) {
        let b = choose|b: int| #[trigger] entry_at(s, d, q, r, b);
        if b <= x - 1 { lemma_mono(s, d, b, x - 1); if b < x - 1 { lemma_run(s, d, b, x - 1); } }
        else { lemma_mono(s, d, x, b); if x < b { lemma_run(s, d, x, b); } }
    }
}
pub proof fn lemma_absent_quotient(s: Seq<u64>, d: Seq<int>, q: int, r: u64)
    requires valid(s, d), !oc(s, q),
    ensures !held(s, d, q, r),
{
    if held(s, d, q, r) { let b = choose|b: int| #[trigger] entry_at(s, d, q, r, b); assert(slot_ok(s, d, b)); }
}
/// a run does not reach round to its quotient
pub proof fn lemma_reach(s: Seq<u64>, d: Seq<int>, q: int, x: int)
    requires valid(s, d), qt(d, x) == q,
    ensures q <= x < q + s.len(),
{
    let a = lemma_anchor(s, d, q + 1);
    assert(slot_ok(s, d, x));
    if a <= x { lemma_mono(s, d, a, x); }
}
/// the table get_run_start is called on: a valid one, with the occupied bit of q set in advance at most
pub open spec fn run_pre(s: Seq<u64>, d: Seq<int>, p: Seq<u64>, q: int) -> bool {
    valid(s, d) && marked(s, p, q) && (oc(s, q) || (us(s, q) && has_empty(s)))
}
pub proof fn lemma_marked_self(s: Seq<u64>, q: int)
    requires s.len() > 0, oc(s, q),
    ensures marked(s, s, q),
{
    let n = s.len() as int;
    assert forall|x: int| #[trigger] oc(s, x) == (oc(s, x) || (x - q) % n == 0) by {
        if (x - q) % n == 0 { lemma_window(x, q, n); assert(sl(s, x) == sl(s, q)); }
    }
}

pub proof fn lemma_fits_zero(w: usize)
    ensures fits(0, w),
{
    let m = mask64(w);
    assert(0u64 & !m == 0) by (bit_vector);
}
/// log2(1.33 * items), rounded up
pub open spec fn slots_for(c: int) -> int { clamp(rtrunc(rceil(rlog2(rmul(c as real, 1.33real)))), 0, 255) }
/// log2(1 / (1.33 * -ln(1 - p))), rounded up: with 1 / 1.33 of the slots full, 1 - e^(-load / 2^bits) is at most p
pub open spec fn remainder_for(p: real) -> int { clamp(rtrunc(rceil(rlog2(rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p))))), 0, 255) }
pub proof fn lemma_quotient_args(c: int, p: real)
    requires c > 0, 0.0real < p < 1.0real,
    ensures
        rln(2.0real) > 0.0real, rmul(c as real, 1.33real) >= 1.33real, rlog2(rmul(c as real, 1.33real)) > 0.0real, slots_for(c) >= 1,
        rln(1.0real - p) < 0.0real, rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p)) > 0.0real,
        rmul(rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p)), rmul(rln(1.0real - p), 1.33real)) == -1.0real,
        rtrunc(1.0real) == 1,
        ({ let g = rceil(rlog2(rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p)))); if g < 1.0real { remainder_for(p) < 1 } else { rtrunc(g) >= 1 } }),
{
    reveal(rmul); reveal(rdiv);
    lemma_ln_2(); lemma_ln_sign(1.0real - p);
    let x = c as real * 1.33real; let l2 = rln(2.0real);
    assert(x >= 1.33real);
    lemma_ln_sign(x);
    let lx = rln(x); let g = lx / l2;
    assert(g > 0.0real) by (nonlinear_arith) requires g == lx / l2, lx > 0.0real, l2 > 0.0real;
    lemma_floor(g);
    let b = -((-g).floor());
    assert(b as real >= g); assert(b >= 1) by { assert(b as real > 0.0real); }
    let t = 1.0real / -1.33real; let l = rln(1.0real - p);
    assert(t * 1.33real == -1.0real) by (nonlinear_arith) requires t == 1.0real / -1.33real;
    let u = t / l;
    assert(u > 0.0real && u * l == t) by (nonlinear_arith) requires u == t / l, t < 0.0real, l < 0.0real;
    assert(u * (l * 1.33real) == -1.0real) by (nonlinear_arith) requires u * l == t, t * 1.33real == -1.0real;
    lemma_tr_int(1);
    lemma_floor(rlog2(u));
}
/// capacities up to 2^40 and probabilities down to 2^-40 take few bits
pub proof fn lemma_quotient_small(c: int, p: real)
    requires 0 < c <= 0x100_0000_0000, 1.0real / 1099511627776.0real <= p < 1.0real,
    ensures slots_for(c) <= 41, remainder_for(p) <= 41, rceil(rlog2(rmul(c as real, 1.33real))) <= 41.0real, rceil(rlog2(rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p)))) <= 41.0real,
{
    lemma_quotient_args(c, p); lemma_two_40();
    let x = rmul(c as real, 1.33real);
    assert(x <= 2199023255552.0real) by { reveal(rmul); }
    lemma_log2_ge(x, 41);
    lemma_ceil_le(rlog2(x), 41);
    let q = 1.0real - p; let l = rln(q); lemma_ln_bounds(q);
    assert(l <= -p);
    let t = rdiv(1.0real, -1.33real); let u = rdiv(t, l);
    assert(t >= -1.0real) by { reveal(rdiv); assert(1.0real / -1.33real >= -1.0real) by (nonlinear_arith); }
    assert(u <= 1099511627776.0real) by {
        reveal(rdiv);
        assert(l <= -(1.0real / 1099511627776.0real));
        assert(u * l == t) by (nonlinear_arith) requires u == t / l, l < 0.0real;
        assert(u <= 1099511627776.0real) by (nonlinear_arith) requires u * l == t, t >= -1.0real, l <= -(1.0real / 1099511627776.0real), u > 0.0real;
    }
    lemma_log2_ge(u, 40);
    lemma_ceil_le(rlog2(u), 41);
}
/// log2(x) is at most k: x is at most 2^k
pub proof fn lemma_log2_le(x: real, k: nat)
    requires x > 0.0real, rlog2(x) <= (k as int) as real,
    ensures x <= rpow(2.0real, k),
{
    lemma_ln_2(); axiom_ln(x);
    let l2 = rln(2.0real); let l = rln(x); let kr = (k as int) as real;
    assert(kr * l2 >= l) by { reveal(rdiv); assert(kr * l2 >= l) by (nonlinear_arith) requires kr >= l / l2, l2 > 0.0real; }
    lemma_rpowf_int(2.0real, k); lemma_exp_mono(l, kr * l2);
    reveal(rmul);
}
/// a filter sized for c items and probability p has 1.33 slots per item and, holding up to c items, estimates at most p
pub proof fn lemma_quotient_adequate<T, B>(f: QuotientFilter<T, B>, c: usize, p: real)
    requires c > 0, 0.0real < p < 1.0real, f.sized(c, p), f.len <= c, f.quotient_bits < 64, f.remainder_bits < 64, f.n() == 1u64 << f.quotient_bits,
    ensures f.est_fpp() <= p, (f.n() as real) >= 1.33real * (c as int) as real,
{
    lemma_quotient_args(c as int, p);
    let n = f.n() as real; let cr = (c as int) as real; let len = (f.len as int) as real;
    let x = rmul(cr, 1.33real); let u = rdiv(rdiv(1.0real, -1.33real), rln(1.0real - p)); let l = rln(1.0real - p);
    lemma_floor(rlog2(x)); lemma_floor(rlog2(u));
    assert(slots_for(c as int) < 255 ==> rlog2(x) <= slots_for(c as int) as real);
    assert(rlog2(u) <= (f.remainder_bits as int) as real) by {
        if rlog2(u) > 0.0real { assert(rceil(rlog2(u)) > 0.0real); }
    }
    lemma_log2_le(x, f.quotient_bits as nat); lemma_log2_le(u, f.remainder_bits as nat);
    lemma_rpow_two(f.quotient_bits as nat);
    assert(((f.quotient_bits as nat) as u64) == f.quotient_bits as u64);
    let a = f.quotient_bits; let a6 = a as u64;
    assert(1u64 << a == 1u64 << a6) by(bit_vector) requires a6 == a as u64;
    assert(n >= x);
    let w = rpow(2.0real, f.remainder_bits as nat);
    let fill = rdiv(len, n); let y = rdiv(fill, w);
    assert(n >= 1.33real * cr) by { reveal(rmul); }
    assert(y <= -l) by {
        reveal(rmul); reveal(rdiv);
        let fl = len / n;
        assert(fl * n == len) by (nonlinear_arith) requires fl == len / n, n > 0.0real;
        assert(fl * 1.33real <= 1.0real) by (nonlinear_arith) requires fl * n == len, n >= 1.33real * cr, len <= cr, cr > 0.0real, len >= 0.0real;
        assert(u * (l * 1.33real) == -1.0real);
        let m = -l;
        assert(u * m * 1.33real == 1.0real) by (nonlinear_arith) requires u * (l * 1.33real) == -1.0real, m == -l;
        let z = fl / w;
        assert(z * w == fl) by (nonlinear_arith) requires z == fl / w, w > 0.0real;
        assert(w * m * 1.33real >= 1.0real) by (nonlinear_arith) requires u * m * 1.33real == 1.0real, w >= u, m > 0.0real;
        assert(z <= m) by (nonlinear_arith) requires z * w == fl, fl * 1.33real <= 1.0real, w * m * 1.33real >= 1.0real, w > 0.0real;
    }
    axiom_exp(1.0real, 0.0real); axiom_ln(1.0real - p);
    assert(rmul(-y, 1.0real) == -y) by { reveal(rmul); }
    lemma_exp_mono(l, -y);
}
pub proof fn lemma_small_sizes(q: u8, r: u8)
    requires q <= 41, r <= 41,
    ensures (r + 3) * ((r + 3) * (1u64 << q)) <= 0xFFFF_FFFF_FFFF_FF00,
{
    assert((1u64 << q) <= 0x200_0000_0000) by (bit_vector) requires q <= 41;
    let n = (1u64 << q) as int; let b = r + 3;
    assert(b * n <= 44 * n) by (nonlinear_arith) requires 0 <= b <= 44, n >= 0;
    assert(b * (b * n) <= 44 * (b * n)) by (nonlinear_arith) requires 0 <= b <= 44, b * n >= 0;
    assert(b * n >= 0) by (nonlinear_arith) requires b >= 0, n >= 0;
}

/// t is s with `slot` put at y and everything up to the empty slot y + z moved up by one; occupied bits stay
pub open spec fn shifted(s: Seq<u64>, t: Seq<u64>, y: int, v: u64, z: int) -> bool {
    let n = s.len() as int;
    &&& 0 <= z < n && !us(s, y + z)
    &&& forall|x: int| y <= x < y + z ==> #[trigger] us(s, x)
    &&& forall|x: int| #[trigger] oc(t, x) == oc(s, x)
    &&& sh(t, y) == (v & 1 != 0) && ct(t, y) == (v & 2 != 0) && rm(t, y) == v >> 3
    &&& forall|x: int| y < x <= y + z ==> #[trigger] sh(t, x)
    &&& forall|x: int| y < x <= y + z ==> #[trigger] ct(t, x) == ct(s, x - 1)
    &&& forall|x: int| y < x <= y + z ==> #[trigger] rm(t, x) == rm(s, x - 1)
    &&& forall|x: int| y + z < x < y + n ==> #[trigger] sl(t, x) == sl(s, x)
}
/// the same half way: k slots are done and v is to go to y + k
pub open spec fn shifting(s: Seq<u64>, t: Seq<u64>, y: int, v0: u64, k: int, v: u64) -> bool {
    let n = s.len() as int;
    &&& t.len() == s.len() && 0 <= k
    &&& forall|x: int| y <= x < y + k ==> #[trigger] us(s, x)
    &&& forall|x: int| y <= x < y + k ==> #[trigger] oc(t, x) == oc(s, x)
    &&& k > 0 ==> sh(t, y) == (v0 & 1 != 0) && ct(t, y) == (v0 & 2 != 0) && rm(t, y) == v0 >> 3
    &&& forall|x: int| y < x < y + k ==> #[trigger] sh(t, x)
    &&& forall|x: int| y < x < y + k ==> #[trigger] ct(t, x) == ct(s, x - 1)
    &&& forall|x: int| y < x < y + k ==> #[trigger] rm(t, x) == rm(s, x - 1)
    &&& forall|x: int| y + k <= x < y + n ==> #[trigger] sl(t, x) == sl(s, x)
    &&& v & 4 == 0
    &&& if k == 0 { v == v0 } else { (v & 1 != 0) && ((v & 2 != 0) == ct(s, y + k - 1)) && v >> 3 == rm(s, y + k - 1) }
}
pub proof fn lemma_oc_everywhere(s: Seq<u64>, t: Seq<u64>, y: int)
    requires s.len() > 0, t.len() == s.len(), forall|x: int| y <= x < y + s.len() ==> #[trigger] oc(t, x) == oc(s, x),
    ensures forall|x: int| #[trigger] oc(t, x) == oc(s, x),
{
    let n = s.len() as int;
    assert forall|x: int| #[trigger] oc(t, x) == oc(s, x) by {
        lemma_window(x, y, n);
        let v = y + (x - y) % n;
        assert(oc(t, v) == oc(s, v));
        assert(sl(t, v) == sl(t, x) && sl(s, v) == sl(s, x));
    }
}
/// one slot of the shift: t is t0 with w, which is v with the occupied bit of the place, written at y + k
pub proof fn lemma_shift_step(s: Seq<u64>, t0: Seq<u64>, t: Seq<u64>, y: int, v0: u64, k: int, v: u64, w: u64, next: u64, more: bool)
    requires
        s.len() > 0, shifting(s, t0, y, v0, k, v), k < s.len(), t.len() == s.len(),
        sl(t, y + k) == w, forall|x: int| y + k - s.len() < x < y + k + s.len() && x != y + k ==> #[trigger] sl(t, x) == sl(t0, x),
        w == (if oc(s, y + k) { v | 4 } else { v }),
        more == us(s, y + k),
        next == ((if oc(s, y + k) { sl(s, y + k) & !4 } else { sl(s, y + k) }) | 1),
    ensures
        more ==> shifting(s, t, y, v0, k + 1, next),
        !more ==> shifted(s, t, y, v0, k),
{
    let n = s.len() as int; let o = sl(s, y + k);
    lemma_set_occ(v); lemma_set_occ(o); lemma_us(s, y + k);
    lemma_set_sh(o); lemma_set_sh(o & !4);
    assert(sl(t0, y + k) == o);
    assert forall|x: int| y <= x < y + k + 1 implies #[trigger] oc(t, x) == oc(s, x) by { if x < y + k { assert(oc(t0, x) == oc(s, x)); assert(sl(t, x) == sl(t0, x)); } }
    assert forall|x: int| y < x < y + k + 1 implies #[trigger] sh(t, x) by { if x < y + k { assert(sh(t0, x)); assert(sl(t, x) == sl(t0, x)); } }
    assert forall|x: int| y < x < y + k + 1 implies #[trigger] ct(t, x) == ct(s, x - 1) by { if x < y + k { assert(ct(t0, x) == ct(s, x - 1)); assert(sl(t, x) == sl(t0, x)); } }
    assert forall|x: int| y < x < y + k + 1 implies #[trigger] rm(t, x) == rm(s, x - 1) by { if x < y + k { assert(rm(t0, x) == rm(s, x - 1)); assert(sl(t, x) == sl(t0, x)); } }
    assert forall|x: int| y + k + 1 <= x < y + n implies #[trigger] sl(t, x) == sl(s, x) by { assert(sl(t0, x) == sl(s, x)); assert(sl(t, x) == sl(t0, x)); }
    if k > 0 { assert(sl(t, y) == sl(t0, y)); }
    if !more {
        assert forall|x: int| y <= x < y + n implies #[trigger] oc(t, x) == oc(s, x) by { if x > y + k { assert(sl(t, x) == sl(s, x)); } }
        lemma_oc_everywhere(s, t, y);
        assert(shifted(s, t, y, v0, k));
    }
}

/// p is s with the occupied bit of q set, and the continuation bit of x too if the new entry goes to the front of the run
pub open spec fn prepared(s: Seq<u64>, p: Seq<u64>, q: int, x: int, front: bool) -> bool {
    let n = s.len() as int;
    &&& p.len() == s.len()
    &&& forall|u: int| #[trigger] sh(p, u) == sh(s, u)
    &&& forall|u: int| #[trigger] rm(p, u) == rm(s, u)
    &&& forall|u: int| #[trigger] us(p, u) == us(s, u)
    &&& forall|u: int| #[trigger] oc(p, u) == (oc(s, u) || (u - q) % n == 0)
    &&& forall|u: int| #[trigger] ct(p, u) == (ct(s, u) || (front && (u - x) % n == 0))
}
/// x is the place for a new entry of quotient q and remainder r
pub open spec fn ready(s: Seq<u64>, d: Seq<int>, q: int, r: u64, x: int, front: bool, later: bool) -> bool {
    &&& q <= x < q + s.len()
    &&& forall|t: int| q <= t < x ==> #[trigger] us(s, t)
    &&& if front { !later && ins_front(s, d, q, x, r) } else if later { ins_later(s, d, q, x, r) } else { ins_new(s, d, q, x) }
}
pub proof fn lemma_marked_set(s: Seq<u64>, p: Seq<u64>, q: int)
    requires s.len() > 0, p.len() == s.len(), us(s, q),
        forall|y: int| (y - q) % (s.len() as int) != 0 ==> #[trigger] sl(p, y) == sl(s, y),
        forall|y: int| (y - q) % (s.len() as int) == 0 ==> #[trigger] sl(p, y) == sl(s, q) | 4,
    ensures marked(s, p, q), prepared(s, p, q, 0, false),
{
    let n = s.len() as int; let v = sl(s, q);
    lemma_set_occ(v);
    assert forall|u: int| sh(p, u) == sh(s, u) && ct(p, u) == ct(s, u) && rm(p, u) == rm(s, u) && us(p, u) == us(s, u) && oc(p, u) == (oc(s, u) || (u - q) % n == 0) by {
        lemma_us(s, u); lemma_us(p, u);
        lemma_same_place(q, u, n);
        if (u - q) % n == 0 { assert(sl(p, u) == v | 4); assert(sl(s, u) == v); } else { assert(sl(p, u) == sl(s, u)); }
    }
}
pub proof fn lemma_front_set(s: Seq<u64>, p: Seq<u64>, q: int, x: int)
    requires s.len() > 0, p.len() == s.len(), us(s, x), oc(s, q),
        forall|y: int| (y - x) % (s.len() as int) != 0 ==> #[trigger] sl(p, y) == sl(s, y),
        forall|y: int| (y - x) % (s.len() as int) == 0 ==> #[trigger] sl(p, y) == sl(s, x) | 2,
    ensures prepared(s, p, q, x, true),
{
    let n = s.len() as int; let v = sl(s, x);
    lemma_set_ct(v); lemma_marked_self(s, q);
    assert forall|u: int| sh(p, u) == sh(s, u) && ct(p, u) == (ct(s, u) || (u - x) % n == 0) && rm(p, u) == rm(s, u) && us(p, u) == us(s, u) && oc(p, u) == (oc(s, u) || (u - q) % n == 0) by {
        lemma_us(s, u); lemma_us(p, u);
        lemma_same_place(x, u, n);
        assert(oc(s, u) == (oc(s, u) || (u - q) % n == 0));
        if (u - x) % n == 0 { assert(sl(p, u) == v | 2); assert(sl(s, u) == v); } else { assert(sl(p, u) == sl(s, u)); }
    }
}
pub proof fn lemma_prepared_self(s: Seq<u64>, q: int, x: int)
    requires s.len() > 0, oc(s, q),
    ensures prepared(s, s, q, x, false),
{
    lemma_marked_self(s, q);
    assert forall|u: int| oc(s, u) == (oc(s, u) || (u - q) % (s.len() as int) == 0) by { assert(oc(s, u) == oc(s, u)); }
}
pub proof fn lemma_shifted_place(s: Seq<u64>, t: Seq<u64>, y: int, v: u64, z: int, x: int)
    requires s.len() > 0, t.len() == s.len(), shifted(s, t, y, v, z), y == x % (s.len() as int),
    ensures shifted(s, t, x, v, z),
{
    let n = s.len() as int; let j = x / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    let m = n * j;
    assert(x == y + m);
    lemma_sl_shift(s, y + z, j); lemma_sl_shift(t, y, j);
    assert(y + z + m == x + z);
    assert forall|u: int| x <= u < x + z implies #[trigger] us(s, u) by { assert(us(s, u - m)); lemma_sl_shift(s, u - m, j); }
    assert forall|u: int| x < u <= x + z implies #[trigger] sh(t, u) by { assert(sh(t, u - m)); lemma_sl_shift(t, u - m, j); }
    assert forall|u: int| x < u <= x + z implies #[trigger] ct(t, u) == ct(s, u - 1) by { assert(ct(t, u - m) == ct(s, u - m - 1)); lemma_sl_shift(t, u - m, j); lemma_sl_shift(s, u - m - 1, j); assert(u - m - 1 + m == u - 1); }
    assert forall|u: int| x < u <= x + z implies #[trigger] rm(t, u) == rm(s, u - 1) by { assert(rm(t, u - m) == rm(s, u - m - 1)); lemma_sl_shift(t, u - m, j); lemma_sl_shift(s, u - m - 1, j); assert(u - m - 1 + m == u - 1); }
    assert forall|u: int| x + z < u < x + n implies #[trigger] sl(t, u) == sl(s, u) by { assert(sl(t, u - m) == sl(s, u - m)); lemma_sl_shift(t, u - m, j); lemma_sl_shift(s, u - m, j); }
}
/// preparing and shifting amount to an insertion
pub proof fn lemma_ins_final(s: Seq<u64>, d: Seq<int>, p: Seq<u64>, t: Seq<u64>, q: int, r: u64, x: int, v: u64, front: bool, later: bool) -> (fi: (Seq<int>, int))
    requires valid(s, d), prepared(s, p, q, x, front), ready(s, d, q, r, x, front, later), t.len() == s.len(), 0 <= q < s.len(),
        exists|z: int| #[trigger] shifted(p, t, x % (s.len() as int), v, z),
        v >> 3 == r, (v & 1 != 0) == (x != q), (v & 2 != 0) == later,
    ensures valid(t, fi.0), 0 <= fi.1 < s.len(), !useds(s)[fi.1], useds(t) == useds(s).update(fi.1, true),
        forall|w: int, u: u64| 0 <= w < s.len() ==> #[trigger] held(t, fi.0, w, u) == (held(s, d, w, u) || (w == q && u == r)),
{
    let n = s.len() as int;
    let z = choose|z: int| #[trigger] shifted(p, t, x % n, v, z);
    lemma_shifted_place(p, t, x % n, v, z, x);
    assert(us(p, x + z) == us(s, x + z));
    assert forall|u: int| x <= u < x + z implies #[trigger] us(s, u) by { assert(us(p, u)); }
    assert forall|u: int| q <= u < x + z implies #[trigger] us(s, u) by { }
    lemma_stretch(s, q, x + z, x + z);
    assert(ins_pre(s, d, q, r, x, z, front, later));
    assert forall|u: int| #[trigger] oc(t, u) == (oc(s, u) || (u - q) % n == 0) by { assert(oc(t, u) == oc(p, u)); assert(oc(p, u) == (oc(s, u) || (u - q) % n == 0)); }
    assert forall|u: int| x < u <= x + z implies #[trigger] ct(t, u) == (ct(s, u - 1) || (front && u == x + 1)) by {
        assert(ct(t, u) == ct(p, u - 1)); assert(ct(p, u - 1) == (ct(s, u - 1) || (front && (u - 1 - x) % n == 0)));
        lemma_mod_near(u - 1 - x, n);
    }
    assert forall|u: int| x < u <= x + z implies #[trigger] rm(t, u) == rm(s, u - 1) by { assert(rm(t, u) == rm(p, u - 1)); assert(rm(p, u - 1) == rm(s, u - 1)); }
    assert forall|u: int| x + z < u < x + n implies #[trigger] sh(t, u) == sh(s, u) by { assert(sl(t, u) == sl(p, u)); assert(sh(p, u) == sh(s, u)); }
    assert forall|u: int| x + z < u < x + n implies #[trigger] rm(t, u) == rm(s, u) by { assert(sl(t, u) == sl(p, u)); assert(rm(p, u) == rm(s, u)); }
    assert forall|u: int| x + z < u < x + n implies #[trigger] ct(t, u) == ct(s, u) by {
        assert(sl(t, u) == sl(p, u)); assert(ct(p, u) == (ct(s, u) || (front && (u - x) % n == 0)));
        lemma_mod_near(u - x, n);
    }
    assert(inserted(s, t, q, r, x, z, front, later));
    lemma_insert(s, d, t, q, r, x, z, front, later);
    lemma_mod_near(x + z, n);
    (ins_d(d, q, x, z), (x + z) % n)
}
pub proof fn lemma_prepared_empty(s: Seq<u64>, p: Seq<u64>, q: int, x: int, front: bool)
    requires prepared(s, p, q, x, front), has_empty(s),
    ensures has_empty(p),
{
    let z = choose|z: int| !#[trigger] us(s, z);
    assert(us(p, z) == us(s, z));
}
/// what get_run_start finds
pub proof fn lemma_found(s: Seq<u64>, d: Seq<int>, p: Seq<u64>, q: int, a: int, x: int)
    requires run_pre(s, d, p, q), run_at(p, q, a, x),
    ensures placed(s, d, q, a, x), q <= x, forall|t: int| q <= t < x ==> #[trigger] us(s, t),
        has_empty(s) ==> x < q + s.len(),
        oc(s, q) ==> x < q + s.len() && us(s, x) && qt(d, x) == q && !ct(s, x) && qt(d, x - 1) < q,
        has_empty(s) && !oc(s, q) ==> forall|r: u64| #[trigger] ready(s, d, q, r, x, false, false),
{
    assert forall|t: int| a < t <= q implies #[trigger] sh(s, t) by { assert(sh(p, t)); }
    assert(sh(p, a) == sh(s, a));
    let z = lemma_locate(s, d, p, q, a);
    lemma_run_at_uniq(p, q, a, x, a, z);
    if has_empty(s) { let e = choose|e: int| !#[trigger] us(s, e); lemma_stretch(s, q, x, e); }
    if oc(s, q) { lemma_reach(s, d, q, x); }
}
pub proof fn lemma_scan_step(s: Seq<u64>, d: Seq<int>, q: int, r: u64, x: int)
    requires valid(s, d), has_empty(s), q < x, forall|t: int| q <= t < x - 1 ==> #[trigger] us(s, t), us(s, x - 1), qt(d, x - 1) == q, rm(s, x - 1) < r,
    ensures forall|t: int| q <= t < x ==> #[trigger] us(s, t), x < q + s.len(),
        !ct(s, x) ==> ins_later(s, d, q, x, r),
        ct(s, x) ==> us(s, x) && qt(d, x) == q && (r < rm(s, x) ==> ins_later(s, d, q, x, r)),
{
    let e = choose|e: int| !#[trigger] us(s, e);
    assert forall|t: int| q <= t < x implies #[trigger] us(s, t) by { if t == x - 1 { assert(us(s, x - 1)); } }
    lemma_stretch(s, q, x, e);
    assert(slot_ok(s, d, x)); lemma_us(s, x);
}
/// an entry written to its own empty slot
pub proof fn lemma_ins_canonical(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, r: u64, v: u64)
    requires valid(s, d), t.len() == s.len(), 0 <= q < s.len(), !us(s, q), v == (r << 3) | 4, (r << 3) >> 3 == r, (r << 3) & 1 == 0, (r << 3) & 2 == 0,
        forall|y: int| (y - q) % (s.len() as int) != 0 ==> #[trigger] sl(t, y) == sl(s, y),
        forall|y: int| (y - q) % (s.len() as int) == 0 ==> #[trigger] sl(t, y) == v,
    ensures valid(t, ins_d(d, q, q, 0)), !useds(s)[q], useds(t) == useds(s).update(q, true),
        forall|w: int, u: u64| 0 <= w < s.len() ==> #[trigger] held(t, ins_d(d, q, q, 0), w, u) == (held(s, d, w, u) || (w == q && u == r)),
        !held(s, d, q, r),
{
    let n = s.len() as int;
    lemma_set_occ(r << 3); lemma_us(s, q); lemma_unshifted(s, d, q); lemma_mod_near(0, n); lemma_mod_near(q, n);
    assert(slot_ok(s, d, q)); assert(slot_ok(s, d, q - 1));
    lemma_absent_quotient(s, d, q, r);
    assert(ins_new(s, d, q, q));
    assert forall|x: int| #[trigger] oc(t, x) == (oc(s, x) || (x - q) % n == 0) by { if (x - q) % n == 0 { assert(sl(t, x) == v); } else { assert(sl(t, x) == sl(s, x)); } }
    assert forall|x: int| q < x < q + n implies #[trigger] sl(t, x) == sl(s, x) by { lemma_mod_near(x - q, n); }
    assert(sl(t, q) == v);
    assert(inserted(s, t, q, r, q, 0, false, false));
    lemma_insert(s, d, t, q, r, q, 0, false, false);
}

// ---------------------------------------------------------------- removal, step by step
/// the entry taken out, the occupied bit of its quotient with it if it was alone
pub proof fn lemma_rem_start(s: Seq<u64>, d: Seq<int>, u: Seq<u64>, t: Seq<u64>, q: int, y: int)
    requires valid(s, d), us(s, y), qt(d, y) == q, q <= y < q + s.len(), u.len() == s.len(), t.len() == s.len(),
        sl(u, y) == 0, forall|x: int| y - s.len() < x < y + s.len() && x != y ==> #[trigger] sl(u, x) == sl(s, x),
        !single(s, y) ==> t == u,
        single(s, y) ==> (forall|x: int| (x - q) % (s.len() as int) != 0 ==> #[trigger] sl(t, x) == sl(u, x)),
        single(s, y) ==> (forall|x: int| (x - q) % (s.len() as int) == 0 ==> #[trigger] sl(t, x) == sl(u, q) & !4),
    ensures removed(s, d, t, q, y, y),
{
    let n = s.len() as int;
    lemma_zero_slot(); lemma_set_occ(0); lemma_set_occ(sl(u, q));
    lemma_mod_near(0, n);
    assert forall|x: int| y <= x < y + n && (x - q) % n == 0 implies sl(u, q) == #[trigger] sl(u, x) by {
        lemma_window(x, q, n);
    }
    assert(sl(t, y) == 0);
    assert forall|x: int| y <= x < y + n && x != y implies #[trigger] oc(t, x) == (oc(s, x) && !(single(s, y) && (x - q) % n == 0)) by {
        assert(sl(u, x) == sl(s, x));
        if single(s, y) { if (x - q) % n == 0 { assert(sl(u, q) == sl(u, x)); assert(sl(t, x) == sl(u, q) & !4); } else { assert(sl(t, x) == sl(u, x)); } }
    }
    assert forall|x: int| y < x < y + n implies sh(t, x) == sh(s, x) && ct(t, x) == ct(s, x) && rm(t, x) == rm(s, x) by {
        assert(sl(u, x) == sl(s, x));
        if single(s, y) { if (x - q) % n == 0 { assert(sl(u, q) == sl(u, x)); assert(sl(t, x) == sl(u, q) & !4); } else { assert(sl(t, x) == sl(u, x)); } }
    }
}
/// what the next slot says about going on
pub proof fn lemma_rem_next(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, q: int, y: int, i: int)
    requires valid(s, d), us(s, y), qt(d, y) == q, y <= i, forall|x: int| y < x <= i ==> #[trigger] moved(s, x), removed(s, d, t, q, y, i),
    ensures moved(t, i + 1) == moved(s, i + 1), i < y + s.len(), q <= y < q + s.len(),
        moved(s, i + 1) ==> i + 1 < y + s.len() && i + 1 < q + s.len() && us(s, i + 1) && sh(t, i + 1) == sh(s, i + 1) && ct(t, i + 1) == ct(s, i + 1) && rm(t, i + 1) == rm(s, i + 1) && oc(t, i + 1) == oc(s, i + 1)
            && (single(s, y) ==> (i - q) % (s.len() as int) != 0) && qt(d, i + 1) <= i,
{
    let n = s.len() as int;
    lemma_rem_bounds(s, d, q, y, i);
    lemma_us(s, i + 1);
    assert(slot_ok(s, d, y)); assert(slot_ok(s, d, i + 1)); assert(slot_ok(s, d, i)); assert(slot_ok(s, d, y + 1));
    lemma_sl_shift(s, y, 1); lemma_sl_shift(t, y, 1); assert(n * 1 == n);
    if i + 1 < y + n {
        assert(sh(t, i + 1) == sh(s, i + 1)); assert(ct(t, i + 1) == ct(s, i + 1)); assert(rm(t, i + 1) == rm(s, i + 1));
        if moved(s, i + 1) {
            // the cluster ends before it comes round to q
            let b = lemma_anchor(s, d, y - n + 1);
            lemma_mono(s, d, b, y);
            assert(b <= q) by { if b > y { assert(false); } }
            lemma_qt_shift(d, b, 1);
            lemma_sl_shift(s, b, 1);
            if i + 1 >= b + n { assert(b + n > y); assert(moved(s, b + n)); assert(false); }
            lemma_mod_near(i + 1 - q, n); lemma_mod_near(i - q, n);
            assert(oc(t, i + 1) == oc(s, i + 1));
            if single(s, y) && i == q { assert(i == y); assert(qt(d, y + 1) <= y); lemma_mono(s, d, y, y + 1); lemma_single(s, d, q, y, y + 1); assert(false); }
        }
    } else {
        assert(i > y);
        lemma_mono(s, d, y, y + 1);
        assert(sh(t, y) == (qt(d, y + 1) < y));
        assert(ct(t, y) == (ct(s, y + 1) && !(y == y && !ct(s, y))));
    }
}
/// an entry moved down by one
pub proof fn lemma_rem_step(s: Seq<u64>, d: Seq<int>, t: Seq<u64>, u: Seq<u64>, p: Seq<u64>, q: int, y: int, i: int, v: u64)
    requires valid(s, d), us(s, y), qt(d, y) == q, y <= i, forall|x: int| y < x <= i ==> #[trigger] moved(s, x), moved(s, i + 1), removed(s, d, t, q, y, i),
        u.len() == s.len(), p.len() == s.len(),
        sl(u, i + 1) == 0, forall|x: int| i + 1 - s.len() < x < i + 1 + s.len() && x != i + 1 ==> #[trigger] sl(u, x) == sl(t, x),
        sl(p, i) == v, forall|x: int| i - s.len() < x < i + s.len() && x != i ==> #[trigger] sl(p, x) == sl(u, x),
        (v & 4 != 0) == oc(s, i), (v & 1 != 0) == (qt(d, i + 1) < i), (v & 2 != 0) == (ct(s, i + 1) && !(i == y && !ct(s, y))), v >> 3 == rm(s, i + 1),
    ensures removed(s, d, p, q, y, i + 1), forall|x: int| y < x <= i + 1 ==> #[trigger] moved(s, x),
{
    let n = s.len() as int;
    lemma_rem_next(s, d, t, q, y, i);
    lemma_zero_slot();
    assert forall|x: int| y <= x < y + n && x != i && x != i + 1 implies #[trigger] sl(p, x) == sl(t, x) by { assert(sl(u, x) == sl(t, x)); }
    assert(sl(p, i + 1) == 0) by { assert(sl(p, i + 1) == sl(u, i + 1)); }
    assert forall|x: int| y <= x < y + n && x != i + 1 implies #[trigger] oc(p, x) == (oc(s, x) && !(single(s, y) && (x - q) % n == 0)) by {
        if x != i { assert(sl(p, x) == sl(t, x)); assert(oc(t, x) == (oc(s, x) && !(single(s, y) && (x - q) % n == 0))); }
    }
    assert forall|x: int| y <= x < i + 1 implies #[trigger] sh(p, x) == (qt(d, x + 1) < x) by {
        if x != i { assert(sl(p, x) == sl(t, x)); assert(sh(t, x) == (qt(d, x + 1) < x)); }
    }
    assert forall|x: int| y <= x < i + 1 implies #[trigger] ct(p, x) == (ct(s, x + 1) && !(x == y && !ct(s, y))) by {
        if x != i { assert(sl(p, x) == sl(t, x)); assert(ct(t, x) == (ct(s, x + 1) && !(x == y && !ct(s, y)))); }
    }
    assert forall|x: int| y <= x < i + 1 implies #[trigger] rm(p, x) == rm(s, x + 1) by {
        if x != i { assert(sl(p, x) == sl(t, x)); assert(rm(t, x) == rm(s, x + 1)); }
    }
    assert forall|x: int| i + 1 < x < y + n implies #[trigger] sh(p, x) == sh(s, x) by { assert(sl(p, x) == sl(t, x)); assert(sh(t, x) == sh(s, x)); }
    assert forall|x: int| i + 1 < x < y + n implies #[trigger] ct(p, x) == ct(s, x) by { assert(sl(p, x) == sl(t, x)); assert(ct(t, x) == ct(s, x)); }
    assert forall|x: int| i + 1 < x < y + n implies #[trigger] rm(p, x) == rm(s, x) by { assert(sl(p, x) == sl(t, x)); assert(rm(t, x) == rm(s, x)); }
}
/// the counts say when an entry comes back to its own slot
pub proof fn lemma_rem_home(s: Seq<u64>, d: Seq<int>, a: int, i: int)
    requires valid(s, d), qt(d, a) == a, a <= i, forall|t: int| a <= t <= i + 1 ==> #[trigger] us(s, t), qt(d, i + 1) <= i,
    ensures (oc(s, i) && occs(s, a, i) == runs(s, a, i + 1)) == (qt(d, i + 1) == i),
{
    lemma_runs_occs(s, d, a, i + 1);
    if qt(d, i + 1) < i { lemma_occs_mono(s, a, qt(d, i + 1), i); }
}
/// a moved entry put together: the occupied bit of its new slot, its own continuation and shifted bits, its remainder
pub proof fn lemma_compose(v: u64, x: u64, w: usize)
    requires v == 0 || v == 4, fits(x, w), 4 <= w <= 64,
    ensures
        (v & 4 == 0) == (v == 0), ((v | 2) & 4 == 0) == (v == 0),
        composed(v, x, v | (x & !7), false, false, w), composed(v, x, (v | 2) | (x & !7), true, false, w), composed(v, x, (v | 1) | (x & !7), false, true, w), composed(v, x, ((v | 2) | 1) | (x & !7), true, true, w),
{
    lemma_fits_zero(w);
    assert(0u64 | 4 == 4) by (bit_vector);
    lemma_fits_ops(0, x, w); lemma_fits_ops(v, x, w); lemma_fits_ops(v | 2, x, w); lemma_fits_ops(v | 1, x, w); lemma_fits_ops((v | 2) | 1, x, w);
    assert(0u64 | 4 == 4 && 0u64 >> 3 == 0 && 4u64 >> 3 == 0 && 0u64 & 4 == 0 && 4u64 & 4 == 4 && 0u64 & 1 == 0 && 0u64 & 2 == 0 && 4u64 & 1 == 0 && 4u64 & 2 == 0) by (bit_vector);
    lemma_set_ct(v); lemma_set_sh(v); lemma_set_sh(v | 2);
    lemma_join(v, x); lemma_join(v | 2, x); lemma_join(v | 1, x); lemma_join((v | 2) | 1, x);
}
pub open spec fn composed(v: u64, x: u64, y: u64, c: bool, h: bool, w: usize) -> bool {
    fits(y, w) && (y & 4 != 0) == (v == 4) && (y & 2 != 0) == c && (y & 1 != 0) == h && y >> 3 == x >> 3
}

// ---------------------------------------------------------------- histories
/// one call of insert, remove or clear, as the contracts describe it
pub enum QfOp { Insert((int, u64)), Remove((int, u64)), Clear }
impl<T, B> QuotientFilter<T, B> {
    pub open spec fn after(self, op: QfOp, o: Self) -> bool {
        &&& self.same_shape(o)
        &&& match op {
            QfOp::Insert(p) => o.fps() == self.fps().insert(p),
            QfOp::Remove(p) => o.fps() == self.fps().remove(p),
            QfOp::Clear => o.fps() == ISet::<(int, u64)>::empty(),
        }
    }
}
/// the last operation that concerns p
pub open spec fn qf_present(ops: Seq<QfOp>, n: int, p: (int, u64)) -> bool
    decreases n,
{
    if n <= 0 { false } else {
        match ops[n - 1] {
            QfOp::Insert(x) => x == p || qf_present(ops, n - 1, p),
            QfOp::Remove(x) => x != p && qf_present(ops, n - 1, p),
            QfOp::Clear => false,
        }
    }
}
/// over every history: an item is reported present exactly if its fingerprint was inserted and neither removed nor cleared since
pub proof fn lemma_qf_history<T, B, U: ?Sized>(hist: Seq<QuotientFilter<T, B>>, ops: Seq<QfOp>, n: int, item: &U)
    requires hist.len() == ops.len() + 1, 0 <= n <= ops.len(), hist[0].fps() == ISet::<(int, u64)>::empty(),
        forall|i: int| 0 <= i < ops.len() ==> hist[i].after(#[trigger] ops[i], hist[i + 1]),
    ensures hist[n].fps().contains(hist[n].item_fp(item)) == qf_present(ops, n, hist[0].item_fp(item)), hist[n].item_fp(item) == hist[0].item_fp(item),
    decreases n,
{
    if n > 0 {
        lemma_qf_history(hist, ops, n - 1, item);
        assert(hist[n - 1].after(ops[n - 1], hist[n - 1 + 1]));
    }
}
/// two histories that leave the same fingerprints present leave the same number of them and the same answers
pub proof fn lemma_qf_same<T, B>(a: QuotientFilter<T, B>, b: QuotientFilter<T, B>)
    requires a.wf(), b.wf(), a.same_shape(b), forall|p: (int, u64)| #[trigger] a.fps().contains(p) == b.fps().contains(p),
    ensures a.fps() == b.fps(), a.len == b.len,
{
    assert(a.fps() =~= b.fps());
}

=== fn quotient::QuotientFilter::capacity
requires:
- 1 <= self.quotient_bits < 64
ensures:
- r == self.n()
- 2 <= r <= 0x8000_0000_0000_0000
entry:
    proof { lemma_two_pow(self.quotient_bits); let q = self.quotient_bits; assert((1usize << q) <= 0x8000_0000_0000_0000) by (bit_vector) requires q < 64; }

=== fn quotient::QuotientFilter::quotient_bits
ensures:
- r == self.quotient_bits

=== fn quotient::QuotientFilter::remainder_bits
ensures:
- r == self.remainder_bits

=== fn quotient::QuotientFilter::len
requires:
- self.wf()
ensures:
- r == self.len
- self.fps().finite()
- r == self.fps().len()

=== fn quotient::QuotientFilter::is_empty
requires:
- self.wf()
ensures:
- r == (self.fps().len() == 0)

=== fn quotient::QuotientFilter::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).same_shape(*final(self))
- final(self).fps() == ISet::<(int, u64)>::empty()
entry:
    let ghost g = *self;
    proof { lemma_geo(g); }
exit:
    proof {
        lemma_two_pow(self.quotient_bits); lemma_zero64(); lemma_mask64(self.slot_vec.bit_count);
        assert(fits(0, self.slot_vec.bit_count)) by { assert(fits(g.tab()[0], g.slot_vec.bit_count)); lemma_fits_ops(g.tab()[0], 0, g.slot_vec.bit_count); }
        lemma_empty_table(*self);
    }

=== fn quotient::QuotientFilter::increment_index
requires:
- 1 <= self.quotient_bits < 64
- *old(index) < self.n()
ensures:
- *final(index) == (if *old(index) == self.n() - 1 { 0int } else { *old(index) + 1 })

=== fn quotient::QuotientFilter::decrement_index
requires:
- 1 <= self.quotient_bits < 64
- *old(index) < self.n()
ensures:
- *final(index) == (if *old(index) == 0 { self.n() - 1 } else { *old(index) - 1 })

=== fn quotient::QuotientFilter::with_hasher
attr: panic_if(bad)
requires:
- quotient_bits < 64 && remainder_bits < 64 ==> (remainder_bits + 3) * ((remainder_bits + 3) * (1u64 << quotient_bits)) <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- r.wf()
- r.quotient_bits == quotient_bits
- r.remainder_bits == remainder_bits
- r.hash_builder == hash_builder
- r.fps() == ISet::<(int, u64)>::empty()
entry:
    let ghost bad = quotient_bits == 0 || remainder_bits == 0 || quotient_bits + remainder_bits > 64 || remainder_bits > 61;
let slot_bits 0:
    proof {
        lemma_two_pow(quotient_bits); lemma_two_pow(remainder_bits);
        let b = slot_bits as int; let n = (1u64 << quotient_bits) as int;
        assert(0 <= b * n <= b * (b * n)) by (nonlinear_arith) requires b >= 1, n >= 0;
        assert((b * n) * b == b * (b * n)) by (nonlinear_arith);
        assert(n <= b * n) by (nonlinear_arith) requires b >= 1, n >= 0;
    }
exit:
    proof { lemma_fits_zero(slot_bits as usize); lemma_empty_table(vx_ret); }

=== fn quotient::QuotientFilter::new
attr: panic_if(bad)
requires:
- quotient_bits < 64 && remainder_bits < 64 ==> (remainder_bits + 3) * ((remainder_bits + 3) * (1u64 << quotient_bits)) <= 0xFFFF_FFFF_FFFF_FF00
ensures:
- r.wf()
- r.quotient_bits == quotient_bits
- r.remainder_bits == remainder_bits
- r.fps() == ISet::<(int, u64)>::empty()
entry:
    let ghost bad = quotient_bits == 0 || remainder_bits == 0 || quotient_bits + remainder_bits > 64 || remainder_bits > 61;

=== fn quotient::QuotientFilter::from_fpp_with_hasher
attr: panic_if(bad)
requires:
- 0 < capacity <= 0x100_0000_0000
- vr(fpp) <= 0.0real || vr(fpp) >= 1.0real / 1099511627776.0real
ensures:
- r.wf()
- r.hash_builder == hash_builder
- r.fps() == ISet::<(int, u64)>::empty()
- [real] capacity > 0 && 0.0real < vr(fpp) < 1.0real ==> r.sized(capacity, vr(fpp))
entry:
    let ghost mut bad = !(capacity > 0 && 0.0real < vr(fpp) < 1.0real);
    proof { if !bad { lemma_quotient_args(capacity as int, vr(fpp)); lemma_quotient_small(capacity as int, vr(fpp)); } }
let remainder_bits 0:
    proof { lemma_tr_int(1); lemma_small_sizes(quotient_bits, remainder_bits); bad = bad || quotient_bits + remainder_bits > 64; }
    //@real
    // the values the delegate may refuse are the documented ones
    proof { assert(0.0real < vr(fpp) < 1.0real ==> quotient_bits as int == slots_for(capacity as int) && remainder_bits as int == if remainder_for(vr(fpp)) < 1 { 1int } else { remainder_for(vr(fpp)) }); }
    //@end

=== fn quotient::QuotientFilter::from_fpp
requires:
- 0 < capacity <= 0x100_0000_0000
- vr(fpp) <= 0.0real || vr(fpp) >= 1.0real / 1099511627776.0real
ensures:
- r.wf()
- r.fps() == ISet::<(int, u64)>::empty()
- [real] capacity > 0 && 0.0real < vr(fpp) < 1.0real ==> r.sized(capacity, vr(fpp))

=== fn quotient::QuotientFilter::get_run_start
attr: complexinv
requires:
- self.geo()
- index < self.n()
- exists|s: Seq<u64>, d: Seq<int>| #[trigger] run_pre(s, d, self.tab(), index as int)
ensures:
- exists|a: int, x: int| #[trigger] run_at(self.tab(), index as int, a, x) && r.0 == x % self.n() && r.1 == runs(self.tab(), a, x) && r.2 == occs(self.tab(), a, x)
entry:
    let ghost q = index as int; let ghost p = self.tab(); let ghost n = self.n();
    let ghost mut y: int = index as int;
    let ghost sd = choose|sd: (Seq<u64>, Seq<int>)| run_pre(sd.0, sd.1, p, q);
    let ghost mut a0: int = 0; let ghost mut a: int = 0; let ghost mut x: int = 0; let ghost mut xx: int = 0;
    proof {
        lemma_geo(*self); lemma_mod_near(q, n);
        let (s, d) = choose|s: Seq<u64>, d: Seq<int>| #[trigger] run_pre(s, d, p, q);
        assert(run_pre((s, d).0, (s, d).1, p, q));
        a0 = lemma_anchor(sd.0, sd.1, q - n + 1);
        assert(sh(p, a0) == sh(sd.0, a0));
        assert(occs(p, q + 1, q) == 0);
    }
inv 0:
- n == self.n()
- p == self.tab()
- p.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- q - n < a0 <= y <= q
- index == y % n
- !sh(p, a0)
- forall|t: int| y < t <= q ==> #[trigger] sh(p, t)
invx 0:
- occupied_count == occs(p, y + 1, q)
ens 0:
- occupied_count == occs(p, y, q)
- !sh(p, y)
dec 0:
    y - a0
let slot 0:
    proof {
        lemma_geo(*self);
        assert(slot == sl(p, y));
        lemma_occs_mono(p, y + 1, y, q); lemma_occs_mono(p, y, y - 1, q);
        lemma_occs_split(p, y, y, q);
        assert(occs(p, y, y - 1) == 0);
        assert(occs(p, y, y) == if oc(p, y) { 1int } else { 0int });
    }
stmt decrement_index 0:
    proof { lemma_next_mod(y, n); y = y - 1; }
after 0:
    proof {
        a = y; x = y;
        assert forall|t: int| a < t <= q implies #[trigger] sh(sd.0, t) by { assert(sh(p, t)); }
        assert(sh(p, a) == sh(sd.0, a));
        xx = lemma_locate(sd.0, sd.1, p, q, a);
        assert(runs(p, a, a - 1) == 0); assert(occs(p, a, a - 1) == 0);
    }
inv 1:
- n == self.n()
- p == self.tab()
- p.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- q - n < a <= x
- x <= xx < a + n
- index == x % n
- run_at(p, q, a, xx)
- occupied_count == occs(p, a, q)
invx 1:
- runs_count == runs(p, a, x - 1)
- total_occupied_count == occs(p, a, x - 1)
ens 1:
- runs_count == runs(p, a, x)
- total_occupied_count == occs(p, a, x)
- x == xx
dec 1:
    xx - x
let slot 1:
    proof {
        lemma_geo(*self);
        assert(slot == sl(p, x));
        lemma_occs_mono(p, a, x - 1, x); lemma_runs_mono(p, a, x - 1, x);
        if x < xx { assert(runs(p, a, x) < occs(p, a, q)); }
    }
stmt increment_index 0:
    proof { lemma_next_mod(x, n); x = x + 1; }

=== fn quotient::QuotientFilter::contains
attr: complexinv
requires:
- self.wf()
ensures:
- r == self.fps().contains(self.item_fp(item))
entry:
    let ghost s = self.tab(); let ghost d = self.disp(); let ghost n = self.n();
    let ghost q = self.item_fp(item).0; let ghost r = self.item_fp(item).1;
    let ghost mut a: int = 0; let ghost mut x: int = 0;
    proof { lemma_geo(*self); lemma_item(*self, item); lemma_fps(*self, d); lemma_mod_near(q, n); }
let slot 0:
    proof {
        assert(quotient == q && remainder == r);
        assert(slot == sl(s, q));
        lemma_us(s, q); assert(slot_ok(s, d, q));
        if slot & 4 == 0 { lemma_absent_quotient(s, d, q, r); }
        else {
            if slot >> 3 == r && slot & 2 == 0 && slot & 1 == 0 { assert(entry_at(s, d, q, r, q)); }
            lemma_marked_self(s, q);
            assert(run_pre(s, d, s, q));
        }
    }
let index 0:
    proof {
        let (b, y) = choose|b: int, y: int| #[trigger] run_at(s, q, b, y) && index == y % n;
        a = b; x = y;
        lemma_found(s, d, s, q, a, x);
    }
inv 0:
- n == self.n()
- s == self.tab()
- s.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- valid(s, d)
- remainder == r
- self.item_fp(item) == (q, r)
- 0 <= q < n
- self.fps().contains((q, r)) == held(s, d, q, r)
- index == x % n
- slot == sl(s, x)
- us(s, x)
- qt(d, x) == q
- qt(d, x - 1) < q || (qt(d, x - 1) == q && rm(s, x - 1) < r)
dec 0:
    q + n - x
begin 0:
    proof {
        lemma_geo(*self);
        lemma_reach(s, d, q, x); lemma_mod_near(x, n); lemma_next_mod(x, n);
        if rm(s, x) == r { assert(entry_at(s, d, q, r, x)); }
        if rm(s, x) > r { lemma_absent(s, d, q, r, x); }
    }
asg slot 0:
    proof {
        x = x + 1;
        assert(slot == sl(s, x));
        assert(slot_ok(s, d, x)); lemma_us(s, x);
        if !ct(s, x) { lemma_absent(s, d, q, r, x); }
        else { lemma_reach(s, d, q, x); }
    }

=== fn quotient::QuotientFilter::insert_and_shift_right
attr: complexinv
requires:
- old(self).geo()
- index < old(self).n()
- slot & 4 == 0
- fits(slot, old(self).slot_vec.bit_count)
- has_empty(old(self).tab())
ensures:
- final(self).geo()
- old(self).same_shape(*final(self))
- final(self).len == old(self).len
- exists|z: int| #[trigger] shifted(old(self).tab(), final(self).tab(), index as int, slot, z)
entry:
    let ghost s = self.tab(); let ghost n = self.n(); let ghost y = index as int; let ghost g = *self;
    let ghost mut k: int = 0; let ghost mut e: int = 0; let ghost mut pre = *self; let ghost mut v: u64 = slot;
    proof {
        lemma_geo(*self); lemma_mod_near(y, n);
        let z = choose|z: int| !#[trigger] us(s, z);
        lemma_window(z, y, n); e = (z - y) % n;
        assert(sl(s, y + e) == sl(s, z));
    }
inv 0:
- n == self.n()
- s.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- g.same_shape(*self)
- self.len == g.len
- s == g.tab()
- n == g.n()
- 0 <= e < n
- !us(s, y + e)
invx 0:
- k <= e
- index == (y + k) % n
- shifting(s, self.tab(), y, slot, k, curr_slot)
- fits(curr_slot, self.slot_vec.bit_count)
ens 0:
- exists|z: int| #[trigger] shifted(s, self.tab(), y, slot, z)
dec 0:
    e - k
begin 0:
    proof { pre = *self; v = curr_slot; lemma_geo(*self); lemma_mod_near(y + k, n); }
let next_slot 0:
    proof {
        assert(sl(self.tab(), y + k) == sl(s, y + k));
        assert(next_slot == sl(s, y + k));
        lemma_fits_ops(v, 0, self.slot_vec.bit_count); lemma_fits_ops(next_slot, 0, self.slot_vec.bit_count);
        lemma_fits_ops(next_slot & !4, 0, self.slot_vec.bit_count);
        lemma_set_occ(next_slot); lemma_set_sh(next_slot); lemma_set_sh(next_slot & !4);
    }
stmt set 0:
    proof {
        let w = if oc(s, y + k) { v | 4 } else { v };
        lemma_wrote(pre, *self, y + k, w);
        lemma_shift_step(s, pre.tab(), self.tab(), y, slot, k, v, w, next_slot | 1, us(s, y + k));
        lemma_next_mod(y + k, n);
        if us(s, y + k) { k = k + 1; }
    }

=== fn quotient::QuotientFilter::insert
attr: complexinv rlimit(100) panic_if(full)
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).same_shape(*final(self))
- final(self).fps() == old(self).fps().insert(old(self).item_fp(item))
- old(self).fps().contains(old(self).item_fp(item)) ==> final(self).slot_vec@ == old(self).slot_vec@ && final(self).len == old(self).len
entry:
    let ghost s = self.tab(); let ghost d = self.disp(); let ghost n = self.n(); let ghost g = *self;
    let ghost q = self.item_fp(item).0; let ghost r = self.item_fp(item).1; let ghost w = self.slot_vec.bit_count;
    let ghost full = self.len == n && !self.fps().contains((q, r));
    let ghost mut a: int = 0; let ghost mut x: int = 0; let ghost mut x0: int = 0; let ghost mut front = false; let ghost mut later = false; let ghost mut pre = *self; let ghost mut mid = *self;
    proof {
        lemma_cnt_bound(useds(s));
        lemma_geo(*self); lemma_item(*self, item); lemma_fps(*self, d); lemma_mod_near(q, n);
        lemma_set_occ(r << 3); lemma_fits_ops(r << 3, 0, w);
    }
let slot 0:
    proof {
        assert(quotient == q && remainder == r);
        assert(slot == sl(s, q));
        lemma_us(s, q);
        lemma_fits_ops(slot, 0, w);
    }
stmt set 0:
    proof {
        lemma_wrote(g, *self, q, (r << 3) | 4);
        lemma_ins_canonical(s, d, self.tab(), q, r, (r << 3) | 4);
    }
exit 0:
    proof {
        lemma_fps_insert(g, d, *self, ins_d(d, q, q, 0), q, r, q);
    }
exit 1:
    proof { assert(g.fps().insert((q, r)) =~= g.fps()); }
stmt set 1:
    proof {
        lemma_wrote(g, *self, q, slot | 4);
        lemma_marked_set(s, self.tab(), q);
        lemma_has_empty(s);
        assert(run_pre(s, d, self.tab(), q));
        pre = *self;
        lemma_geo(*self);
    }
let new_run 0:
    proof {
        lemma_has_empty(s);
        if !new_run { lemma_marked_self(s, q); lemma_prepared_self(s, q, 0); assert(self.tab() == s); assert(run_pre(s, d, self.tab(), q)); }
        pre = *self;
        lemma_geo(*self);
    }
let index 0:
    proof {
        let (b, y) = choose|b: int, y: int| #[trigger] run_at(self.tab(), q, b, y) && index == y % n;
        a = b; x = y; x0 = y;
        lemma_found(s, d, self.tab(), q, a, x);
        if new_run { assert(ready(s, d, q, r, x, front, later)); assert(prepared(s, self.tab(), q, x, false)); lemma_prepared_empty(s, self.tab(), q, x, false); mid = *self; }
        lemma_same_place(q, x, n);
        assert(!held(s, d, q, r));
    }
let new_slot 0:
    proof {
        lemma_fits_ops(new_slot, 0, w); lemma_fits_ops(new_slot | 2, 0, w);
        lemma_set_ct(new_slot); lemma_set_sh(new_slot); lemma_set_sh(new_slot | 2);
    }
inv 0:
- n == self.n()
- self.tab() == s
- *self == pre
- s.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- valid(s, d)
- remainder == r
- 0 <= q < n
- !held(s, d, q, r)
- has_empty(s)
- q <= x0 <= x
- x < q + n
- index == x % n
- !ct(s, x0)
- oc(s, q)
- forall|t: int| q <= t < x ==> #[trigger] us(s, t)
invx 0:
- slot == sl(s, x)
- us(s, x)
- qt(d, x) == q
- x > x0 ==> qt(d, x - 1) == q && rm(s, x - 1) < r
ens 0:
- x == x0 ==> ins_front(s, d, q, x, r)
- x > x0 ==> ins_later(s, d, q, x, r)
dec 0:
    q + n - x
begin 0:
    proof {
        lemma_geo(*self); lemma_mod_near(x, n); lemma_next_mod(x, n);
        if rm(s, x) == r { assert(entry_at(s, d, q, r, x)); }
    }
asg slot 0:
    proof {
        x = x + 1;
        assert(slot == sl(s, x));
        lemma_scan_step(s, d, q, r, x);
    }
after 0:
    proof {
        lemma_same_place(x0, x, n); lemma_same_place(q, x, n); lemma_geo(*self); lemma_mod_near(x, n);
        lemma_fits_ops(sl(s, x0), 0, w);
        lemma_prepared_self(s, q, x);
    }
stmt set 2:
    proof {
        front = true;
        lemma_wrote(pre, *self, x, sl(s, x) | 2);
        lemma_front_set(s, self.tab(), q, x);
        lemma_prepared_empty(s, self.tab(), q, x, true);
        mid = *self;
        assert(ready(s, d, q, r, x, front, later));
    }
els 6:
    proof {
        later = true;
        mid = *self;
        assert(ready(s, d, q, r, x, front, later));
    }
exit t:
    proof {
        let fi = lemma_ins_final(s, d, mid.tab(), self.tab(), q, r, x, new_slot, front, later);
        lemma_fps_insert(g, d, *self, fi.0, q, r, fi.1);
    }

=== fn quotient::QuotientFilter::remove
attr: complexinv rlimit(100)
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).same_shape(*final(self))
- final(self).fps() == old(self).fps().remove(old(self).item_fp(item))
- !old(self).fps().contains(old(self).item_fp(item)) ==> final(self).slot_vec@ == old(self).slot_vec@ && final(self).len == old(self).len
entry:
    let ghost s = self.tab(); let ghost d = self.disp(); let ghost n = self.n(); let ghost g = *self;
    let ghost q = self.item_fp(item).0; let ghost r = self.item_fp(item).1; let ghost w = self.slot_vec.bit_count;
    let ghost mut a: int = 0; let ghost mut y: int = 0; let ghost mut i: int = 0; let ghost mut pre = *self; let ghost mut mid = *self; let ghost mut one = false;
    proof {
        lemma_geo(*self); lemma_item(*self, item); lemma_fps(*self, d); lemma_mod_near(q, n);
    }
let remainder 0:
    proof {
        assert(quotient == q && remainder == r);
        lemma_us(s, q);
        if !oc(s, q) { lemma_absent_quotient(s, d, q, r); }
        else { lemma_marked_self(s, q); assert(run_pre(s, d, s, q)); }
        if !held(s, d, q, r) { assert(g.fps().remove((q, r)) =~= g.fps()); }
    }
let occupied_count 0:
    proof {
        let (b, x) = choose|b: int, x: int| #[trigger] run_at(s, q, b, x) && index == x % n;
        a = b; y = x;
        lemma_found(s, d, s, q, a, y);
    }
inv 0:
- n == self.n()
- s == self.tab()
- *self == g
- s.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- valid(s, d)
- remainder == r
- quotient == q
- 0 <= q < n
- !held(s, d, q, r) ==> g.fps().remove((q, r)) == g.fps()
- g.fps().contains((q, r)) == held(s, d, q, r)
- index == y % n
- slot == sl(s, y)
- us(s, y)
- qt(d, y) == q
- q <= y < q + n
- q - n < a <= q
- qt(d, a) == a
- forall|t: int| a <= t < y ==> #[trigger] us(s, t)
- runs_count == runs(s, a, y)
- occupied_count == occs(s, a, y)
invx 0:
- qt(d, y - 1) < q || (qt(d, y - 1) == q && rm(s, y - 1) < r)
ens 0:
- rm(s, y) == r
dec 0:
    q + n - y
begin 0:
    proof {
        lemma_geo(*self);
        lemma_reach(s, d, q, y); lemma_mod_near(y, n); lemma_next_mod(y, n);
        if rm(s, y) > r { lemma_absent(s, d, q, r, y); }
    }
asg slot 0:
    proof {
        y = y + 1;
        assert(slot == sl(s, y));
        assert(slot_ok(s, d, y)); lemma_us(s, y);
        lemma_occs_mono(s, a, y - 1, y);
        if !ct(s, y) { lemma_absent(s, d, q, r, y); }
        else { lemma_reach(s, d, q, y); }
    }
after 0:
    proof {
        i = y;
        lemma_geo(*self); lemma_mod_near(y, n); lemma_next_mod(y, n); lemma_keep(slot);
        lemma_fits_ops(sl(s, y), 0, w);
        assert(entry_at(s, d, q, r, y));
        assert(held(s, d, q, r)); assert(g.fps().contains((q, r))); assert(g.fps().len() > 0);
    }
stmt set 0:
    proof { lemma_wrote(g, *self, y, 0); mid = *self; pre = *self; lemma_geo(*self); }
let next_slot 0:
    proof {
        one = single(s, y);
        assert(sl(self.tab(), y + 1) == sl(s, y + 1));
        assert(next_slot == sl(s, y + 1));
        lemma_fits_ops(sl(mid.tab(), q), 0, w); lemma_mod_near(q, n);
        if !one { lemma_rem_start(s, d, mid.tab(), mid.tab(), q, y); }
    }
stmt set 1:
    proof {
        lemma_wrote(mid, *self, q, canonical_slot);
        assert(canonical_slot == sl(mid.tab(), q) & !4);
        lemma_rem_start(s, d, mid.tab(), self.tab(), q, y);
        lemma_geo(*self);
        lemma_rem_next(s, d, self.tab(), q, y, y);
        lemma_set_occ(sl(mid.tab(), q)); lemma_mod_near(y + 1 - q, n); lemma_same_place(q, y + 1, n);
        if (y + 1 - q) % n == 0 { lemma_window(y + 1, q, n); assert(sl(mid.tab(), y + 1) == sl(mid.tab(), q)); }
    }

inv 1:
- n == self.n()
- n == g.n()
- s == g.tab()
- s.len() == n
- 2 <= n <= 0x4000_0000_0000_0000
- self.geo()
- g.wf()
- g.same_shape(*self)
- self.len == $s.len
- w == self.slot_vec.bit_count
- valid(s, d)
- g.fps().contains((q, r)) == held(s, d, q, r)
- 0 <= q < n
- us(s, y)
- qt(d, y) == q
- rm(s, y) == r
- q <= y <= i
- q - n < a <= q
- qt(d, a) == a
- forall|t: int| a <= t <= i ==> #[trigger] us(s, t)
- forall|x: int| y < x <= i ==> #[trigger] moved(s, x)
- removed(s, d, self.tab(), q, y, i)
- index == i % n
- next_index == (i + 1) % n
- (next_slot & 1 != 0) == sh(self.tab(), i + 1)
- (next_slot & 2 != 0) == ct(self.tab(), i + 1)
- moved(s, i + 1) ==> next_slot == sl(self.tab(), i + 1)
- is_run_start == (i == y && !ct(s, y))
- slot == (if oc(s, i) { 4u64 } else { 0u64 })
- runs_count == runs(s, a, i)
- occupied_count == occs(s, a, i)
dec 1:
    y + n - i
begin 1:
    proof {
        pre = *self;
        lemma_geo(*self); lemma_rem_next(s, d, self.tab(), q, y, i);
        lemma_mod_near(i, n); lemma_mod_near(i + 1, n); lemma_next_mod(i, n); lemma_next_mod(i + 1, n);
        lemma_fits_ops(next_slot, 0, w); lemma_fits_zero(w);
        lemma_occs_mono(s, a, i, i + 1); lemma_runs_mono(s, a, i, i + 1);
        lemma_rem_home(s, d, a, i);
        lemma_compose(slot, next_slot, w);
    }
stmt set 2:
    proof { lemma_wrote(pre, *self, i + 1, 0); mid = *self; lemma_geo(*self); }
stmt set 3:
    proof {
        lemma_wrote(mid, *self, i, slot); lemma_geo(*self);
        lemma_rem_step(s, d, pre.tab(), mid.tab(), self.tab(), q, y, i, slot);
        lemma_keep(next_slot);
    }
asg next_slot 0:
    proof {
        i = i + 1;
        assert(next_slot == sl(self.tab(), i + 1));
    }
after 1:
    proof {
        lemma_geo(g); lemma_geo(*self); lemma_mod_near(i, n);
        lemma_rem_next(s, d, self.tab(), q, y, i);
        // a continuation is always shifted
        assert(slot_ok(s, d, i)); assert(slot_ok(s, d, i + 1)); lemma_us(s, i + 1);
        lemma_remove(s, d, self.tab(), q, y, i);
        lemma_cnt_update(useds(s), i % n, false);
        lemma_fps(g, d);
    }
exit t:
    proof { lemma_fps_remove(g, d, *self, rem_d(d, y, i), q, r, i % n); }

=== fn quotient::QuotientFilter::hasher
ensures:
- *r == self.hash_builder

=== fn quotient::QuotientFilter::estimated_fpp
requires:
- self.wf()
ensures:
- [real] vr(r) == self.est_fpp()
entry:
    //@real
    proof {
        let n = self.remainder_bits as nat; let y = rpow(2.0real, n);
        lemma_rpow_pos(2.0real, n); lemma_rpowf_int(2.0real, n); axiom_exp(1.0real, 0.0real);
        let fill = rdiv((self.len as int) as real, (self.n() as int) as real);
        assert(rdiv(-fill, y) == -rdiv(fill, y)) by { reveal(rdiv); assert((-fill) / y == -(fill / y)) by (nonlinear_arith) requires y > 0.0real; }
    }
    //@end
