=== prelude similarity
impl<'a, T: ?Sized> ShingleIterator<'a, T> {
    pub open spec fn wf(self) -> bool {
        &&& self.tokens@.len() < usize::MAX
        &&& (self.index == 0 || self.index + self.token_count <= self.tokens@.len() + 1)
    }
    /// the windows still to come
    pub open spec fn rest(self) -> nat {
        if self.index + self.token_count > self.tokens@.len() { 0 }
        else { (self.tokens@.len() - self.token_count - self.index + 1) as nat }
    }
    /// window number i of the token list
    pub open spec fn window(self, i: int) -> Seq<&'a T> { self.tokens@.subrange(i, i + self.token_count) }
    /// one call of `next`: `self` before, `o` after, `r` returned
    pub open spec fn step(self, o: Self, r: Option<Vec<&'a T>>) -> bool {
        &&& o.token_count == self.token_count && o.tokens == self.tokens
        &&& self.index + self.token_count <= self.tokens@.len() ==> r.is_some() && r.unwrap()@ == self.window(self.index as int) && o.index == self.index + 1
        &&& self.index + self.token_count > self.tokens@.len() ==> r.is_none() && o.index == self.index
    }
}
/// the outcome of n + 1 successive calls on a new iterator: call number n yields window n, or nothing
/// once there are no further windows
pub proof fn lemma_shingles<'a, T: ?Sized>(st: Seq<ShingleIterator<'a, T>>, out: Seq<Option<Vec<&'a T>>>, n: int)
    requires
        st.len() == out.len() + 1,
        st[0].index == 0,
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] st[i]).step(st[i + 1], out[i]),
        0 <= n < out.len(),
    ensures
        n + st[0].token_count <= st[0].tokens@.len() ==> out[n].is_some() && out[n].unwrap()@ == st[0].window(n),
        n + st[0].token_count > st[0].tokens@.len() ==> out[n].is_none(),
        st[n].token_count == st[0].token_count, st[n].tokens == st[0].tokens,
        n + st[0].token_count <= st[0].tokens@.len() ==> st[n].index == n,
        n + st[0].token_count > st[0].tokens@.len() ==> st[n].index + st[0].token_count > st[0].tokens@.len(),
    decreases n,
{
    if n > 0 {
        lemma_shingles(st, out, n - 1);
        assert(st[n - 1].step(st[n], out[n - 1]));
    }
    assert(st[n].step(st[n + 1], out[n]));
}

=== fn similarity::ShingleIterator::new
requires:
- tokens@.len() < usize::MAX
ensures:
- r.wf()
- r.token_count == token_count
- r.tokens == tokens
- r.index == 0

=== fn similarity::ShingleIterator::next
requires:
- old(self).wf()
ensures:
- final(self).wf()
- old(self).step(*final(self), r)

=== prelude similarity
/// the sizes of the intersection and the union of the two collections, as sets
pub open spec fn inter_len<A>(a: Seq<A>, b: Seq<A>) -> nat { a.to_set().intersect(b.to_set()).len() }
pub open spec fn union_len<A>(a: Seq<A>, b: Seq<A>) -> nat { a.to_set().union(b.to_set()).len() }
/// the two lengths depend on the sets of items only, are symmetric, and for equal sets are equal
pub proof fn lemma_jaccard_sets<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures
        inter_len(a, b) == inter_len(b, a), union_len(a, b) == union_len(b, a),
        a.to_set() == c.to_set() ==> inter_len(a, b) == inter_len(c, b) && union_len(a, b) == union_len(c, b),
        a.to_set() == b.to_set() ==> inter_len(a, b) == union_len(a, b),
        inter_len(a, b) <= union_len(a, b),
{
    lemma_set_sizes(a.to_set(), b.to_set());
    assert(a.to_set().intersect(b.to_set()) =~= b.to_set().intersect(a.to_set()));
    assert(a.to_set().union(b.to_set()) =~= b.to_set().union(a.to_set()));
    if a.to_set() == b.to_set() { assert(a.to_set().intersect(b.to_set()) =~= a.to_set().union(b.to_set())); }
    vstd::set_lib::lemma_len_subset(a.to_set().intersect(b.to_set()), a.to_set().union(b.to_set()));
}
/// inclusion and exclusion
pub proof fn lemma_set_sizes<A>(a: Set<A>, b: Set<A>)
    ensures
        a.union(b).len() + a.intersect(b).len() == a.len() + b.len(),
        a.difference(b).len() + a.intersect(b).len() == a.len(),
        b.difference(a).len() + a.intersect(b).len() == b.len(),
{
    vstd::set_lib::lemma_set_intersect_union_lens(a, b);
    vstd::set_lib::lemma_set_difference_len(a, b);
    vstd::set_lib::lemma_set_difference_len(b, a);
    assert(a.intersect(b) =~= b.intersect(a));
}

=== fn similarity::get_jaccard_similarity
ensures:
- union_len(iter_1@, iter_2@) > 0 ==> r == vx_ratio_spec(inter_len(iter_1@, iter_2@) as int, union_len(iter_1@, iter_2@) as int)
entry:
    let ghost (vx_s1, vx_s2) = (iter_1@, iter_2@);
    proof { lemma_set_sizes(vx_s1.to_set(), vx_s2.to_set()); assert(vx_s1.to_set().intersect(vx_s2.to_set()) =~= vx_s2.to_set().intersect(vx_s1.to_set())); assert(vx_s1.to_set().union(vx_s2.to_set()) =~= vx_s2.to_set().union(vx_s1.to_set())); }

=== prelude similarity_min_hash
/// `m` is the k-th entry of the signature of the items
pub open spec fn min_entry<T, B, U>(d: DoubleHasher<T, B>, items: Seq<U>, k: int, m: u64) -> bool {
    &&& forall|j: int| 0 <= j < items.len() ==> m <= #[trigger] dh_val(d, &items[j], k as nat)
    &&& exists|j: int| 0 <= j < items.len() && m == #[trigger] dh_val(d, &items[j], k as nat)
}
pub open spec fn signature<T, B, U>(d: DoubleHasher<T, B>, n: int, items: Seq<U>, sig: Seq<u64>) -> bool {
    &&& sig.len() == n
    &&& forall|k: int| 0 <= k < n ==> min_entry(d, items, k, #[trigger] sig[k])
}
/// number of equal entries
pub open spec fn matches(a: Seq<u64>, b: Seq<u64>) -> nat
    recommends a.len() == b.len(),
    decreases a.len(),
{
    if a.len() == 0 { 0 } else { matches(a.drop_last(), b.drop_last()) + if a.last() == b.last() { 1nat } else { 0nat } }
}
pub proof fn lemma_matches_step(a: Seq<u64>, b: Seq<u64>, k: int)
    requires a.len() == b.len(), 0 <= k < a.len(),
    ensures
        matches(a.take(k + 1), b.take(k + 1)) == matches(a.take(k), b.take(k)) + if a[k] == b[k] { 1nat } else { 0nat },
        matches(a.take(k), b.take(k)) <= k,
    decreases k,
{
    assert(a.take(k + 1).drop_last() =~= a.take(k));
    assert(b.take(k + 1).drop_last() =~= b.take(k));
    if k > 0 { lemma_matches_step(a, b, k - 1); }
}
/// items and other have the same set of items
pub open spec fn same_set<U>(s: Seq<U>, t: Seq<U>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i])
}
/// the signature depends on the set of items alone
pub proof fn lemma_signature_of_set<T, B, U>(d: DoubleHasher<T, B>, n: int, s: Seq<U>, t: Seq<U>, a: Seq<u64>, b: Seq<u64>)
    requires same_set(s, t), signature(d, n, s, a), signature(d, n, t, b), n >= 0,
    ensures a == b,
{
    assert forall|k: int| 0 <= k < n implies #[trigger] a[k] == b[k] by {
        assert(min_entry(d, s, k, a[k]) && min_entry(d, t, k, b[k]));
        let j = choose|j: int| 0 <= j < s.len() && a[k] == #[trigger] dh_val(d, &s[j], k as nat);
        let i = choose|i: int| 0 <= i < t.len() && b[k] == #[trigger] dh_val(d, &t[i], k as nat);
        assert(t.contains(s[j])); assert(s.contains(t[i]));
        let jj = choose|jj: int| 0 <= jj < t.len() && t[jj] == s[j];
        let ii = choose|ii: int| 0 <= ii < s.len() && s[ii] == t[i];
        assert(b[k] <= dh_val(d, &t[jj], k as nat));
        assert(a[k] <= dh_val(d, &s[ii], k as nat));
    }
    assert(a =~= b);
}
/// the signature of a union is the element-wise minimum
pub proof fn lemma_signature_union<T, B, U>(d: DoubleHasher<T, B>, n: int, s: Seq<U>, t: Seq<U>, a: Seq<u64>, b: Seq<u64>, c: Seq<u64>)
    requires signature(d, n, s, a), signature(d, n, t, b), signature(d, n, s + t, c), n >= 0,
    ensures forall|k: int| 0 <= k < n ==> #[trigger] c[k] == if a[k] <= b[k] { a[k] } else { b[k] },
{
    assert forall|k: int| 0 <= k < n implies #[trigger] c[k] == (if a[k] <= b[k] { a[k] } else { b[k] }) by {
        let u = s + t;
        assert(min_entry(d, s, k, a[k]) && min_entry(d, t, k, b[k]) && min_entry(d, u, k, c[k]));
        let j = choose|j: int| 0 <= j < s.len() && a[k] == #[trigger] dh_val(d, &s[j], k as nat);
        let i = choose|i: int| 0 <= i < t.len() && b[k] == #[trigger] dh_val(d, &t[i], k as nat);
        let l = choose|l: int| 0 <= l < u.len() && c[k] == #[trigger] dh_val(d, &u[l], k as nat);
        assert(u[j] == s[j]); assert(u[s.len() + i] == t[i]);
        assert(c[k] <= dh_val(d, &u[j], k as nat)); assert(c[k] <= dh_val(d, &u[s.len() + i], k as nat));
        if l < s.len() { assert(u[l] == s[l]); assert(a[k] <= dh_val(d, &s[l], k as nat)); }
        else { assert(u[l] == t[l - s.len()]); assert(b[k] <= dh_val(d, &t[l - s.len()], k as nat)); }
    }
}
/// identical item sets match in every position
pub proof fn lemma_matches_self(a: Seq<u64>)
    ensures matches(a, a) == a.len(),
    decreases a.len(),
{
    if a.len() > 0 { lemma_matches_self(a.drop_last()); }
}

=== fn similarity_min_hash::MinHash::with_hashers
ensures:
- r.hasher.hash_builders == hash_builders
- r.hasher_count == hasher_count

=== fn similarity_min_hash::MinHash::new
ensures:
- r.hasher_count == hasher_count

=== fn similarity_min_hash::MinHash::hasher_count
ensures:
- r == self.hasher_count

=== fn similarity_min_hash::MinHash::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn similarity_min_hash::MinHash::get_min_hashes
attr: complexinv
requires:
- iter@.len() > 0
- self.hasher_count < u64::MAX
ensures:
- signature(self.hasher, self.hasher_count as int, iter@, r@)
entry:
    let ghost items = iter@;
inv 0:
- $r@.len() + $it@.len() == items.len()
- $it@ == items.skip($r@.len() as int)
- forall|j: int| 0 <= j < $r@.len() ==> #[trigger] $r@[j] == dh_start(self.hasher, &items[j])
ens 0:
- $r@.len() == items.len()
- forall|j: int| 0 <= j < $r@.len() ==> #[trigger] $r@[j] == dh_start(self.hasher, &items[j])
dec 0:
    $it@.len()
inv 1:
- $k <= $n
- $n == self.hasher_count
- $r@.len() == $k
- hash_iters@.len() == items.len()
- items.len() > 0
- forall|j: int| 0 <= j < items.len() ==> #[trigger] hash_iters@[j] == hi_at(dh_start(self.hasher, &items[j]), $k as nat)
- forall|j: int| 0 <= j < items.len() ==> (#[trigger] hash_iters@[j]).c == $k
- forall|k: int| 0 <= k < $k ==> min_entry(self.hasher, items, k, #[trigger] $r@[k])
inv 2:
- $k <= $n
- $n == items.len()
- hash_iters@.len() == items.len()
- vx_k1 <= vx_n1
- 0 < vx_k1
- forall|j: int| 0 <= j < $k ==> #[trigger] hash_iters@[j] == hi_at(dh_start(self.hasher, &items[j]), vx_k1 as nat)
- forall|j: int| $k <= j < items.len() ==> #[trigger] hash_iters@[j] == hi_at(dh_start(self.hasher, &items[j]), (vx_k1 - 1) as nat)
- forall|j: int| 0 <= j < $k ==> (#[trigger] hash_iters@[j]).c == vx_k1
- forall|j: int| $k <= j < items.len() ==> (#[trigger] hash_iters@[j]).c == vx_k1 - 1
- $k == 0 ==> $r.is_none()
- $k > 0 ==> $r.is_some()
- forall|j: int| 0 <= j < $k ==> $r.unwrap() <= #[trigger] dh_val(self.hasher, &items[j], (vx_k1 - 1) as nat)
- $k > 0 ==> exists|j: int| 0 <= j < $k && $r.unwrap() == #[trigger] dh_val(self.hasher, &items[j], (vx_k1 - 1) as nat)
end 2:
    proof { let j = $k - 1; assert($r.unwrap() <= dh_val(self.hasher, &items[j], (vx_k1 - 1) as nat)); }

=== fn similarity_min_hash::MinHash::get_similarity_from_hashes
attr: panic_if(bad)
ensures:
- min_hashes_1@.len() == min_hashes_2@.len()
- r == vx_ratio_spec(matches(min_hashes_1@, min_hashes_2@) as int, self.hasher_count as int)
entry:
    let ghost bad = min_hashes_1@.len() != min_hashes_2@.len();
inv 0:
- $k <= $n
- vx_k0b == $k
- $n == min_hashes_1@.len()
- vx_n0b == $n
- $r == matches(min_hashes_1@.take($k as int), min_hashes_2@.take($k as int))
- $r <= $k
begin 0:
    proof { lemma_matches_step(min_hashes_1@, min_hashes_2@, $k - 1); }
after 0:
    proof { assert(min_hashes_1@.take($k as int) =~= min_hashes_1@); assert(min_hashes_2@.take($k as int) =~= min_hashes_2@); }

=== fn similarity_min_hash::MinHash::get_similarity
requires:
- iter_1@.len() > 0
- iter_2@.len() > 0
- self.hasher_count < u64::MAX
ensures:
- exists|a: Seq<u64>, b: Seq<u64>| #[trigger] signature(self.hasher, self.hasher_count as int, iter_1@, a) && #[trigger] signature(self.hasher, self.hasher_count as int, iter_2@, b) && r == vx_ratio_spec(matches(a, b) as int, self.hasher_count as int)
- same_set(iter_1@, iter_2@) ==> r == vx_ratio_spec(self.hasher_count as int, self.hasher_count as int)
exit:
    proof {
        if same_set(iter_1@, iter_2@) {
            let (a, b) = choose|a: Seq<u64>, b: Seq<u64>| #[trigger] signature(self.hasher, self.hasher_count as int, iter_1@, a) && #[trigger] signature(self.hasher, self.hasher_count as int, iter_2@, b) && vx_ret == vx_ratio_spec(matches(a, b) as int, self.hasher_count as int);
            lemma_signature_of_set(self.hasher, self.hasher_count as int, iter_1@, iter_2@, a, b);
            lemma_matches_self(a);
        }
    }

=== prelude similarity_sim_hash
/// hashes with a zero at bit i minus hashes with a one
pub open spec fn tally<B, U>(b: B, items: Seq<U>, i: int) -> int
    decreases items.len(),
{
    if items.len() == 0 { 0 } else { tally(b, items.drop_last(), i) + if bit_at(vx_hash::<B, U>(b, &items.last()), i) { -1int } else { 1int } }
}
pub open spec fn bit_at(h: u64, i: int) -> bool { (h >> (i as u64)) & 1 != 0 }
/// bit 63 - i of the result is set exactly when at least as many hashes have a zero as have a one at bit i
pub open spec fn majority<B, U>(b: B, items: Seq<U>, r: u64) -> bool {
    forall|i: int| 0 <= i < 64 ==> #[trigger] bit_at(r, 63 - i) == (tally(b, items, i) >= 0)
}
pub proof fn lemma_tally_step<B, U>(b: B, items: Seq<U>, k: int, i: int)
    requires 0 <= k < items.len(),
    ensures tally(b, items.take(k + 1), i) == tally(b, items.take(k), i) + if bit_at(vx_hash::<B, U>(b, &items[k]), i) { -1int } else { 1int },
{
    assert(items.take(k + 1).drop_last() =~= items.take(k));
    assert(items.take(k + 1).last() == items[k]);
}
pub proof fn lemma_tally_bound<B, U>(b: B, items: Seq<U>, i: int)
    ensures -items.len() <= tally(b, items, i) <= items.len(),
    decreases items.len(),
{
    if items.len() > 0 { lemma_tally_bound(b, items.drop_last(), i); }
}
pub proof fn lemma_tally_append<B, U>(b: B, s: Seq<U>, t: Seq<U>, i: int)
    ensures tally(b, s + t, i) == tally(b, s, i) + tally(b, t, i),
    decreases t.len(),
{
    if t.len() > 0 {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_tally_append(b, s, t.drop_last(), i);
    } else {
        assert(s + t =~= s);
    }
}
pub proof fn lemma_tally_remove<B, U>(b: B, s: Seq<U>, k: int, i: int)
    requires 0 <= k < s.len(),
    ensures tally(b, s, i) == tally(b, s.remove(k), i) + if bit_at(vx_hash::<B, U>(b, &s[k]), i) { -1int } else { 1int },
    decreases s.len(),
{
    if k == s.len() - 1 {
        assert(s.remove(k) =~= s.drop_last());
    } else {
        lemma_tally_remove(b, s.drop_last(), k, i);
        assert(s.remove(k).drop_last() =~= s.drop_last().remove(k));
        assert(s.remove(k).last() == s.last());
    }
}
/// the tally depends on the multiset of items alone
pub proof fn lemma_tally_multiset<B, U>(b: B, s: Seq<U>, t: Seq<U>, i: int)
    requires s.to_multiset() == t.to_multiset(),
    ensures tally(b, s, i) == tally(b, t, i),
    decreases s.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.to_multiset().len() == s.len() && t.to_multiset().len() == t.len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x));
        assert(t.to_multiset().count(x) > 0);
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        lemma_tally_remove(b, t, k, i);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.remove(s.len() - 1).to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(k).to_multiset() =~= t.to_multiset().remove(x));
        lemma_tally_multiset(b, s.drop_last(), t.remove(k), i);
    }
}
/// n copies of the items
pub open spec fn copies<U>(s: Seq<U>, n: nat) -> Seq<U>
    decreases n,
{
    if n == 0 { Seq::empty() } else { copies(s, (n - 1) as nat) + s }
}
pub proof fn lemma_tally_copies<B, U>(b: B, s: Seq<U>, n: nat, i: int)
    ensures tally(b, copies(s, n), i) == n * tally(b, s, i),
    decreases n,
{
    if n > 0 {
        lemma_tally_copies(b, s, (n - 1) as nat, i);
        lemma_tally_append(b, copies(s, (n - 1) as nat), s, i);
        let t = tally(b, s, i);
        let m = (n - 1) as nat;
        assert(n * t == m * t + t) by(nonlinear_arith) requires n == m + 1;
    } else {
        assert(tally(b, copies(s, n), i) == 0);
    }
}
pub proof fn lemma_bits_equal(a: u64, b: u64)
    requires forall|i: int| 0 <= i < 64 ==> #[trigger] bit_at(a, i) == bit_at(b, i),
    ensures a == b,
{
    let x = a ^ b;
    assert forall|i: u64| i < 64 implies #[trigger] ((x >> i) & 1) == 0 by {
        assert(bit_at(a, i as int) == bit_at(b, i as int));
        let p = (a >> i) & 1; let q = (b >> i) & 1;
        assert(((a ^ b) >> i) & 1 == ((a >> i) & 1) ^ ((b >> i) & 1)) by(bit_vector);
        assert((a >> i) & 1 < 2) by(bit_vector);
        assert((b >> i) & 1 < 2) by(bit_vector);
        assert(p == q);
        assert(p ^ q == 0) by(bit_vector) requires p == q;
    }
    lemma_zero_bits(x);
    assert(a ^ b == 0 ==> a == b) by(bit_vector);
}
pub proof fn lemma_zero_bits(x: u64)
    requires forall|i: u64| i < 64 ==> #[trigger] ((x >> i) & 1) == 0,
    ensures x == 0,
{
    lemma_low_zero(x, 64);
    assert(x >> 63 >> 1 == 0) by(bit_vector);
}
pub proof fn lemma_low_zero(x: u64, n: nat)
    requires n <= 64, forall|i: u64| i < 64 ==> #[trigger] ((x >> i) & 1) == 0,
    ensures n < 64 ==> x & sub((1u64 << (n as u64)), 1) == 0, n == 64 ==> x == 0,
    decreases n,
{
    if n == 0 {
        assert(x & sub(1u64 << 0, 1) == 0) by(bit_vector);
    } else {
        lemma_low_zero(x, (n - 1) as nat);
        let k = (n - 1) as u64;
        assert((x >> k) & 1 == 0);
        if n == 64 {
            assert(x == 0) by(bit_vector) requires x & sub(1u64 << k, 1) == 0, (x >> k) & 1 == 0, k == 63;
        } else {
            let m = n as u64;
            assert(x & sub(1u64 << m, 1) == 0) by(bit_vector) requires x & sub(1u64 << k, 1) == 0, (x >> k) & 1 == 0, m == k + 1, m < 64;
        }
    }
}
/// the hash of a document: independent of the order of its items
pub proof fn lemma_sim_hash_order<B, U>(b: B, s: Seq<U>, t: Seq<U>, x: u64, y: u64)
    requires majority(b, s, x), majority(b, t, y), s.to_multiset() == t.to_multiset(),
    ensures x == y,
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit_at(x, i) == bit_at(y, i) by {
        lemma_tally_multiset(b, s, t, 63 - i);
        assert(bit_at(x, 63 - (63 - i)) == (tally(b, s, 63 - i) >= 0));
        assert(bit_at(y, 63 - (63 - i)) == (tally(b, t, 63 - i) >= 0));
    }
    lemma_bits_equal(x, y);
}
/// repeating every item the same number of times does not change it
pub proof fn lemma_sim_hash_copies<B, U>(b: B, s: Seq<U>, n: nat, x: u64, y: u64)
    requires majority(b, s, x), majority(b, copies(s, n), y), n > 0,
    ensures x == y,
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit_at(x, i) == bit_at(y, i) by {
        let v = tally(b, s, 63 - i);
        lemma_tally_copies(b, s, n, 63 - i);
        assert((n * v >= 0) == (v >= 0)) by(nonlinear_arith) requires n > 0;
        assert(bit_at(x, 63 - (63 - i)) == (v >= 0));
        assert(bit_at(y, 63 - (63 - i)) == (tally(b, copies(s, n), 63 - i) >= 0));
    }
    lemma_bits_equal(x, y);
}
pub proof fn lemma_shift_bits(acc: u64, r: u64, b: bool, k: int)
    requires
        0 <= k < 64,
        r == if b { (acc << 1) | 1 } else { acc << 1 },
    ensures
        bit_at(r, 0) == b,
        forall|m: int| 0 < m < 64 ==> #[trigger] bit_at(r, m) == bit_at(acc, m - 1),
{
    assert(((acc << 1) | 1) >> 0 & 1 == 1) by(bit_vector);
    assert((acc << 1) >> 0 & 1 == 0) by(bit_vector);
    assert forall|m: int| 0 < m < 64 implies #[trigger] bit_at(r, m) == bit_at(acc, m - 1) by {
        let q = m as u64; let p = (m - 1) as u64;
        assert(((acc << 1) | 1) >> q & 1 == (acc >> p) & 1) by(bit_vector) requires q == p + 1, q < 64;
        assert((acc << 1) >> q & 1 == (acc >> p) & 1) by(bit_vector) requires q == p + 1, q < 64;
    }
}

=== fn similarity_sim_hash::SimHash::new
ensures:
- r.hash_builder.wf()

=== fn similarity_sim_hash::SimHash::default
ensures:
- r.hash_builder.wf()

=== fn similarity_sim_hash::SimHash::with_hasher
ensures:
- r.hash_builder == hash_builder

=== fn similarity_sim_hash::SimHash::hasher
ensures:
- *r == self.hash_builder

=== fn similarity_sim_hash::SimHash::get_sim_hash
attr: complexinv
requires:
- iter@.len() < i64::MAX
ensures:
- majority(self.hash_builder, iter@, r)
entry:
    let ghost items = iter@;
    let ghost mut done: int = 0;
inv 0:
- 0 <= done <= items.len()
- $it@ == items.skip(done)
- items.len() < i64::MAX
- forall|i: int| 0 <= i < 64 ==> #[trigger] counts@[i] == tally(self.hash_builder, items.take(done), i)
ens 0:
- forall|i: int| 0 <= i < 64 ==> #[trigger] counts@[i] == tally(self.hash_builder, items, i)
dec 0:
    $it@.len()
begin 0:
    let ghost before = counts@;
    proof { assert(item == items[done]); assert($it@ =~= items.skip(done + 1)); done = done + 1; }
inv 1:
- $n == 64
- $k <= 64
- 0 < done <= items.len()
- items.len() < i64::MAX
- hash == vx_hash::<B, U>(self.hash_builder, &items[done - 1])
- counts@.len() == 64 && before.len() == 64
- forall|i: int| 0 <= i < 64 ==> #[trigger] before[i] == tally(self.hash_builder, items.take(done - 1), i)
- forall|i: int| 0 <= i < $k ==> #[trigger] counts@[i] == tally(self.hash_builder, items.take(done), i)
- forall|i: int| $k <= i < 64 ==> #[trigger] counts@[i] == before[i]
begin 1:
    proof {
        lemma_tally_step(self.hash_builder, items, done - 1, $k - 1);
        lemma_tally_bound(self.hash_builder, items.take(done - 1), $k - 1);
        assert(hash >> (($k - 1) as u64) == hash >> (($k - 1) as usize)) by(bit_vector);
    }
inv 2:
- $n == 64
- $k <= 64
- forall|i: int| 0 <= i < $k ==> #[trigger] bit_at($r, $k - 1 - i) == (counts@[i] >= 0)
begin 2:
    let ghost acc0 = $r;
end 2:
    proof {
        lemma_shift_bits(acc0, $r, counts@[$k - 1] >= 0, $k - 1);
        assert forall|i: int| 0 <= i < $k implies #[trigger] bit_at($r, $k - 1 - i) == (counts@[i] >= 0) by {
            if i < $k - 1 { assert(bit_at(acc0, $k - 1 - 1 - i) == (counts@[i] >= 0)); assert(bit_at($r, $k - 1 - i) == bit_at(acc0, $k - 1 - i - 1)); }
        }
    }
exit:
    proof {
        assert(items =~= iter@);
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit_at(vx_ret, 63 - i) == (tally(self.hash_builder, items, i) >= 0) by {
            assert(bit_at(vx_ret, 64 - 1 - i) == (counts@[i] >= 0));
        }
    }

=== prelude similarity_sim_hash
//@broadcast crate::vx_model::lemma_bit_test
/// documents in the order of their hashes rotated by t, ties ordered by index
pub open spec fn arrangement(h: Seq<u64>, t: int, s: Seq<(u64, usize)>) -> bool {
    &&& placed(h, t, s)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> lex(#[trigger] s[i], #[trigger] s[j])
}
/// every document once, with its hash rotated by t
pub open spec fn placed(h: Seq<u64>, t: int, s: Seq<(u64, usize)>) -> bool {
    &&& s.len() == h.len()
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).1 < h.len() && s[j].0 == rot(h[s[j].1 as int], t)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 != (#[trigger] s[j]).1
    &&& forall|d: int| 0 <= d < h.len() ==> #[trigger] occurs(s, d)
}
pub open spec fn occurs(s: Seq<(u64, usize)>, d: int) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == d }
pub open spec fn pair(s: Seq<(u64, usize)>, j: int, k: int) -> (usize, usize) {
    if s[k].1 < s[j].1 { (s[k].1, s[j].1) } else { (s[j].1, s[k].1) }
}
/// documents p < q lie within the window of each other in the order of some rotation
pub open spec fn near(h: Seq<u64>, w: int, x: (usize, usize)) -> bool {
    exists|t: int, s: Seq<(u64, usize)>, j: int, k: int|
        0 <= t < 64 && #[trigger] arrangement(h, t, s) && 0 <= j < k < s.len() && k - j < w && #[trigger] pair(s, j, k) == x
}
pub open spec fn complete(h: Seq<u64>, w: int, m: Set<(usize, usize)>, n: int) -> bool {
    forall|t: int, s: Seq<(u64, usize)>, j: int, k: int| #![trigger arrangement(h, t, s), pair(s, j, k)]
        0 <= t < n && arrangement(h, t, s) && 0 <= j < k < s.len() && k - j < w ==> m.contains(pair(s, j, k))
}
pub open spec fn in_window(i: int, w: int, j: int, k: int) -> bool { i <= j && j < k && k < i + w }
pub open spec fn covered(s: Seq<(u64, usize)>, w: int, m: Set<(usize, usize)>, n: int) -> bool {
    forall|i: int, j: int, k: int| #![trigger in_window(i, w, j, k), pair(s, j, k)] 0 <= i < n && in_window(i, w, j, k) ==> m.contains(pair(s, j, k))
}
pub open spec fn covered_j(s: Seq<(u64, usize)>, w: int, m: Set<(usize, usize)>, i: int, n: int) -> bool {
    forall|j: int, k: int| #![trigger in_window(i, w, j, k), pair(s, j, k)] j < n && in_window(i, w, j, k) ==> m.contains(pair(s, j, k))
}
pub open spec fn sound(h: Seq<u64>, w: int, m: Set<(usize, usize)>) -> bool { forall|x: (usize, usize)| #[trigger] m.contains(x) ==> near(h, w, x) }
pub open spec fn exact_report(h: Seq<u64>, w: int, r: Seq<(usize, usize)>) -> bool {
    &&& r.no_duplicates()
    &&& forall|x: (usize, usize)| #[trigger] r.contains(x) == near(h, w, x)
}
pub proof fn lemma_rot_step(x: u64, t: int)
    requires 0 <= t < 64,
    ensures rot(rot(x, t), 1) == rot(x, t + 1), rot(x, 0) == x,
{
    let a = t as u64; let b = sub(64, a); let a1 = (t + 1) as u64; let b1 = sub(64, a1);
    if t == 0 {
    } else if t == 63 {
        assert(((x << 63) | (x >> 1)) << 1 | ((x << 63) | (x >> 1)) >> 63 == x) by(bit_vector);
    } else {
        assert(((x << a) | (x >> b)) << 1 | ((x << a) | (x >> b)) >> 63 == (x << a1) | (x >> b1)) by(bit_vector)
            requires a < 63, a > 0, b == sub(64, a), a1 == add(a, 1), b1 == sub(64, a1);
    }
}
pub proof fn lemma_arrangement_unique(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, u: Seq<(u64, usize)>)
    requires arrangement(h, t, s), arrangement(h, t, u),
    ensures s == u,
{
    lemma_arr_eq(h, t, s, u, h.len() as int);
    assert(s =~= u);
}
proof fn lemma_arr_eq(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, u: Seq<(u64, usize)>, n: int)
    requires arrangement(h, t, s), arrangement(h, t, u), 0 <= n <= h.len(),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] s[i] == u[i],
    decreases n,
{
    if n > 0 {
        lemma_arr_eq(h, t, s, u, n - 1);
        lemma_arr_ge(h, t, s, u, n - 1);
        lemma_arr_ge(h, t, u, s, n - 1);
    }
}
/// u[i] is at most s[i] when they agree before i
proof fn lemma_arr_ge(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, u: Seq<(u64, usize)>, i: int)
    requires arrangement(h, t, s), arrangement(h, t, u), 0 <= i < h.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] == u[j],
    ensures lex(u[i], s[i]),
{
    assert(occurs(u, s[i].1 as int));
    let j = choose|j: int| 0 <= j < u.len() && (#[trigger] u[j]).1 == s[i].1;
    assert(u[j] == s[i]);
    if j < i { assert(s[j] == u[j]); assert(s[j].1 != s[i].1); }
    if j > i { assert(lex(u[i], u[j])); }
}
/// a rearrangement holds every document once as well
pub proof fn lemma_rearranged(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, u: Seq<(u64, usize)>, p: Seq<int>, q: Seq<int>)
    requires placed(h, t, s), rearranged(s, u, p, q),
    ensures placed(h, t, u),
{
    assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).1 < h.len() && u[j].0 == rot(h[u[j].1 as int], t) by { assert(u[j] == s[p[j]]); }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).1 != (#[trigger] u[j]).1 by {
        assert(u[i] == s[p[i]] && u[j] == s[p[j]]); assert(q[p[i]] == i && q[p[j]] == j);
        if p[i] < p[j] { assert(s[p[i]].1 != s[p[j]].1); } else { assert(p[i] != p[j]); assert(s[p[j]].1 != s[p[i]].1); }
    }
    assert forall|d: int| 0 <= d < h.len() implies #[trigger] occurs(u, d) by {
        assert(occurs(s, d));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == d;
        assert(p[q[j]] == j);
        assert(u[q[j]] == s[j]);
    }
}
/// rotating every hash by one
pub proof fn lemma_rotated(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, u: Seq<(u64, usize)>)
    requires placed(h, t, s), 0 <= t < 64, u.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] u[j]).1 == s[j].1 && u[j].0 == rot(s[j].0, 1),
    ensures placed(h, t + 1, u),
{
    assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).1 < h.len() && u[j].0 == rot(h[u[j].1 as int], t + 1) by { lemma_rot_step(h[s[j].1 as int], t); }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).1 != (#[trigger] u[j]).1 by { assert(s[i].1 != s[j].1); }
    assert forall|d: int| 0 <= d < h.len() implies #[trigger] occurs(u, d) by {
        assert(occurs(s, d));
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == d;
        assert(u[j].1 == d);
    }
}
pub proof fn lemma_covered(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, w: int, we: int, m: Set<(usize, usize)>)
    requires arrangement(h, t, s), covered(s, we, m, h.len() - we + 1), complete(h, w, m, t), we == (if w < h.len() { w } else { h.len() as int }), w > 1,
    ensures complete(h, w, m, t + 1),
{
    assert forall|t2: int, s2: Seq<(u64, usize)>, j: int, k: int| #![trigger arrangement(h, t2, s2), pair(s2, j, k)]
        0 <= t2 < t + 1 && arrangement(h, t2, s2) && 0 <= j < k < s2.len() && k - j < w implies m.contains(pair(s2, j, k)) by {
        if t2 == t {
            lemma_arrangement_unique(h, t, s, s2);
            let i = if j <= h.len() - we { j } else { h.len() - we };
            assert(in_window(i, we, j, k));
        }
    }
}
pub proof fn lemma_sound_insert(h: Seq<u64>, t: int, s: Seq<(u64, usize)>, w: int, m: Set<(usize, usize)>, j: int, k: int)
    requires sound(h, w, m), arrangement(h, t, s), 0 <= t < 64, 0 <= j < k < s.len(), k - j < w,
    ensures sound(h, w, m.insert(pair(s, j, k))),
{
    assert(near(h, w, pair(s, j, k)));
}
/// the pairs reported name different valid documents, the smaller first
pub proof fn lemma_near_valid(h: Seq<u64>, w: int, x: (usize, usize))
    requires near(h, w, x),
    ensures x.0 < x.1 < h.len(),
{
}

=== fn similarity_sim_hash::SimHash::report_similarities
attr: complexinv rlimit(60)
requires:
- window_size > 1
- forall|d: int| 0 <= d < iter_vec@.len() ==> (#[trigger] iter_vec@[d])@.len() < i64::MAX
ensures:
- exists|h: Seq<u64>| #![trigger exact_report(h, window_size as int, r@)] h.len() == iter_vec@.len() && (forall|d: int| 0 <= d < h.len() ==> majority(self.hash_builder, (#[trigger] iter_vec@[d])@, h[d])) && exact_report(h, window_size as int, r@)
entry:
    let ghost docs = iter_vec@;
    proof { assert(docs.len() == iter_vec.len()); }
    let ghost mut h: Seq<u64> = Seq::empty();
    let ghost w = window_size as int;
inv 0:
- docs.len() <= usize::MAX
- $c == $r@.len()
- h.len() == $r@.len()
- h.len() + $it@.len() == docs.len()
- $it@ == docs.skip(h.len() as int)
- forall|d: int| 0 <= d < h.len() ==> majority(self.hash_builder, (#[trigger] docs[d])@, h[d])
- forall|d: int| 0 <= d < h.len() ==> #[trigger] $r@[d] == (h[d], d as usize)
ens 0:
- $r@.len() == docs.len()
- h.len() == docs.len()
- forall|d: int| 0 <= d < h.len() ==> majority(self.hash_builder, (#[trigger] docs[d])@, h[d])
- forall|d: int| 0 <= d < h.len() ==> #[trigger] $r@[d] == (h[d], d as usize)
dec 0:
    $it@.len()
let shingles 0:
    proof { assert(shingles == docs[h.len() as int]); }
begin 0:
    proof { h = h.push(vx_y3.0); }
let sim_hashes 0:
    proof {
        assert forall|d: int| 0 <= d < h.len() implies #[trigger] occurs(sim_hashes@, d) by { assert(sim_hashes@[d].1 == d); }
        assert forall|d: int| 0 <= d < h.len() implies rot(h[d], 0) == h[d] by { }
        assert(placed(h, 0, sim_hashes@));
    }
inv 1:
- $n == 64
- $k <= 64
- h.len() == docs.len()
- placed(h, $k as int, sim_hashes@)
- window_size == (if w < h.len() { w } else { h.len() as int })
- complete(h, w, similarities@, $k as int)
- sound(h, w, similarities@)
let window_size 0:
    proof { assert(window_size == (if w < h.len() { w } else { h.len() as int })); }
stmt sort 0:
    let ghost s = sim_hashes@;
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(before, s, p, q);
        lemma_rearranged(h, (vx_k1 - 1), before, s, p, q);
        assert(arrangement(h, (vx_k1 - 1), s));
    }
begin 1:
    let ghost before = sim_hashes@;
inv 2:
- $k <= $n
- $n == h.len() - window_size + 1
- sim_hashes@ == s
- covered(s, window_size as int, similarities@, $k as int)
- complete(h, w, similarities@, (vx_k1 - 1))
- sound(h, w, similarities@)
inv 3:
- i <= $k <= $n
- $n == i + window_size
- covered(s, window_size as int, similarities@, i as int)
- covered_j(s, window_size as int, similarities@, i as int, $k as int)
- complete(h, w, similarities@, (vx_k1 - 1))
- sound(h, w, similarities@)
inv 4:
- j + 1 <= $k <= $n
- $n == i + window_size
- covered(s, window_size as int, similarities@, i as int)
- covered_j(s, window_size as int, similarities@, i as int, j as int)
- forall|k: int| j < k < $k ==> similarities@.contains(#[trigger] pair(s, j as int, k))
- complete(h, w, similarities@, (vx_k1 - 1))
- sound(h, w, similarities@)
begin 4:
    proof { lemma_sound_insert(h, (vx_k1 - 1), s, w, similarities@, j as int, $k - 1); }
after 2:
    proof { lemma_covered(h, (vx_k1 - 1), s, w, window_size as int, similarities@); }
inv 5:
- $k <= $n
- $n == sim_hashes@.len()
- sim_hashes@.len() == s.len()
- complete(h, w, similarities@, vx_k1 as int)
- sound(h, w, similarities@)
- forall|j: int| 0 <= j < $k ==> (#[trigger] sim_hashes@[j]).1 == s[j].1 && sim_hashes@[j].0 == rot(s[j].0, 1)
- forall|j: int| $k <= j < s.len() ==> #[trigger] sim_hashes@[j] == s[j]
after 5:
    proof { lemma_rotated(h, (vx_k1 - 1), s, sim_hashes@); }
exit:
    proof {
        assert(vx_ret@.no_duplicates());
        assert forall|x: (usize, usize)| #[trigger] vx_ret@.contains(x) == near(h, w, x) by { }
        assert(exact_report(h, w, vx_ret@));
    }
