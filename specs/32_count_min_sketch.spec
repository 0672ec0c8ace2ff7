=== prelude count_min_sketch
/// strategies as contracts: every strategy states what it needs and what it returns
pub trait CountStrategy: Sized {
    spec fn est_req(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> bool;
    spec fn est_ok(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>, r: i64) -> bool;
    fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> (r: i64)
        requires Self::est_req(items, rows, cols, iter),
        ensures Self::est_ok(items, rows, cols, iter, r);
}
/// the sketch is at most 2^32 x 2^31 cells, with at least one column
pub open spec fn geometry(rows: int, cols: int, len: int) -> bool { len == rows * cols && 0 < cols <= usize::MAX && 0 <= rows < usize::MAX && len <= usize::MAX }
pub open spec fn cell_of(rows: int, cols: int, r: int, h: u64) -> int { r * cols + (h as int) % cols }
impl<'a> ItemValueIter<'a> {
    pub open spec fn wf(self) -> bool {
        geometry(self.rows as int, self.cols as int, self.grid@.len() as int) && self.row <= self.rows && self.hash_iter.c + (self.rows - self.row) < u64::MAX
    }
    /// not yet advanced
    pub open spec fn fresh(self, rows: usize, cols: usize) -> bool { self.wf() && self.row == 0 && self.rows == rows && self.cols == cols && rows > 0 }
    /// value number r of a fresh iterator
    pub open spec fn val(self, r: int) -> i64 { self.grid@[cell_of(self.rows as int, self.cols as int, r, hi_val(self.hash_iter, r as nat))] }
    pub open spec fn at_row(self, r: int) -> Self { ItemValueIter { row: r as usize, hash_iter: hi_at(self.hash_iter, r as nat), ..self } }
    pub open spec fn is_min(self, m: i64) -> bool {
        &&& forall|r: int| 0 <= r < self.rows ==> m <= #[trigger] self.val(r)
        &&& exists|r: int| 0 <= r < self.rows && m == #[trigger] self.val(r)
    }
    /// the values with their bias taken off
    pub open spec fn corrected(self, items: int) -> Seq<i64> { Seq::new(self.rows as nat, |r: int| unbiased(items, self.val(r), self.cols as int)) }
    pub open spec fn total(self, n: int) -> int
        decreases n,
    { if n <= 0 { 0 } else { self.total(n - 1) + self.val(n - 1) } }
}
/// a cell's share of the other items: their number over the number of other columns, rounded up
pub open spec fn bias_of(items: int, v: i64, cols: int) -> int {
    if cols == 1 { 0 } else { rtrunc(rceil(rdiv((items - v) as real, (cols - 1) as real))) }
}
pub open spec fn unbiased(items: int, v: i64, cols: int) -> i64 { (v - bias_of(items, v, cols)) as i64 }
/// the element in the middle of s in ascending order, the lower of two
pub open spec fn lower_median(s: Seq<i64>, x: i64) -> bool {
    exists|t: Seq<i64>, p: Seq<int>, q: Seq<int>| #[trigger] rearranged(s, t, p, q) && ascending(t) && x == t[(s.len() - 1) / 2]
}
pub open spec fn ascending(t: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]) <= #[trigger] t[j] }
/// bounds down to 2^-40 and failure probabilities down to 2^-64 fit
pub proof fn lemma_cms_size(eps: real, delta: real)
    requires eps >= 1.0real / 1099511627776.0real, delta >= tiny(),
    ensures delta > 0.0real, rdiv(1.0real, delta) > 0.0real, up(rln(rdiv(1.0real, delta))) <= 64, up(rdiv(rexp(1.0real), eps)) <= 0x1000_0000_0000,
        rln(rdiv(1.0real, delta)) == -rln(delta),
{
    lemma_tiny(delta); lemma_ln_inv(delta); lemma_up_le(-rln(delta), 64);
    let e = rexp(1.0real); let h = rexp(0.5real); let g = rexp(-0.5real);
    axiom_exp(0.5real, 0.5real); axiom_exp(0.5real, -0.5real); axiom_exp(-0.5real, 0.0real); lemma_ln_one();
    assert(0.5real + 0.5real == 1.0real && 0.5real + -0.5real == 0.0real);
    assert(h <= 2.0real) by (nonlinear_arith) requires h * g == 1.0real, g >= 0.5real, h > 0.0real;
    assert(e <= 4.0real) by (nonlinear_arith) requires e == h * h, 0.0real < h <= 2.0real;
    assert(rdiv(e, eps) <= 17592186044416.0real) by { reveal(rdiv); assert(e / eps <= 17592186044416.0real) by (nonlinear_arith) requires e <= 4.0real, eps >= 1.0real / 1099511627776.0real, e >= 0.0real || e < 0.0real; }
    lemma_up_le(rdiv(e, eps), 0x1000_0000_0000);
}
pub proof fn lemma_bias(items: int, v: i64, cols: int)
    requires cols > 1, -0x2000_0000_0000_0000 <= items <= 0x2000_0000_0000_0000, -0x2000_0000_0000_0000 <= v <= 0x2000_0000_0000_0000,
    ensures -0x4000_0000_0000_0000 <= bias_of(items, v, cols) <= 0x4000_0000_0000_0000,
{
    reveal(rdiv);
    let a = (items - v) as real; let c = (cols - 1) as real;
    let x = a / c;
    assert(-4611686018427387904.0real <= x <= 4611686018427387904.0real) by (nonlinear_arith)
        requires c >= 1.0real, -4611686018427387904.0real <= a <= 4611686018427387904.0real, x == a / c;
    lemma_floor(x);
}
/// a sketch sized for epsilon and delta reports at most these
pub proof fn lemma_cms_adequate<T, U, B>(s: CountMinSketch<T, U, B>, epsilon: real, delta: real)
    requires s.sized(epsilon, delta), epsilon > 0.0real, delta > 0.0real, s.rows < usize::MAX, s.cols < usize::MAX,
    ensures s.cols > 0, s.confidence_of() <= epsilon, s.error_of() <= delta,
{
    let e = rexp(1.0real); let c = (s.cols as int) as real; let r = (s.rows as int) as real;
    axiom_exp(1.0real, 0.0real); axiom_exp(r, 0.0real);
    lemma_up(rdiv(e, epsilon)); lemma_rdiv_pos(e, epsilon);
    lemma_ln_inv(delta); lemma_up(rln(rdiv(1.0real, delta)));
    axiom_ln(rdiv(1.0real, delta));
    lemma_exp_mono(rln(rdiv(1.0real, delta)), r);
    let x = rexp(r);
    reveal(rdiv);
    assert(e / c <= epsilon) by {
        let q = e / epsilon;
        assert(q * epsilon == e) by (nonlinear_arith) requires q == e / epsilon, epsilon > 0.0real;
        let y = e / c;
        assert(y * c == e) by (nonlinear_arith) requires y == e / c, c > 0.0real;
        assert(y <= epsilon) by (nonlinear_arith) requires y * c == e, q * epsilon == e, c >= q, q > 0.0real, epsilon > 0.0real;
    }
    assert(1.0real / x <= delta) by {
        let q = 1.0real / delta;
        assert(q * delta == 1.0real) by (nonlinear_arith) requires q == 1.0real / delta, delta > 0.0real;
        let y = 1.0real / x;
        assert(y * x == 1.0real) by (nonlinear_arith) requires y == 1.0real / x, x > 0.0real;
        assert(y <= delta) by (nonlinear_arith) requires y * x == 1.0real, q * delta == 1.0real, x >= q, q > 0.0real, delta > 0.0real;
    }
}
/// the cell of a row is inside the grid, and cells of different rows differ
pub proof fn lemma_cell(rows: int, cols: int, r: int, h: u64)
    requires 0 < cols, 0 <= r < rows,
    ensures 0 <= cell_of(rows, cols, r, h) < rows * cols, cell_of(rows, cols, r, h) / cols == r, 0 <= r * cols, (r + 1) * cols <= rows * cols, (r + 1) * cols == r * cols + cols,
{
    let m = (h as int) % cols;
    assert(0 <= m < cols);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * cols + m, cols, r, m);
    assert(r * cols + cols <= rows * cols) by(nonlinear_arith) requires r + 1 <= rows, 0 < cols;
    assert((r + 1) * cols == r * cols + cols) by(nonlinear_arith);
    assert(0 <= r * cols) by(nonlinear_arith) requires 0 <= r, 0 < cols;
}
impl<T, U, B> CountMinSketch<T, U, B> {
    /// sized for an error of epsilon with probability 1 - delta
    pub open spec fn sized(self, epsilon: real, delta: real) -> bool {
        &&& delta > 0.0real ==> self.rows as int == up(rln(rdiv(1.0real, delta)))
        &&& epsilon > 0.0real ==> self.cols as int == up(rdiv(rexp(1.0real), epsilon))
    }
    pub open spec fn confidence_of(self) -> real { rdiv(rexp(1.0real), (self.cols as int) as real) }
    pub open spec fn error_of(self) -> real { rdiv(1.0real, rexp((self.rows as int) as real)) }
    pub open spec fn wf(self) -> bool { geometry(self.rows as int, self.cols as int, self.grid@.len() as int) }
    pub open spec fn same_keys(self, o: Self) -> bool { self.rows == o.rows && self.cols == o.cols && self.hasher == o.hasher && self.grid@.len() == o.grid@.len() }
    /// the item's cell in row r
    pub open spec fn cell<V: ?Sized>(self, item: &V, r: int) -> int { cell_of(self.rows as int, self.cols as int, r, dh_val(self.hasher, item, r as nat)) }
    pub open spec fn probed<V: ?Sized>(self, item: &V, i: int) -> bool { exists|r: int| 0 <= r < self.rows && #[trigger] self.cell(item, r) == i }
    pub open spec fn weight<V: ?Sized>(self, item: &V, i: int) -> int { if self.probed(item, i) { 1 } else { 0 } }
    /// `self` after adding `value` to `item` gives `o`
    pub open spec fn updated<V: ?Sized>(self, item: &V, value: int, o: Self) -> bool {
        &&& o.same_keys(self)
        &&& o.items == self.items + value
        &&& forall|i: int| 0 <= i < self.grid@.len() ==> #[trigger] o.grid@[i] == self.grid@[i] + (if self.probed(item, i) { value } else { 0 })
    }
    /// adding `value` overflows nothing
    pub open spec fn room<V: ?Sized>(self, item: &V, value: int) -> bool {
        &&& i64::MIN <= self.items + value <= i64::MAX
        &&& forall|i: int| 0 <= i < self.grid@.len() ==> i64::MIN <= #[trigger] self.grid@[i] + value <= i64::MAX
    }
    pub open spec fn iter_of<V: ?Sized>(self, item: &V) -> ItemValueIter<'_> {
        ItemValueIter { row: 0, rows: self.rows, cols: self.cols, grid: &self.grid, hash_iter: dh_start(self.hasher, item) }
    }
    /// r is the smallest of the item's cells
    pub open spec fn min_cell<V: ?Sized>(self, item: &V, m: i64) -> bool {
        &&& forall|r: int| 0 <= r < self.rows ==> m <= self.grid@[#[trigger] self.cell(item, r)]
        &&& exists|r: int| 0 <= r < self.rows && m == self.grid@[#[trigger] self.cell(item, r)]
    }
    pub open spec fn blank(self) -> bool { self.items == 0 && forall|i: int| 0 <= i < self.grid@.len() ==> #[trigger] self.grid@[i] == 0 }
}
/// the estimate of the minimum strategy is the smallest cell
pub proof fn lemma_min_cell<T, U, B, V: ?Sized>(s: CountMinSketch<T, U, B>, item: &V, m: i64)
    requires s.iter_of(item).is_min(m),
    ensures s.min_cell(item, m),
{
    let it = s.iter_of(item);
    assert forall|r: int| 0 <= r < s.rows implies m <= s.grid@[#[trigger] s.cell(item, r)] by { assert(m <= it.val(r)); }
    let r = choose|r: int| 0 <= r < it.rows && m == #[trigger] it.val(r);
    assert(m == s.grid@[s.cell(item, r)]);
}
/// an operation: an item and the value added for it (negative for a removal)
pub open spec fn cell_sum<T, U, B, V>(s: CountMinSketch<T, U, B>, ops: Seq<(V, int)>, i: int) -> int
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else { cell_sum(s, ops.drop_last(), i) + (if s.probed(&ops.last().0, i) { ops.last().1 } else { 0 }) }
}
pub open spec fn net<V>(ops: Seq<(V, int)>, x: V) -> int
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else { net(ops.drop_last(), x) + (if ops.last().0 == x { ops.last().1 } else { 0 }) }
}
pub open spec fn sum_all<V>(ops: Seq<(V, int)>) -> int
    decreases ops.len(),
{
    if ops.len() == 0 { 0 } else { sum_all(ops.drop_last()) + ops.last().1 }
}
pub open spec fn without<V>(ops: Seq<(V, int)>, x: V) -> Seq<(V, int)>
    decreases ops.len(),
{
    if ops.len() == 0 { ops } else if ops.last().0 == x { without(ops.drop_last(), x) } else { without(ops.drop_last(), x).push(ops.last()) }
}
pub open spec fn negated<V>(ops: Seq<(V, int)>) -> Seq<(V, int)> { Seq::new(ops.len(), |k: int| (ops[k].0, -ops[k].1)) }
/// every history of updates: each cell is the sum of the values of the items mapped to it
pub proof fn lemma_cms_history<T, U, B, V>(hist: Seq<CountMinSketch<T, U, B>>, ops: Seq<(V, int)>, n: int)
    requires
        hist.len() == ops.len() + 1,
        hist[0].blank(),
        forall|k: int| 0 <= k < ops.len() ==> hist[k].updated(&(#[trigger] ops[k]).0, ops[k].1, hist[k + 1]),
        0 <= n <= ops.len(),
    ensures
        hist[n].same_keys(hist[0]),
        hist[n].items == sum_all(ops.take(n)),
        forall|i: int| 0 <= i < hist[0].grid@.len() ==> #[trigger] hist[n].grid@[i] == cell_sum(hist[0], ops.take(n), i),
    decreases n,
{
    if n > 0 {
        lemma_cms_history(hist, ops, n - 1);
        assert(ops.take(n).drop_last() =~= ops.take(n - 1));
        let a = hist[n - 1];
        assert(a.updated(&ops[n - 1].0, ops[n - 1].1, hist[n]));
        assert forall|i: int| 0 <= i < hist[0].grid@.len() implies #[trigger] hist[n].grid@[i] == cell_sum(hist[0], ops.take(n), i) by {
            assert(a.grid@[i] == cell_sum(hist[0], ops.take(n - 1), i));
            lemma_probed_keys(a, hist[0], &ops[n - 1].0, i);
        }
    }
}
pub proof fn lemma_probed_keys<T, U, B, V: ?Sized>(a: CountMinSketch<T, U, B>, b: CountMinSketch<T, U, B>, item: &V, i: int)
    requires a.same_keys(b),
    ensures a.probed(item, i) == b.probed(item, i),
{
    if a.probed(item, i) { let r = choose|r: int| 0 <= r < a.rows && #[trigger] a.cell(item, r) == i; assert(b.cell(item, r) == i); }
    if b.probed(item, i) { let r = choose|r: int| 0 <= r < b.rows && #[trigger] b.cell(item, r) == i; assert(a.cell(item, r) == i); }
}
/// with non-negative updates the smallest cell is at least the item's own total and at most the total of all
pub proof fn lemma_cms_bounds<T, U, B, V>(s: CountMinSketch<T, U, B>, ops: Seq<(V, int)>, x: V, i: int)
    requires s.probed(&x, i), forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).1 >= 0,
    ensures net(ops, x) <= cell_sum(s, ops, i) <= sum_all(ops),
    decreases ops.len(),
{
    if ops.len() > 0 {
        assert(ops.last() == ops[ops.len() - 1]);
        lemma_cms_bounds(s, ops.drop_last(), x, i);
    }
}
/// no undercount, no overcount: over every history of non-negative updates
pub proof fn lemma_cms_estimate<T, U, B, V>(hist: Seq<CountMinSketch<T, U, B>>, ops: Seq<(V, int)>, n: int, x: V, m: i64)
    requires
        hist.len() == ops.len() + 1,
        hist[0].blank(), hist[0].wf(),
        forall|k: int| 0 <= k < ops.len() ==> hist[k].updated(&(#[trigger] ops[k]).0, ops[k].1, hist[k + 1]) && ops[k].1 >= 0,
        0 <= n <= ops.len(),
        hist[n].min_cell(&x, m),
    ensures net(ops.take(n), x) <= m <= sum_all(ops.take(n)),
{
    lemma_cms_history(hist, ops, n);
    let h = hist[n];
    let r = choose|r: int| 0 <= r < h.rows && m == h.grid@[#[trigger] h.cell(&x, r)];
    let i = h.cell(&x, r);
    lemma_cell(h.rows as int, h.cols as int, r, dh_val(h.hasher, &x, r as nat));
    assert(h.probed(&x, i));
    lemma_probed_keys(h, hist[0], &x, i);
    lemma_cms_bounds(hist[0], ops.take(n), x, i);
    assert(h.grid@[i] == cell_sum(hist[0], ops.take(n), i));
}
proof fn lemma_without<T, U, B, V>(s: CountMinSketch<T, U, B>, ops: Seq<(V, int)>, x: V, y: V, i: int)
    ensures
        without(ops, x).len() <= ops.len(),
        cell_sum(s, ops, i) == cell_sum(s, without(ops, x), i) + (if s.probed(&x, i) { net(ops, x) } else { 0 }),
        sum_all(ops) == sum_all(without(ops, x)) + net(ops, x),
        net(without(ops, x), y) == if x == y { 0 } else { net(ops, y) },
    decreases ops.len(),
{
    if ops.len() > 0 {
        lemma_without(s, ops.drop_last(), x, y, i);
        let w = without(ops.drop_last(), x);
        if ops.last().0 != x { assert(w.push(ops.last()).drop_last() =~= w); }
    }
}
proof fn lemma_zero_net<T, U, B, V>(s: CountMinSketch<T, U, B>, ops: Seq<(V, int)>, i: int)
    requires forall|x: V| #[trigger] net(ops, x) == 0,
    ensures cell_sum(s, ops, i) == 0, sum_all(ops) == 0,
    decreases ops.len(),
{
    if ops.len() > 0 {
        let x = ops.last().0;
        let w = without(ops, x);
        lemma_without(s, ops, x, x, i);
        lemma_without(s, ops.drop_last(), x, x, i);
        assert(net(ops, x) == 0);
        assert forall|y: V| #[trigger] net(w, y) == 0 by { lemma_without(s, ops, x, y, i); assert(net(ops, y) == 0); }
        lemma_zero_net(s, w, i);
    }
}
proof fn lemma_append<T, U, B, V>(s: CountMinSketch<T, U, B>, a: Seq<(V, int)>, b: Seq<(V, int)>, x: V, i: int)
    ensures
        cell_sum(s, a + b, i) == cell_sum(s, a, i) + cell_sum(s, b, i),
        sum_all(a + b) == sum_all(a) + sum_all(b),
        net(a + b, x) == net(a, x) + net(b, x),
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_append(s, a, b.drop_last(), x, i);
        assert((a + b).drop_last() =~= a + b.drop_last());
    } else {
        assert(a + b =~= a);
    }
}
proof fn lemma_negated<T, U, B, V>(s: CountMinSketch<T, U, B>, a: Seq<(V, int)>, x: V, i: int)
    ensures
        cell_sum(s, negated(a), i) == -cell_sum(s, a, i),
        sum_all(negated(a)) == -sum_all(a),
        net(negated(a), x) == -net(a, x),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_negated(s, a.drop_last(), x, i);
        assert(negated(a).drop_last() =~= negated(a.drop_last()));
    }
}
/// the state is a function of the net value of each item: order and splitting of values do not matter
pub proof fn lemma_cms_linear<T, U, B, V>(s: CountMinSketch<T, U, B>, a: Seq<(V, int)>, b: Seq<(V, int)>, i: int)
    requires forall|x: V| #[trigger] net(a, x) == net(b, x),
    ensures cell_sum(s, a, i) == cell_sum(s, b, i), sum_all(a) == sum_all(b),
{
    let d = a + negated(b);
    assert forall|x: V| #[trigger] net(d, x) == 0 by { lemma_append(s, a, negated(b), x, i); lemma_negated(s, b, x, i); assert(net(a, x) == net(b, x)); }
    lemma_zero_net(s, d, i);
    if a.len() > 0 { let x = a[0].0; lemma_append(s, a, negated(b), x, i); lemma_negated(s, b, x, i); }
    else if b.len() > 0 { let x = b[0].0; lemma_append(s, a, negated(b), x, i); lemma_negated(s, b, x, i); }
}
/// two histories with the same net values end in the same state
pub proof fn lemma_cms_state<T, U, B, V>(h1: Seq<CountMinSketch<T, U, B>>, a: Seq<(V, int)>, h2: Seq<CountMinSketch<T, U, B>>, b: Seq<(V, int)>)
    requires
        h1.len() == a.len() + 1, h2.len() == b.len() + 1,
        h1[0].blank(), h2[0].blank(), h1[0].same_keys(h2[0]),
        forall|k: int| 0 <= k < a.len() ==> h1[k].updated(&(#[trigger] a[k]).0, a[k].1, h1[k + 1]),
        forall|k: int| 0 <= k < b.len() ==> h2[k].updated(&(#[trigger] b[k]).0, b[k].1, h2[k + 1]),
        forall|x: V| #[trigger] net(a, x) == net(b, x),
    ensures h1[a.len() as int].grid@ == h2[b.len() as int].grid@, h1[a.len() as int].items == h2[b.len() as int].items,
{
    lemma_cms_history(h1, a, a.len() as int);
    lemma_cms_history(h2, b, b.len() as int);
    assert(a.take(a.len() as int) =~= a);
    assert(b.take(b.len() as int) =~= b);
    let (x, y) = (h1[a.len() as int], h2[b.len() as int]);
    lemma_cms_linear(h1[0], a, b, 0);
    assert forall|i: int| 0 <= i < x.grid@.len() implies #[trigger] x.grid@[i] == y.grid@[i] by {
        lemma_cms_linear(h1[0], a, b, i);
        lemma_cell_sum_keys(h1[0], h2[0], b, i);
        assert(y.grid@[i] == cell_sum(h2[0], b, i));
    }
    assert(x.grid@ =~= y.grid@);
}
proof fn lemma_cell_sum_keys<T, U, B, V>(s: CountMinSketch<T, U, B>, t: CountMinSketch<T, U, B>, a: Seq<(V, int)>, i: int)
    requires s.same_keys(t),
    ensures cell_sum(s, a, i) == cell_sum(t, a, i),
    decreases a.len(),
{
    if a.len() > 0 { lemma_cell_sum_keys(s, t, a.drop_last(), i); lemma_probed_keys(s, t, &a.last().0, i); }
}
/// removing a value undoes inserting it
pub proof fn lemma_cms_undo<T, U, B, V: ?Sized>(a: CountMinSketch<T, U, B>, item: &V, v: int, b: CountMinSketch<T, U, B>, c: CountMinSketch<T, U, B>)
    requires a.updated(item, v, b), b.updated(item, -v, c),
    ensures c.grid@ == a.grid@, c.items == a.items, c.same_keys(a),
{
    assert forall|i: int| 0 <= i < a.grid@.len() implies #[trigger] c.grid@[i] == a.grid@[i] by { lemma_probed_keys(a, b, item, i); assert(b.grid@[i] == a.grid@[i] + (if a.probed(item, i) { v } else { 0 })); }
    assert(c.grid@ =~= a.grid@);
}

=== traititems CountMinStrategy
    open spec fn est_req(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> bool { iter.fresh(rows, cols) }
    open spec fn est_ok(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>, r: i64) -> bool { iter.is_min(r) }

=== fn count_min_sketch::CountMinStrategy::get_estimate
attr: complexinv
entry:
    let ghost it0 = iter;
    let ghost mut done: int = 0;
inv 0:
- 0 <= done <= it0.rows
- $it == it0.at_row(done)
- it0.fresh(it0.rows, it0.cols)
- hi_at(it0.hash_iter, done as nat).c == it0.hash_iter.c + done
- done == 0 ==> $r.is_none()
- done > 0 ==> $r.is_some()
- forall|r: int| 0 <= r < done ==> $r.unwrap() <= #[trigger] it0.val(r)
- done > 0 ==> exists|r: int| 0 <= r < done && $r.unwrap() == #[trigger] it0.val(r)
ens 0:
- done == it0.rows
- it0.is_min($r.unwrap())
- $r.is_some()
dec 0:
    it0.rows - done
begin 0:
    let ghost r0 = $r;
    proof { done = done + 1; }
end 0:
    proof { assert($r.unwrap() <= it0.val(done - 1)); }

=== traititems CountMeanStrategy
    open spec fn est_req(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> bool {
        iter.fresh(rows, cols) && forall|n: int| 0 <= n <= rows ==> i64::MIN <= #[trigger] iter.total(n) <= i64::MAX
    }
    open spec fn est_ok(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>, r: i64) -> bool {
        r == clamp(rtrunc(rround(rdiv((iter.total(rows as int)) as real, (rows as int) as real))), i64::MIN as int, i64::MAX as int)
    }

=== fn count_min_sketch::CountMeanStrategy::get_estimate
attr: complexinv
entry:
    let ghost it0 = iter;
    let ghost mut done: int = 0;
inv 0:
- 0 <= done <= it0.rows
- $it == it0.at_row(done)
- it0.fresh(it0.rows, it0.cols)
- hi_at(it0.hash_iter, done as nat).c == it0.hash_iter.c + done
- $r == it0.total(done)
ens 0:
- $r == it0.total(it0.rows as int)
dec 0:
    it0.rows - done
begin 0:
    proof { done = done + 1; assert(i64::MIN <= it0.total(done) <= i64::MAX); }

=== traititems CountMedianBiasStrategy
    open spec fn est_req(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> bool {
        &&& iter.fresh(rows, cols)
        &&& -0x2000_0000_0000_0000 <= items <= 0x2000_0000_0000_0000
        &&& forall|r: int| 0 <= r < rows ==> -0x2000_0000_0000_0000 <= #[trigger] iter.val(r) <= 0x2000_0000_0000_0000
        &&& cols > 1 || forall|r: int| 0 <= r < rows ==> #[trigger] iter.val(r) == items
    }
    open spec fn est_ok(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>, r: i64) -> bool {
        exists|m: i64, x: i64| #[trigger] iter.is_min(m) && #[trigger] lower_median(iter.corrected(items as int), x) && r == if x < m { x } else { m }
    }

=== fn count_min_sketch::CountMedianBiasStrategy::get_estimate
attr: complexinv
entry:
    let ghost it0 = iter;
    let ghost mut done: int = 0;
let min_count 0:
    proof { assert(it0.is_min(min_count)); }
inv 0:
- 0 <= done <= it0.rows
- $it == it0.at_row(done)
- it0.fresh(it0.rows, it0.cols)
- hi_at(it0.hash_iter, done as nat).c == it0.hash_iter.c + done
- $r@.len() == done
- it0.is_min(min_count)
- forall|i: int| 0 <= i < done ==> #[trigger] $r@[i] == unbiased(items as int, it0.val(i), it0.cols as int)
ens 0:
- $r@.len() == it0.rows
- $r@ =~= it0.corrected(items as int)
dec 0:
    it0.rows - done
let items_with_bias 0:
    let ghost unsorted = items_with_bias@;
    proof { assert(unsorted == it0.corrected(items as int)); }
let median_count 0:
    proof { assert(it0.is_min(min_count)); assert(lower_median(unsorted, median_count)); }
let value 0:
    proof { assert(value == it0.val(done)); if it0.cols > 1 { lemma_bias(items as int, value, it0.cols as int); } done = done + 1; }

=== fn count_min_sketch::ItemValueIter::next
requires:
- old(self).wf()
ensures:
- old(self).row == old(self).rows ==> r.is_none() && *final(self) == *old(self)
- old(self).row < old(self).rows ==> r == Some(old(self).grid@[cell_of(old(self).rows as int, old(self).cols as int, old(self).row as int, old(self).hash_iter.a)])
- old(self).row < old(self).rows ==> final(self).wf() && *final(self) == (ItemValueIter { row: (old(self).row + 1) as usize, hash_iter: hi_step(old(self).hash_iter), ..*old(self) })
entry:
    proof { if self.row < self.rows { lemma_cell(self.rows as int, self.cols as int, self.row as int, self.hash_iter.a); } }

=== fn count_min_sketch::CountMinSketch::new
requires:
- cols > 0
- rows * cols <= usize::MAX
- rows < usize::MAX
ensures:
- r.wf()
- r.rows == rows
- r.cols == cols
- r.blank()

=== fn count_min_sketch::CountMinSketch::with_hashers
requires:
- cols > 0
- rows * cols <= usize::MAX
- rows < usize::MAX
ensures:
- r.wf()
- r.rows == rows
- r.cols == cols
- r.hasher.hash_builders == hash_builders
- r.blank()

=== fn count_min_sketch::CountMinSketch::from_error
requires:
- vr(epsilon) >= 1.0real / 1099511627776.0real
- vr(delta) >= tiny()
ensures:
- r.wf()
- r.blank()
- [real] r.sized(vr(epsilon), vr(delta))
entry:
    proof { axiom_exp(1.0real, 0.0real); lemma_rdiv_pos(rexp(1.0real), vr(epsilon)); lemma_up(rdiv(rexp(1.0real), vr(epsilon))); }
    proof { lemma_cms_size(vr(epsilon), vr(delta)); lemma_prod48(); }

=== fn count_min_sketch::CountMinSketch::from_error_with_hashers
requires:
- vr(epsilon) >= 1.0real / 1099511627776.0real
- vr(delta) >= tiny()
ensures:
- r.wf()
- r.hasher.hash_builders == hash_builders
- r.blank()
- [real] r.sized(vr(epsilon), vr(delta))
entry:
    proof { axiom_exp(1.0real, 0.0real); lemma_rdiv_pos(rexp(1.0real), vr(epsilon)); lemma_up(rdiv(rexp(1.0real), vr(epsilon))); }
    proof { lemma_cms_size(vr(epsilon), vr(delta)); lemma_prod48(); }

=== fn count_min_sketch::CountMinSketch::insert
requires:
- old(self).wf()
- old(self).room(item, value as int)
ensures:
- final(self).wf()
- old(self).updated(item, value as int, *final(self))
entry:
    let ghost s0 = *self;
    let ghost amount = value as int;
inv 0:
- $k <= $n
- $n == self.rows
- self.wf()
- self.same_keys(s0)
- self.items == $s.items
- s0.room(item, amount)
- $it == hi_at(dh_start(s0.hasher, item), $k as nat)
- $it.c == $k
- forall|i: int| 0 <= i < $k * s0.cols && i < s0.grid@.len() ==> #[trigger] self.grid@[i] == s0.grid@[i] + (if s0.probed(item, i) { amount } else { 0 })
- forall|i: int| $k * s0.cols <= i < s0.grid@.len() ==> #[trigger] self.grid@[i] == s0.grid@[i]
begin 0:
    let ghost g0 = self.grid@;
    proof { lemma_row(s0, item, $k - 1); }
end 0:
    proof {
        let c = s0.cell(item, $k - 1);
        assert(self.grid@ == g0.update(c, (g0[c] + amount) as i64));
        assert forall|i: int| 0 <= i < $k * s0.cols && i < s0.grid@.len() implies #[trigger] self.grid@[i] == s0.grid@[i] + (if s0.probed(item, i) { amount } else { 0 }) by {
            if i < ($k - 1) * s0.cols { assert(self.grid@[i] == g0[i]); }
            else { assert(s0.probed(item, i) == (i == c)); assert(g0[i] == s0.grid@[i]); }
        }
    }

=== prelude count_min_sketch
/// in row r exactly one cell belongs to the item
pub proof fn lemma_row<T, U, B, V: ?Sized>(s: CountMinSketch<T, U, B>, item: &V, r: int)
    requires s.wf(), 0 <= r < s.rows,
    ensures
        0 <= r * s.cols, r * s.cols + s.cols == (r + 1) * s.cols, (r + 1) * s.cols <= s.grid@.len(),
        r * s.cols <= s.cell(item, r) < (r + 1) * s.cols,
        forall|i: int| r * s.cols <= i < (r + 1) * s.cols ==> #[trigger] s.probed(item, i) == (i == s.cell(item, r)),
{
    let c = s.cols as int;
    lemma_cell(s.rows as int, c, r, dh_val(s.hasher, item, r as nat));
    assert forall|i: int| r * c <= i < (r + 1) * c implies #[trigger] s.probed(item, i) == (i == s.cell(item, r)) by {
        if s.probed(item, i) {
            let q = choose|q: int| 0 <= q < s.rows && #[trigger] s.cell(item, q) == i;
            lemma_cell(s.rows as int, c, q, dh_val(s.hasher, item, q as nat));
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, c, r, i - r * c);
            assert(q == r);
        }
    }
}

=== fn count_min_sketch::CountMinSketch::remove
requires:
- old(self).wf()
- value > i64::MIN
- old(self).room(item, -value)
ensures:
- final(self).wf()
- old(self).updated(item, -value, *final(self))

=== fn count_min_sketch::CountMinSketch::count
requires:
- self.wf()
- self.rows > 0
- T::est_req(self.items, self.rows, self.cols, self.iter_of(item))
ensures:
- T::est_ok(self.items, self.rows, self.cols, self.iter_of(item), r)
- forall|m: i64| #[trigger] self.iter_of(item).is_min(m) ==> self.min_cell(item, m)
exit:
    proof { assert forall|m: i64| #[trigger] self.iter_of(item).is_min(m) implies self.min_cell(item, m) by { lemma_min_cell(*self, item, m); } }

=== fn count_min_sketch::CountMinSketch::clear
requires:
- old(self).wf()
ensures:
- final(self).wf()
- final(self).same_keys(*old(self))
- final(self).blank()
inv 0:
- $k <= $n
- $n == self.grid@.len()
- self.wf()
- self.same_keys(*old(self))
- forall|i: int| 0 <= i < $k ==> #[trigger] self.grid@[i] == 0

=== fn count_min_sketch::CountMinSketch::rows
ensures:
- r == self.rows

=== fn count_min_sketch::CountMinSketch::cols
ensures:
- r == self.cols

=== fn count_min_sketch::CountMinSketch::hashers
ensures:
- *r == self.hasher.hash_builders

=== fn count_min_sketch::CountMinSketch::confidence
requires:
- self.cols > 0
ensures:
- [real] vr(r) == self.confidence_of()

=== fn count_min_sketch::CountMinSketch::error
ensures:
- [real] vr(r) == self.error_of()
entry:
    //@real
    proof { axiom_exp((self.rows as int) as real, 0.0real); }
    //@end
