use crate::chk;
use crate::fw::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::verif_hooks::DoubleHasher;
use std::collections::BTreeMap;

type Cms<S> = CountMinSketch<S, u64, HB>;
fn state<S: serde::Serialize>(s: &S) -> String {
    serde_json::to_string(s).unwrap()
}

// params: [h0, h1, rows, cols]; ops: [0 insert, x, v], [1 remove, x, v], [2 clear]; v is an i64
pub fn run_cms(p: &[u64], ops: &[Vec<u64>]) -> R {
    let h = [hb(p[0]), hb(p[1])];
    let (rows, cols) = (p[2] as usize, p[3] as usize);
    let new = || CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(rows, cols, h);
    let mut f = new();
    let mut med = CountMinSketch::<CountMedianBiasStrategy, u64, HB>::with_hashers(rows, cols.max(2), h);
    let mut fmin2 = CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(rows, cols.max(2), h);
    let mut mean = CountMinSketch::<CountMeanStrategy, u64, HB>::with_hashers(rows, cols, h);
    chk!("C12|C13", f.rows() == rows && f.cols() == cols, "wrong geometry");
    let mut uni: Vec<u64> = ops.iter().filter(|o| o[0] < 2).map(|o| o[1]).collect();
    uni.sort();
    uni.dedup();
    let n = uni.len();
    for i in 0..n.min(6) {
        uni.push(uni[i] ^ 1);
        uni.push(mix(uni[i]));
    }
    uni.sort();
    uni.dedup();
    let cells = |x: u64| -> Vec<usize> {
        DoubleHasher::<u64, HB>::with_hashers(h).hash(&x).take(rows).enumerate().map(|(r, v)| r * cols + (v % cols as u64) as usize).collect()
    };
    let mut net: BTreeMap<u64, i64> = BTreeMap::new();
    let mut grid = vec![0i64; rows * cols];
    let mut nonneg = true;
    for (i, o) in ops.iter().enumerate() {
        if o[0] == 2 {
            f.clear();
            mean.clear();
            med.clear();
            fmin2.clear();
            net.clear();
            grid.iter_mut().for_each(|c| *c = 0);
            nonneg = true;
        } else {
            let v = o[2] as i64;
            if o[0] == 0 {
                f.insert(&o[1], v);
                mean.insert(&o[1], v);
                med.insert(&o[1], v);
                fmin2.insert(&o[1], v);
            } else {
                f.remove(&o[1], v);
                mean.remove(&o[1], v);
                med.remove(&o[1], v);
                fmin2.remove(&o[1], v);
            }
            let d = if o[0] == 0 { v } else { -v };
            nonneg &= o[0] == 0 && v >= 0;
            *net.entry(o[1]).or_insert(0) += d;
            for c in cells(o[1]) {
                grid[c] += d;
            }
            // removal undoes insertion
            let s = state(&f);
            f.insert(&o[1], 5);
            f.remove(&o[1], 5);
            chk!("C13", state(&f) == s, "op {}: inserting and removing 5 for {:#x} does not restore the state", i, o[1]);
        }
        let total: i64 = net.values().sum();
        for x in &uni {
            let est = f.count(x);
            let t = net.get(x).copied().unwrap_or(0);
            if nonneg {
                chk!("C12", est >= t, "op {}: count({:#x}) is {} but {} was inserted", i, x, est, t);
                chk!("C12", est <= total, "op {}: count({:#x}) is {} but only {} was inserted in total", i, x, est, total);
            }
            let want = cells(*x).iter().map(|c| grid[*c]).min().unwrap();
            chk!("C12", est == want, "op {}: count({:#x}) is {} but the smallest cell is {}", i, x, est, want);
            let m = (cells(*x).iter().map(|c| grid[*c]).sum::<i64>() as f64 / rows as f64).round() as i64;
            chk!("C12", mean.count(x) == m, "op {}: mean estimate of {:#x} is {} but the mean of its cells is {}", i, x, mean.count(x), m);
            if nonneg {
                chk!("C12", med.count(x) <= fmin2.count(x), "op {}: median-bias estimate {} of {:#x} exceeds the minimum estimate {}", i, med.count(x), x, fmin2.count(x));
            }
        }
        // the state is that of a fresh sketch given the net values
        let mut g = new();
        for (x, v) in net.iter().rev() {
            g.insert(x, *v);
        }
        chk!("C13", state(&g) == state(&f), "op {}: the state differs from that of a fresh sketch with the net values {:?}", i, net);
        for x in &uni {
            chk!("C13", g.count(x) == f.count(x), "op {}: count({:#x}) is {} but {} in a fresh sketch with the net values", i, x, f.count(x), g.count(x));
        }
    }
    Ok(())
}

pub const ERRS: [f64; 7] = [0.9, 0.5, 0.3, 0.2, 0.1, 0.05, 0.03];
// params: [h, err]; ops: [0 insert, x], [1, x...] merge with a sketch of the items, [2 clear]
pub fn run_hll(p: &[u64], ops: &[Vec<u64>]) -> R {
    let new = || HyperLogLog::<u64, HB>::with_hasher(ERRS[p[1] as usize % 7], hb(p[0]));
    let mut f = new();
    let mut set: std::collections::BTreeSet<u64> = Default::default();
    let empty = state(&f);
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        match o[0] {
            2 => {
                f.clear();
                set.clear();
                chk!("C14", state(&f) == empty, "op {}: clear does not restore the state of a new sketch", i);
            }
            1 => {
                let mut g = new();
                for x in &o[1..] {
                    g.insert(x);
                    set.insert(*x);
                }
                let s = state(&g);
                f.merge(&g);
                chk!("C14", state(&g) == s, "op {}: merge changed the other sketch", i);
            }
            _ => {
                f.insert(&o[1]);
                set.insert(o[1]);
            }
        }
        let mut g = new();
        for x in set.iter() {
            g.insert(x);
        }
        chk!("C14", state(&g) == state(&f), "op {} {:?}: the state differs from that of a fresh sketch with the same set of {} items", i, o, set.len());
        chk!("C14", g.len().to_bits() == f.len().to_bits(), "op {}: reported counts differ", i);
    }
    // registers are element-wise maxima of the single-item sketches, each with one register
    let regs = |f: &HyperLogLog<u64, HB>| -> Option<Vec<u64>> {
        serde_json::to_value(f).ok()?.get("registers")?.as_array()?.iter().map(|x| x.as_u64()).collect()
    };
    if let Some(all) = regs(&f) {
        let mut m = vec![0; all.len()];
        for x in &set {
            let mut g = new();
            g.insert(x);
            let r = regs(&g).unwrap();
            let nz: Vec<usize> = (0..r.len()).filter(|j| r[*j] != 0).collect();
            chk!("C14", nz.len() == 1, "inserting {:#x} alone sets {} registers", x, nz.len());
            let hash = hf(hb(p[0]), *x);
            let bits = r.len().trailing_zeros();
            chk!("C14", nz[0] as u64 == hash & (r.len() as u64 - 1), "{:#x} selects register {}", x, nz[0]);
            let ones = (hash >> bits).trailing_ones();
            chk!("C14", r[nz[0]] == u64::from(if ones >= 64 - bits { 65 } else { ones + 1 }), "register of hash {:#x} holds {}", hash, r[nz[0]]);
            for j in 0..r.len() {
                m[j] = m[j].max(r[j]);
            }
        }
        chk!("C14", m == all, "registers are not the maxima over the items");
    }
    Ok(())
}

pub fn search(c: &mut Ctx) {
    if c.prop == "C14" {
        while !c.done() {
            let mut r = c.rng.clone();
            let h = r.pick(&[0u64, 3, 3 + 16, 4, 4 + 16 * 77, 6]);
            let span = r.pick(&[3u64, 10, 1000]);
            let gi = |r: &mut Rng| match r.below(3) {
                0 => r.below(span),
                1 => mix(r.below(span)),
                _ => u64::MAX >> r.below(64) << r.below(8),
            };
            let n = r.pick(&[3u64, 10, 30, 3, 10, 30, 3, 10, 30, 600]);
            let mut ops = vec![];
            for _ in 0..r.range(1, n) {
                let x = r.below(100);
                ops.push(if x < 4 {
                    vec![2]
                } else if x < 30 {
                    let mut v = vec![1];
                    for _ in 0..r.below(6) {
                        v.push(gi(&mut r));
                    }
                    v
                } else {
                    vec![0, gi(&mut r)]
                });
            }
            let e = r.below(7);
            c.rng = r;
            if !c.case("hll", vec![h, e], ops) {
                return;
            }
        }
        return;
    }
    for rows in 1..=4u64 {
        for cols in 1..=5u64 {
            for a in 0..cols {
                let ops = vec![vec![0, a, 3], vec![0, a | 1 << 32, 4], vec![0, a ^ 1, 1], vec![1, a, 3], vec![2], vec![0, a, 1], vec![0, a, 9]];
                if !c.case("cms", vec![1, 2, rows, cols], ops) {
                    return;
                }
            }
        }
    }
    while !c.done() {
        let mut r = c.rng.clone();
        let (h0, h1) = crate::bloom::gen_hb(&mut r);
        let (rows, cols) = (r.range(1, 8), r.pick(&[1, 2, 3, 5, 16, 40, 1, 2, 3, 5, 16, 40, 257, 700]));
        let neg = r.below(2) == 0;
        let span = r.pick(&[3, 10, 1 << 20]);
        let n = r.pick(&[3u64, 10, 30]);
        let ops = (0..r.range(1, n))
            .map(|_| {
                let x = r.below(100);
                let it = crate::bloom::gen_item(&mut r, span);
                let v = match r.below(4) {
                    0 => 1,
                    1 => r.below(5),
                    2 => r.below(1 << 50),
                    _ => if neg { (-(r.below(50) as i64)) as u64 } else { 2 },
                };
                if x < 3 { vec![2] } else if neg && x < 40 { vec![1, it, v] } else { vec![0, it, v] }
            })
            .collect();
        c.rng = r;
        if !c.case("cms", vec![h0, h1, rows, cols], ops) {
            return;
        }
    }
}
