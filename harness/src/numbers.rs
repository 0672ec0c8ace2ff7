//! Sizes computed by the constructors (C26) and estimates computed from the state (C21), against the formulas.
use crate::bloom::{RATIOS, TIGHT};
use crate::chk;
use crate::fw::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::verif_hooks::DoubleHasher;
use serde_json::Value;

type P2 = [HB; 2];
const K: P2 = [HB { mode: 3, seed: 1 }, HB { mode: 3, seed: 2 }];
fn fl(x: u64) -> f64 {
    f64::from_bits(x)
}
fn l2() -> f64 {
    std::f64::consts::LN_2
}
/// `got` is `x` rounded up, for an `x` known up to a relative error of 1e-9 and an absolute one of 1e-7
fn up(got: usize, x: f64) -> bool {
    let e = x.abs() * 1e-9 + 1e-7;
    let g = got as f64;
    g >= (x - e).ceil().max(0.0) && g <= (x + e).ceil().max(0.0)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 + 1e-9 * b.abs()
}
fn k_for(bits: usize, n: f64) -> f64 {
    bits as f64 / n * l2()
}
/// `k` is right for a filter of `bits` bits and probability `p`: the number of items is rounded up first
fn k_ok(k: usize, bits: usize, p: f64) -> bool {
    let n = -(l2() * bits as f64) / p.log2();
    let e = n * 1e-9;
    [(n - e).ceil(), (n + e).ceil()].iter().any(|n| up(k, k_for(bits, *n)))
}
fn cuckoo_bits(p: f64, b: usize) -> f64 {
    // log2(2 / (1 - (1 - p)^(1 / 2b)))
    1.0 - (-((-p).ln_1p() / (2.0 * b as f64)).exp_m1()).log2()
}
fn buckets_ok(buckets: usize, n: usize, b: usize) -> bool {
    buckets.is_power_of_two() && buckets * b >= n && buckets < 2 * ((n + b - 1) / b)
}
fn blooms<T: serde::Serialize>(f: &T) -> Option<Vec<BloomFilter<u64, HB>>> {
    let v: Value = serde_json::to_value(f).ok()?;
    v.get("filters")?.as_array()?.iter().map(|x| serde_json::from_value(x.clone()).ok()).collect()
}
fn cuckoos<T: serde::Serialize>(f: &T) -> Option<Vec<CuckooFilter<u64, HB>>> {
    let v: Value = serde_json::to_value(f).ok()?;
    v.get("filters")?.as_array()?.iter().map(|x| serde_json::from_value(x.clone()).ok()).collect()
}
fn registers<T: serde::Serialize>(f: &T) -> Option<Vec<u8>> {
    serde_json::to_value(f).ok()?.get("registers")?.as_array()?.iter().map(|x| x.as_u64().map(|x| x as u8)).collect()
}

macro_rules! dd {
    ($t:ident, $bits:expr, $p:expr) => {{
        let want = ((1.0 + $p.ln() / (1.0 - 1.0 / std::f64::consts::E).ln() + 1.0) / 2.0);
        let f = $t::<u64, HB>::with_hashers($bits, $p, K);
        chk!("C26", up(f.hasher_count(), want), "{} of {} bits for {}: {} hash functions, not {} rounded up", stringify!($t), $bits, $p, f.hasher_count(), want);
        chk!("C26", f.bit_count() == $bits && f.len() == $bits * f.hasher_count(), "{} of {} bits has {} bits in partitions of {}", stringify!($t), $bits, f.len(), f.bit_count());
        let g = $t::<u64>::new($bits, $p);
        chk!("C26", g.hasher_count() == f.hasher_count() && g.bit_count() == f.bit_count() && g.len() == f.len(), "{}::new({}, {}) differs from with_hashers", stringify!($t), $bits, $p);
    }};
}

// params: [kind, n, p, b, growth, tightening]; floats as bits. ops: [x] items inserted, for the filters that grow
pub fn run_sizes(p: &[u64], ops: &[Vec<u64>]) -> R {
    let (n, pr, b) = (p[1] as usize, fl(p[2]), p[3] as usize);
    let (gr, ti) = (fl(p[4]), fl(p[5]));
    match p[0] {
        0 => {
            let f = BloomFilter::<u64, HB>::with_hashers(n, pr, K);
            let want = -pr.log2() * n as f64 / l2();
            chk!("C26", up(f.len(), want), "BloomFilter for {} items and {}: {} bits, not {} rounded up", n, pr, f.len(), want);
            chk!("C26", up(f.hasher_count(), k_for(f.len(), n as f64)), "BloomFilter for {} items and {}: {} hash functions for {} bits", n, pr, f.hasher_count(), f.len());
            let g = BloomFilter::<u64>::new(n, pr);
            chk!("C26", g.len() == f.len() && g.hasher_count() == f.hasher_count(), "BloomFilter::new({}, {}) differs from with_hashers", n, pr);
        }
        1 => {
            let f = BloomFilter::<u64, HB>::from_item_count_with_hashers(b, n, K);
            chk!("C26", f.len() == b && up(f.hasher_count(), k_for(b, n as f64)), "BloomFilter of {} bits for {} items: {} bits, {} hash functions", b, n, f.len(), f.hasher_count());
            let g = BloomFilter::<u64>::from_item_count(b, n);
            chk!("C26", g.len() == f.len() && g.hasher_count() == f.hasher_count(), "BloomFilter::from_item_count({}, {}) differs from its _with_hashers", b, n);
        }
        2 => {
            let f = BloomFilter::<u64, HB>::from_fpp_with_hashers(b, pr, K);
            chk!("C26", f.len() == b && k_ok(f.hasher_count(), b, pr), "BloomFilter of {} bits for {}: {} bits, {} hash functions", b, pr, f.len(), f.hasher_count());
            let g = BloomFilter::<u64>::from_fpp(b, pr);
            chk!("C26", g.len() == f.len() && g.hasher_count() == f.hasher_count(), "BloomFilter::from_fpp({}, {}) differs from its _with_hashers", b, pr);
        }
        3 => {
            let f = PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, pr, K);
            let k = f.hasher_count();
            chk!("C26", up(k, (1.0 / pr).log2()), "PartitionedBloomFilter for {}: {} partitions", pr, k);
            let want = n as f64 * -pr.ln() / (l2() * l2()) / k as f64;
            chk!("C26", up(f.bit_count(), want), "PartitionedBloomFilter for {} items and {}: {} partitions of {} bits, not of {} rounded up", n, pr, k, f.bit_count(), want);
            chk!("C26", f.len() == k * f.bit_count(), "PartitionedBloomFilter: {} bits are not {} partitions of {}", f.len(), k, f.bit_count());
            let g = PartitionedBloomFilter::<u64>::from_item_count(n, pr);
            chk!("C26", g.len() == f.len() && g.hasher_count() == k, "PartitionedBloomFilter::from_item_count({}, {}) differs from its _with_hashers", n, pr);
        }
        4 => {
            let f = PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(b, pr, K);
            let k = f.hasher_count();
            chk!("C26", up(k, (1.0 / pr).log2()), "PartitionedBloomFilter for {}: {} partitions", pr, k);
            chk!("C26", f.bit_count() == b && f.len() == k * b, "PartitionedBloomFilter of partitions of {} bits: {} bits in {} partitions of {}", b, f.len(), k, f.bit_count());
            let g = PartitionedBloomFilter::<u64>::from_bit_count(b, pr);
            chk!("C26", g.len() == f.len() && g.hasher_count() == k, "PartitionedBloomFilter::from_bit_count({}, {}) differs from its _with_hashers", b, pr);
        }
        5 => dd!(BSBloomFilter, b, pr),
        6 => dd!(BSSDBloomFilter, b, pr),
        7 => dd!(RLBSBloomFilter, b, pr),
        8 => {
            let mut f = ScalableBloomFilter::<u64, HB>::with_hashers(b, pr, gr, ti, K);
            let g = ScalableBloomFilter::<u64>::new(b, pr, gr, ti);
            chk!("C26", g.len() == f.len() && g.filter_count() == 1 && f.filter_count() == 1, "ScalableBloomFilter::new({}, {}, {}, {}) differs from with_hashers", b, pr, gr, ti);
            for o in ops {
                f.insert(&o[0]);
                if f.len() > 200_000 {
                    break;
                }
            }
            if let Some(fs) = blooms(&f) {
                for (i, x) in fs.iter().enumerate() {
                    let len = x.len();
                    if i == 0 {
                        chk!("C26", len == b, "the first filter has {} bits, not {}", len, b);
                    } else {
                        let want = fs[i - 1].len() as f64 * gr;
                        chk!("C26", up(len, want), "filter {} has {} bits after {} and growth ratio {}", i, len, fs[i - 1].len(), gr);
                    }
                    let q = pr * ti.powi(i as i32);
                    if len > 0 && q > 0.0 && q < 1.0 {
                        chk!("C26", k_ok(x.hasher_count(), len, q), "filter {} of {} bits for {}: {} hash functions", i, len, q, x.hasher_count());
                    }
                }
            }
        }
        9 => {
            let f = CuckooFilter::<u64, HB>::with_hashers(n, K);
            chk!("C26", f.entries_per_index() == 4 && f.fingerprint_bit_count() == 8 && buckets_ok(f.bucket_len(), n, 4), "CuckooFilter for {} items: {} buckets of {} with {} bits", n, f.bucket_len(), f.entries_per_index(), f.fingerprint_bit_count());
            let g = CuckooFilter::<u64>::new(n);
            chk!("C26", g.capacity() == f.capacity() && g.fingerprint_bit_count() == f.fingerprint_bit_count() && g.entries_per_index() == f.entries_per_index(), "CuckooFilter::new({}) differs from with_hashers", n);
        }
        10 => {
            let w = p[2] as usize;
            let f = CuckooFilter::<u64, HB>::from_parameters_with_hashers(n, w, b, K);
            chk!("C26", f.entries_per_index() == b && f.fingerprint_bit_count() == w && buckets_ok(f.bucket_len(), n, b), "CuckooFilter for {} items: {} buckets of {} with {} bits", n, f.bucket_len(), f.entries_per_index(), f.fingerprint_bit_count());
            let g = CuckooFilter::<u64>::from_parameters(n, w, b);
            chk!("C26", g.capacity() == f.capacity() && g.fingerprint_bit_count() == w && g.entries_per_index() == b, "CuckooFilter::from_parameters({}, {}, {}) differs from its _with_hashers", n, w, b);
        }
        11 => {
            if cuckoo_bits(pr, b) > 63.9 {
                return Ok(());
            }
            let f = CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, pr, b, K);
            chk!("C26", up(f.fingerprint_bit_count(), cuckoo_bits(pr, b)), "CuckooFilter for {} with {} entries per index: {} bits, not {} rounded up", pr, b, f.fingerprint_bit_count(), cuckoo_bits(pr, b));
            chk!("C26", f.entries_per_index() == b && buckets_ok(f.bucket_len(), n, b), "CuckooFilter for {} items: {} buckets of {}", n, f.bucket_len(), f.entries_per_index());
            let g = CuckooFilter::<u64>::from_entries_per_index(n, pr, b);
            chk!("C26", g.capacity() == f.capacity() && g.fingerprint_bit_count() == f.fingerprint_bit_count() && g.entries_per_index() == b, "CuckooFilter::from_entries_per_index({}, {}, {}) differs from its _with_hashers", n, pr, b);
        }
        12 => {
            let w = b;
            let c = 2f64.powi(w as i32);
            let x = (-pr).ln_1p() / (-1.0 / (c - 1.0)).ln_1p() / 2.0;
            if x < 1.0 + 1e-6 || x > 1e4 {
                return Ok(());
            }
            let f = CuckooFilter::<u64, HB>::from_fingerprint_bit_count_with_hashers(n, pr, w, K);
            let e = f.entries_per_index();
            chk!("C26", e as f64 >= (x - x * 1e-7).floor() && e as f64 <= (x + x * 1e-7).floor(), "CuckooFilter for {} with {} bits: {} entries per index, not {} rounded down", pr, w, e, x);
            chk!("C26", f.fingerprint_bit_count() == w && buckets_ok(f.bucket_len(), n, e), "CuckooFilter for {} items: {} buckets of {} with {} bits", n, f.bucket_len(), e, f.fingerprint_bit_count());
            let g = CuckooFilter::<u64>::from_fingerprint_bit_count(n, pr, w);
            chk!("C26", g.capacity() == f.capacity() && g.fingerprint_bit_count() == w && g.entries_per_index() == e, "CuckooFilter::from_fingerprint_bit_count({}, {}, {}) differs from its _with_hashers", n, pr, w);
        }
        13 | 14 => {
            if cuckoo_bits(pr * ti.powi(6), b) > 60.0 {
                return Ok(());
            }
            let b = if p[0] == 13 { 4 } else { b };
            let mut f = if p[0] == 13 {
                ScalableCuckooFilter::<u64, HB>::with_hashers(n, pr, gr, ti, K)
            } else {
                ScalableCuckooFilter::from_entries_per_index_with_hashers(n, pr, b, gr, ti, K)
            };
            let g = if p[0] == 13 { ScalableCuckooFilter::<u64>::new(n, pr, gr, ti) } else { ScalableCuckooFilter::from_entries_per_index(n, pr, b, gr, ti) };
            chk!("C26", g.capacity() == f.capacity() && g.entries_per_index() == f.entries_per_index(), "a ScalableCuckooFilter constructor for ({}, {}, {}, {}, {}) differs from its _with_hashers", n, pr, b, gr, ti);
            for o in ops {
                f.insert(&o[0]);
                if f.capacity() > 20_000 || f.filter_count() > 6 {
                    break;
                }
            }
            if let Some(fs) = cuckoos(&f) {
                for (i, x) in fs.iter().enumerate() {
                    let q = pr * ti.powi(i as i32);
                    let ok = if i == 0 {
                        buckets_ok(x.bucket_len(), n, b)
                    } else {
                        let m = fs[i - 1].capacity() as f64 * gr;
                        [m * (1.0 - 1e-9), m * (1.0 + 1e-9)].iter().any(|m| buckets_ok(x.bucket_len(), m.ceil() as usize, b))
                    };
                    chk!("C26", ok && x.entries_per_index() == b, "filter {} has {} buckets of {}", i, x.bucket_len(), x.entries_per_index());
                    chk!("C26", up(x.fingerprint_bit_count(), cuckoo_bits(q, b)), "filter {} for {}: {} fingerprint bits, not {} rounded up", i, q, x.fingerprint_bit_count(), cuckoo_bits(q, b));
                }
            }
        }
        15 => {
            let d = fl(p[4]);
            let f = CountMinSketch::<CountMinStrategy, u64, HB>::from_error_with_hashers(pr, d, K);
            let (r, c) = (-d.ln(), std::f64::consts::E / pr);
            chk!("C26", up(f.rows(), r) && up(f.cols(), c), "CountMinSketch for error {} and {}: {} x {}, not {} x {} rounded up", pr, d, f.rows(), f.cols(), r, c);
            let g = CountMinSketch::<CountMinStrategy, u64>::from_error(pr, d);
            chk!("C26", g.rows() == f.rows() && g.cols() == f.cols(), "CountMinSketch::from_error({}, {}) differs from its _with_hashers", pr, d);
        }
        16 => {
            let want = 2.0 * (1.04 / pr).log2();
            let f = HyperLogLog::<u64, HB>::with_hasher(pr, K[0]);
            let g = HyperLogLog::<u64>::new(pr);
            if let (Some(r), Some(s)) = (registers(&f), registers(&g)) {
                chk!("C26", r.len().is_power_of_two() && up(r.len().trailing_zeros() as usize, want), "HyperLogLog for error {}: {} registers, not two to the power of {} rounded up", pr, r.len(), want);
                chk!("C26", r.len() == s.len(), "HyperLogLog::new({}) differs from with_hasher", pr);
            }
        }
        _ => {
            let q = (n as f64 * 1.33).log2();
            let r = (1.0 / -1.33 / (-pr).ln_1p()).log2();
            if q + r.max(1.0) > 60.0 || r > 58.0 || n == 0 {
                return Ok(());
            }
            let f = QuotientFilter::<u64, HB>::from_fpp_with_hasher(n, pr, K[0]);
            chk!("C26", up(f.quotient_bits() as usize, q), "QuotientFilter for {} items: {} quotient bits, not {} rounded up", n, f.quotient_bits(), q);
            chk!("C26", up(f.remainder_bits() as usize, r.max(1.0)), "QuotientFilter for {}: {} remainder bits, not {} rounded up", pr, f.remainder_bits(), r);
            chk!("C26", f.capacity() >= n, "QuotientFilter for {} items has {} slots", n, f.capacity());
            let g = QuotientFilter::<u64>::from_fpp(n, pr);
            chk!("C26", g.quotient_bits() == f.quotient_bits() && g.remainder_bits() == f.remainder_bits(), "QuotientFilter::from_fpp({}, {}) differs from its _with_hasher", n, pr);
        }
    }
    Ok(())
}

fn full<T>(c: impl Fn(&T) -> bool, f: &T) -> bool {
    c(f)
}
/// 1 - product over the filters of (1 - estimate)
fn combined(e: &[f64]) -> f64 {
    1.0 - e.iter().map(|x| 1.0 - x).product::<f64>()
}
fn bloom_est(ones: usize, len: usize, k: usize) -> f64 {
    (ones as f64 / len as f64).powi(k as i32)
}
fn cuckoo_est(f: &CuckooFilter<u64, HB>) -> f64 {
    let c = 2f64.powi(f.fingerprint_bit_count() as i32);
    let fill = f.len() as f64 / f.capacity() as f64;
    // 1 - s^(2 b fill) with s = (c - 2) / (c - 1)
    -((-1.0 / (c - 1.0)).ln_1p() * 2.0 * f.entries_per_index() as f64 * fill).exp_m1()
}

// params: [kind, n, p, b, growth, tightening, rows, cols]; ops: [0 insert, x, v], [1 remove, x, v], [2 clear],
// for kind 5 also [3 set register, j, rank], [4 every register, _, rank], [5 merge, x, n]
pub fn run_estimates(p: &[u64], ops: &[Vec<u64>]) -> R {
    let (n, pr, b) = (p[1] as usize, fl(p[2]), p[3] as usize);
    let (gr, ti) = (fl(p[4]), fl(p[5]));
    macro_rules! go {
        ($f:ident, $i:ident, $o:ident, $check:block) => {
            go!($f, $i, $o, |_| false, $check)
        };
        ($f:ident, $i:ident, $o:ident, $full:expr, $check:block) => {{
            let none: Vec<u64> = vec![9, 0, 0];
            for ($i, $o) in std::iter::once(&none).chain(ops.iter()).enumerate() {
                match $o[0] {
                    0 if !full($full, &$f) => {
                        $f.insert(&$o[1]);
                    }
                    2 => $f.clear(),
                    _ => {}
                }
                $check
            }
        }};
    }
    match p[0] {
        0 => {
            let mut f = BloomFilter::<u64, HB>::with_hashers(n, pr, K);
            if f.len() == 0 {
                return Ok(());
            }
            go!(f, i, o, {
                let want = bloom_est(f.count_ones(), f.len(), f.hasher_count());
                chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: BloomFilter::estimated_fpp is {}, not {}", i, o, f.estimated_fpp(), want);
            });
        }
        1 => {
            let mut f = PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, pr, K);
            if f.len() == 0 {
                return Ok(());
            }
            go!(f, i, o, {
                let want = bloom_est(f.count_ones(), f.len(), f.hasher_count());
                chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: PartitionedBloomFilter::estimated_fpp is {}, not {}", i, o, f.estimated_fpp(), want);
            });
        }
        2 => {
            let mut f = ScalableBloomFilter::<u64, HB>::with_hashers(b, pr, gr, ti, K);
            go!(f, i, o, {
                if f.len() > 50_000 {
                    break;
                }
                if let Some(fs) = blooms(&f) {
                    let want = combined(&fs.iter().map(|f| bloom_est(f.count_ones(), f.len(), f.hasher_count())).collect::<Vec<_>>());
                    chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: ScalableBloomFilter::estimated_fpp of {} filters is {}, not {}", i, o, fs.len(), f.estimated_fpp(), want);
                }
            });
        }
        3 => {
            let mut f = CuckooFilter::<u64, HB>::from_parameters_with_hashers(n, 2 + (p[2] % 63) as usize, b, K);
            go!(f, i, o, {
                if o[0] == 1 {
                    f.remove(&o[1]);
                }
                let want = cuckoo_est(&f);
                chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: CuckooFilter::estimated_fpp is {}, not {}", i, o, f.estimated_fpp(), want);
            });
        }
        4 => {
            if cuckoo_bits(pr * ti.powi(6), b) > 60.0 {
                return Ok(());
            }
            let mut f = ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, pr, b, gr, ti, K);
            go!(f, i, o, {
                if o[0] == 1 {
                    f.remove(&o[1]);
                }
                if f.capacity() > 20_000 || f.filter_count() > 6 {
                    break;
                }
                if let Some(fs) = cuckoos(&f) {
                    let want = combined(&fs.iter().map(cuckoo_est).collect::<Vec<_>>());
                    chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: ScalableCuckooFilter::estimated_fpp of {} filters is {}, not {}", i, o, fs.len(), f.estimated_fpp(), want);
                }
            });
        }
        5 => {
            let mut f = HyperLogLog::<u64, HB>::with_hasher(pr, hb(0));
            let m = match registers(&f) {
                Some(r) => r.len(),
                None => return Ok(()),
            };
            let pp = m.trailing_zeros() as u64;
            go!(f, i, o, {
                if o[0] == 3 {
                    let rank = 1 + o[2] % (64 - pp);
                    let hash = (o[1] % m as u64) | (((1u64 << (rank - 1)) - 1) << pp);
                    f.insert(&hash);
                }
                if o[0] == 4 {
                    // every register
                    let rank = 1 + o[2] % (64 - pp);
                    for j in 0..m as u64 {
                        f.insert(&(j | (((1u64 << (rank - 1)) - 1) << pp)));
                    }
                }
                if o[0] == 5 {
                    let mut g = HyperLogLog::<u64, HB>::with_hasher(pr, hb(0));
                    for j in 0..o[2] % 20 {
                        g.insert(&mix(o[1] % 8 + j));
                    }
                    f.merge(&g);
                }
                let r = registers(&f).unwrap();
                let mf = m as f64;
                let alpha = match pp {
                    4 => 0.673,
                    5 => 0.697,
                    6 => 0.709,
                    _ => 0.7213 / (1.0 + 1.079 / mf),
                };
                let x = alpha * mf * mf / r.iter().map(|x| 2f64.powi(-i32::from(*x))).sum::<f64>();
                let zeros = r.iter().filter(|x| **x == 0).count() as f64;
                let t = 2f64.powi(64);
                let small = if zeros == 0.0 { x } else { mf * (mf / zeros).ln() };
                let large = if x <= t / 3.0 { x } else { -t * (-x / t).ln_1p() };
                let got = f.len();
                if x < t * (1.0 - 1e-6) {
                    let ok = (x <= 2.5 * mf * (1.0 + 1e-9) && near(got, small)) || (x > 2.5 * mf * (1.0 - 1e-9) && (near(got, large) || ((x / (t / 3.0) - 1.0).abs() < 1e-9 && near(got, x))));
                    chk!("C21", ok, "op {} {:?}: HyperLogLog::len is {} for {} registers with {} zeros and raw estimate {}", i, o, got, m, zeros, x);
                    chk!("C21", f.is_empty() == (zeros as usize == m), "op {} {:?}: HyperLogLog::is_empty is {} with {} of {} registers zero", i, o, f.is_empty(), zeros, m);
                }
            });
        }
        6 => {
            let (rows, cols) = (p[6] as usize, p[7] as usize);
            let mut mean = CountMinSketch::<CountMeanStrategy, u64, HB>::with_hashers(rows, cols, K);
            let mut med = CountMinSketch::<CountMedianBiasStrategy, u64, HB>::with_hashers(rows, cols, K);
            chk!("C21", near(mean.confidence(), std::f64::consts::E / cols as f64), "CountMinSketch::confidence of {} columns is {}", cols, mean.confidence());
            chk!("C21", near(mean.error(), (-(rows as f64)).exp()), "CountMinSketch::error of {} rows is {}", rows, mean.error());
            let mut grid = vec![0i128; rows * cols];
            let mut total = 0i128;
            let cells = |x: u64| -> Vec<usize> {
                DoubleHasher::<u64, HB>::with_hashers(K).hash(&x).take(rows).enumerate().map(|(r, v)| r * cols + (v % cols as u64) as usize).collect()
            };
            for (i, o) in ops.iter().enumerate() {
                let v = o[2] as i64;
                match o[0] {
                    0 => {
                        mean.insert(&o[1], v);
                        med.insert(&o[1], v);
                    }
                    1 => {
                        mean.remove(&o[1], v);
                        med.remove(&o[1], v);
                    }
                    _ => {
                        mean.clear();
                        med.clear();
                        grid.iter_mut().for_each(|c| *c = 0);
                        total = 0;
                        continue;
                    }
                }
                let d = if o[0] == 0 { i128::from(v) } else { -i128::from(v) };
                total += d;
                for c in cells(o[1]) {
                    grid[c] += d;
                }
                for x in ops.iter().map(|o| o[1]).chain([o[1] ^ 1]) {
                    let cs: Vec<i128> = cells(x).iter().map(|c| grid[*c]).collect();
                    let s: i128 = cs.iter().sum();
                    let r = rows as i128;
                    // the quotient rounded to the nearest integer, half away from zero
                    let want = s.signum() * ((2 * s.abs() + r) / (2 * r));
                    chk!("C21", i128::from(mean.count(&x)) == want, "op {} {:?}: the mean estimate of {:#x} is {}, not {}", i, o, x, mean.count(&x), want);
                    if cols > 1 {
                        let q = cols as i128 - 1;
                        let mut bias: Vec<i128> = cs.iter().map(|c| c - -(-(total - c)).div_euclid(q)).collect();
                        bias.sort();
                        let want = bias[(rows - 1) / 2].min(*cs.iter().min().unwrap());
                        chk!("C21", i128::from(med.count(&x)) == want, "op {} {:?}: the median-bias estimate of {:#x} is {}, not {}", i, o, x, med.count(&x), want);
                    }
                }
            }
        }
        _ => {
            let mut f = QuotientFilter::<u64, HB>::with_hasher(1 + (p[1] % 10) as u8, 1 + (p[3] % 54) as u8, K[0]);
            go!(f, i, o, |f: &QuotientFilter<u64, HB>| f.len() == f.capacity(), {
                if o[0] == 1 {
                    f.remove(&o[1]);
                }
                let fill = f.len() as f64 / f.capacity() as f64;
                let want = -(-fill / 2f64.powi(i32::from(f.remainder_bits()))).exp_m1();
                chk!("C21", near(f.estimated_fpp(), want), "op {} {:?}: QuotientFilter::estimated_fpp is {}, not {}", i, o, f.estimated_fpp(), want);
            });
        }
    }
    Ok(())
}

pub const PROBS: [f64; 16] = [0.5, 0.25, 0.1, 0.05, 0.01, 0.9, 0.001, 0.3, 1e-6, 0.0308, 0.4, 0.7, 0.03, 0.02, 1e-4, 0.6];
fn prob(r: &mut Rng) -> f64 {
    match r.below(3) {
        0 => r.pick(&PROBS),
        1 => r.range(1, 999) as f64 / 1000.0,
        _ => (0.5f64).powf(r.range(1, 1800) as f64 / 100.0),
    }
}
pub fn search(c: &mut Ctx) {
    let b = |x: f64| x.to_bits();
    if c.prop == "C26" {
        // small parameters exhaustively
        for pr in PROBS {
            for n in 1..=40u64 {
                for kind in [0u64, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 15, 16, 17] {
                    let bb = if kind == 12 { 2 + n % 20 } else if kind == 11 { 1 + n % 9 } else { n * 7 };
                    if kind == 16 && (n > 1 || pr < 0.004) {
                        continue;
                    }
                    let p2 = if kind == 10 { 2 + n % 20 } else { b(pr) };
                    if !c.case("sizes", vec![kind, n, p2, bb, b(PROBS[(n % 16) as usize]), b(1.0)], vec![]) {
                        return;
                    }
                }
            }
        }
        while !c.done() {
            let mut r = c.rng.clone();
            let kind = r.below(18);
            let top = r.pick(&[10u64, 100, 1000, 5000]);
            let n = r.range(1, top);
            let pr = prob(&mut r);
            let bb = match kind {
                11 | 13 | 14 => r.range(1, 9),
                10 => r.range(1, 9),
                12 => r.range(2, 24),
                8 => r.range(1, 300),
                _ => r.range(1, 20_000),
            };
            let p2 = match kind {
                10 => r.range(2, 64),
                16 => b(pr.max(0.004)),
                15 => b(pr.max(0.0005)),
                _ => b(pr),
            };
            let n = if kind == 13 || kind == 14 { r.range(1, 60) } else { n };
            let g = if kind == 15 { prob(&mut r) } else { r.pick(&RATIOS) };
            let ti = r.pick(&TIGHT);
            let ops = if kind == 8 || kind == 13 || kind == 14 { (0..r.range(1, 400)).map(|_| vec![r.next()]).collect() } else { vec![] };
            c.rng = r;
            if !c.case("sizes", vec![kind, n, p2, bb, b(g), b(ti)], ops) {
                return;
            }
        }
        return;
    }
    while !c.done() {
        let mut r = c.rng.clone();
        let kind = r.pick(&[0, 1, 2, 3, 4, 5, 5, 6, 6, 7]);
        let n = r.range(1, 60);
        let pr = if kind == 5 { r.pick(&[0.9, 0.5, 0.3, 0.25, 0.2, 0.13, 0.1, 0.05, 0.03]) } else { prob(&mut r) };
        let bb = match kind {
            3 | 4 => r.range(1, 6),
            _ => r.range(1, 300),
        };
        let p2 = if kind == 3 { r.next() >> 1 } else { b(pr) };
        let (g, ti) = (r.pick(&RATIOS), r.pick(&TIGHT));
        let (rows, cols) = (r.range(1, 8), r.pick(&[1, 2, 3, 5, 16, 40]));
        let span = r.pick(&[3u64, 30, 1 << 20]);
        let big = r.below(3) == 0;
        let len = r.pick(&[3u64, 20, 60]);
        let ops = (0..r.range(1, len))
            .map(|_| {
                let x = r.below(100);
                let it = if r.below(2) == 0 { r.below(span) } else { mix(r.below(span)) };
                if x < 3 {
                    vec![2, 0, 0]
                } else if kind == 5 && x < 40 {
                    vec![3, r.next(), if big { r.next() } else { r.below(6) }]
                } else if kind == 5 && x < 48 {
                    vec![5, r.next(), r.next()]
                } else if kind == 5 && x < 54 {
                    vec![4, 0, if big { r.range(20, 64) } else { r.below(40) }]
                } else if x < 25 {
                    vec![1, it, r.below(100)]
                } else {
                    vec![0, it, if r.below(2) == 0 { r.below(20) } else { r.below(1 << 30) }]
                }
            })
            .collect();
        c.rng = r;
        if !c.case("estimates", vec![kind, n, p2, bb, b(g), b(ti), rows, cols], ops) {
            return;
        }
    }
}
