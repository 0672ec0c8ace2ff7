//! Every constructor behaves like the one that takes all sizes and the hash builders, given the builders the first one
//! reports.
use crate::chk;
use crate::fw::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, SimHash};
use probabilistic_collections::SipHasherBuilder;

const QS: [f64; 5] = [0.5, 0.25, 0.1, 0.03, 0.01];

// params: [kind, size, rate index]; ops: [0 insert, x], [1 remove, x], [2 clear]
pub fn run_ctor(p: &[u64], ops: &[Vec<u64>]) -> R {
    let n = p[1] as usize;
    let q = QS[p[2] as usize % 5];
    let e = p[2] as usize % 3 + 1;
    let uni: Vec<u64> = ops.iter().filter(|o| o[0] < 2).map(|o| o[1]).chain(0..10).collect();
    // $same: the answers are a function of the history, so both must give the same
    macro_rules! both {
        ($pids:expr, $f:expr, $g:expr, |$s:ident, $x:ident| $ins:expr, $rem:expr, $has:expr, |$t:ident| $num:expr) => {{
            let (mut f, mut g) = ($f, $g);
            for (i, o) in [vec![9, 0]].iter().chain(ops).enumerate() {
                let $x = o.get(1).copied().unwrap_or(0);
                for $s in [&mut f, &mut g] {
                    match o[0] {
                        0 => $ins,
                        1 => $rem,
                        2 => $s.clear(),
                        _ => {}
                    }
                }
                for y in &uni {
                    let $x = *y;
                    let a = { let $s = &mut f; $has };
                    let b = { let $s = &mut g; $has };
                    chk!($pids, a == b, "op {} {:?}: the query for {} gives {:?}, but {:?} for the same collection built with explicit sizes and builders", i, o, y, a, b);
                }
                let a = { let $t = &f; $num };
                let b = { let $t = &g; $num };
                chk!($pids, a == b, "op {} {:?}: counts {:?}, but {:?} for the same collection built with explicit sizes and builders", i, o, a, b);
            }
        }};
    }
    macro_rules! filter {
        ($pids:expr, $f:expr, |$h:ident| $g:expr) => {{
            let f = $f;
            let $h = *f.hashers();
            let g = $g;
            both!($pids, f, g, |s, x| s.insert(&x), {}, s.contains(&x), |t| (t.len(), t.count_ones(), t.count_zeros()))
        }};
    }
    macro_rules! stream {
        ($t:ident) => {{
            let mut f = $t::<u64>::new(n, q);
            let mut g = $t::<u64>::with_hashers(n, q, *f.hashers());
            let geo = |f: &$t<u64>| (f.len(), f.bit_count(), f.hasher_count(), f.count_ones());
            chk!("C04|C05|C06|C26", geo(&f) == geo(&g), "(bits, bits per partition, partitions, ones) {:?}, but {:?} with explicit builders", geo(&f), geo(&g));
            for (i, o) in ops.iter().enumerate() {
                for f in [&mut f, &mut g] {
                    match o[0] {
                        0 => {
                            f.insert(&o[1]);
                            chk!("C04", f.contains(&o[1]), "op {}: item {} absent right after insertion", i, o[1]);
                        }
                        2 => f.clear(),
                        _ => {}
                    }
                    chk!("C06", f.is_empty() == (f.len() == 0), "op {}: is_empty is {} with {} bits", i, f.is_empty(), f.len());
                    chk!("C06", f.count_ones() + f.count_zeros() == f.len() && (o[0] != 2 || f.count_ones() == 0), "op {}: {} ones, {} zeros, {} bits", i, f.count_ones(), f.count_zeros(), f.len());
                }
            }
        }};
    }
    macro_rules! cuckoo {
        ($pids:expr, $f:expr, |$h:ident| $g:expr) => {{
            let f = $f;
            let $h = *f.hashers();
            let g = $g;
            both!($pids, f, g, |s, x| s.insert(&x), s.remove(&x), s.contains(&x), |t| (t.len() + t.extra_items_len(), t.capacity(), t.entries_per_index(), t.fingerprint_bit_count()))
        }};
    }
    macro_rules! sketch {
        ($f:expr, $s:ident) => {{
            let f = $f;
            let g = CountMinSketch::<$s, u64>::with_hashers(f.rows(), f.cols(), *f.hashers());
            both!("C12|C13|C21|C26", f, g, |s, x| s.insert(&x, x as i64 % 9), s.remove(&x, x as i64 % 9), s.count(&x), |t| (t.rows(), t.cols(), t.confidence().to_bits(), t.error().to_bits()))
        }};
    }
    match p[0] {
        0 => filter!("C01|C06|C26", BloomFilter::<u64>::new(n, q), |h| BloomFilter::<u64>::with_hashers(n, q, h)),
        1 => filter!("C01|C06|C26", BloomFilter::<u64>::from_fpp(n, q), |h| BloomFilter::<u64>::from_fpp_with_hashers(n, q, h)),
        2 => filter!("C01|C06|C26", BloomFilter::<u64>::from_item_count(n, e), |h| BloomFilter::<u64>::from_item_count_with_hashers(n, e, h)),
        3 => filter!("C02|C06|C26", PartitionedBloomFilter::<u64>::from_item_count(n, q), |h| PartitionedBloomFilter::<u64>::from_item_count_with_hashers(n, q, h)),
        4 => filter!("C02|C06|C26", PartitionedBloomFilter::<u64>::from_bit_count(n, q), |h| PartitionedBloomFilter::<u64>::from_bit_count_with_hashers(n, q, h)),
        5 => filter!("C03|C06|C25|C26", ScalableBloomFilter::<u64>::new(n, q, 2.0, 0.5), |h| ScalableBloomFilter::<u64>::with_hashers(n, q, 2.0, 0.5, h)),
        6 => stream!(BSBloomFilter),
        7 => stream!(BSSDBloomFilter),
        8 => stream!(RLBSBloomFilter),
        9 => cuckoo!("C07|C08|C26", CuckooFilter::<u64>::new(n), |h| CuckooFilter::<u64>::with_hashers(n, h)),
        10 => cuckoo!("C07|C08|C26", CuckooFilter::<u64>::from_parameters(n, 9, e), |h| CuckooFilter::<u64>::from_parameters_with_hashers(n, 9, e, h)),
        11 => cuckoo!("C07|C08|C26", CuckooFilter::<u64>::from_entries_per_index(n, q, e), |h| CuckooFilter::<u64>::from_entries_per_index_with_hashers(n, q, e, h)),
        12 => cuckoo!("C07|C08|C26", CuckooFilter::<u64>::from_fingerprint_bit_count(n, q, 12), |h| CuckooFilter::<u64>::from_fingerprint_bit_count_with_hashers(n, q, 12, h)),
        13 => {
            let f = ScalableCuckooFilter::<u64>::from_entries_per_index(n, q, e, 2.0, 0.5);
            let g = ScalableCuckooFilter::<u64>::from_entries_per_index_with_hashers(n, q, e, 2.0, 0.5, *f.hashers());
            both!("C09|C26", f, g, |s, x| s.insert(&x), s.remove(&x), s.contains(&x), |t| t.entries_per_index())
        }
        14 => {
            let f = QuotientFilter::<u64>::new(n as u8 % 8 + 2, e as u8);
            let g = QuotientFilter::<u64>::with_hasher(n as u8 % 8 + 2, e as u8, f.hasher().clone());
            both!("C10|C11|C26", f, g, |s, x| if s.len() < s.capacity() { s.insert(&x) }, s.remove(&x), s.contains(&x), |t| (t.len(), t.capacity(), t.quotient_bits(), t.remainder_bits()))
        }
        15 => {
            let f = QuotientFilter::<u64>::from_fpp(n, q);
            let g = QuotientFilter::<u64>::from_fpp_with_hasher(n, q, f.hasher().clone());
            both!("C10|C11|C26", f, g, |s, x| if s.len() < s.capacity() { s.insert(&x) }, s.remove(&x), s.contains(&x), |t| (t.len(), t.capacity(), t.quotient_bits(), t.remainder_bits()))
        }
        16 => sketch!(CountMinSketch::<CountMinStrategy, u64>::new(e, n), CountMinStrategy),
        17 => sketch!(CountMinSketch::<CountMinStrategy, u64>::from_error(q, q), CountMinStrategy),
        18 => sketch!(CountMinSketch::<CountMeanStrategy, u64>::new(e, n), CountMeanStrategy),
        19 => sketch!(CountMinSketch::<CountMedianBiasStrategy, u64>::new(e, n + 1), CountMedianBiasStrategy),
        20 => {
            let h = *CountMinSketch::<CountMinStrategy, u64>::new(1, 1).hashers();
            sketch!(CountMinSketch::<CountMinStrategy, u64>::from_error_with_hashers(q, q, h), CountMinStrategy)
        }
        21 => {
            let r = [0.9, 0.5, 0.3, 0.2, 0.1][p[2] as usize % 5];
            let f = HyperLogLog::<u64>::new(r);
            let g = HyperLogLog::<u64>::with_hasher(r, f.hasher().clone());
            both!("C14|C21|C26", f, g, |s, x| s.insert(&x), {}, s.len().to_bits(), |t| t.is_empty())
        }
        22 => {
            let f = MinHash::<std::vec::IntoIter<u64>, u64>::new(n);
            let g = MinHash::<std::vec::IntoIter<u64>, u64>::with_hashers(n, *f.hashers());
            let (a, b) = (f.get_min_hashes(uni.clone().into_iter()), g.get_min_hashes(uni.into_iter()));
            chk!("C15", f.hasher_count() == n && a == b, "{} hash functions for {}, signatures equal: {}", f.hasher_count(), n, a == b);
        }
        24 => {
            // sizes no filter can have are refused
            let (w, k, b) = ([0, 1, 65, 66, 128, 2, 64][n % 7], n % 4, p[2] as usize % 3);
            let bad = w < 2 || w > 64 || k == 0 || b == 0;
            chk!("C26", quiet(|| CuckooFilter::<u64>::from_parameters(k, w, b)).is_err() == bad, "a cuckoo filter for {} items with {} bits and {} entries per index: refused is {}", k, w, b, !bad);
            let h = [SipHasherBuilder::from_seed(1, 2), SipHasherBuilder::from_seed(3, 4)];
            chk!("C26", quiet(|| CuckooFilter::<u64>::from_parameters_with_hashers(k, w, b, h)).is_err() == bad, "a cuckoo filter for {} items with {} bits and {} entries per index: refused is {}", k, w, b, !bad);
            let bad = k == 0 || b == 0;
            chk!("C26", quiet(|| CuckooFilter::<u64>::from_entries_per_index_with_hashers(k, q, b, h)).is_err() == bad, "a cuckoo filter for {} items with {} entries per index: refused is {}", k, b, !bad);
            chk!("C26", quiet(|| CuckooFilter::<u64>::with_hashers(k, h)).is_err() == (k == 0), "a cuckoo filter for {} items: refused is {}", k, k != 0);
            let (a, r) = [(0, 3), (3, 0), (3, 62), (3, 61), (4, 61), (5, 60), (2, 1)][n % 7];
            let bad = a == 0 || r == 0 || r > 61 || a + r > 64;
            chk!("C26", quiet(|| QuotientFilter::<u64>::new(a, r)).is_err() == bad, "a quotient filter with {} and {} bits: refused is {}", a, r, !bad);
            chk!("C26", quiet(|| QuotientFilter::<u64>::with_hasher(a, r, h[0])).is_err() == bad, "a quotient filter with {} and {} bits: refused is {}", a, r, !bad);
            for e in [f64::MIN_POSITIVE, 1e-9, -0.5, 0.0, 1.0, 1.5, 0.5] {
                let bad = !(e > 0.0 && e < 1.0);
                chk!("C26", !bad || quiet(|| QuotientFilter::<u64>::from_fpp_with_hasher(4, e, h[0])).is_err(), "a quotient filter with probability {} is not refused", e);
            }
        }
        _ => {
            for f in [SimHash::<std::vec::IntoIter<u64>, u64>::new(), Default::default()] {
                let g = SimHash::<std::vec::IntoIter<u64>, u64>::with_hasher(f.hasher().clone());
                let (a, b) = (f.get_sim_hash(uni.clone().into_iter()), g.get_sim_hash(uni.clone().into_iter()));
                chk!("C16", a == b, "hash {:#x}, but {:#x} with an explicit builder", a, b);
            }
        }
    }
    Ok(())
}

pub fn search(c: &mut Ctx) {
    let kinds: &[u64] = match c.prop.as_str() {
        "C01" => &[0, 1, 2],
        "C02" => &[3, 4],
        "C03" | "C25" => &[5],
        "C04" | "C05" => &[6, 7, 8],
        "C06" => &[0, 1, 2, 3, 4, 5, 6, 7, 8],
        "C07" | "C08" => &[9, 10, 11, 12],
        "C09" => &[13],
        "C10" | "C11" => &[14, 15],
        "C12" | "C13" => &[16, 17, 18, 19, 20],
        "C14" => &[21],
        "C15" => &[22],
        "C16" => &[23],
        "C21" => &[16, 17, 18, 19, 20, 21],
        "C26" => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24],
        _ => &[],
    };
    for n in [1u64, 2, 3, 4, 5, 6, 7, 8, 16, 30] {
        for q in 0..5u64 {
            for k in kinds {
                let (k, mut r) = (*k, c.rng.clone());
                let m = r.pick(&[4u64, 12, 40]);
                let ops = (0..r.range(4, 3 + n.min(12))).map(|_| match r.below(10) {
                    0 => vec![2],
                    1 | 2 => vec![1, r.below(m)],
                    _ => vec![0, r.below(m)],
                }).collect();
                c.rng = r;
                if !c.case("ctor", vec![k, n, q], ops) {
                    return;
                }
            }
        }
    }
}
