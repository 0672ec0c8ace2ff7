use crate::chk;
use crate::fw::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::*;
use probabilistic_collections::verif_hooks::DoubleHasher;
use probabilistic_collections::SipHasherBuilder;
use std::hash::{BuildHasher, Hash, Hasher};

fn h1<B: BuildHasher, X: Hash + ?Sized>(b: &B, x: &X) -> u64 {
    let mut s = b.build_hasher();
    x.hash(&mut s);
    s.finish()
}
#[allow(deprecated)]
fn sip<X: Hash + ?Sized>(k: (u64, u64), x: &X) -> u64 {
    let mut s = std::hash::SipHasher::new_with_keys(k.0, k.1);
    x.hash(&mut s);
    s.finish()
}
/// i-th value of enhanced double hashing: a + i b + i(i-1)(i-2)/6
fn nth(a: u64, b: u64, i: u64) -> u64 {
    let i = i as u128;
    let t = if i < 3 { 0 } else { i * (i - 1) * (i - 2) / 6 };
    (a as u128 + i * b as u128 + t) as u64
}

// params: [k0, k1, k2, k3, n]; ops: [x] items
pub fn run_sip(p: &[u64], ops: &[Vec<u64>]) -> R {
    let (ka, kb) = ((p[0], p[1]), (p[2], p[3]));
    let (a, b) = (SipHasherBuilder::from_seed(ka.0, ka.1), SipHasherBuilder::from_seed(kb.0, kb.1));
    let e = SipHasherBuilder::from_entropy();
    chk!("C23", (a == b) == (ka == kb) && (b == a) == (ka == kb), "builders seeded with {:?} and {:?} compare as {}", ka, kb, a == b);
    chk!("C23", a == SipHasherBuilder::from_seed(ka.0, ka.1), "builders seeded alike with {:?} differ", ka);
    let d = DoubleHasher::<u64>::with_hashers([a, b]);
    let ds = DoubleHasher::<String>::with_hashers([a, b]);
    chk!("C23", *d.hashers() == [a, b], "hashers() is not what the double hasher was built with");
    for o in ops {
        let x = o[0];
        let s = format!("{:x}", x);
        let e2 = e;
        let r = iter_laws(|| d.hash(&x).take((p[4] % 21) as usize));
        chk!("C23", r.is_ok(), "hashes of {:#x} under keys {:?}, {:?}: {}", x, ka, kb, r.unwrap_err());
        chk!("C23", h1(&a, &x) == sip(ka, &x) && h1(&a, s.as_str()) == sip(ka, s.as_str()), "a builder seeded with {:?} does not hash {:#x} by SipHash with these keys", ka, x);
        chk!("C23", h1(&e, &x) == h1(&e2, &x) && e == e2, "a copied builder hashes {:#x} differently", x);
        for (i, v) in d.hash(&x).take(p[4] as usize).enumerate() {
            let w = nth(sip(ka, &x), sip(kb, &x), i as u64);
            chk!("C23", v == w, "hash {} of {:#x} under keys {:?}, {:?} is {:#x}, double hashing gives {:#x}", i, x, ka, kb, v, w);
        }
        for (i, v) in ds.hash(s.as_str()).take(p[4] as usize).enumerate() {
            let w = nth(sip(ka, s.as_str()), sip(kb, s.as_str()), i as u64);
            chk!("C23", v == w, "hash {} of {:?} under keys {:?}, {:?} is {:#x}, double hashing gives {:#x}", i, s, ka, kb, v, w);
        }
    }
    Ok(())
}

// all builder pairs in a serialized collection, in order of appearance
fn pairs(v: &serde_json::Value, out: &mut Vec<HB>) {
    match v {
        serde_json::Value::Array(a) => a.iter().for_each(|x| pairs(x, out)),
        serde_json::Value::Object(m) => {
            if m.len() == 2 && m.contains_key("mode") && m.contains_key("seed") {
                if let Ok(h) = serde_json::from_value::<HB>(v.clone()) {
                    out.push(h);
                }
            } else {
                m.values().for_each(|x| pairs(x, out))
            }
        }
        _ => {}
    }
}

// params: [h0, h1, which, n]; ops: [0 insert, x], [1 clear]
pub fn run_keys(p: &[u64], ops: &[Vec<u64>]) -> R {
    let h = [hb(p[0]), hb(p[1])];
    let n = p[3] as usize;
    macro_rules! go {
        ($new:expr, $name:expr) => {
            go!($new, $name, |f, x| f.insert(x))
        };
        ($new:expr, $name:expr, |$f:ident, $x:ident| $ins:expr) => {{
            let mut $f = $new;
            chk!("C23", *$f.hashers() == h, "{}: does not report the builders it was built with", $name);
            for (i, o) in ops.iter().enumerate() {
                if o[0] == 0 {
                    let $x = &o[1];
                    let _ = $ins;
                } else {
                    $f.clear()
                }
                chk!("C23", *$f.hashers() == h, "{}: after op {} {:?} it does not report the builders it was built with", $name, i, o);
                let mut got = vec![];
                pairs(&serde_json::to_value(&$f).unwrap_or_default(), &mut got);
                for (j, b) in got.iter().enumerate() {
                    chk!("C23", *b == h[j % 2], "{}: after op {} {:?} builder {} of filter {} is not the one given", $name, i, o, j % 2, j / 2);
                }
            }
        }};
    }
    macro_rules! one {
        ($f:expr, $name:expr, $ins:expr) => {{
            let mut f = $f;
            chk!("C23", *f.hasher() == h[0], "{}: does not report the builder it was built with", $name);
            for o in ops {
                if o[0] == 0 { $ins(&mut f, o[1]); } else { f.clear(); }
                chk!("C23", *f.hasher() == h[0], "{}: after {:?} it does not report the builder it was built with", $name, o);
            }
        }};
    }
    match p[2] {
        0 => go!(BloomFilter::<u64, HB>::with_hashers(n, 0.01, h), "BloomFilter"),
        1 => go!(PartitionedBloomFilter::<u64, HB>::from_bit_count_with_hashers(64 * n, 0.01, h), "PartitionedBloomFilter"),
        2 => go!(ScalableBloomFilter::<u64, HB>::with_hashers(8 * n, 0.01, 2.0, 0.5, h), "ScalableBloomFilter"),
        3 => go!(BSBloomFilter::<u64, HB>::with_hashers(64 * n, 0.01, h), "BSBloomFilter"),
        4 => go!(BSSDBloomFilter::<u64, HB>::with_hashers(64 * n, 0.01, h), "BSSDBloomFilter"),
        5 => go!(RLBSBloomFilter::<u64, HB>::with_hashers(64 * n, 0.01, h), "RLBSBloomFilter"),
        6 => go!(CuckooFilter::<u64, HB>::from_fingerprint_bit_count_with_hashers(n, 0.01, 16, h), "CuckooFilter"),
        7 => go!(ScalableCuckooFilter::<u64, HB>::with_hashers(n, 0.01, 2.0, 0.5, h), "ScalableCuckooFilter"),
        8 => go!(CountMinSketch::<CountMinStrategy, u64, HB>::with_hashers(3, 7 + n, h), "CountMinSketch", |f, x| f.insert(x, 1)),
        12 => go!(BloomFilter::<u64, HB>::from_item_count_with_hashers(64 * n, n, h), "BloomFilter"),
        13 => go!(BloomFilter::<u64, HB>::from_fpp_with_hashers(64 * n, 0.01, h), "BloomFilter"),
        14 => go!(PartitionedBloomFilter::<u64, HB>::from_item_count_with_hashers(n, 0.01, h), "PartitionedBloomFilter"),
        15 => go!(CuckooFilter::<u64, HB>::with_hashers(n, h), "CuckooFilter"),
        16 => go!(CuckooFilter::<u64, HB>::from_parameters_with_hashers(n, 16, 4, h), "CuckooFilter"),
        17 => go!(CuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, 0.01, 3, h), "CuckooFilter"),
        18 => go!(ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(n, 0.01, 3, 2.0, 0.5, h), "ScalableCuckooFilter"),
        19 => go!(CountMinSketch::<CountMinStrategy, u64, HB>::from_error_with_hashers(0.1, 0.1, h), "CountMinSketch", |f, x| f.insert(x, 1)),
        9 => one!(HyperLogLog::<u64, HB>::with_hasher(0.1, h[0]), "HyperLogLog", |f: &mut HyperLogLog<u64, HB>, x: u64| f.insert(&x)),
        10 => one!(QuotientFilter::<u64, HB>::with_hasher(8, 8, h[0]), "QuotientFilter", |f: &mut QuotientFilter<u64, HB>, x: u64| f.insert(&x)),
        11 => {
            let m = MinHash::<std::vec::IntoIter<u64>, u64, HB>::with_hashers(n, h);
            let s = SimHash::<std::vec::IntoIter<u64>, u64, HB>::with_hasher(h[0]);
            chk!("C23", *m.hashers() == h, "MinHash: does not report the builders it was built with");
            chk!("C23", *s.hasher() == h[0], "SimHash: does not report the builder it was built with");
        }
        20 => one!(QuotientFilter::<u64, HB>::from_fpp_with_hasher(n, 0.01, h[0]), "QuotientFilter", |f: &mut QuotientFilter<u64, HB>, x: u64| if f.len() < f.capacity() { f.insert(&x) }),
        _ => {}
    }
    Ok(())
}

pub fn search(c: &mut Ctx) {
    for (i, k) in [0, 1, !0u64].iter().enumerate() {
        for j in [0, 1, !0u64] {
            for l in [0, 1, !0u64] {
                let ops = vec![vec![0], vec![1], vec![!0], vec![i as u64 * 77]];
                if !c.case("sip", vec![*k, j, l, 0, 9], ops.clone()) || !c.case("sip", vec![*k, j, *k, l, 9], ops) {
                    return;
                }
            }
        }
    }
    while !c.done() {
        let mut r = c.rng.clone();
        let ops: Vec<Vec<u64>> = (0..r.range(1, 5)).map(|_| vec![r.next() >> r.below(60)]).collect();
        let k = [r.below(3), r.next(), r.below(3), r.next()];
        let (a, b) = (r.pick(&k), r.pick(&k));
        let n = r.pick(&[3u64, 20, 300]);
        let same = r.below(3) == 0;
        let p = vec![a, b, if same { a } else { k[0] }, if same { b } else { k[1] }, n];
        let which = r.below(21);
        let keys = vec![3 + 16 * r.range(1, 50), 3 + 16 * r.range(51, 99), which, r.range(1, 12)];
        let m = r.range(1, 60);
        let kops: Vec<Vec<u64>> = (0..m).map(|_| if r.below(40) == 0 { vec![1] } else { vec![0, r.next()] }).collect();
        c.rng = r;
        if !c.case("sip", p, ops) || !c.case("keys", keys, kops) {
            return;
        }
    }
}
