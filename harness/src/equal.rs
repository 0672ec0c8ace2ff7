//! C27: equality of filters and builders
use crate::chk;
use crate::fw::*;
use probabilistic_collections::bloom::BloomFilter;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::SipHasherBuilder;

fn sip(x: u64) -> SipHasherBuilder {
    SipHasherBuilder::from_seed(x >> 4, x & 15)
}

// params: [bits, percent, hasher, hasher]; ops: [0 insert, x], [1 clear]
pub fn run_bloomeq(p: &[u64], ops: &[Vec<u64>]) -> R {
    let bits = p[0] as usize;
    let fpp = p[1] as f64 / 100.0;
    let new = |a: u64, b: u64, q: f64| BloomFilter::<u64, HB>::from_fpp_with_hashers(bits, q, [hb(a), hb(b)]);
    let mut f = new(p[2], p[3], fpp);
    let mut held: Vec<u64> = vec![];
    for (i, o) in [vec![9]].iter().chain(ops).enumerate() {
        let before = f.clone();
        match o[0] {
            0 => {
                f.insert(&o[1]);
                held.push(o[1]);
            }
            1 => {
                f.clear();
                held.clear();
            }
            _ => {}
        }
        chk!("C27", (f.count_ones() == before.count_ones() || o[0] == 1 || f != before) && (o[0] != 0 || f.count_ones() != before.count_ones() || f == before), "op {} {:?}: comparison with the filter before", i, o);
        let mut g = new(p[2], p[3], fpp);
        held.iter().rev().for_each(|x| g.insert(x));
        chk!("C27", f == g && g == f, "op {} {:?}: differs from the filter built directly with the items {:?}", i, o, held);
        if f.count_ones() > 0 {
            chk!("C27", f != new(p[2], p[3], fpp), "op {}: equals the empty filter", i);
        }
    }
    let e = new(p[2], p[3], fpp);
    f.clear();
    chk!("C27", f == e, "the cleared filter differs from a new one");
    for (a, b, q) in [(p[2] ^ 1, p[3], fpp), (p[2], p[3] ^ 1, fpp), (p[2], p[3], 0.5), (p[2], p[3], 0.01)] {
        let g = new(a, b, q);
        let same = g.hasher_count() == e.hasher_count() && a == p[2] && b == p[3];
        chk!("C27", (g == e) == same, "filters with hashers {:?} {:?}, numbers of hash functions {} {}: equal is {}", (p[2], p[3]), (a, b), e.hasher_count(), g.hasher_count(), g == e);
    }
    Ok(())
}

// params: [items, fingerprint bits, entries, hasher, hasher]; ops: [0 insert, x], [1 remove, x], [2 clear]
pub fn run_cuckooeq(p: &[u64], ops: &[Vec<u64>]) -> R {
    let new = |n: u64, w: u64, e: u64, a: u64, b: u64| CuckooFilter::<u64>::from_parameters_with_hashers(n as usize, w as usize, e as usize, [sip(a), sip(b)]);
    let mut f = new(p[0], p[1], p[2], p[3], p[4]);
    let mut history: Vec<CuckooFilter<u64>> = vec![];
    for (i, o) in [vec![9]].iter().chain(ops).enumerate() {
        let before = f.clone();
        chk!("C27", before == f && f == before, "op {}: differs from its clone", i);
        match o[0] {
            0 => f.insert(&o[1]),
            1 => f.remove(&o[1]),
            2 => {
                f.clear();
                chk!("C27", f == new(p[0], p[1], p[2], p[3], p[4]), "op {}: the cleared filter differs from a new one", i);
            }
            _ => {}
        }
        let key = |f: &CuckooFilter<u64>| (f.len(), f.extra_items_len());
        if key(&before) != key(&f) {
            chk!("C27", f != before && before != f, "op {} {:?}: equals the filter before, (length, overflow) {:?} and {:?}", i, o, key(&before), key(&f));
        } else if o[0] != 2 {
            chk!("C27", f == before, "op {} {:?}: changed nothing, but differs from the filter before", i, o);
        }
        // equal filters answer alike: the filters of the history and those one insertion away
        let items: Vec<u64> = (0..8).chain(ops.iter().filter(|o| o.len() > 1).map(|o| o[1])).collect();
        let next: Vec<_> = items[i % items.len()..].iter().take(4).map(|x| { let mut g = f.clone(); g.insert(x); g }).collect();
        for g in next.iter().chain(&history) {
            for h in next.iter().chain(Some(&f)) {
                if g == h {
                    let bad = items.iter().find(|x| g.contains(x) != h.contains(x));
                    chk!("C27", bad.is_none(), "op {} {:?}: two equal filters differ about item {:?}", i, o, bad);
                }
            }
        }
        history.push(f.clone());
    }
    f.clear();
    for (n, w, e, a, b) in [(p[0], p[1] + 1, p[2], p[3], p[4]), (p[0] * 4 + 64, p[1], p[2], p[3], p[4]), (p[0], p[1], p[2], p[3] ^ 1, p[4]), (p[0], p[1], p[2], p[3], p[4] ^ 1), (p[0], p[1], p[2], p[3], p[4] ^ 16), (p[0], p[1], p[2], p[3] ^ 16, p[4]), (p[0], p[1], p[2], p[3] ^ 17, p[4])] {
        let g = new(n, w, e, a, b);
        chk!("C27", g != f, "empty filters with parameters {:?} and {:?} are equal", p, [n, w, e, a, b]);
    }
    let g = new(1, p[1], p[2] * 2, p[3], p[4]);
    let h = new(p[2] * 2, p[1], p[2], p[3], p[4]);
    chk!("C27", g != h, "empty filters with {} and {} entries per index are equal", p[2] * 2, p[2]);
    Ok(())
}

pub fn search(c: &mut Ctx) {
    for k in 0..40u64 {
        for l in 0..40u64 {
            let p = vec![k, l];
            if !c.case("sipeq", p, vec![]) {
                return;
            }
        }
    }
    c.exhausted.push("builders with all pairs of keys out of a set of 40".into());
    while !c.done() {
        let mut r = c.rng.clone();
        let n = r.pick(&[2u64, 8, 30]);
        let m = r.pick(&[4u64, 40, 1 << 40]);
        let (d, p) = if r.below(2) == 0 {
            ("bloomeq", vec![r.range(1, 80), r.range(1, 99), r.below(200), r.below(200)])
        } else {
            ("cuckooeq", vec![r.range(1, 20), r.range(2, 20), r.range(1, 4), r.below(300), r.below(300)])
        };
        let ops = (0..r.range(1, n))
            .map(|_| match r.below(12) {
                0 => vec![if d == "bloomeq" { 1 } else { 2 }],
                1 | 2 | 3 if d != "bloomeq" => vec![1, r.below(m)],
                _ => vec![0, r.below(m)],
            })
            .collect();
        c.rng = r;
        if !c.case(d, p, ops) {
            return;
        }
    }
}
pub fn run_sipeq(p: &[u64], _: &[Vec<u64>]) -> R {
    let key = |x: u64| (if x < 8 { x } else { mix(x % 6) ^ (x / 6) }, if x % 3 == 0 { x / 8 } else { mix(x % 5) });
    let (a, b) = (key(p[0]), key(p[1]));
    let (x, y) = (SipHasherBuilder::from_seed(a.0, a.1), SipHasherBuilder::from_seed(b.0, b.1));
    chk!("C27", (x == y) == (a == b), "builders with keys {:?} and {:?}: equal is {}", a, b, x == y);
    let (x, y) = (SipHasherBuilder::from_seed(a.0, a.1), SipHasherBuilder::from_seed(a.1, a.0));
    chk!("C27", (x == y) == (a.0 == a.1), "builders with keys {:?} and the same swapped: equal is {}", a, x == y);
    Ok(())
}
