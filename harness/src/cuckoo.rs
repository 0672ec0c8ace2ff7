use std::time::Instant;
use crate::bloom::{FPPS, RATIOS, TIGHT};
use crate::chk;
use crate::fw::*;
use probabilistic_collections::cuckoo::*;

// params: [h0, h1, kind, item_count, bits, entries]; ops: [0 insert, x], [1 remove, x], [2 clear]
fn mk(p: &[u64]) -> CuckooFilter<u64, HB> {
    let h = [hb(p[0]), hb(p[1])];
    match p[2] {
        0 => CuckooFilter::with_hashers(p[3] as usize, h),
        1 => CuckooFilter::from_parameters_with_hashers(p[3] as usize, p[4] as usize, p[5] as usize, h),
        2 => CuckooFilter::from_entries_per_index_with_hashers(p[3] as usize, FPPS[p[4] as usize % 9], p[5] as usize, h),
        _ => CuckooFilter::from_fingerprint_bit_count_with_hashers(p[3] as usize, FPPS[p[4] as usize % 5], 10 + p[5] as usize, h),
    }
}
fn universe(ops: &[Vec<u64>]) -> Vec<u64> {
    let mut u: Vec<u64> = ops.iter().filter(|o| o[0] < 2).map(|o| o[1]).collect();
    u.sort();
    u.dedup();
    let n = u.len();
    for i in 0..n.min(4) {
        u.push(u[i] ^ 1);
        u.push(mix(u[i]));
    }
    u.sort();
    u.dedup();
    u.truncate(60);
    u
}

pub fn run_cuckoo(p: &[u64], ops: &[Vec<u64>]) -> R {
    let mut f = mk(p);
    let removal = ops.iter().any(|o| o[0] == 1);
    let cap = f.capacity();
    if cap > 100_000 {
        return Ok(());
    }
    chk!("C08", f.bucket_len().is_power_of_two(), "bucket count {} is not a power of two", f.bucket_len());
    chk!("C08", cap == f.bucket_len() * f.entries_per_index(), "capacity {} is not {} buckets of {}", cap, f.bucket_len(), f.entries_per_index());
    chk!("C08", cap as u64 >= p[3], "capacity {} below the requested item count {}", cap, p[3]);
    if p[2] == 1 {
        chk!("C08", f.fingerprint_bit_count() as u64 == p[4] && f.entries_per_index() as u64 == p[5], "wrong geometry");
    }
    let uni = universe(ops);
    // class of each item, observed: y is in the class of x when a filter holding only x reports y
    let n = uni.len();
    let mut class: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let mut g = f.clone();
        g.insert(&uni[i]);
        chk!("C07|C08", g.contains(&uni[i]), "item {:#x} absent right after insertion in a new filter", uni[i]);
        for j in 0..n {
            if g.contains(&uni[j]) {
                let (a, b) = (class[i], class[j]);
                class.iter_mut().for_each(|c| if *c == b { *c = a });
            }
        }
    }
    // the observed relation must be an equivalence
    for i in 0..n {
        let mut g = f.clone();
        g.insert(&uni[i]);
        for j in 0..n {
            chk!("C07|C08", g.contains(&uni[j]) == (class[i] == class[j]), "holding only {:#x}, contains({:#x}) is {}: candidate buckets are not symmetric", uni[i], uni[j], g.contains(&uni[j]));
        }
    }
    let cl = |x: u64| class[uni.iter().position(|y| *y == x).unwrap()];
    let mut held: std::collections::BTreeSet<usize> = Default::default();
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        if o[0] < 2 && !uni.contains(&o[1]) {
            continue;
        }
        match o[0] {
            2 => {
                f.clear();
                held.clear();
            }
            1 => {
                f.remove(&o[1]);
                held.remove(&cl(o[1]));
            }
            _ => {
                f.insert(&o[1]);
                held.insert(cl(o[1]));
            }
        }
        let prop = if removal { "C08" } else { "C07" };
        for (x, c) in uni.iter().zip(&class) {
            let got = f.contains(x);
            chk!(prop, got == held.contains(c), "op {} {:?}: contains({:#x}) is {} but its class is {}", i, o, x, got, if got { "not held" } else { "held" });
        }
        chk!("C08", f.len() + f.extra_items_len() == held.len(), "op {} {:?}: len {} + overflow {} but {} classes are held", i, o, f.len(), f.extra_items_len(), held.len());
        chk!("C08", f.capacity() == cap, "op {}: capacity changed from {} to {}", i, cap, f.capacity());
        chk!("C08", f.len() <= cap, "op {}: len {} exceeds the capacity {}", i, f.len(), cap);
        chk!("C08", f.is_empty() == (f.len() == 0) && f.is_nearly_full() == (f.extra_items_len() > 0), "op {}: is_empty / is_nearly_full wrong", i);
    }
    Ok(())
}

/// Fullness of every filter, read from the serialized state: (entries in the table, slots, overflow entries).
fn fullness(f: &ScalableCuckooFilter<u64, HB>) -> Option<Vec<(usize, usize, usize)>> {
    let v = serde_json::to_value(f).ok()?;
    let mut r = vec![];
    for g in v.get("filters")?.as_array()? {
        let t = g.get("fingerprint_vec")?;
        let (e, b) = (t.get("occupied_len")?.as_u64()?, t.get("len")?.as_u64()?);
        r.push((e as usize, b as usize, g.get("extra_items")?.as_array()?.len()));
    }
    Some(r)
}
fn chk_growth(i: usize, fc: usize, now: usize, f: &ScalableCuckooFilter<u64, HB>) -> R {
    let full = |x: &(usize, usize, usize)| x.2 > 0 || x.0 == x.1;
    chk!("C25", now == fc || now == fc + 1, "op {}: filter count went from {} to {}", i, fc, now);
    if let Some(v) = fullness(f) {
        if v.len() != now || v.iter().map(|x| x.1).sum::<usize>() != f.capacity() {
            return Ok(());
        }
        chk!("C25", !full(&v[now - 1]), "op {}: the newest of {} filters is full: (entries, slots, overflow) {:?}", i, now, v[now - 1]);
        chk!("C25", full(&v[fc - 1]) == (now > fc), "op {}: the newest filter had (entries, slots, overflow) {:?} and the count went from {} to {}", i, v[fc - 1], fc, now);
    }
    Ok(())
}

// params: [h0seed, h1seed, ratio, item_count, fpp, entries]. Items carry a tag in their low two hash
// bits (1..3): items with different tags have different fingerprints in every filter.
pub fn run_scuckoo(p: &[u64], ops: &[Vec<u64>]) -> R {
    let h = [hb(16 * p[0]), hb(p[1])];
    let mut f = ScalableCuckooFilter::<u64, HB>::from_entries_per_index_with_hashers(
        p[3] as usize,
        FPPS[p[4] as usize % 5],
        p[5] as usize,
        RATIOS[(p[2] % 4) as usize],
        TIGHT[(p[2] / 4 % 4) as usize],
        h,
    );
    let cap0 = f.capacity();
    let mut held: Vec<u64> = vec![];
    let uni = universe(ops);
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        let before: Vec<bool> = uni.iter().map(|x| f.contains(x)).collect();
        let (len, fc, cap) = (f.len(), f.filter_count(), f.capacity());
        match o[0] {
            2 => {
                f.clear();
                held.clear();
                chk!("C25", f.filter_count() == 1, "op {}: clear left {} filters", i, f.filter_count());
                chk!("C09", f.len() == 0 && f.is_empty() && f.filter_count() == 1 && f.capacity() == cap0, "op {}: clear left len {}, {} filters, capacity {} (initially {})", i, f.len(), f.filter_count(), f.capacity(), cap0);
                for x in &uni {
                    chk!("C09", !f.contains(x), "op {}: {:#x} reported after clear", i, x);
                }
            }
            1 => {
                let was = f.contains(&o[1]);
                f.remove(&o[1]);
                chk!("C09", !f.contains(&o[1]), "op {}: {:#x} still reported after removal", i, o[1]);
                held.retain(|x| x & 3 != o[1] & 3 );
                chk!("C09", if was { f.len() < len } else { f.len() == len }, "op {}: removal of a {} item took len from {} to {}", i, if was { "reported" } else { "absent" }, len, f.len());
                chk!("C25", f.filter_count() == fc, "op {}: removal changed the number of filters", i);
                chk!("C09", f.filter_count() == fc && f.capacity() == cap, "op {}: removal changed the filters", i);
                for (x, b) in uni.iter().zip(&before) {
                    if x & 3 != o[1] & 3 && x & 3 != 0 && o[1] & 3 != 0 {
                        chk!("C09", f.contains(x) == *b, "op {}: removing {:#x} changed contains({:#x}) from {}", i, o[1], x, b);
                    }
                }
            }
            _ => {
                let was = f.contains(&o[1]);
                f.insert(&o[1]);
                held.push(o[1]);
                if relevant("C25") {
                    chk_growth(i, fc, f.filter_count(), &f)?;
                }
                chk!("C09", f.len() == len + usize::from(!was), "op {}: insertion of a {} item took len from {} to {}", i, if was { "reported" } else { "new" }, len, f.len());
                chk!("C09", f.filter_count() == fc || f.filter_count() == fc + 1, "op {}: filter count went from {} to {}", i, fc, f.filter_count());
                chk!("C09", f.capacity() >= cap, "op {}: capacity shrank", i);
                for (x, b) in uni.iter().zip(&before) {
                    chk!("C09", f.contains(x) || !b, "op {}: inserting {:#x} lost {:#x}", i, o[1], x);
                }
            }
        }
        for x in &held {
            chk!("C09", f.contains(x), "op {}: held item {:#x} is not reported ({} filters)", i, x, f.filter_count());
        }
        // the next filters would need fingerprints wider than 64 bits: growth panics there (see the property)
        if f.capacity() > 5_000 || FPPS[p[4] as usize % 5] * TIGHT[(p[2] / 4 % 4) as usize].powi(f.filter_count() as i32) < 1e-13 {
            return Ok(());
        }
    }
    Ok(())
}

pub fn search(c: &mut Ctx) {
    if c.prop == "C09" || c.prop == "C25" {
        let end = Instant::now() + (c.deadline - Instant::now()) / if c.prop == "C25" { 2 } else { 1 };
        while !c.done() && (c.prop == "C09" || Instant::now() < end) {
            let mut r = c.rng.clone();
            let p = vec![0, 3 + 16 * r.below(1000), r.below(16), r.range(1, 20), r.below(5), r.range(1, 4)];
            let n = r.pick(&[4, 20, 60]);
            let rm = r.pick(&[0, 20]);
            let span = r.pick(&[12u64, 64, 1 << 30]);
            let mut ops: Vec<Vec<u64>> = vec![];
            for _ in 0..r.range(1, n) {
                let x = r.below(100);
                let old = if ops.is_empty() { None } else { Some(ops[r.below(ops.len() as u64) as usize].clone()) };
                let fresh = (mix(r.below(span)) & !3) | r.range(1, 3);
                let it = match old {
                    Some(o) if o.len() > 1 && r.below(3) == 0 => o[1],
                    _ => fresh,
                };
                ops.push(if x < 2 { vec![2] } else if x < 2 + rm { vec![1, it] } else { vec![0, it] });
            }
            c.rng = r;
            if !c.case("scuckoo", p, ops) {
                return;
            }
        }
        return;
    }
    let removes = c.prop == "C08";
    // every small geometry
    for items in 1..=9 {
        for bits in 2..=6 {
            for e in 1..=4 {
                let mut ops: Vec<Vec<u64>> = (0..items + 3).map(|i| vec![0, mix(i + 100 * bits)]).collect();
                if removes {
                    for i in 0..items {
                        ops.push(vec![1, mix(i + 100 * bits)]);
                    }
                }
                if !c.case("cuckoo", vec![3, 3 + 16, 1, items, bits, e], ops) {
                    return;
                }
            }
        }
    }
    for bits in 2..=64 {
        let ops: Vec<Vec<u64>> = (0..14).map(|i| vec![if removes && i % 4 == 3 { 1 } else { 0 }, mix(i / 2 + 77 * bits)]).collect();
        if !c.case("cuckoo", vec![3, 3 + 16, 1, 6, bits, 2], ops) {
            return;
        }
    }
    c.exhausted.push("geometries: item counts 1..9 x widths 2..6 x entries 1..4, and all widths 2..64".into());
    while !c.done() {
        let mut r = c.rng.clone();
        let kind = r.pick(&[0u64, 1, 1, 1, 1, 2, 3]);
        let h0 = r.pick(&[3 + 16 * 5, 1, 3 + 16 * 9, 8 + 16 * 3]);
        let h1 = r.pick(&[3 + 16 * 7, 2, 3 + 16, 8 + 16, 0]);
        let bits = match kind {
            1 => r.pick(&[2, 2, 3, 4, 8, 31, 33, 63, 64]),
            _ => r.below(5),
        };
        let big = r.below(150) == 0;
        let items = if big { r.range(100, 600) } else { r.pick(&[1, 2, 4, 7, 8, 16, 20]) };
        let e = r.range(1, 4);
        let span = if big { 2000 } else { r.pick(&[6u64, 12, 30, 60]) };
        let n = if big { 700 } else { r.pick(&[4u64, 12, 30, 60]) };
        let mut ops: Vec<Vec<u64>> = vec![];
        for _ in 0..r.range(1, n) {
            let x = r.below(100);
            let v = r.below(span);
            let it = match r.below(3) {
                0 => v | (v % 3) << 32,
                _ => mix(v),
            };
            ops.push(if x < 2 { vec![2] } else if removes && x < 35 { vec![1, it] } else { vec![0, it] });
        }
        c.rng = r;
        if !c.case("cuckoo", vec![h0, h1, kind, items, bits, e], ops) {
            return;
        }
    }
}
