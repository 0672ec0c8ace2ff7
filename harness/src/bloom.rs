use crate::chk;
use crate::fw::*;
use probabilistic_collections::bloom::*;
use probabilistic_collections::verif_hooks::DoubleHasher;
use serde_json::Value;

pub const FPPS: [f64; 9] = [0.5, 0.25, 0.1, 0.05, 0.01, 0.9, 0.001, 0.3, 1e-6];

/// rates of the stream filters; with 1.0 they have one partition
fn dpp(i: u64) -> f64 {
    if i % 10 == 9 { 1.0 } else { FPPS[i as usize % 10 % 9] }
}
fn probes(hbs: [HB; 2], item: u64, k: usize) -> Vec<u64> {
    DoubleHasher::<u64, HB>::with_hashers(hbs).hash(&item).take(k).collect()
}
fn item(o: &[u64]) -> u64 {
    o.get(1).copied().unwrap_or(0)
}
fn universe(ops: &[Vec<u64>]) -> Vec<u64> {
    let mut u: Vec<u64> = ops.iter().filter(|o| o[0] != 1).map(|o| item(o)).collect();
    u.sort();
    u.dedup();
    let n = u.len();
    for i in 0..n.min(6) {
        u.push(u[i] ^ 1);
        u.push(u[i] ^ (1 << 32));
        u.push(mix(u[i]));
    }
    u.extend([0, 1, 2, 3, 1 << 32, u64::MAX]);
    u.sort();
    u.dedup();
    u
}

pub trait F: Clone + serde::Serialize {
    fn ins(&mut self, x: u64);
    fn has(&self, x: u64) -> bool;
    fn clr(&mut self);
    fn ones(&self) -> usize;
    fn zeros(&self) -> usize;
    fn length(&self) -> usize;
    fn empty(&self) -> bool;
}
macro_rules! imp {
    ($t:ident) => {
        impl F for $t<u64, HB> {
            fn ins(&mut self, x: u64) {
                self.insert(&x)
            }
            fn has(&self, x: u64) -> bool {
                self.contains(&x)
            }
            fn clr(&mut self) {
                self.clear()
            }
            fn ones(&self) -> usize {
                self.count_ones()
            }
            fn zeros(&self) -> usize {
                self.count_zeros()
            }
            fn length(&self) -> usize {
                self.len()
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
        }
    };
}
imp!(BloomFilter);
imp!(PartitionedBloomFilter);
imp!(ScalableBloomFilter);
imp!(BSBloomFilter);
imp!(BSSDBloomFilter);
imp!(RLBSBloomFilter);

fn hbs(p: &[u64]) -> [HB; 2] {
    [hb(p[0]), hb(p[1])]
}
pub fn mk_bloom(p: &[u64]) -> BloomFilter<u64, HB> {
    let h = hbs(p);
    match p[2] {
        0 => BloomFilter::with_hashers(p[3] as usize, FPPS[p[4] as usize % 9], h),
        1 => BloomFilter::from_item_count_with_hashers(p[3] as usize, p[4] as usize, h),
        _ => BloomFilter::from_fpp_with_hashers(p[3] as usize, FPPS[p[4] as usize % 9], h),
    }
}
pub fn mk_part(p: &[u64]) -> PartitionedBloomFilter<u64, HB> {
    let h = hbs(p);
    match p[2] {
        0 => PartitionedBloomFilter::from_item_count_with_hashers(p[3] as usize, FPPS[p[4] as usize % 9], h),
        _ => PartitionedBloomFilter::from_bit_count_with_hashers(p[3] as usize, FPPS[p[4] as usize % 9], h),
    }
}
pub const RATIOS: [f64; 4] = [2.0, 1.0, 1.5, 4.0];
pub const TIGHT: [f64; 4] = [0.5, 0.9, 1.0, 0.25];
pub fn mk_scal(p: &[u64]) -> ScalableBloomFilter<u64, HB> {
    ScalableBloomFilter::with_hashers(
        p[3] as usize,
        FPPS[p[4] as usize % 9],
        RATIOS[(p[2] % 4) as usize],
        TIGHT[(p[2] / 4 % 4) as usize],
        hbs(p),
    )
}

/// C01: membership against the set of probe positions that have been set.
pub fn run_bloom(p: &[u64], ops: &[Vec<u64>]) -> R {
    let mut f = mk_bloom(p);
    let (k, len) = (f.hasher_count(), f.len() as u64);
    if k > 64 || (len == 0 && k > 0) {
        return Ok(());
    }
    let uni = universe(ops);
    let pos = |x: u64| -> Vec<usize> { probes(hbs(p), x, k).iter().map(|h| (h % len) as usize).collect() };
    let mut bits = vec![false; len as usize];
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        let before: Vec<bool> = uni.iter().map(|x| f.has(*x)).collect();
        if o[0] == 1 {
            f.clr();
            bits.iter_mut().for_each(|b| *b = false);
        } else {
            f.ins(item(o));
            for q in pos(item(o)) {
                bits[q] = true;
            }
            chk!("C01", f.has(item(o)), "op {}: item {:#x} absent right after insertion", i, item(o));
        }
        for (x, b) in uni.iter().zip(before) {
            let want = pos(*x).iter().all(|q| bits[*q]);
            let got = f.has(*x);
            chk!("C01", o[0] == 1 || got || !b, "op {}: item {:#x} was reported and is no longer", i, x);
            chk!("C01", got == want, "op {}: contains({:#x}) is {} but its probe positions say {}", i, x, got, want);
        }
    }
    Ok(())
}

/// C02: as C01 with one probe per partition.
pub fn run_part(p: &[u64], ops: &[Vec<u64>]) -> R {
    let mut f = mk_part(p);
    let (k, bc) = (f.hasher_count(), f.bit_count() as u64);
    if k > 64 || (bc == 0 && k > 0) {
        return Ok(());
    }
    chk!("C02", f.len() == k * bc as usize, "length {} is not {} partitions of {}", f.len(), k, bc);
    let uni = universe(ops);
    let pos = |x: u64| -> Vec<usize> {
        probes(hbs(p), x, k).iter().enumerate().map(|(i, h)| i * bc as usize + (h % bc) as usize).collect()
    };
    let mut bits = vec![false; k * bc as usize];
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        if o[0] == 1 {
            f.clr();
            bits.iter_mut().for_each(|b| *b = false);
        } else {
            f.ins(item(o));
            for q in pos(item(o)) {
                bits[q] = true;
            }
        }
        for x in uni.iter() {
            let want = pos(*x).iter().all(|q| bits[*q]);
            let got = f.has(*x);
            chk!("C02", got == want, "op {}: contains({:#x}) is {} but its positions say {}", i, x, got, want);
        }
        if let Some(d) = dump(&f) {
            chk!("C02", d.len() != bits.len() || d == bits, "op {}: the bits set are not exactly the probe positions", i);
        }
    }
    Ok(())
}

/// C03: no item is lost across growth.
pub fn run_scal(p: &[u64], ops: &[Vec<u64>]) -> R {
    let mut f = mk_scal(p);
    let uni = universe(ops);
    let mut inserted: Vec<u64> = vec![];
    chk!("C03", f.filter_count() == 1, "a new filter has {} filters", f.filter_count());
    let len0 = f.length();
    // ones and bits of the filters before the newest
    let mut base = (0, 0);
    chk!("C25", 2 * f.ones() < f.length() && f.filter_count() == 1, "a new filter has {} filters, {} ones of {}", f.filter_count(), f.ones(), f.length());
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        let before: Vec<bool> = uni.iter().map(|x| f.has(*x)).collect();
        let (fc, ones, len) = (f.filter_count(), f.ones(), f.length());
        if o[0] == 1 {
            f.clr();
            inserted.clear();
            base = (0, 0);
            chk!("C25", f.filter_count() == 1 && f.ones() == 0, "op {}: clear left {} filters, {} ones", i, f.filter_count(), f.ones());
            chk!("C03", f.filter_count() == 1 && f.length() == len0 && f.ones() == 0, "op {}: clear left {} filters, {} bits, {} ones (initially {} bits)", i, f.filter_count(), f.length(), f.ones(), len0);
            for x in &uni {
                chk!("C03", !f.has(*x), "op {}: {:#x} reported after clear", i, x);
            }
        } else {
            let dup = f.has(item(o));
            f.ins(item(o));
            inserted.push(item(o));
            chk!("C03", f.filter_count() >= fc && f.filter_count() <= fc + 1, "op {}: filter count went from {} to {}", i, fc, f.filter_count());
            let (n, l) = (f.ones() - base.0, len - base.1);
            if f.filter_count() != fc {
                chk!("C25", f.filter_count() == fc + 1, "op {}: filter count went from {} to {}", i, fc, f.filter_count());
                chk!("C25", 2 * n >= l, "op {}: grew although the newest filter had {} ones of {}", i, n, l);
                base = (f.ones(), len);
            } else {
                chk!("C25", 2 * n < l && f.length() == len, "op {}: the newest of {} filters has {} ones of {} and no filter was added", i, fc, n, l);
            }
            chk!("C03", f.ones() >= ones, "op {}: ones went from {} to {}", i, ones, f.ones());
            chk!("C03", f.length() >= len, "op {}: length shrank from {} to {}", i, len, f.length());
            if dup {
                chk!("C03", f.ones() == ones, "op {}: inserting a reported item set bits", i);
            }
            for (x, b) in uni.iter().zip(before) {
                chk!("C03", f.has(*x) || !b, "op {}: {:#x} was reported and is no longer ({} filters)", i, x, f.filter_count());
            }
        }
        for x in &inserted {
            chk!("C03", f.has(*x), "op {}: inserted item {:#x} is not reported ({} filters)", i, x, f.filter_count());
        }
        if f.length() > 100_000 {
            return Ok(());
        }
    }
    Ok(())
}

fn bits_of(v: &Value) -> Option<Vec<bool>> {
    let blocks = v.get("blocks")?.as_array()?;
    let len = v.get("len")?.as_u64()? as usize;
    let mut r = vec![];
    for i in 0..len {
        r.push(blocks.get(i / 8)?.as_u64()? >> (i % 8) & 1 == 1);
    }
    Some(r)
}
/// The bits of a filter, read from its serialized state; None when the state has another shape.
pub fn dump<T: serde::Serialize>(f: &T) -> Option<Vec<bool>> {
    let v = serde_json::to_value(f).ok()?;
    if let Some(b) = v.get("bit_vec") {
        return bits_of(b);
    }
    if let Some(bs) = v.get("bit_vecs").and_then(|b| b.as_array()) {
        let mut r = vec![];
        for b in bs {
            r.extend(bits_of(b)?);
        }
        return Some(r);
    }
    if let Some(fs) = v.get("filters").and_then(|b| b.as_array()) {
        let mut r = vec![];
        for b in fs {
            r.extend(bits_of(b.get("bit_vec")?)?);
        }
        return Some(r);
    }
    None
}

fn run_bits_on<T: F>(mut f: T, ops: &[Vec<u64>], scal: bool) -> R {
    let mut len = f.length();
    chk!("C06", f.ones() == 0, "a new filter has {} ones", f.ones());
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        let ones0 = f.ones();
        if o[0] == 1 {
            f.clr();
            chk!("C06", f.ones() == 0, "op {}: {} ones after clear", i, f.ones());
            if scal {
                len = f.length();
            }
        } else {
            let dup = f.has(item(o));
            f.ins(item(o));
            if dup {
                chk!("C06", f.ones() == ones0, "op {}: inserting a reported item changed the ones from {} to {}", i, ones0, f.ones());
            }
        }
        let l = f.length();
        chk!("C06", if scal { l >= len } else { l == len }, "op {}: length changed from {} to {}", i, len, l);
        len = l;
        let (o1, z) = (f.ones(), f.zeros());
        chk!("C06", o1 + z == l, "op {}: {} ones + {} zeros != length {}", i, o1, z, l);
        chk!("C06", f.empty() == (l == 0), "op {}: is_empty is {} with length {}", i, f.empty(), l);
        if let Some(d) = dump(&f) {
            let n = d.iter().filter(|b| **b).count();
            chk!("C06", d.len() == l, "op {}: {} bits stored, length {}", i, d.len(), l);
            chk!("C06", n == o1, "op {}: {} bits are set but count_ones is {}", i, n, o1);
        }
        if l > 100_000 {
            return Ok(());
        }
    }
    Ok(())
}
pub fn run_bits(p: &[u64], ops: &[Vec<u64>]) -> R {
    let q = &p[1..];
    match p[0] {
        0 => {
            let f = mk_bloom(q);
            if f.hasher_count() > 64 || f.is_empty() && f.hasher_count() > 0 {
                return Ok(());
            }
            run_bits_on(f, ops, false)
        }
        1 => run_bits_on(mk_part(q), ops, false),
        2 => run_bits_on(mk_scal(q), ops, true),
        3 => run_bits_on(BSBloomFilter::with_hashers(q[3] as usize, dpp(q[4]), hbs(q)), ops, false),
        4 => run_bits_on(BSSDBloomFilter::with_hashers(q[3] as usize, dpp(q[4]), hbs(q)), ops, false),
        _ => run_bits_on(RLBSBloomFilter::with_hashers(q[3] as usize, dpp(q[4]), hbs(q)), ops, false),
    }
}

fn run_stream_on<T: F>(mut f: T, k: usize, bc: usize, total: bool, h: [HB; 2], ops: &[Vec<u64>]) -> R {
    if bc == 0 {
        return Ok(());
    }
    let uni = universe(ops);
    let pos = |x: u64| -> Vec<usize> {
        probes(h, x, k).iter().enumerate().map(|(i, h)| i * bc + (*h % bc as u64) as usize).collect()
    };
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        if o[0] == 1 {
            f.clr();
            for x in &uni {
                chk!("C04", !f.has(*x) || k == 0, "op {}: {:#x} reported after clear", i, x);
            }
            continue;
        }
        let x = item(o);
        let before: Vec<bool> = uni.iter().map(|x| f.has(*x)).collect();
        let dup = f.has(x);
        let d0 = dump(&f);
        f.ins(x);
        chk!("C04", f.has(x), "op {}: item {:#x} absent right after insertion", i, x);
        if dup {
            for (y, b) in uni.iter().zip(&before) {
                chk!("C04", f.has(*y) == *b, "op {}: re-inserting {:#x} changed contains({:#x}) from {} to {}", i, x, y, b, !b);
            }
        }
        if let (Some(d0), Some(d1)) = (d0, dump(&f)) {
            if d0.len() != k * bc || d1.len() != k * bc {
                continue;
            }
            for y in &uni {
                let set = pos(*y).iter().all(|b| d1[*b]);
                chk!("C04", f.has(*y) == set, "op {}: contains({:#x}) is {}, all its positions set: {}", i, y, f.has(*y), set);
            }
            let ps = pos(x);
            let mut cleared_total = 0;
            for part in 0..k {
                let mut cleared = 0;
                for b in part * bc..(part + 1) * bc {
                    if d0[b] && !d1[b] {
                        cleared += 1;
                    }
                    chk!("C05", !(d1[b] && !d0[b]) || ps.contains(&b), "op {}: inserting {:#x} set bit {} which is not one of its positions", i, x, b);
                }
                chk!("C05", cleared <= 1, "op {}: {} bits cleared in partition {}", i, cleared, part);
                cleared_total += cleared;
            }
            chk!("C05", !total || cleared_total <= 1, "op {}: {} bits cleared in the whole filter", i, cleared_total);
            chk!("C05", !dup || d0 == d1, "op {}: re-inserting a reported item changed bits", i);
            for (y, b) in uni.iter().zip(&before) {
                let py = pos(*y);
                let touched = py.iter().any(|b| d0[*b] && !d1[*b]) || py.iter().any(|b| ps.contains(b));
                chk!("C05", touched || f.has(*y) == *b, "op {}: inserting {:#x} changed contains({:#x}) though no position of it was touched", i, x, y);
            }
        }
    }
    Ok(())
}
pub fn run_stream(p: &[u64], ops: &[Vec<u64>]) -> R {
    let q = &p[1..];
    let (bc, fpp) = (q[3] as usize, dpp(q[4]));
    match p[0] {
        0 => {
            let f = BSBloomFilter::with_hashers(bc, fpp, hbs(q));
            let (k, b) = (f.hasher_count(), f.bit_count());
            run_stream_on(f, k, b, false, hbs(q), ops)
        }
        1 => {
            let f = BSSDBloomFilter::with_hashers(bc, fpp, hbs(q));
            let (k, b) = (f.hasher_count(), f.bit_count());
            run_stream_on(f, k, b, true, hbs(q), ops)
        }
        _ => {
            let f = RLBSBloomFilter::with_hashers(bc, fpp, hbs(q));
            let (k, b) = (f.hasher_count(), f.bit_count());
            run_stream_on(f, k, b, false, hbs(q), ops)
        }
    }
}

pub fn gen_hb(r: &mut Rng) -> (u64, u64) {
    match r.below(6) {
        0 => (1, 2),
        1 => (1, 4 + 16 * r.below(4)),
        2 => (7, 5),
        3 => (6, 2),
        _ => (3 + 16 * r.below(1000), 3 + 16 * (1000 + r.below(1000))),
    }
}
pub fn gen_item(r: &mut Rng, span: u64) -> u64 {
    match r.below(4) {
        0 => r.below(span) | r.below(span) << 32,
        1 => r.below(span),
        2 => r.below(span) << 32 | 1,
        _ => {
            let a = r.pick(&[0u64, 1, 0xffff_ffff, 0x8000_0000, 7, 8, 63, 64]);
            a << 32 | r.pick(&[0u64, 1, 0xffff_ffff, 0xffff_fffe, 8, 7])
        }
    }
}
pub fn gen_ops(r: &mut Rng, n: u64, span: u64, clear: u64) -> Vec<Vec<u64>> {
    let n = r.range(1, n);
    (0..n).map(|_| if r.below(100) < clear { vec![1] } else { vec![0, gen_item(r, span)] }).collect()
}

pub fn search(c: &mut Ctx) {
    let prop = c.prop.clone();
    // small scope: every filter of up to 20 bits and up to 4 hash functions, two inserts
    let driver = match prop.as_str() {
        "C01" => "bloom",
        "C02" => "part",
        "C03" | "C25" => "scal",
        "C06" => "bits",
        _ => "stream",
    };
    let top = if c.thorough { 24 } else { 17 };
    for size in 1..=top {
        for a in 0..size {
            for b in [0, 1, size - 1] {
                let ops = vec![vec![0, a | b << 32], vec![0, b | a << 32], vec![1], vec![0, a | b << 32], vec![0, a | b << 32]];
                let ok = match driver {
                    "bloom" => c.case(driver, vec![1, 2, 1, size, (size / 3).max(1)], ops.clone()) && c.case(driver, vec![1, 2, 1, size, size * 2], ops),
                    "part" => c.case(driver, vec![1, 2, 1, size, a], ops),
                    "scal" => c.case(driver, vec![1, 2, a % 16, size, b], ops),
                    "bits" => (0..6).all(|k| c.case(driver, vec![k, 1, 2, 1, size, a], ops.clone())),
                    _ => (0..3).all(|k| c.case(driver, vec![k, 1, 2, 1, size, a], ops.clone())),
                };
                if !ok {
                    return;
                }
            }
        }
    }
    c.exhausted.push(format!("{}: all sizes up to {} bits with small probe pairs", driver, top));
    while !c.done() {
        let mut r = c.rng.clone();
        let (h0, h1) = gen_hb(&mut r);
        let size = match r.below(4) {
            0 => r.range(1, 10),
            1 => r.range(1, 70),
            2 => r.pick(&[8, 16, 64, 63, 65, 7, 9, 255, 256, 257]),
            _ => {
                let top = r.pick(&[300, 300, 300, 300, 3000]);
                r.range(1, top)
            }
        };
        let fi = r.below(9);
        let span = r.pick(&[4, 16, 64, 1 << 20]);
        let n = r.pick(&[3, 8, 20, 60]);
        let ops = gen_ops(&mut r, n, span, 6);
        let kind = r.below(3);
        let (p, ops) = match driver {
            "bloom" => (vec![h0, h1, kind, size, if kind == 1 { r.range(1, 40) } else { fi }], ops),
            "part" => (vec![h0, h1, kind % 2, size, fi], ops),
            "scal" => {
                let n = r.pick(&[8, 40, 150]);
                (vec![h0, h1, r.below(16), r.range(1, 80), fi % 5], gen_ops(&mut r, n, 1 << 20, 2))
            }
            "bits" => {
                let k = r.below(6);
                let q = if k == 0 && kind == 1 { r.range(1, 40) } else { fi };
                let kk = if k == 2 { r.below(16) } else { kind };
                (vec![k, h0, h1, kk, size, if k == 2 { fi % 5 } else if k > 2 { r.below(10) } else { q }], ops)
            }
            _ => (vec![r.below(3), h0, h1, 0, size.min(r.range(1, 40)), r.below(10)], ops),
        };
        c.rng = r;
        if !c.case(driver, p, ops) {
            return;
        }
    }
}
