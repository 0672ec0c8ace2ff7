use crate::chk;
use crate::fw::*;
use probabilistic_collections::quotient::QuotientFilter;
use std::collections::{BTreeSet, HashSet, VecDeque};

// params: q, r, universe-kind; ops: [0 insert, fp], [1 remove, fp], [2 clear]
pub fn run_quotient(p: &[u64], ops: &[Vec<u64>]) -> R {
    let (q, r) = (p[0] as u8, p[1] as u8);
    let tot = u32::from(q) + u32::from(r);
    let mask = if tot == 64 { !0 } else { (1u64 << tot) - 1 };
    let id = hb(0);
    let mut f = QuotientFilter::<u64, HB>::with_hasher(q, r, id);
    chk!("C10|C11", f.capacity() == 1 << q && f.quotient_bits() == q && f.remainder_bits() == r, "wrong geometry");
    let garbage = |x: u64| -> u64 { (x & mask) | if mask == !0 { 0 } else { mix(x) & !mask } };
    let mut model: BTreeSet<u64> = BTreeSet::new();
    let uni: Vec<u64> = if tot <= 8 {
        (0..1u64 << tot).collect()
    } else {
        let mut u: Vec<u64> = ops.iter().filter(|o| o[0] < 2).map(|o| o[1] & mask).collect();
        let n = u.len();
        for i in 0..n {
            u.push(u[i] ^ 1);
            u.push((u[i] ^ (1u64 << (r % 64))) & mask);
            u.push(u[i].wrapping_add(1u64 << (r % 64)) & mask);
        }
        u.sort();
        u.dedup();
        u
    };
    let mut spare = f.clone();
    for (i, o) in ops.iter().enumerate() {
        copies(&mut f, &mut spare, i);
        let prop = if ops[..=i].iter().any(|o| o[0] == 1) { "C11" } else { "C10|C11" };
        match o[0] {
            2 => {
                f.clear();
                model.clear();
            }
            1 => {
                f.remove(&garbage(o[1]));
                model.remove(&(o[1] & mask));
            }
            _ => {
                let fp = o[1] & mask;
                let full_new = model.len() == f.capacity() && !model.contains(&fp);
                let res = quiet(|| f.insert(&garbage(o[1])));
                chk!(prop, res.is_err() == full_new, "op {}: insertion of {:#x} with {} of {} held: {:?}", i, fp, model.len(), f.capacity(), res);
                if full_new {
                    return Ok(());
                }
                model.insert(fp);
            }
        }
        chk!(prop, f.len() == model.len(), "op {}: len is {} but {} fingerprints are held", i, f.len(), model.len());
        chk!(prop, f.is_empty() == model.is_empty(), "op {}: is_empty wrong", i);
        for x in &uni {
            let got = f.contains(&garbage(*x));
            chk!(prop, got == model.contains(x), "op {} {:?}: contains(q={}, r={}) is {} but the fingerprint is {}", i, o, x >> r, x & ((1u64 << r) - 1), got, if got { "not held" } else { "held" });
        }
    }
    Ok(())
}

/// Breadth-first enumeration of every reachable table of a small filter.
fn bfs(c: &mut Ctx, q: u8, r: u8, removes: bool, limit: usize) -> bool {
    let id = hb(0);
    let mut seen: HashSet<String> = HashSet::new();
    let mut queue: VecDeque<(QuotientFilter<u64, HB>, Vec<Vec<u64>>)> = VecDeque::new();
    queue.push_back((QuotientFilter::with_hasher(q, r, id), vec![]));
    let tot = u32::from(q) + u32::from(r);
    let mut n = 0usize;
    while let Some((f, path)) = queue.pop_front() {
        if c.done() || n > limit {
            return false;
        }
        n += 1;
        let mut cand = vec![];
        for fp in 0..1u64 << tot {
            cand.push(vec![0, fp]);
            if removes {
                cand.push(vec![1, fp]);
            }
        }
        for o in cand {
            let mut g = f.clone();
            let was = g.contains(&o[1]);
            let res = quiet(|| if o[0] == 0 { g.insert(&o[1]) } else { g.remove(&o[1]) });
            let mut path2 = path.clone();
            path2.push(o.clone());
            c.evals += 1;
            let full = f.len() == f.capacity() && !was && o[0] == 0;
            // incremental check: only the fingerprint concerned may change
            let mut bad = res.is_err() != full;
            if !bad && !full {
                for x in 0..1u64 << tot {
                    let want = if x == o[1] { o[0] == 0 } else { f.contains(&x) };
                    bad |= g.contains(&x) != want;
                }
                let want = match (o[0], was) {
                    (0, false) => f.len() + 1,
                    (1, true) => f.len() - 1,
                    _ => f.len(),
                };
                bad |= g.len() != want;
            }
            if bad {
                c.case("quotient", vec![u64::from(q), u64::from(r)], path2);
                if c.failure.is_some() {
                    return false;
                }
                continue;
            }
            if full || res.is_err() {
                continue;
            }
            let key = serde_json::to_string(&g).unwrap();
            if seen.insert(key) {
                c.distinct.insert(mix(seen.len() as u64) ^ u64::from(q) << 8 ^ u64::from(r));
                queue.push_back((g, path2));
            }
        }
        let mut g = c.cur.lock().unwrap();
        *g = (Some(Case { driver: "quotient".into(), params: vec![u64::from(q), u64::from(r)], ops: path }), std::time::Instant::now());
    }
    true
}

pub fn search(c: &mut Ctx) {
    let removes = c.prop == "C11";
    let scopes: &[(u8, u8)] = if c.thorough { &[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)] } else { &[(1, 1), (1, 2), (2, 1), (2, 2)] };
    for (q, r) in scopes {
        if bfs(c, *q, *r, removes, 3_000_000) {
            c.exhausted.push(format!("every reachable table with {} quotient bits and {} remainder bits, every operation on it", q, r));
        }
        if c.failure.is_some() {
            return;
        }
    }
    while !c.done() {
        let mut r = c.rng.clone();
        let wide = r.below(5) == 0;
        let (q, rem) = if wide {
            let q = r.range(1, 6);
            (q, r.range(1, (64 - q).min(61)))
        } else {
            (if r.below(50) == 0 { r.range(7, 9) } else { r.range(2, 5) }, r.range(1, 6))
        };
        let n = r.range(2, 3 << q.min(9));
        let cap = 1u64 << q;
        let hot = r.below(cap);
        let spread = r.range(1, cap);
        let mut held: Vec<u64> = vec![];
        let mut ops = vec![];
        for _ in 0..n {
            let x = r.below(100);
            if x < 2 {
                ops.push(vec![2]);
                held.clear();
            } else if x < 40 && removes && !held.is_empty() {
                let i = r.below(held.len() as u64) as usize;
                let fp = if r.below(5) == 0 { held[i] ^ (1 << rem) } else { held.swap_remove(i) };
                ops.push(vec![1, fp]);
            } else {
                if held.len() as u64 >= cap && r.below(20) > 0 {
                    continue;
                }
                let quo = (hot + r.below(spread)) % cap;
                let fp = quo << rem | (r.next() & ((1u64 << rem) - 1));
                if !held.contains(&fp) {
                    held.push(fp);
                }
                ops.push(vec![0, fp]);
            }
        }
        c.rng = r;
        if !c.case("quotient", vec![q, rem], ops) {
            return;
        }
    }
}
