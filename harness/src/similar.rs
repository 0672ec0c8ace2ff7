use crate::chk;
use crate::fw::*;
use probabilistic_collections::similarity::*;
use probabilistic_collections::verif_hooks::DoubleHasher;
use std::collections::BTreeSet;
use std::hash::{BuildHasher, Hash, Hasher};

type It = std::vec::IntoIter<u64>;

// params: [h0, h1, k]; ops: two item lists
pub fn run_minhash(p: &[u64], ops: &[Vec<u64>]) -> R {
    let h = [hb(p[0]), hb(p[1])];
    let k = p[2] as usize;
    let m = MinHash::<It, u64, HB>::with_hashers(k, h);
    let sig = |v: &Vec<u64>| -> Vec<u64> {
        let mut s = vec![u64::MAX; k];
        for x in v {
            for (i, y) in DoubleHasher::<u64, HB>::with_hashers(h).hash(x).take(k).enumerate() {
                s[i] = s[i].min(y);
            }
        }
        s
    };
    let lists: Vec<&Vec<u64>> = ops.iter().filter(|l| !l.is_empty()).collect();
    let mut sigs = vec![];
    for l in &lists {
        let s = m.get_min_hashes((*l).clone().into_iter());
        chk!("C15", s.len() == k, "signature of length {} for {} hash functions", s.len(), k);
        chk!("C15", s == sig(l), "signature of {:?} is not the element-wise minimum", l);
        let mut rev = (*l).clone();
        rev.reverse();
        rev.push(l[0]);
        chk!("C15", m.get_min_hashes(rev.into_iter()) == s, "the signature of {:?} depends on order or multiplicity", l);
        sigs.push(s);
    }
    for i in 0..lists.len() {
        for j in 0..lists.len() {
            let matches = sigs[i].iter().zip(&sigs[j]).filter(|(a, b)| a == b).count();
            let want = matches as f64 / k as f64;
            chk!("C15", k == 0 || m.get_similarity_from_hashes(&sigs[i], &sigs[j]) == want, "similarity of lists {} and {} is not {} / {}", i, j, matches, k);
            chk!("C15", k == 0 || m.get_similarity(lists[i].clone().into_iter(), lists[j].clone().into_iter()) == want, "similarity of lists {} and {} is not {} / {}", i, j, matches, k);
        }
    }
    Ok(())
}

fn h64(b: HB, x: &u64) -> u64 {
    let mut s = b.build_hasher();
    x.hash(&mut s);
    s.finish()
}
fn simhash(b: HB, v: &[u64]) -> u64 {
    let mut r = 0;
    for i in 0..64 {
        let zeros = v.iter().filter(|x| h64(b, x) >> i & 1 == 0).count();
        if 2 * zeros >= v.len() {
            r |= 1 << (63 - i);
        }
    }
    r
}
pub fn run_simhash(p: &[u64], ops: &[Vec<u64>]) -> R {
    let b = hb(p[0]);
    let s = SimHash::<It, u64, HB>::with_hasher(b);
    for l in ops {
        let got = s.get_sim_hash(l.clone().into_iter());
        chk!("C16", got == simhash(b, l), "SimHash of {:?} is {:#x}, majority gives {:#x}", l, got, simhash(b, l));
        let mut rev = l.clone();
        rev.reverse();
        chk!("C16", s.get_sim_hash(rev.into_iter()) == got, "SimHash of {:?} depends on order", l);
    }
    Ok(())
}

// params: [h, window]; ops: documents
pub fn run_report(p: &[u64], ops: &[Vec<u64>]) -> R {
    let b = hb(p[0]);
    let w = p[1] as usize;
    let s = SimHash::<It, u64, HB>::with_hasher(b);
    let got = s.report_similarities(w, ops.iter().map(|d| d.clone().into_iter()).collect());
    let mut hs: Vec<(u64, usize)> = ops.iter().enumerate().map(|(i, d)| (simhash(b, d), i)).collect();
    let mut want: BTreeSet<(usize, usize)> = Default::default();
    let n = hs.len();
    for _ in 0..64 {
        hs.sort();
        if n >= w {
            for i in 0..n {
                for j in i + 1..n.min(i + w) {
                    want.insert((hs[i].1.min(hs[j].1), hs[i].1.max(hs[j].1)));
                }
            }
        }
        for x in &mut hs {
            x.0 = x.0.rotate_left(1);
        }
    }
    let set: BTreeSet<(usize, usize)> = got.iter().copied().collect();
    chk!("C17", set.len() == got.len(), "a pair is reported twice in {:?}", got);
    for (a, b) in &got {
        chk!("C17", a < b && *b < n, "reported pair ({}, {}) of {} documents", a, b, n);
    }
    // with fewer documents than the window every pair lies within it
    if n < w {
        for a in 0..n {
            for b in a + 1..n {
                want.insert((a, b));
            }
        }
    }
    chk!("C17", set == want, "reported {:?}, within the window in some rotation: {:?}", set, want);
    Ok(())
}

// ops: item lists, compared pairwise
pub fn run_jaccard(_: &[u64], ops: &[Vec<u64>]) -> R {
    for a in ops {
        for b in ops {
            let (sa, sb): (BTreeSet<u64>, BTreeSet<u64>) = (a.iter().copied().collect(), b.iter().copied().collect());
            let (both, any) = (sa.intersection(&sb).count(), sa.union(&sb).count());
            if any == 0 {
                continue;
            }
            let want = both as f64 / any as f64;
            let got = get_jaccard_similarity(a.iter().copied(), b.iter().copied());
            chk!("C24", got == want, "similarity of {:?} and {:?} is {}, not {} / {}", a, b, got, both, any);
            let got = {
                let f = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().into_iter();
                get_jaccard_similarity(f(a), f(b))
            };
            chk!("C24", got == want, "similarity of {:?} and {:?} as strings is {}, not {} / {}", a, b, got, both, any);
        }
    }
    Ok(())
}

// params: [w]; ops: [tokens...] one list
pub fn run_shingle(p: &[u64], ops: &[Vec<u64>]) -> R {
    let w = p[0] as usize;
    for l in ops {
        // equal tokens as distinct references and as one reference
        for shared in [false, true] {
        let toks: Vec<&u64> = if shared { l.iter().map(|x| l.iter().find(|y| *y == x).unwrap()).collect() } else { l.iter().collect() };
        let want: Vec<Vec<u64>> = if l.len() < w { vec![] } else { l.windows(w).map(|x| x.to_vec()).collect() };
        let r = iter_laws(|| ShingleIterator::new(w, toks.clone()));
        chk!("C18", r.is_ok(), "shingles of size {} of {} tokens: {}", w, l.len(), r.unwrap_err());
        let mut it = ShingleIterator::new(w, toks);
        for (i, x) in want.iter().enumerate() {
            let got = it.next().map(|v| v.into_iter().copied().collect::<Vec<u64>>());
            chk!("C18", got.as_ref() == Some(x), "shingle {} of size {} of {} tokens is {:?}", i, w, l.len(), got);
        }
        for _ in 0..3 {
            chk!("C18", it.next().is_none(), "more than {} shingles of size {} of {} tokens", want.len(), w, l.len());
        }
        }
    }
    Ok(())
}

pub fn search(c: &mut Ctx) {
    if c.prop == "C24" {
        for i in 0..256u64 {
            let l = |m: u64| -> Vec<u64> { (0..4).filter(|j| m >> j & 1 == 1).collect() };
            if !c.case("jaccard", vec![], vec![l(i & 15), l(i >> 4)]) {
                return;
            }
        }
        c.exhausted.push("all pairs of sets of up to four items".into());
        while !c.done() {
            let mut r = c.rng.clone();
            let span = r.pick(&[2u64, 5, 30, 1 << 40]);
            let top = r.pick(&[3u64, 10, 80, 3, 10, 80, 700]);
            let ops = (0..2).map(|_| (0..r.below(top)).map(|_| r.below(span)).collect()).collect();
            c.rng = r;
            if !c.case("jaccard", vec![], ops) {
                return;
            }
        }
        return;
    }
    if c.prop == "C18" {
        let top = if c.thorough { 14 } else { 9 };
        for n in 0..=top {
            for w in 1..=top + 2 {
                if !c.case("shingle", vec![w], vec![(0..n).map(|x| x * x + 1).collect(), vec![]]) {
                    return;
                }
            }
        }
        c.exhausted.push(format!("all list lengths up to {} and shingle sizes up to {}", top, top + 2));
        while !c.done() {
            let mut r = c.rng.clone();
            let top = r.pick(&[30u64, 30, 30, 30, 30, 30, 30, 700]);
            let n = r.below(top);
            let l = (0..n).map(|_| r.below(5)).collect();
            let w = r.range(1, 32);
            c.rng = r;
            if !c.case("shingle", vec![w], vec![l]) {
                return;
            }
        }
        return;
    }
    while !c.done() {
        let mut r = c.rng.clone();
        let span = r.pick(&[2u64, 6, 1 << 30]);
        let lists = r.range(if c.prop == "C17" { 0 } else { 1 }, 6);
        let maxlen = r.pick(&[1, 2, 5, 12, 1, 2, 5, 12, 1, 2, 5, 12, 400]);
        let mut ops: Vec<Vec<u64>> = vec![];
        if c.prop == "C16" && r.below(16) == 0 {
            // long runs of one item that almost outvote each other
            let (n, d) = (r.range(1, 700), r.range(0, 5));
            let (x, y) = (r.below(span), r.below(span) | 1 << 40);
            ops.push((0..n).map(|_| x).chain((0..(n + d).saturating_sub(2)).map(|_| y)).collect());
        }
        for _ in 0..lists {
            if !ops.is_empty() && r.below(4) == 0 {
                let o = r.below(ops.len() as u64) as usize;
                let mut l = ops[o].clone();
                if r.below(2) == 0 {
                    l.push(r.below(span));
                }
                ops.push(l);
            } else {
                let n = r.range(if c.prop == "C16" { 0 } else { 1 }, maxlen);
                ops.push((0..n).map(|_| r.below(span) | r.below(2) << 32 | r.below(2) << 63).collect());
            }
        }
        let (h0, h1) = crate::bloom::gen_hb(&mut r);
        let hs = r.pick(&[0, 3, 3 + 16, 9, 9 + 16 * 12345, 6, 5]);
        let (d, p) = match c.prop.as_str() {
            "C15" => ("minhash", vec![h0, h1, if r.below(30) == 0 { r.range(200, 400) } else { r.range(1, 12) }]),
            "C16" => ("simhash", vec![hs]),
            _ => ("report", vec![hs, r.range(2, 5)]),
        };
        c.rng = r;
        if !c.case(d, p, ops) {
            return;
        }
    }
}
