use crate::chk;
use crate::fw::*;
use probabilistic_collections::verif_hooks::{BitVec, BitstringVec};

// params: [bit_count, len, how]; ops: [0 set, i, v], [1 clear], [2 push, v], [3 pop], [4 truncate, n]
pub fn run_bsvec(p: &[u64], ops: &[Vec<u64>]) -> R {
    let w = p[0] as usize;
    let mask = if w == 64 { !0 } else { (1u64 << w) - 1 };
    let len = p[1] as usize;
    let mut m: Vec<u64> = vec![0; len];
    let mut v = match p[2] {
        0 => BitstringVec::new(w, len),
        1 => {
            m = vec![];
            BitstringVec::with_capacity(w, len)
        }
        x => {
            m = vec![mix(x) & mask; len];
            BitstringVec::from_elem(w, len, mix(x) & mask)
        }
    };
    let mut spare = v.clone();
    for (i, o) in [vec![9]].iter().chain(ops).enumerate() {
        copies(&mut v, &mut spare, i);
        match o[0] {
            0 if !m.is_empty() => {
                let j = (o[1] % m.len() as u64) as usize;
                m[j] = o[2] & mask;
                v.set(j, o[2] & mask);
            }
            1 => {
                v.clear();
                m.iter_mut().for_each(|x| *x = 0);
            }
            2 => {
                v.push(o[1] & mask);
                m.push(o[1] & mask);
            }
            3 if !m.is_empty() => {
                let (a, b) = (v.pop(), m.pop());
                chk!("C19", Some(a) == b, "op {}: pop gave {:#x}, last value {:?}", i, a, b);
            }
            4 => {
                v.truncate(o[1] as usize);
                m.truncate(o[1] as usize);
            }
            12 => {
                let j = m.len() + o[1] as usize;
                let mut u = v.clone();
                chk!("C19", quiet(|| v.get(j)).is_err(), "op {}: get({}) of {} entries returned", i, j, m.len());
                chk!("C19", quiet(|| u.set(j, o[2] & mask)).is_err(), "op {}: set({}) of {} entries returned", i, j, m.len());
            }
            _ => {}
        }
        chk!("C19", v.len() == m.len() && v.is_empty() == m.is_empty() && v.bit_count() == w, "op {}: length {} for {}", i, v.len(), m.len());
        chk!("C19", v.capacity() >= v.len(), "op {}: capacity {} below length {}", i, v.capacity(), v.len());
        for j in 0..m.len() {
            chk!("C19", v.get(j) == m[j], "op {} {:?} (width {}): entry {} reads {:#x}, last written {:#x}", i, o, w, j, v.get(j), m[j]);
        }
        chk!("C19", v.iter().collect::<Vec<_>>() == m, "op {}: iteration differs", i);
        let nz = m.iter().filter(|x| **x != 0).count();
        if relevant("C27") {
            let mut b = BitstringVec::new(w, m.len());
            (0..m.len()).for_each(|j| b.set(j, m[j]));
            chk!("C27", v == b && b == v, "op {} {:?} (width {}): differs from the vector built directly from its entries {:?}", i, o, w, m);
            for j in [0, m.len() / 2, m.len().wrapping_sub(1)] {
                if j < m.len() {
                    let x = m[j] ^ (1 << (mix(j as u64 + i as u64) % w as u64));
                    b.set(j, x);
                    chk!("C27", v != b, "op {}: equals a vector with another entry {} (width {})", i, j, w);
                    b.set(j, m[j]);
                }
            }
            b.push(0);
            chk!("C27", v != b, "op {}: equals a vector with one more entry", i);
            chk!("C27", v != BitstringVec::new(w % 64 + 1, m.len()), "op {}: equals a vector of another width", i);
        }
        chk!("C19", v.occupied_len() == nz, "op {} {:?} (width {}): occupied_len is {} with {} non-zero entries", i, o, w, v.occupied_len(), nz);
    }
    if m.len() < 80 {
        for r in [iter_laws(|| v.iter()), iter_laws(|| (&v).into_iter()), iter_laws(|| v.clone().into_iter())] {
            chk!("C19", r.is_ok(), "iterating {} entries: {}", m.len(), r.unwrap_err());
        }
    }
    chk!("C19", (&v).into_iter().collect::<Vec<_>>() == m && v.into_iter().collect::<Vec<_>>() == m, "into_iter differs");
    Ok(())
}

// params: [len, bit(2 = new)]; ops: [0 set, i, b], [1 set_all, b], [2 push, b], [3 pop], [4 truncate, n], [5 flip, i], [6 flip_all], [7 clone_from], [8 reserve, n], [10 union.., kind, seed]
pub fn run_bitvec(p: &[u64], ops: &[Vec<u64>]) -> R {
    let len = p[0] as usize;
    let mut m = vec![p[1] == 1; len];
    let mut v = if p[1] == 2 { BitVec::new(len) } else { BitVec::from_elem(len, p[1] == 1) };
    let mut spare = v.clone();
    for (i, o) in [vec![9]].iter().chain(ops).enumerate() {
        copies(&mut v, &mut spare, i);
        match o[0] {
            0 if !m.is_empty() => {
                let j = (o[1] % m.len() as u64) as usize;
                m[j] = o[2] & 1 == 1;
                v.set(j, m[j]);
            }
            1 => {
                v.set_all(o[1] & 1 == 1);
                m.iter_mut().for_each(|x| *x = o[1] & 1 == 1);
            }
            2 => {
                v.push(o[1] & 1 == 1);
                m.push(o[1] & 1 == 1);
            }
            3 => {
                let (a, b) = (v.pop(), m.pop());
                chk!("C19", a == b, "op {}: pop gave {:?}, last value {:?}", i, a, b);
            }
            5 if !m.is_empty() => {
                let j = (o[1] % m.len() as u64) as usize;
                m[j] = !m[j];
                v.flip(j);
            }
            4 => {
                v.truncate(o[1] as usize);
                m.truncate(o[1] as usize);
            }
            6 => {
                v.flip_all();
                m.iter_mut().for_each(|x| *x = !*x);
            }
            7 | 8 => {
                let mut u = BitVec::new(o[1] as usize % 40);
                if o[0] == 7 {
                    u.clone_from(&v);
                    v = u;
                } else {
                    v.reserve(o[1] as usize);
                    v.reserve_exact(o[1] as usize);
                }
            }
            12 => {
                let j = m.len() + o[1] as usize;
                let mut u = v.clone();
                chk!("C19", quiet(|| u.flip(j)).is_err(), "op {}: flip({}) of {} bits returned", i, j, m.len());
                let mut u = v.clone();
                chk!("C19", quiet(|| u.set(j, o[2] & 1 == 1)).is_err(), "op {}: set({}) of {} bits returned", i, j, m.len());
            }
            10 => {
                let b: Vec<bool> = (0..m.len() as u64).map(|j| mix(o[2] ^ j) & 1 == 1).collect();
                let mut u = BitVec::new(m.len());
                for (j, x) in b.iter().enumerate() {
                    u.set(j, *x);
                }
                for (x, y) in m.iter_mut().zip(&b) {
                    *x = match o[1] % 4 {
                        0 => *x | *y,
                        1 => *x & *y,
                        2 => *x & !*y,
                        _ => *x != *y,
                    };
                }
                match o[1] % 4 {
                    0 => v.union(&u),
                    1 => v.intersection(&u),
                    2 => v.difference(&u),
                    _ => v.symmetric_difference(&u),
                }
            }
            _ => {}
        }
        chk!("C19", v.len() == m.len() && v.is_empty() == m.is_empty(), "op {}: length {} for {}", i, v.len(), m.len());
        for j in 0..m.len() {
            chk!("C19", v.get(j) == Some(m[j]) && v[j] == m[j], "op {} {:?}: bit {} of {} reads {:?}, last written {}", i, o, j, len, v.get(j), m[j]);
        }
        chk!("C19", v.get(m.len()).is_none(), "op {}: get past the end", i);
        chk!("C19", v.iter().collect::<Vec<_>>() == m, "op {}: iteration differs", i);
        let n = m.iter().filter(|x| **x).count();
        if relevant("C27") {
            let mut b = BitVec::new(m.len());
            (0..m.len()).for_each(|j| b.set(j, m[j]));
            chk!("C27", v == b && b == v && v.clone() == b, "op {} {:?}: differs from the vector built directly from its bits {:?}", i, o, m);
            for j in [0, m.len() / 2, m.len().wrapping_sub(1)] {
                if j < m.len() {
                    b.flip(j);
                    chk!("C27", v != b, "op {}: equals a vector with another bit {}", i, j);
                    b.flip(j);
                }
            }
            b.push(false);
            chk!("C27", v != b, "op {}: equals a vector with one more bit", i);
        }
        chk!("C19", v.count_ones() == n && v.count_zeros() == m.len() - n, "op {} {:?}: count_ones is {} with {} ones of {}", i, o, v.count_ones(), n, m.len());
    }
    let c = v.clone();
    chk!("C19", c.iter().collect::<Vec<_>>() == m && c.count_ones() == v.count_ones(), "clone differs");
    if m.len() < 80 {
        for r in [iter_laws(|| v.iter()), iter_laws(|| (&v).into_iter()), iter_laws(|| v.clone().into_iter())] {
            chk!("C19", r.is_ok(), "iterating {} entries: {}", m.len(), r.unwrap_err());
        }
    }
    let bytes = v.to_bytes();
    for j in 0..m.len() {
        chk!("C19", (bytes[j / 8] >> (7 - j % 8)) & 1 == m[j] as u8, "to_bytes: bit {} differs", j);
    }
    let f = BitVec::from_bytes(&bytes);
    chk!("C19", f.to_bytes() == bytes && f.len() == 8 * bytes.len(), "from_bytes does not undo to_bytes");
    chk!("C19", f.count_ones() == m.iter().filter(|x| **x).count() && (0..m.len()).all(|j| f.get(j) == Some(m[j])), "from_bytes differs");
    chk!("C19", (&c).into_iter().collect::<Vec<_>>() == m && c.into_iter().collect::<Vec<_>>() == m, "into_iter differs");
    Ok(())
}

pub fn search(c: &mut Ctx) {
    for w in 1..=64u64 {
        for len in [1u64, 2, 5, 9, 66] {
            let mut ops = vec![];
            for i in 0..len.min(12) {
                ops.push(vec![0, i, !0]);
            }
            for i in 0..len.min(12) {
                ops.push(vec![0, i, mix(i + w)]);
                ops.push(vec![0, i, 0]);
                ops.push(vec![0, i, 0xaaaa_aaaa_aaaa_aaaa]);
                ops.push(vec![0, i, 1u64 << (w - 1)]);
            }
            ops.push(vec![12, 0, !0]);
            ops.push(vec![1]);
            ops.push(vec![0, len - 1, 1]);
            if !c.case("bsvec", vec![w, len, 0], ops) {
                return;
            }
        }
    }
    for len in 0..=70u64 {
        let ops = (0..len).map(|i| vec![0, i, 1]).chain((0..len).map(|i| vec![0, i, 0])).chain([vec![1, 1], vec![0, 0, 0], vec![12, 0, 1], vec![1, 0]]).collect();
        if !c.case("bitvec", vec![len, len % 3], ops) {
            return;
        }
    }
    c.exhausted.push("every width 1..64 with set/clear patterns at straddling positions; every bit length 0..70".into());
    while !c.done() {
        let mut r = c.rng.clone();
        let n = r.pick(&[2u64, 10, 40]);
        let bits = r.below(3) == 0;
        let big = r.below(25) == 0;
        let len = if big { r.range(200, 700) } else if r.below(3) == 0 { r.below(4) } else { r.below(40) };
        let span = if big { 1024 } else { 64 };
        let ops = (0..r.range(1, n))
            .map(|_| {
                let v = match r.below(4) {
                    0 => 0,
                    1 => !0,
                    _ => r.next(),
                };
                match r.below(20) {
                    0 => vec![1, v],
                    7 if v % 8 == 0 => vec![12, r.below(12), v],
                    1 | 2 => vec![2, v],
                    3 => vec![3],
                    4 => vec![4, r.below(if big { 700 } else { 40 })],
                    6 if bits => vec![r.pick(&[6, 7, 8, 10]), r.below(span), v],
                    5 if bits => vec![5, r.below(span)],
                    _ => vec![0, r.below(span), v],
                }
            })
            .collect();
        let (d, p) = if bits { ("bitvec", vec![len, r.below(3)]) } else { ("bsvec", vec![r.range(1, 64), len, r.below(4)]) };
        c.rng = r;
        if !c.case(d, p, ops) {
            return;
        }
    }
}
