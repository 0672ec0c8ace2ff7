//! Case framework: cases are (driver, params, ops) made of integers, so that every failing case can
//! be written to a file and replayed.
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// Hash builder under full control of the harness: the hash of a `u64` is a chosen function of it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct HB {
    pub mode: u64,
    pub seed: u64,
}
pub struct HH(HB, u64, bool);
pub fn hf(b: HB, x: u64) -> u64 {
    match b.mode {
        0 => x,
        1 => x & 0xffff_ffff,
        2 => x >> 32,
        3 => mix(x ^ mix(b.seed)),
        4 => b.seed,
        5 => !(x >> 32),
        6 => x << 32,
        7 => (x & 0xffff_ffff).wrapping_mul(0x9E37_79B9_7F4A_7C15),
        8 => mix(x ^ mix(b.seed)) & 7,
        _ => x.rotate_left(17) ^ b.seed,
    }
}
impl Hasher for HH {
    fn finish(&self) -> u64 {
        hf(self.0, self.1)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.1 = mix(self.1 ^ u64::from(*b));
        }
        self.2 = true;
    }
    fn write_u64(&mut self, x: u64) {
        self.1 = if self.2 { mix(self.1 ^ x) } else { x };
        self.2 = true;
    }
}
impl BuildHasher for HB {
    type Hasher = HH;
    fn build_hasher(&self) -> HH {
        HH(*self, 0, false)
    }
}
pub fn hb(code: u64) -> HB {
    HB { mode: code % 16, seed: code / 16 }
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub driver: String,
    pub params: Vec<u64>,
    pub ops: Vec<Vec<u64>>,
}

pub struct Fail {
    pub prop: &'static str,
    pub msg: String,
}
pub type R = Result<(), Fail>;
#[macro_export]
macro_rules! chk {
    ($prop:expr, $c:expr, $($t:tt)*) => {
        if $crate::fw::relevant($prop) && !($c) {
            return Err($crate::fw::Fail { prop: $prop, msg: format!($($t)*) });
        }
    };
}

thread_local! {
    pub static PROP: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    pub static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    pub static MUTE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// Does a clause of the properties `p` ("C01|C02") count in this run? Clauses of other properties must not end a case early.
pub fn relevant(p: &str) -> bool {
    PROP.with(|q| p.split('|').any(|x| x == *q.borrow()))
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
/// Runs `f`, giving the panic message if it panics.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Now and then, goes on with a copy of `f`; a copy made over an older state has to be the same.
pub fn copies<T: Clone>(f: &mut T, spare: &mut T, i: usize) {
    match i % 11 {
        3 => *f = f.clone(),
        7 => {
            spare.clone_from(f);
            std::mem::swap(f, spare);
        }
        _ => {}
    }
}

/// What an iterator's other methods give has to agree with what repeated `next` gives.
pub fn iter_laws<I: Iterator>(mk: impl Fn() -> I) -> Result<(), String>
where
    I::Item: PartialEq + std::fmt::Debug,
{
    let mut want = vec![];
    let mut it = mk();
    loop {
        let (lo, hi) = it.size_hint();
        want.push((lo, hi, it.next()));
        if want[want.len() - 1].2.is_none() {
            break;
        }
    }
    let n = want.len() - 1;
    for (i, w) in want.iter().enumerate() {
        if w.0 > n - i || w.1.map_or(false, |h| h < n - i) {
            return Err(format!("size_hint after {} of {} items is {:?}", i, n, (w.0, w.1)));
        }
    }
    let want: Vec<I::Item> = want.into_iter().filter_map(|w| w.2).collect();
    if mk().count() != n {
        return Err(format!("count() is {} for {} items", mk().count(), n));
    }
    if mk().last().as_ref() != want.last() {
        return Err(format!("last() is {:?}, not {:?}", mk().last(), want.last()));
    }
    let mut all = vec![];
    mk().for_each(|x| all.push(x));
    if all != want || mk().collect::<Vec<_>>() != want || mk().fold(0, |c, _| c + 1) != n {
        return Err(format!("for_each visits {:?}, next gives {:?}", all, want));
    }
    for k in (0..=n + 1).filter(|k| *k < 8 || k + 3 > n) {
        for s in 0..3 {
            let mut it = mk();
            for _ in 0..s {
                it.next();
            }
            let x = it.nth(k);
            let rest: Vec<I::Item> = it.collect();
            let w = want.get(k + s);
            if x.as_ref() != w || rest[..] != want[(k + s + 1).min(n)..] {
                return Err(format!("nth({}) after {} items is {:?}, not {:?}; then {:?} of {:?}", k, s, x, w, rest, want));
            }
        }
        if mk().skip(k).next().as_ref() != want.get(k) || mk().step_by(k + 1).count() != (n + k) / (k + 1) || mk().take(k).count() != k.min(n) {
            return Err(format!("skip, take or step_by with {} of {} items", k, n));
        }
    }
    Ok(())
}

pub type RunFn = fn(&[u64], &[Vec<u64>]) -> R;

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub deadline: Instant,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<Case>,
    pub failure: Option<(Case, String)>,
    pub cur: Arc<Mutex<(Option<Case>, Instant)>>,
    pub exhausted: Vec<String>,
    pub drivers: Vec<(&'static str, RunFn)>,
}

impl Ctx {
    pub fn done(&self) -> bool {
        self.failure.is_some() || Instant::now() > self.deadline
    }
    pub fn find(&self, d: &str) -> RunFn {
        self.drivers.iter().find(|x| x.0 == d).expect("driver").1
    }
    pub fn exec(&self, c: &Case) -> Option<String> {
        exec_case(self.find(&c.driver), c, &self.prop)
    }
    /// Runs a case; records and shrinks a failure. Returns false when the search must stop.
    pub fn case(&mut self, driver: &str, params: Vec<u64>, ops: Vec<Vec<u64>>) -> bool {
        if self.done() {
            return false;
        }
        let c = Case { driver: driver.to_string(), params, ops };
        {
            let mut g = self.cur.lock().unwrap();
            *g = (Some(c.clone()), Instant::now());
        }
        self.evals += 1;
        use std::hash::Hash;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&c.driver, &c.params, &c.ops).hash(&mut h);
        if !c.ops.is_empty() && self.distinct.len() < 2_000_000 {
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 3 && c.ops.len() >= 2 && c.ops.len() < 12 && (self.evals % 7 == 1) {
            self.samples.push(c.clone());
        }
        if let Some(m) = self.exec(&c) {
            let (c, m) = self.shrink(c, m);
            self.failure = Some((c, m));
            return false;
        }
        true
    }
    fn exec_many(&self, c: &Case, n: usize) -> Option<String> {
        for _ in 0..n {
            if let Some(m) = self.exec(c) {
                return Some(m);
            }
        }
        None
    }
    fn shrink(&self, mut c: Case, mut m: String) -> (Case, String) {
        let t = Instant::now();
        let n = 200;
        let mut chunk = (c.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut progress = false;
            while i < c.ops.len() && t.elapsed() < Duration::from_secs(20) {
                let mut d = c.clone();
                let e = (i + chunk).min(d.ops.len());
                d.ops.drain(i..e);
                if let Some(mm) = self.exec_many(&d, n) {
                    c = d;
                    m = mm;
                    progress = true;
                } else {
                    i += chunk;
                }
                self.cur.lock().unwrap().1 = Instant::now();
            }
            if t.elapsed() > Duration::from_secs(20) || (chunk == 1 && !progress) {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        (c, m)
    }
}

pub fn exec_case(f: RunFn, c: &Case, prop: &str) -> Option<String> {
    PROP.with(|p| *p.borrow_mut() = prop.to_string());
    match quiet(|| f(&c.params, &c.ops)) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => {
            if e.prop.split('|').any(|p| p == prop) {
                Some(e.msg)
            } else {
                None
            }
        }
        Err(p) => Some(format!("unexpected panic: {}", p)),
    }
}
