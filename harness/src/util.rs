//! Random numbers, case bookkeeping and panics-as-values.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// unusual bytes in one text of six: marks in front, other line ends, other letter case, bytes that are no text
/// a length: mostly up to `n`, at times much longer
pub fn long(r: &mut Rng, n: usize) -> usize {
    match r.below(120) {
        0 => 240 + r.below(300),
        1..=5 => 15 + r.below(60),
        _ => 1 + r.below(n),
    }
}
pub fn spice(r: &mut Rng, mut t: Vec<u8>) -> Vec<u8> {
    const S: [&[u8]; 15] =
        [b"\xEF\xBB\xBF", b"\r\n", b"\r", b"\0", b"\x1A", b"\xE2\x80\xA8", b"A", b"AB", b"\xE1", b"\xC3\xA9", b"\t", b"\xFF", b"\x80", b" ", b"#"];
    if !r.chance(1, 6) {
        return t;
    }
    for _ in 0..1 + r.below(2) {
        let s = *r.pick(&S);
        let n = t.len();
        let at = match r.below(4) {
            0 => 0,
            1 => n,
            _ => r.below(n + 1),
        };
        match r.below(4) {
            0 if at < n => t[at] ^= 0x20,
            1 if at < n => t[at] |= 0x80,
            2 if r.chance(1, 2) => t.insert(at, r.below(256) as u8),
            _ => {
                t.splice(at..at, s.iter().copied());
            }
        }
    }
    t
}

fn resident_mb() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()).map_or(0, |pages| pages / 256)
}
thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
}
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What one property's run explored.
pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub trace: Option<std::fs::File>,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub violations: Vec<(u64, String)>,
    pub case: u64,
    pub known: Vec<(String, bool)>,
    pub budget: std::time::Duration,
    pub t0: std::time::Instant,
}
impl Run {
    /// start the next case; false: skip it (replaying another one)
    pub fn begin(&mut self) -> bool {
        self.case += 1;
        crate::watch::tick(self.case);
        if let Some(o) = self.only {
            if o != self.case {
                return false;
            }
        }
        if let Some(t) = &mut self.trace {
            use std::io::{Seek, SeekFrom, Write};
            t.seek(SeekFrom::Start(0)).ok();
            t.write_all(format!("{:<20}\n", self.case).as_bytes()).ok();
        }
        true
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed, self.case)
    }
    pub fn count<K: Hash>(&mut self, key: &K, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.seen.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.seen.insert(h.finish()) {
                self.nontrivial += 1;
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 && (self.case % 97 == 5 || self.only.is_some()) {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, s: String) {
        if self.violations.len() < 5 {
            self.violations.push((self.case, s));
        }
    }
    pub fn done(&self) -> bool {
        // cyclic grammars are never freed: stop before the memory limit
        (self.case % 4096 == 0 && resident_mb() > 2500) || self.violations.len() >= 3 || self.t0.elapsed() > self.budget || self.only.map_or(false, |o| self.case >= o)
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}
