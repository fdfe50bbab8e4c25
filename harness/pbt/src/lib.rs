//! A small property-based testing engine (choice-sequence based, with integrated shrinking).
//!
//! Every random decision of a case is one recorded integer (a "choice"; 0 is the simplest). A case
//! is a pure function of its choice sequence, so a failing sequence is a replay file, and shrinking
//! edits the sequence and runs the case again. Case `i` of a facet draws from an RNG seeded by
//! (VERIF_SEED, facet name, i): results do not depend on the number of threads.
pub mod cov;
pub mod runner;

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use runner::{main, Facet, Prop};

/// Why a case did not pass.
#[derive(Clone, Debug)]
pub enum Stop {
    /// The generator could not build a valid case (counted, never a failure).
    Discard,
    /// The property is broken; `sig` names the kind of failure (the key of the known-findings file).
    Fail { sig: String, msg: String },
}

pub type Res = Result<(), Stop>;

pub fn fail(sig: &str, msg: impl Into<String>) -> Stop {
    Stop::Fail { sig: sig.to_string(), msg: msg.into() }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)+) => {
        if !$c { return Err($crate::fail($sig, format!($($a)+))); }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($r:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err($crate::fail($sig, format!("{}\n   got: {}\n  want: {}", format!($($r)+), $crate::clip(&format!("{:?}", a)), $crate::clip(&format!("{:?}", b)))));
        }
    }};
}

pub fn clip(s: &str) -> String {
    if s.len() <= 3000 {
        return s.to_string();
    }
    let mut e = 3000;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}…({} bytes)", &s[..e], s.len())
}

#[derive(Clone)]
pub struct Rng([u64; 2]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng([n(), n() | 1])
    }

    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0[0], self.0[1]);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.0[1] = s1.rotate_left(37);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return self.next();
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Gen {
    rng:        Option<Rng>,
    prefix:     Vec<u64>,
    pos:        usize,
    pub rec:    Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub notes:  Vec<String>,
    pub excluded: Vec<String>,
    pub allow: Vec<String>,
}

struct Overrun;

pub const MAX_CHOICES: usize = 200_000;

impl Gen {
    pub fn new(prefix: Vec<u64>, rng: Option<Rng>, verbose: bool, allow: &[String]) -> Self {
        Gen { rng, prefix, pos: 0, rec: Vec::new(), labels: BTreeMap::new(), nontrivial: false, verbose, notes: vec![], excluded: vec![], allow: allow.to_vec() }
    }

    /// One choice in 0..n (n = 0: the full u64 range).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            if n != 0 && v >= n { n - 1 } else { v }
        } else if self.rec.len() >= MAX_CHOICES {
            0
        } else {
            match &mut self.rng {
                Some(r) => r.below(n),
                None => 0,
            }
        };
        self.pos += 1;
        if self.rec.len() >= 10 * MAX_CHOICES {
            // a generator that loops until it likes what it draws does not end on zeros
            std::panic::resume_unwind(Box::new(Overrun));
        }
        self.rec.push(v);
        v
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below((hi - lo).wrapping_add(1))
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with probability num/den; false is the simple case.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    pub fn raw_u64(&mut self) -> u64 {
        self.below(0)
    }

    /// u64 with a bias to small values, powers of two and the extremes.
    pub fn u64(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => self.below(256),
            2 => self.below(70000),
            3 => {
                let k = self.below(64);
                let b = 1u64 << k;
                match self.below(3) {
                    0 => b,
                    1 => b - 1,
                    _ => b.wrapping_add(1),
                }
            }
            4 => u64::MAX - self.below(4),
            5 => {
                let bits = self.range(1, 63);
                self.below(1u64 << bits)
            }
            _ => self.raw_u64(),
        }
    }

    pub fn u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => self.below(256) as u32,
            2 => {
                let b = 1u64 << self.below(32);
                (b + 1 - self.below(3)).min(u32::MAX as u64) as u32
            }
            3 => u32::MAX - self.below(4) as u32,
            _ => self.below(1 << 32) as u32,
        }
    }

    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.below(8) {
            0 => 0,
            1 | 2 => self.usize(0, max.min(3)),
            3 | 4 | 5 => self.usize(0, max.min(16)),
            _ => self.usize(0, max),
        }
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }

    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }

    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }

    /// As `vec`, and once in a while a long one.
    pub fn many<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let n = if self.below(160) == 159 { *self.pick(&[13usize, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) } else { self.len(max) };
        (0..n).map(|_| f(self)).collect()
    }

    /// `n` bytes; eight bytes per choice, so long strings stay cheap to record and shrink.
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        match self.below(6) {
            // one repeated byte
            0 => {
                let b = *[0u8, 0xff, 1, 0x80, 0x7f, 0x30].get(self.below(6) as usize).unwrap();
                out.resize(n, b);
            }
            // mostly zero
            1 => {
                out.resize(n, 0);
                if n > 0 {
                    let k = self.below(3);
                    for _ in 0..=k {
                        let i = self.below(n as u64) as usize;
                        out[i] = self.byte();
                    }
                }
            }
            _ => {
                while out.len() < n {
                    let v = self.raw_u64();
                    out.extend_from_slice(&v.to_le_bytes());
                }
                out.truncate(n);
            }
        }
        out
    }

    /// `n` bytes with no bias at all (keys, hashes).
    pub fn entropy(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            let v = self.raw_u64();
            out.extend_from_slice(&v.to_le_bytes());
        }
        out.truncate(n);
        out
    }

    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let v = self.bytes_n(N);
        let mut a = [0u8; N];
        a.copy_from_slice(&v);
        a
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        self.bytes_n(n)
    }

    pub fn ascii(&mut self, max: usize) -> String {
        let n = self.len(max);
        (0..n).map(|_| (0x20 + self.below(95)) as u8 as char).collect()
    }

    /// Strings with multi-byte characters, control characters and separators.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.len(max);
        (0..n)
            .map(|_| match self.below(6) {
                0 => *['0', 'x', '/', ':', '{', '}', '\0', '\n', '"', '\\', '.', '-'].get(self.below(12) as usize).unwrap(),
                1 => *['é', '世', '\u{1F600}', 'ß', '\u{7f}', 'Ω'].get(self.below(6) as usize).unwrap(),
                _ => (0x20 + self.below(95)) as u8 as char,
            })
            .collect()
    }

    /// Mutates a byte string: flips, truncation, insertion, deletion, splice.
    pub fn mutate(&mut self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        let k = 1 + self.below(3);
        for _ in 0..k {
            let n = v.len() as u64;
            match self.below(8) {
                0 | 1 if n > 0 => {
                    let i = self.below(n) as usize;
                    v[i] ^= 1 << self.below(8);
                }
                2 if n > 0 => {
                    let i = self.below(n) as usize;
                    v[i] = self.byte();
                }
                3 if n > 0 => {
                    let i = self.below(n) as usize;
                    v.truncate(i);
                }
                4 => {
                    let i = self.below(n + 1) as usize;
                    let b = self.byte();
                    v.insert(i, b);
                }
                5 if n > 0 => {
                    let i = self.below(n) as usize;
                    let l = self.range(1, 8.min(n - i as u64)) as usize;
                    v.drain(i..i + l);
                }
                6 if n > 0 => {
                    let i = self.below(n) as usize;
                    v[i] = *[0x00u8, 0x01, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff].get(self.below(13) as usize).unwrap();
                }
                _ => {
                    let x = self.bytes(8);
                    v.extend_from_slice(&x);
                }
            }
        }
        v
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i as u64 - self.below(i as u64 + 1);
            v.swap(i, j as usize);
        }
    }

    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }

    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }

    /// Marks this case as non-trivial by the property's rule.
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(clip(&s));
        }
    }

    /// A failure whose signature is a listed known finding is counted and skipped, so that the
    /// rest of the case is still examined; any other failure stops the case.
    pub fn known(&mut self, r: Res) -> Res {
        match r {
            Err(Stop::Fail { sig, msg }) => {
                if self.allow.contains(&sig) {
                    self.excluded.push(sig);
                    Ok(())
                } else {
                    Err(Stop::Fail { sig, msg })
                }
            }
            x => x,
        }
    }
}

std::thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = std::cell::RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("PBT_TRACE").is_ok() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Runs `f`; a panic becomes Err(message at location).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<Overrun>() => std::panic::resume_unwind(p),
        Err(_) => {
            let (m, l) = take_panic();
            Err(format!("panic '{}' at {}", m, l))
        }
    }
}

pub fn run_case(f: &(dyn Fn(&mut Gen) -> Res + Sync), g: &mut Gen) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(p) if p.is::<Overrun>() => Err(Stop::Discard),
        Err(_) => {
            let (m, l) = take_panic();
            Err(Stop::Fail { sig: "panic".into(), msg: format!("panicked: '{}' at {}", m, l) })
        }
    }
}
