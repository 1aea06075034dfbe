//! Choice-sequence generation: every random decision of a case is a recorded
//! `u64`, smaller meaning simpler, so any generator written on top of it can be
//! replayed exactly and shrunk by editing the recorded list.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }

    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for chunk in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..chunk.len()].copy_from_slice(chunk);
        h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    h ^= bytes.len() as u64;
    Rng::new(h).next()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// The given choices first, then random ones.
    Prefix(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// How many values each choice could have had, where wanted.
    pub bounds: Option<Vec<u64>>,
    /// Where to keep a running copy of the choices, for cases that may kill
    /// the process.
    pub trace: Option<String>,
    limit: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), rec: Vec::new(), bounds: None, trace: None, limit: 60_000 }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices), rec: Vec::new(), bounds: None, trace: None, limit: usize::MAX }
    }

    /// Coverage-guided search: the given choices, then random ones.
    pub fn prefix(choices: Vec<u64>, seed: u64) -> Src {
        Src { mode: Mode::Prefix(choices, Rng::new(seed)), rec: Vec::new(), bounds: Some(Vec::new()), trace: None, limit: 20_000 }
    }

    /// A number in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let pos = self.rec.len();
        let value = if pos >= self.limit {
            0
        } else {
            match &mut self.mode {
                Mode::Random(rng) => rng.below(n),
                Mode::Replay(list) => list.get(pos).copied().unwrap_or(0) % n,
                Mode::Prefix(list, rng) => match list.get(pos) {
                    Some(&v) => v % n,
                    None => rng.below(n),
                },
            }
        };
        if let Some(b) = &mut self.bounds {
            b.push(n);
        }
        self.rec.push(value);
        if self.trace.is_some() {
            self.keep_trace(value);
        }
        value
    }

    #[cold]
    fn keep_trace(&mut self, value: u64) {
        use std::io::Write;
        let path = self.trace.clone().unwrap_or_default();
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
            let _ = write!(f, "{} ", value);
        }
    }

    pub fn any_u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// `lo..=hi`
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }

    /// True with probability `num / den`; false is the simple outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        let i = self.usize(list.len());
        &list[i]
    }

    /// An index with the given weights; put the simplest first.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|&w| w as u64).sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w as u64 {
                return i;
            }
            v -= w as u64;
        }
        weights.len() - 1
    }

    /// Geometric length with the given mean, capped.
    pub fn len(&mut self, mean: u64, cap: usize) -> usize {
        let mut n = 0;
        while n < cap && self.chance(mean, mean + 1) {
            n += 1;
        }
        n
    }

    /// A generator for bulk data that depends on one recorded choice only.
    pub fn bulk(&mut self) -> Rng {
        Rng::new(self.below(1 << 32))
    }
}
