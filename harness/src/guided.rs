//! Coverage-guided search over choice lists: cases that reach new code or
//! bring a comparison closer are kept and mutated.

use crate::cov;
use crate::src::{Rng, Src};

struct Entry {
    choices: Vec<u64>,
    bounds: Vec<u64>,
}

pub struct Search {
    rng: Rng,
    corpus: Vec<Entry>,
    seen: cov::Seen,
    runs: u64,
}

/// What one case is made from; enough to repeat it.
pub struct Candidate {
    pub choices: Vec<u64>,
    /// Random tail after the choices, or the simplest choices.
    pub tail: Option<u64>,
}

impl Candidate {
    pub fn src(&self) -> Src {
        match self.tail {
            Some(seed) => Src::prefix(self.choices.clone(), seed),
            None => {
                let mut s = Src::replay(self.choices.clone());
                s.bounds = Some(vec![]);
                s
            }
        }
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![self.choices.len() as u64, self.tail.is_some() as u64, self.tail.unwrap_or(0)];
        v.extend(&self.choices);
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }

    pub fn from_bytes(b: &[u8]) -> Option<Candidate> {
        let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = *v.first()? as usize;
        Some(Candidate { choices: v.get(3..3 + n)?.to_vec(), tail: if v[1] == 1 { Some(v[2]) } else { None } })
    }
}

const MAX_CORPUS: usize = 3000;

impl Search {
    pub fn new(seed: u64) -> Search {
        Search { rng: Rng::new(seed), corpus: vec![], seen: cov::Seen::new(), runs: 0 }
    }

    pub fn features(&self) -> usize {
        self.seen.features
    }

    pub fn corpus_len(&self) -> usize {
        self.corpus.len()
    }

    fn pick(&mut self) -> usize {
        let n = self.corpus.len() as u64;
        if self.rng.below(2) == 0 {
            self.rng.below(n) as usize
        } else {
            // Among the latest.
            (n - 1 - self.rng.below(n.min(24))) as usize
        }
    }

    pub fn next(&mut self) -> Candidate {
        self.runs += 1;
        if self.corpus.len() < 8 || self.rng.below(12) == 0 {
            return Candidate { choices: vec![], tail: Some(self.rng.next()) };
        }
        let i = self.pick();
        let (mut c, mut b) = (self.corpus[i].choices.clone(), self.corpus[i].bounds.clone());
        let steps = 1 + self.rng.below(3) * self.rng.below(3);
        for _ in 0..steps {
            let n = c.len() as u64;
            if n == 0 {
                break;
            }
            let at = self.rng.below(n) as usize;
            match self.rng.below(8) {
                0 | 1 | 2 => {
                    // Another value for one choice.
                    let bound = b[at].max(2);
                    c[at] = match self.rng.below(5) {
                        0 => c[at].wrapping_add(1) % bound,
                        1 => c[at].wrapping_add(bound - 1) % bound,
                        2 => [0, bound - 1, bound / 2][self.rng.below(3) as usize],
                        _ => self.rng.below(bound),
                    };
                }
                3 => {
                    // Redraw everything from here on.
                    c.truncate(at);
                    b.truncate(at);
                }
                4 => {
                    let len = 1 + self.rng.below(n.min(40)) as usize;
                    let end = (at + len).min(c.len());
                    c.drain(at..end);
                    b.drain(at..end);
                }
                5 => {
                    // Repeat a stretch.
                    let len = 1 + self.rng.below(n.min(40)) as usize;
                    let end = (at + len).min(c.len());
                    let (x, y) = (c[at..end].to_vec(), b[at..end].to_vec());
                    let to = if self.rng.below(2) == 0 { end } else { self.rng.below(n + 1) as usize };
                    let times = if self.rng.below(4) == 0 { 2 + self.rng.below(6) } else { 1 };
                    for _ in 0..times {
                        if c.len() < 8000 {
                            c.splice(to..to, x.iter().copied());
                            b.splice(to..to, y.iter().copied());
                        }
                    }
                }
                6 => {
                    // A stretch of another entry.
                    let j = self.pick();
                    let o = &self.corpus[j];
                    let m = o.choices.len() as u64;
                    if m > 0 {
                        let from = self.rng.below(m) as usize;
                        let len = 1 + self.rng.below(60) as usize;
                        let end = (from + len).min(o.choices.len());
                        let (x, y) = (o.choices[from..end].to_vec(), o.bounds[from..end].to_vec());
                        if self.rng.below(2) == 0 {
                            c.splice(at..at, x);
                            b.splice(at..at, y);
                        } else {
                            let stop = (at + x.len()).min(c.len());
                            c.splice(at..stop, x);
                            b.splice(at..stop, y);
                        }
                    }
                }
                _ => {
                    // The tail of another entry.
                    let j = self.pick();
                    let o = &self.corpus[j];
                    if at < o.choices.len() {
                        c.truncate(at);
                        b.truncate(at);
                        c.extend(&o.choices[at..]);
                        b.extend(&o.bounds[at..]);
                    }
                }
            }
        }
        let tail = if self.rng.below(4) == 0 { None } else { Some(self.rng.next()) };
        Candidate { choices: c, tail }
    }

    /// The case has run: keep it if it showed something new.
    pub fn learn(&mut self, src: Src) {
        if self.seen.update() > 0 && src.rec.len() <= 6000 {
            let bounds = src.bounds.unwrap_or_default();
            if bounds.len() == src.rec.len() {
                let e = Entry { choices: src.rec, bounds };
                if self.corpus.len() < MAX_CORPUS {
                    self.corpus.push(e);
                } else {
                    let k = self.rng.below(MAX_CORPUS as u64) as usize;
                    self.corpus[k] = e;
                }
            }
        }
    }
}
