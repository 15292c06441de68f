//! Choice-sequence source: every generator draws bounded integers from it, so any failing case is a
//! list of integers that can be replayed and shrunk without knowing what it was generated into.
use std::io::Write;

pub struct Source {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub trace: Option<std::fs::File>,
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(seed: u64, s: &str) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl Source {
    pub fn from_seed(seed: u64) -> Self {
        Source {
            state: seed,
            replay: None,
            pos: 0,
            rec: vec![],
            trace: None,
        }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Source {
            state: 0,
            replay: Some(c),
            pos: 0,
            rec: vec![],
            trace: None,
        }
    }
    /// Uniform integer in 0..n (n >= 1). 0 is always the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => splitmix(&mut self.state) % n,
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
}
