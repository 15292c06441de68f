use crate::source::Source;
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;

impl Fail {
    pub fn new(sig: &str, msg: impl Into<String>) -> Fail {
        Fail {
            sig: sig.to_string(),
            msg: msg.into(),
        }
    }
}
impl From<anyhow::Error> for Fail {
    fn from(e: anyhow::Error) -> Self {
        Fail {
            sig: format!("unexpected-error: {}", crate::runner::norm(&first_line(&format!("{:#}", e)))),
            msg: format!("operation returned an error where it must succeed: {:#}", e),
        }
    }
}
pub fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(160).collect()
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::ctx::Fail::new(&$sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { $crate::fail!($sig, $($arg)*) } };
}

pub struct Ctx {
    pub src: Source,
    pub nontrivial: bool,
    pub describe: bool,
    pub desc: String,
    pub tags: BTreeMap<&'static str, u64>,
    pub scratch: PathBuf,
    pub thorough: bool,
    /// generators produce large machines
    pub big: bool,
    pub made_big: bool,
    /// generators produce weights that differ by less than the library's default tolerance
    pub fine: bool,
    /// and some whose sums are not exact
    pub wild: bool,
}

impl Ctx {
    pub fn below(&mut self, n: usize) -> usize {
        self.src.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; the shrinker prefers false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// weighted choice; returns index
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            let s = f();
            if self.desc.len() < 20000 {
                if !self.desc.is_empty() {
                    self.desc.push_str("; ");
                }
                self.desc.push_str(&s);
            }
        }
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut Ctx) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
}
