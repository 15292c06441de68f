use crate::ctx::*;
use crate::model::*;
use rustfst::prelude::*;

#[derive(Clone)]
pub struct Cfg {
    pub max_states: usize,
    pub max_out: usize,
    pub labels: usize,
    /// percent of labels that are epsilon
    pub eps: usize,
    pub acyclic: bool,
    /// epsilon:epsilon transitions never form a cycle
    pub eps_acyclic: bool,
    pub acceptor: bool,
    /// percent of weights that are zero()
    pub zeros: usize,
    pub unweighted: bool,
    /// allow machines without start / without states
    pub degenerate: bool,
    pub shuffle: bool,
    pub big_labels: bool,
    /// negative weights (never negative cycles): 0 none, 1 whole paths stay non-negative, 2 any
    pub neg: u8,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_states: 5,
            max_out: 3,
            labels: 3,
            eps: 25,
            acyclic: false,
            eps_acyclic: false,
            acceptor: false,
            zeros: 0,
            unweighted: false,
            degenerate: true,
            shuffle: true,
            big_labels: false,
            neg: 1,
        }
    }
}

pub fn gen_label(c: &mut Ctx, k: &Cfg) -> u32 {
    if k.eps > 0 && c.chance(k.eps, 100) {
        return 0;
    }
    let l = 1 + c.below(k.labels) as u32;
    if k.big_labels && c.chance(1, 12) {
        return *c.pick(&[1000u32, 65_536, 0x7fff_ffff - 3, 300]);
    }
    l
}

pub fn gen_weight<W: TW>(c: &mut Ctx, k: &Cfg) -> W {
    if k.zeros > 0 && c.chance(k.zeros, 100) {
        return W::zero();
    }
    if k.unweighted || c.chance(1, 3) {
        return W::one();
    }
    W::gen(c)
}

pub fn gen_rfst<W: TW>(c: &mut Ctx, k: &Cfg) -> RFst<W> {
    if k.degenerate && c.chance(1, 40) {
        return RFst::new(0);
    }
    let big = c.big && W::IDEMP;
    let n = c.range(1, k.max_states);
    let r: RFst<W> = if big { crate::big::gen_big(c, k) } else { gen_small(c, k, n) };
    finish(c, k, r)
}

fn gen_small<W: TW>(c: &mut Ctx, k: &Cfg, n: usize) -> RFst<W> {
    let mut r: RFst<W> = RFst::new(n);
    let nostart = k.degenerate && c.chance(1, 40);
    let start = if k.acyclic {
        if n > 1 && c.chance(1, 10) {
            c.below(n)
        } else {
            0
        }
    } else if c.chance(1, 4) {
        c.below(n)
    } else {
        0
    };
    if !nostart {
        r.start = Some(start);
    }
    for s in 0..n {
        if k.acyclic && s + 1 >= n {
            continue;
        }
        let m = c.below(k.max_out + 1);
        for _ in 0..m {
            let mut il = gen_label(c, k);
            let mut ol = if k.acceptor { il } else if c.chance(1, 3) { il } else { gen_label(c, k) };
            let nx = if k.acyclic {
                s + 1 + c.below((n - s - 1).min(3))
            } else {
                c.below(n)
            };
            if k.eps_acyclic && il == 0 && ol == 0 && nx <= s {
                il = 1 + c.below(k.labels) as u32;
                if k.acceptor || c.bool() {
                    ol = il;
                }
            }
            let w = gen_weight(c, k);
            r.trs[s].push(RTr { il, ol, w, n: nx });
        }
        // near-duplicate transitions are where summing / uniqueness / ambiguity show
        if !r.trs[s].is_empty() && c.chance(1, 8) {
            let i = c.below(r.trs[s].len());
            let mut t = r.trs[s][i].clone();
            match c.below(4) {
                0 => {}
                1 => t.w = gen_weight(c, k),
                2 => {
                    if !k.acyclic && !(k.eps_acyclic && t.il == 0 && t.ol == 0) {
                        t.n = c.below(n)
                    }
                }
                _ => {
                    if !k.acceptor {
                        t.ol = 1 + c.below(k.labels) as u32
                    }
                }
            }
            r.trs[s].push(t);
        }
    }
    for s in 0..n {
        let p = if s + 1 == n { 3 } else { 1 };
        if c.chance(p, 4) {
            r.fin[s] = Some(gen_weight(c, k));
        }
    }
    r
}

fn finish<W: TW>(c: &mut Ctx, k: &Cfg, mut r: RFst<W>) -> RFst<W> {
    let n = r.n();
    if k.neg > 0 && !k.unweighted && c.chance(1, 8) {
        potentials(c, &mut r, k.neg > 1);
    }
    if k.shuffle && c.chance(1, 3) {
        // random renumbering
        let mut perm: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - c.below(i + 1);
            perm.swap(i, j);
        }
        let mut q = RFst::new(n);
        q.start = r.start.map(|s| perm[s]);
        for s in 0..n {
            q.fin[perm[s]] = r.fin[s].clone();
            q.trs[perm[s]] = r.trs[s].iter().map(|t| RTr { n: perm[t.n], ..t.clone() }).collect();
        }
        r = q;
    }
    r
}

pub fn gen_symt(c: &mut Ctx, n: usize) -> SymbolTable {
    let mut t = SymbolTable::new();
    let alpha = ["a", "b", "c", "hello", "é", "日本", "x y", "0", "<s>", "#", "-1", "eps"];
    for i in 0..n {
        let s = if c.chance(1, 3) {
            format!("{}{}", c.pick(&alpha), i)
        } else {
            format!("s{}", i)
        };
        t.add_symbol(s);
    }
    t
}

/// Negative weights without negative cycles: a potential per state. Every path keeps its weight,
/// up to the potential of the start (zero unless `any`).
pub fn potentials<W: TW>(c: &mut Ctx, r: &mut RFst<W>, any: bool) {
    let scale = *c.pick(&[0.25f32, 0.25, 8.0]);
    let mut pot: Vec<f32> = (0..r.n()).map(|_| (c.below(33) as f32 - 16.0) * scale).collect();
    if let (false, Some(s)) = (any, r.start) {
        pot[s] = 0.0;
    }
    for s in 0..r.n() {
        if let Some(w) = &mut r.fin[s] {
            *w = w.shift(-pot[s]);
        }
        for t in r.trs[s].iter_mut() {
            t.w = t.w.shift(pot[t.n] - pot[s]);
        }
    }
}
