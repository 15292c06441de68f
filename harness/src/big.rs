//! Large machines (tens to hundreds of states, states with many transitions, long chains), which
//! the small generators never produce, and the comparison that is affordable on them: the weight
//! that two machines give to sampled string pairs, computed by relaxation over (state, positions).
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::source::splitmix;
use crate::*;
use std::any::Any;
use std::collections::{HashMap, VecDeque};

/// Runs an existing check on large machines.
pub fn large(c: &mut Ctx, f: fn(&mut Ctx) -> R) -> R {
    c.big = true;
    let r = f(c);
    c.nontrivial = c.made_big;
    r
}
pub const RULE: &str = "a machine of 20 or more states was built and the check ran on it";

pub fn gen_big<W: TW>(c: &mut Ctx, k: &Cfg) -> RFst<W> {
    c.made_big = true;
    let top = *c.pick(&[24usize, 40, 70, 140]);
    let n = c.range(20, top);
    let k = &Cfg { labels: *c.pick(&[k.labels.max(2), k.labels.max(2), 6, 40, 400]), ..k.clone() };
    let mut r: RFst<W> = RFst::new(n);
    r.start = Some(if k.acyclic || !c.chance(1, 4) { 0 } else { c.below(n) });
    let span = *c.pick(&[1usize, 3, 3, 20, 200]);
    let extra = *c.pick(&[0usize, 1, 2, 2, 3]);
    let back = *c.pick(&[2usize, 10, 40]);
    let hub = (extra > 0 && c.chance(1, 3)).then(|| c.below(n));
    for s in 0..n {
        let m = if Some(s) == hub { c.range(20, 120) } else if extra == 0 { c.chance(1, 12) as usize } else { c.below(extra + 1) };
        let chain = s + 1 < n && c.chance(11, 12);
        for i in 0..m + chain as usize {
            let mut il = gen_label(c, k);
            let mut ol = if k.acceptor || c.chance(1, 3) { il } else { gen_label(c, k) };
            let nx = if i == m {
                s + 1
            } else if k.acyclic {
                if s + 1 >= n {
                    continue;
                }
                s + 1 + c.below((n - s - 1).min(span))
            } else if c.chance(back, 100) || s + 1 >= n {
                c.below(n)
            } else {
                s + 1 + c.below((n - s - 1).min(span))
            };
            if k.eps_acyclic && il == 0 && ol == 0 && nx <= s {
                il = 1 + c.below(k.labels) as u32;
                if k.acceptor || c.bool() {
                    ol = il;
                }
            }
            let w = gen_weight(c, k);
            r.trs[s].push(RTr { il, ol, w, n: nx });
        }
        if c.chance(1, 10) && !r.trs[s].is_empty() {
            let i = c.below(r.trs[s].len());
            let mut t = r.trs[s][i].clone();
            if c.bool() {
                t.w = gen_weight(c, k);
            }
            r.trs[s].push(t);
        }
    }
    let fp = *c.pick(&[1usize, 4, 10]);
    for s in 0..n {
        if s + 1 == n || c.chance(fp, 20) {
            r.fin[s] = Some(gen_weight(c, k));
        }
    }
    r
}

fn val<W: TW>(w: &W) -> Option<f64> {
    (w as &dyn Any).downcast_ref::<rustfst::prelude::TropicalWeight>().map(|t| *rustfst::prelude::Semiring::value(t) as f64)
}

/// For every state, the number of transitions to the nearest final state.
fn hops<W: TW>(m: &RFst<W>) -> Vec<usize> {
    let mut rev: Vec<Vec<usize>> = vec![vec![]; m.n()];
    for s in 0..m.n() {
        for t in &m.trs[s] {
            rev[t.n].push(s);
        }
    }
    let mut d = vec![usize::MAX; m.n()];
    let mut q: VecDeque<usize> = (0..m.n()).filter(|s| m.fin[*s].is_some()).collect();
    q.iter().for_each(|s| d[*s] = 0);
    while let Some(s) = q.pop_front() {
        for p in &rev[s] {
            if d[*p] == usize::MAX {
                d[*p] = d[s] + 1;
                q.push_back(*p);
            }
        }
    }
    d
}

/// The weight of the pair, None when nothing accepts it, Err when too expensive.
fn weight<W: TW>(m: &RFst<W>, i: &[u32], o: &[u32]) -> Result<Option<f64>, ()> {
    let Some(s0) = m.start else { return Ok(None) };
    let mut dist: HashMap<(usize, usize, usize), f64> = HashMap::new();
    let mut q = VecDeque::new();
    dist.insert((s0, 0, 0), 0.0);
    q.push_back((s0, 0, 0));
    let mut best: Option<f64> = None;
    let mut work = 0;
    while let Some((s, a, b)) = q.pop_front() {
        let d = dist[&(s, a, b)];
        work += 1;
        if work > 300_000 {
            return Err(());
        }
        for t in &m.trs[s] {
            let a2 = if t.il == 0 { a } else if i.get(a) == Some(&t.il) { a + 1 } else { continue };
            let b2 = if t.ol == 0 { b } else if o.get(b) == Some(&t.ol) { b + 1 } else { continue };
            let nd = d + val(&t.w).unwrap();
            if nd < f64::INFINITY && dist.get(&(t.n, a2, b2)).map_or(true, |x| nd < *x) {
                dist.insert((t.n, a2, b2), nd);
                q.push_back((t.n, a2, b2));
            }
        }
    }
    for (s, f) in m.fin.iter().enumerate() {
        if let (Some(f), Some(d)) = (f, dist.get(&(s, i.len(), o.len()))) {
            let x = d + val(f).unwrap();
            if x < f64::INFINITY && best.map_or(true, |b| x < b) {
                best = Some(x);
            }
        }
    }
    Ok(best)
}

fn walk<W: TW>(m: &RFst<W>, h: &[usize], st: &mut u64, long: usize) -> Option<(Str, Str)> {
    let mut s = m.start?;
    if h[s] == usize::MAX {
        return None;
    }
    let (mut i, mut o) = (vec![], vec![]);
    for step in 0..400 {
        if m.fin[s].is_some() && (step >= long || splitmix(st) % 8 == 0 || m.trs[s].iter().all(|t| h[t.n] == usize::MAX)) {
            return Some((i, o));
        }
        let cand: Vec<&RTr<W>> = m.trs[s].iter().filter(|t| if step < long { h[t.n] < usize::MAX } else { h[t.n] < h[s] }).collect();
        if cand.is_empty() {
            return None;
        }
        let t = cand[splitmix(st) as usize % cand.len()];
        if t.il != 0 {
            i.push(t.il);
        }
        if t.ol != 0 {
            o.push(t.ol);
        }
        s = t.n;
    }
    None
}

/// Sampled comparison of two machines over tropical weights; false when nothing was compared.
pub fn sampled<W: TW>(what: &str, a: &RFst<W>, b: &RFst<W>) -> R<bool> {
    if val(&W::one()).is_none() {
        return Ok(false);
    }
    let mut st = (a.n() as u64) << 32 | a.ntr() as u64;
    let (ha, hb) = (hops(a), hops(b));
    let mut seen = false;
    for k in 0..14 {
        let long = [5usize, 12, 30, 60][(splitmix(&mut st) % 4) as usize];
        let p = if k % 2 == 0 { walk(a, &ha, &mut st, long) } else { walk(b, &hb, &mut st, long) };
        let Some((mut i, mut o)) = p else { continue };
        if k >= 10 && !i.is_empty() {
            let x = splitmix(&mut st) as usize % i.len();
            if k % 3 == 0 {
                i.remove(x);
            } else {
                i[x] = i[splitmix(&mut st) as usize % i.len()];
            }
            if !o.is_empty() && k % 3 != 2 {
                let x = splitmix(&mut st) as usize % o.len();
                o.remove(x);
            }
        }
        let (Ok(x), Ok(y)) = (weight(a, &i, &o), weight(b, &i, &o)) else { continue };
        seen = true;
        let ok = match (x, y) {
            (None, None) => true,
            (Some(x), Some(y)) => (x - y).abs() <= 0.01,
            _ => false,
        };
        if !ok {
            fail!(format!("{}: wrong weighted relation", what), "{}: the pair {:?} / {:?} should have weight {:?}, has {:?}", what, i, o, x, y);
        }
    }
    Ok(seen)
}
