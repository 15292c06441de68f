use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;

pub fn prop() -> Prop {
    let rule = "at least 3 states reachable, one of them by several paths or through a cycle";
    Prop {
        id: "C20",
        subs: vec![
            Sub { name: "from_start", rule, quick: 1_200_000, thorough: 4_000_000, f: |c| disp(c, 0) },
            Sub { name: "to_finals", rule, quick: 1_200_000, thorough: 4_000_000, f: |c| disp(c, 1) },
            Sub { name: "small_weights", rule: "a self loop on the way to another state", quick: 600_000, thorough: 6_000_000, f: small },
            Sub { name: "all_pairs", rule, quick: 90_000, thorough: 1_000_000, f: all_pairs },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| { let o = c.below(2); disp(c, o) }) },
        ],
    }
}

fn disp(c: &mut Ctx, op: usize) -> R {
    match c.below(7) {
        0 => run::<LogWeight>(c, op),
        1 => run::<ProbabilityWeight>(c, op),
        2 => run::<IntegerWeight>(c, op),
        3 => run::<Mat>(c, op),
        4 => run::<BooleanWeight>(c, op),
        _ => run::<TropicalWeight>(c, op),
    }
}

/// sum of the weights of all paths from `s` to every state (the empty path included)
pub fn dist<W: TW>(m: &RFst<W>, s: usize) -> Option<Vec<W>> {
    let n = m.n();
    let mut total = vec![W::zero(); n];
    let mut delta: Vec<Option<W>> = vec![None; n];
    delta[s] = Some(W::one());
    total[s] = W::one();
    for _ in 0..600 {
        let mut next: Vec<Option<W>> = vec![None; n];
        let mut any = false;
        for x in 0..n {
            let Some(d) = &delta[x] else { continue };
            for t in &m.trs[x] {
                let v = d.mul(&t.w)?;
                if v.nil() || v.prune() {
                    continue;
                }
                next[t.n] = Some(match &next[t.n] {
                    None => v,
                    Some(o) => o.sum(&v)?,
                });
            }
        }
        for x in 0..n {
            if let Some(v) = next[x].take() {
                let nt = total[x].sum(&v)?;
                if W::IDEMP {
                    if !nt.same(&total[x]) {
                        next[x] = Some(nt.clone());
                        total[x] = nt;
                        any = true;
                    }
                } else {
                    total[x] = nt;
                    next[x] = Some(v);
                    any = true;
                }
            }
        }
        if !any {
            return Some(total);
        }
        delta = next;
    }
    None
}

pub fn close<W: TW>(a: &W, b: &W) -> bool {
    use std::any::Any;
    let p = |w: &W| (w as &dyn Any).downcast_ref::<ProbabilityWeight>().map(|x| *x.value());
    if let (Some(x), Some(y)) = (p(a), p(b)) {
        return (x - y).abs() <= 0.02 * x.abs() + 2e-4;
    }
    a.close(b) || (a.negligible() && b.negligible())
}

pub fn reversed<W: TW>(m: &RFst<W>) -> (RFst<W>, usize) {
    // plain graph reversal with a new source, weights reversed with the type's own reversal
    let n = m.n();
    let mut r = RFst::new(n + 1);
    for s in 0..n {
        for t in &m.trs[s] {
            r.trs[t.n].push(RTr { il: t.il, ol: t.ol, w: t.w.clone(), n: s });
        }
        if let Some(f) = &m.fin[s] {
            r.trs[n].push(RTr { il: 0, ol: 0, w: f.clone(), n: s });
        }
    }
    (r, n)
}

/// sum over all paths from every state to the final states
pub fn rdist<W: TW>(m: &RFst<W>) -> Option<Vec<W>> {
    let n = m.n();
    let mut total: Vec<W> = (0..n).map(|s| m.fin[s].clone().unwrap_or_else(W::zero)).collect();
    let mut delta: Vec<Option<W>> = m.fin.clone();
    for _ in 0..600 {
        let mut next: Vec<Option<W>> = vec![None; n];
        let mut any = false;
        for s in 0..n {
            for t in &m.trs[s] {
                if let Some(d) = &delta[t.n] {
                    let v = t.w.mul(d)?;
                    if v.nil() || v.prune() {
                        continue;
                    }
                    next[s] = Some(match &next[s] {
                        None => v,
                        Some(o) => o.sum(&v)?,
                    });
                }
            }
        }
        for x in 0..n {
            if let Some(v) = next[x].take() {
                let nt = total[x].sum(&v)?;
                if W::IDEMP {
                    if !nt.same(&total[x]) {
                        next[x] = Some(nt.clone());
                        total[x] = nt;
                        any = true;
                    }
                } else {
                    total[x] = nt;
                    next[x] = Some(v);
                    any = true;
                }
            }
        }
        if !any {
            return Some(total);
        }
        delta = next;
    }
    None
}

fn compare<W: TW>(what: &str, exp: &[W], got: &[W]) -> R {
    let zero = W::zero();
    ensure!(got.len() <= exp.len(), format!("{}: distance for a state that does not exist", what), "{} entries for {} states", got.len(), exp.len());
    for s in 0..exp.len() {
        let g = got.get(s).unwrap_or(&zero);
        ensure!(close(&exp[s], g), format!("{}: wrong distance", what), "{}: state {}: expected {}, got {}", what, s, exp[s].show(), g.show());
    }
    Ok(())
}

fn run<W: TW>(c: &mut Ctx, op: usize) -> R {
    let acyclic = if W::IDEMP { c.chance(1, 3) } else { W::NAME == "integer" || c.bool() };
    let k = Cfg {
        max_states: if acyclic { 8 } else { 6 },
        max_out: if W::IDEMP || acyclic { 3 } else { 2 },
        labels: 2,
        acyclic,
        zeros: *c.pick(&[0usize, 0, 6]),
        unweighted: W::IDEMP && c.chance(1, 8),
        ..Default::default()
    };
    let mut m: RFst<W> = gen_rfst(c, &k);
    if !W::IDEMP && !acyclic {
        // damp so that the sums converge
        damp(&mut m);
    }
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.is_zero()) {
            *f = None;
        }
    }
    let f = realize(c, &m);
    c.note(|| m.show());
    let exp = if op == 0 {
        match m.start {
            Some(s) => dist(&m, s),
            None => Some(vec![W::zero(); m.n()]),
        }
    } else {
        rdist(&m)
    };
    let Some(exp) = exp else { return Ok(()) };
    let got = if c.bool() { shortest_distance(&f, op == 1)? } else { shortest_distance(&ConstFst::from(f.clone()), op == 1)? };
    if op == 1 && m.start.is_none() {
        // nothing is promised about machines without a start state beyond not crashing
        return Ok(());
    }
    compare(if op == 0 { "shortest_distance" } else { "reverse shortest_distance" }, &exp, &got)?;
    let reached = exp.iter().filter(|w| !w.nil()).count();
    c.nontrivial = reached >= 3 && m.ntr() > reached;
    Ok(())
}

pub fn damp<W: TW>(m: &mut RFst<W>) {
    use std::any::Any;
    for v in m.trs.iter_mut() {
        for t in v.iter_mut() {
            let a = &mut t.w as &mut dyn Any;
            if let Some(p) = a.downcast_mut::<ProbabilityWeight>() {
                let x = *p.value();
                p.set_value(x / 4.0);
            } else if let Some(p) = a.downcast_mut::<LogWeight>() {
                let x = *p.value();
                p.set_value(x + 1.5);
            }
        }
    }
}

/// Cycles whose contribution is close to the convergence threshold.
fn small(c: &mut Ctx) -> R {
    type W = ProbabilityWeight;
    let k = Cfg { max_states: 5, max_out: 2, labels: 1, degenerate: false, neg: 2, ..Default::default() };
    let mut m: RFst<W> = gen_rfst(c, &k);
    damp(&mut m);
    let mut any = false;
    for s in 0..m.n() {
        if c.bool() {
            let w = W::new(*c.pick(&[5e-6f32, 5e-5, 5e-4, 0.01, 0.2]));
            m.trs[s].insert(0, RTr { il: 1, ol: 1, w, n: s });
            any |= m.trs[s].len() > 1;
        }
    }
    let f = realize(c, &m);
    c.note(|| m.show());
    let Some(exp) = dist(&m, m.start.unwrap()) else { return Ok(()) };
    let d = if c.bool() { ShortestDistanceConfig::default() } else { ShortestDistanceConfig::new(1e-7) };
    let got = shortest_distance_with_config(&f, false, d)?;
    compare("shortest_distance", &exp, &got)?;
    let Some(exp) = rdist(&m) else { return Ok(()) };
    let got = shortest_distance(&f, true)?;
    compare("reverse shortest_distance", &exp, &got)?;
    c.nontrivial = any;
    Ok(())
}

fn all_pairs(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => ap::<LogWeight>(c),
        1 => ap::<ProbabilityWeight>(c),
        2 => ap::<BooleanWeight>(c),
        _ => ap::<TropicalWeight>(c),
    }
}

fn ap<W: TW + StarSemiring>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 2, labels: 2, acyclic: c.chance(1, 3), neg: 2, ..Default::default() };
    let mut m: RFst<W> = gen_rfst(c, &k);
    if !W::IDEMP {
        damp(&mut m);
    }
    let f = realize(c, &m);
    c.note(|| m.show());
    let mut exp = vec![];
    for s in 0..m.n() {
        match dist(&m, s) {
            Some(d) => exp.push(d),
            None => return Ok(()),
        }
    }
    let got: Vec<Vec<W>> = all_pairs_shortest_distance(&f)?;
    ensure!(got.len() == exp.len(), "all_pairs: wrong size", "{} rows for {} states", got.len(), exp.len());
    for s in 0..m.n() {
        ensure!(got[s].len() == exp.len(), "all_pairs: wrong size", "{} columns for {} states", got[s].len(), exp.len());
        for t in 0..m.n() {
            ensure!(close(&exp[s][t], &got[s][t]), "all_pairs: wrong distance", "from {} to {}: expected {}, got {}", s, t, exp[s][t].show(), got[s][t].show());
        }
    }
    c.nontrivial = m.n() >= 3 && m.ntr() > m.n();
    Ok(())
}
