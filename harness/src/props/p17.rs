use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::{minimize_with_config, MinimizeConfig};
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        subs: vec![
            Sub { name: "acceptors", rule: "a deterministic acceptor with two equivalent states among those that matter", quick: 600_000, thorough: 6_000_000, f: acceptors },
            Sub { name: "transducers", rule: "a deterministic transducer that accepts at least 2 pairs", quick: 480_000, thorough: 4_800_000, f: transducers },
            Sub { name: "nondeterministic", rule: "a non-deterministic machine that accepts at least 2 pairs", quick: 480_000, thorough: 4_800_000, f: nondet },
            Sub { name: "rounding", rule: "a deterministic acceptor with two equivalent states among those that matter", quick: 200_000, thorough: 3_000_000, f: rounding },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => acceptors(c), 1 => transducers(c), _ => nondet(c) }) },
        ],
    }
}

/// Join some states so that equivalent ones are likely: copy the behaviour of one state to another.
fn alias<W: TW>(c: &mut Ctx, m: &mut RFst<W>) {
    let n = m.n();
    if n < 2 {
        return;
    }
    for _ in 0..c.below(4) {
        let (a, b) = (c.below(n), c.below(n));
        m.trs[b] = m.trs[a].clone();
        m.fin[b] = m.fin[a].clone();
        // another order of the same transitions
        if c.bool() {
            m.trs[b].reverse();
        }
        // same behaviour through another copy
        for i in 0..m.trs[b].len() {
            if c.chance(1, 3) {
                let d = m.trs[b][i].n;
                if d == a {
                    m.trs[b][i].n = b;
                } else if d == b {
                    m.trs[b][i].n = a;
                }
            }
        }
    }
}

/// The same relation with weights moved along states, so that pushing is needed to merge.
fn shift<W: TW + WeaklyDivisibleSemiring>(c: &mut Ctx, m: &mut RFst<W>) {
    // multiply everything that enters a fresh copy; only states that are not the start
    let n = m.n();
    for s in 0..n {
        if Some(s) == m.start || !c.chance(1, 3) {
            continue;
        }
        let w = W::gen(c);
        for v in m.trs.iter_mut() {
            for t in v.iter_mut().filter(|t| t.n == s) {
                t.w = t.w.times(&w).unwrap();
            }
        }
    }
}

/// Number of states of the minimal deterministic machine: weights pushed exactly, then Moore.
pub fn minimal<W: TW + WeaklyDivisibleSemiring>(m: &RFst<W>) -> Option<(usize, bool)> {
    let t = m.trim();
    let Some(s0) = t.start else { return Some((0, false)) };
    let d = crate::props::p20::rdist(&t)?;
    let key = |w: &W| w.show();
    let mut cls: Vec<usize> = vec![0; t.n()];
    let mut fins: Vec<String> = vec![];
    for s in 0..t.n() {
        let f = match &t.fin[s] {
            Some(w) => key(&w.divide(&d[s], DivideType::DivideLeft).ok()?),
            None => "-".into(),
        };
        cls[s] = fins.iter().position(|x| *x == f).unwrap_or_else(|| {
            fins.push(f);
            fins.len() - 1
        });
    }
    let mut count = fins.len();
    loop {
        let mut ids: BTreeMap<(usize, Vec<(u32, u32, String, usize)>), usize> = BTreeMap::new();
        let mut next = vec![];
        for s in 0..t.n() {
            let mut v: Vec<(u32, u32, String, usize)> = vec![];
            for x in &t.trs[s] {
                let w = x.w.times(&d[x.n]).ok()?.divide(&d[s], DivideType::DivideLeft).ok()?;
                v.push((x.il, x.ol, key(&w), cls[x.n]));
            }
            v.sort();
            v.dedup();
            let k = ids.len();
            next.push(*ids.entry((cls[s], v)).or_insert(k));
        }
        cls = next;
        if ids.len() == count {
            break;
        }
        count = ids.len();
    }
    Some((count, !d[s0].is_one()))
}

fn symts<W: TW>(f: &mut VectorFst<W>) -> Arc<SymbolTable> {
    let mut s = SymbolTable::new();
    for l in ["a", "b", "c"] {
        s.add_symbol(l);
    }
    let s = Arc::new(s);
    f.set_input_symbols(s.clone());
    f.set_output_symbols(s.clone());
    s
}

fn acceptors(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => acc::<LogWeight>(c),
        _ => acc::<TropicalWeight>(c),
    }
}

fn acc<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx) -> R
where
    W::ReverseWeight: WeightQuantize,
{
    let k = Cfg {
        max_states: 7,
        max_out: 3,
        labels: *c.pick(&[1usize, 2, 3]),
        eps: *c.pick(&[0usize, 0, 15]),
        acceptor: true,
        acyclic: !W::IDEMP || c.bool(),
        unweighted: c.bool(),
        degenerate: c.chance(1, 12),
        neg: 0,
        ..Default::default()
    };
    let mut m: RFst<W> = det_rfst(c, &k);
    if W::IDEMP || k.unweighted {
        alias(c, &mut m);
        if k.acyclic && !m.acyclic() && !W::IDEMP {
            return Ok(());
        }
    }
    if !k.unweighted {
        shift(c, &mut m);
        if c.chance(1, 8) {
            potentials(c, &mut m, true);
        }
    }
    let mut f = realize(c, &m);
    let sy = c.chance(1, 4).then(|| symts(&mut f));
    let allow = c.bool();
    c.note(|| format!("minimize the acceptor {}", m.show()));
    minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(allow))?;
    let r = RFst::from_fst(&f)?;
    let ok = same_lang("minimize (acceptor)", &m, &r, 5)?;
    ensure!(is_det(&r), "result not deterministic", "{}", r.show());
    if sy.is_some() {
        ensure!(f.input_symbols().is_some() && f.output_symbols().is_some(), "symbol tables lost", "minimize dropped the symbol tables");
    }
    if W::IDEMP {
        if let Some((n, extra)) = minimal(&m) {
            ensure!(r.n() <= n + extra as usize, "not minimal", "{} states where {} are enough{}: {}", r.n(), n, if extra { " (and one for the total weight)" } else { "" }, r.show());
            ensure!(r.n() >= n, "too few states", "{} states where {} are needed: {}", r.n(), n, r.show());
            c.nontrivial = ok && n < m.trim().n() && n > 0;
        }
    } else {
        c.nontrivial = ok && m.trim().n() > 2;
    }
    let mut g = f.clone();
    minimize_with_config(&mut g, MinimizeConfig::default().with_allow_nondet(allow))?;
    ensure!(g.num_states() == f.num_states(), "minimizing twice changes the size", "{} states, then {}", f.num_states(), g.num_states());
    Ok(())
}

/// The same machine with every weight divided by a number that floats cannot represent exactly: what can be merged
/// stays the same, since the errors stay far below the quantisation step. (0.1 k is at least a tenth of a
/// step away from where the default step of 1/1024 rounds the other way.)
fn tenths(m: &RFst<TropicalWeight>) -> RFst<TropicalWeight> {
    scaled(m, 4.0 * 0.1)
}
pub fn scaled(m: &RFst<TropicalWeight>, by: f32) -> RFst<TropicalWeight> {
    let t = |w: &TropicalWeight| if w.is_zero() { w.clone() } else { TropicalWeight::new(*w.value() * by) };
    let mut r = m.clone();
    for x in r.trs.iter_mut().flatten() {
        x.w = t(&x.w);
    }
    for x in r.fin.iter_mut().flatten() {
        *x = t(x);
    }
    r
}
pub fn fits(m: &RFst<TropicalWeight>) -> bool {
    m.trs.iter().flatten().map(|t| &t.w).chain(m.fin.iter().flatten()).all(|w| w.is_zero() || ((*w.value() * 4.0).fract() == 0.0 && w.value().abs() <= 16.0))
}

fn rounding(c: &mut Ctx) -> R {
    let k = Cfg {
        max_states: 7,
        max_out: 3,
        labels: *c.pick(&[1usize, 2, 3]),
        acceptor: true,
        acyclic: c.bool(),
        neg: 0,
        ..Default::default()
    };
    let mut m: RFst<TropicalWeight> = det_rfst(c, &k);
    alias(c, &mut m);
    shift(c, &mut m);
    if !fits(&m) {
        return Ok(());
    }
    let Some((n, extra)) = minimal(&m) else { return Ok(()) };
    let h = tenths(&m);
    let mut f = realize(c, &h);
    c.note(|| format!("minimize the acceptor {}", h.show()));
    minimize(&mut f)?;
    let r = RFst::from_fst(&f)?;
    ensure!(is_det(&r), "result not deterministic", "{}", r.show());
    ensure!(r.n() <= n + extra as usize, "not minimal up to rounding", "{} states where {} are enough{}: {}", r.n(), n, if extra { " (and one for the total weight)" } else { "" }, r.show());
    ensure!(r.n() >= n, "too few states", "{} states where {} are needed: {}", r.n(), n, r.show());
    c.nontrivial = n < m.trim().n() && n > 0;
    Ok(())
}

fn transducers(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => tra::<LogWeight>(c),
        _ => tra::<TropicalWeight>(c),
    }
}

fn tra<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx) -> R
where
    W::ReverseWeight: WeightQuantize,
{
    let k = Cfg {
        max_states: 5,
        max_out: 3,
        labels: *c.pick(&[1usize, 2, 3]),
        eps: *c.pick(&[0usize, 15, 30]),
        acyclic: !W::IDEMP || c.bool(),
        unweighted: c.bool(),
        degenerate: c.chance(1, 12),
        neg: 0,
        ..Default::default()
    };
    let mut m: RFst<W> = det_rfst(c, &k);
    if W::IDEMP {
        alias(c, &mut m);
        if !k.unweighted && c.chance(1, 8) {
            potentials(c, &mut m, true);
        }
    }
    let mut f = realize(c, &m);
    let sy = c.chance(1, 4).then(|| symts(&mut f));
    c.note(|| format!("minimize the transducer {}", m.show()));
    minimize_with_config(&mut f, MinimizeConfig::default())?;
    let r = RFst::from_fst(&f)?;
    let ok = same_lang("minimize (transducer)", &m, &r, 4)?;
    if sy.is_some() {
        ensure!(f.input_symbols().is_some() && f.output_symbols().is_some(), "symbol tables lost", "minimize dropped the symbol tables");
    }
    c.nontrivial = ok && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}

fn nondet(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    if c.chance(1, 10) {
        // not idempotent: must be refused
        let k = Cfg { max_states: 4, acyclic: true, ..Default::default() };
        let m: RFst<LogWeight> = gen_rfst(c, &k);
        if is_det(&m) {
            return Ok(());
        }
        let mut f = realize(c, &m);
        c.note(|| format!("minimize the non-deterministic log machine {}", m.show()));
        let allow = c.bool();
        ensure!(minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(allow)).is_err(), "non-deterministic log machine accepted", "minimize accepted it");
        return Ok(());
    }
    let k = Cfg {
        max_states: 6,
        max_out: 3,
        labels: *c.pick(&[1usize, 2]),
        eps: *c.pick(&[0usize, 0, 15]),
        acceptor: c.bool(),
        acyclic: c.bool(),
        unweighted: c.bool(),
        degenerate: c.chance(1, 12),
        neg: 0,
        ..Default::default()
    };
    let mut m: RFst<W> = gen_rfst(c, &k);
    alias(c, &mut m);
    if !k.unweighted && c.chance(1, 8) {
        potentials(c, &mut m, true);
    }
    let mut f = realize(c, &m);
    let allow = c.chance(4, 5);
    c.note(|| format!("minimize allow_nondet={} {}", allow, m.show()));
    let res = minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(allow));
    if !allow && !is_det(&m) {
        ensure!(res.is_err(), "non-deterministic input accepted", "minimize accepted a non-deterministic machine with allow_nondet = false");
        return Ok(());
    }
    res?;
    let r = RFst::from_fst(&f)?;
    let ok = same_lang("minimize (non-deterministic)", &m, &r, 4)?;
    if k.acceptor {
        ensure!(r.n() <= m.trim().n() + 1, "more states than before", "{} states from {}", r.n(), m.trim().n());
    }
    c.nontrivial = ok && !is_det(&m) && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}
