use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::randgen::{randgen, randgen_with_config, RandGenConfig, TrSelector, UniformTrSelector};
use rustfst::prelude::*;
use rustfst::StateId;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        subs: vec![
            Sub { name: "uniform", rule: "at least 2 different paths were drawn", quick: 1_200_000, thorough: 4_000_000, f: uniform },
            Sub { name: "selector", rule: "at least 2 draws of a given selector ended in a path", quick: 1_200_000, thorough: 4_000_000, f: scripted },
            Sub { name: "distribution", rule: "a state with at least 2 choices sampled thousands of times", quick: 4_500, thorough: 45_000, f: distribution },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => uniform(c), _ => scripted(c) }) },
        ],
    }
}

type Log = Rc<RefCell<Vec<(usize, usize)>>>;

/// Chooses by a table and records what it chose.
#[derive(Debug, Clone)]
struct Scripted {
    turn: usize,
    script: Vec<usize>,
    log: Log,
}

impl TrSelector for Scripted {
    fn select_tr<W: Semiring, F: Fst<W>>(&mut self, fst: &F, state: StateId) -> anyhow::Result<usize> {
        let n = fst.num_trs(state)? + fst.is_final(state)? as usize;
        assert!(n > 0, "selector called on a state with nothing to choose");
        let x = self.script[self.turn % self.script.len()] % n;
        self.turn += 1;
        self.log.borrow_mut().push((state as usize, x));
        Ok(x)
    }
}

type P<W> = (Vec<(u32, u32)>, W);

fn all_paths<W: TW>(m: &RFst<W>) -> R<Vec<P<W>>> {
    let mut out = vec![];
    if let Some(s) = m.start {
        let mut st = vec![(s, vec![], W::one())];
        while let Some((q, p, w)) = st.pop() {
            if p.len() > 300 || out.len() > 5000 {
                fail!("result too large", "the result is cyclic or has too many paths");
            }
            if let Some(f) = &m.fin[q] {
                out.push((p.clone(), w.times(f).unwrap()));
            }
            for t in &m.trs[q] {
                let mut p2 = p.clone();
                p2.push((t.il, t.ol));
                st.push((t.n, p2, w.times(&t.w).unwrap()));
            }
        }
    }
    Ok(out)
}

fn is_path<W: TW>(m: &RFst<W>, p: &[(u32, u32)]) -> bool {
    let Some(s) = m.start else { return false };
    let mut cur = vec![s];
    for l in p {
        let mut next = vec![];
        for q in cur {
            for t in &m.trs[q] {
                if (t.il, t.ol) == *l && !next.contains(&t.n) {
                    next.push(t.n);
                }
            }
        }
        cur = next;
    }
    cur.iter().any(|q| m.fin[*q].is_some())
}

fn machine<W: TW>(c: &mut Ctx) -> RFst<W> {
    let k = Cfg {
        max_states: 6,
        max_out: 3,
        labels: 3,
        acyclic: c.bool(),
        acceptor: c.chance(1, 4),
        degenerate: c.chance(1, 8),
        ..Default::default()
    };
    let m: RFst<W> = gen_rfst(c, &k);
    if c.bool() {
        m.trim()
    } else {
        m
    }
}

/// every draw from the machine ends in a path
fn no_dead_end<W: TW>(m: &RFst<W>, max: usize) -> bool {
    let co = crate::props::p18::coreach(m);
    let Some(s) = m.start else { return false };
    let acc = crate::bprops::reach(m, s);
    (0..m.n()).all(|q| !acc[q] || co[q]) && m.acyclic() && m.n() <= max
}

fn uniform(c: &mut Ctx) -> R {
    if c.chance(1, 4) {
        uni::<LogWeight>(c)
    } else {
        uni::<TropicalWeight>(c)
    }
}

fn with_symts<W: Semiring>(c: &mut Ctx, f: &mut VectorFst<W>) -> bool {
    let b = c.chance(1, 4);
    if b {
        let mut s = SymbolTable::new();
        s.add_symbol("a");
        let s = Arc::new(s);
        f.set_input_symbols(s.clone());
        f.set_output_symbols(s);
    }
    b
}

fn judge<W: TW + Semiring<Type = f32>>(m: &RFst<W>, g: &VectorFst<W>, n: usize, max: usize, weighted: bool, rm: bool, sy: bool) -> R<(Option<usize>, usize)> {
    let r = RFst::from_fst(g)?;
    crate::bprops::check_props("randgen", g.properties(), &r)?;
    if sy {
        ensure!(g.input_symbols().is_some() && g.output_symbols().is_some(), "symbol tables lost", "randgen dropped the symbol tables");
    }
    let ps = all_paths(&r)?;
    for (p, _) in &ps {
        ensure!(is_path(m, p), "not a path of the machine", "{:?} was generated but is not accepted", p);
        ensure!(p.len() <= max, "path too long", "{:?} has {} transitions, the bound is {}", p, p.len(), max);
    }
    let draws = if weighted {
        let mut total = 0usize;
        for (p, w) in &ps {
            let x = (-(*w.value() as f64)).exp() * if rm { n as f64 } else { 1.0 };
            let k = x.round();
            ensure!((x - k).abs() < 0.02 * x.max(1.0) && k >= 1.0, "weight is not a count", "path {:?} has weight {}, i.e. {} draws out of {}", p, w.show(), x, n);
            total += k as usize;
        }
        total
    } else {
        for (p, w) in &ps {
            ensure!(w.is_one(), "weighted path", "path {:?} has weight {}", p, w.show());
        }
        ps.len()
    };
    ensure!(draws <= n, "too many paths", "{} paths drawn, {} requested", draws, n);
    // the empty path is one path however often it is drawn
    let exact = weighted || ps.iter().all(|p| !p.0.is_empty());
    if exact && no_dead_end(m, max) {
        ensure!(draws == n, "paths missing", "{} paths drawn, {} requested and every draw ends in a path", draws, n);
    }
    let distinct: std::collections::BTreeSet<_> = ps.iter().map(|p| &p.0).collect();
    Ok((exact.then_some(draws), distinct.len()))
}

fn uni<W: TW + Semiring<Type = f32>>(c: &mut Ctx) -> R {
    let m: RFst<W> = machine(c);
    let mut f = realize(c, &m);
    let sy = with_symts(c, &mut f);
    let n = c.below(12);
    let max = if m.acyclic() && c.bool() { usize::MAX } else { 1 + c.below(8) };
    let (weighted, rm) = (c.bool(), c.bool());
    let seed = c.src.below(1 << 20);
    c.note(|| format!("randgen seed={} npath={} max_length={} weighted={} remove_total_weight={} {}", seed, n, max, weighted, rm, m.show()));
    if c.chance(1, 10) && m.acyclic() {
        let g: VectorFst<W> = randgen(&f)?;
        judge(&m, &g, 1, usize::MAX, false, false, sy)?;
        return Ok(());
    }
    let conf = || RandGenConfig::new(UniformTrSelector::from_seed(seed)).with_npath(n).with_max_length(max).with_weighted(weighted).with_remove_total_weight(rm);
    let g: VectorFst<W> = randgen_with_config(&f, conf())?;
    let (_, d) = judge(&m, &g, n, max, weighted, rm, sy)?;
    // the same seed again
    let h: VectorFst<W> = randgen_with_config(&f, conf())?;
    let (a, b) = (RFst::from_fst(&g)?.show(), RFst::from_fst(&h)?.show());
    ensure!(a == b, "same seed, different result", "{}\nthen {}", a, b);
    // from a constant machine too
    if c.chance(1, 4) {
        let k: ConstFst<W> = f.clone().into();
        let h: VectorFst<W> = randgen_with_config(&k, conf())?;
        let b = RFst::from_fst(&h)?.show();
        ensure!(a == b, "other representation, different result", "{}\nthen {}", a, b);
    }
    c.nontrivial = d >= 2;
    Ok(())
}

fn scripted(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let m: RFst<W> = machine(c);
    let mut f = realize(c, &m);
    let sy = with_symts(c, &mut f);
    let n = c.below(12);
    let max = if m.acyclic() && c.bool() { usize::MAX } else { 1 + c.below(8) };
    let (weighted, rm) = (c.bool(), c.bool());
    let script: Vec<usize> = (0..1 + c.below(9)).map(|_| c.below(12)).collect();
    let log: Log = Default::default();
    c.note(|| format!("randgen choices={:?} npath={} max_length={} weighted={} remove_total_weight={} {}", script, n, max, weighted, rm, m.show()));
    let sel = Scripted { turn: 0, script, log: log.clone() };
    let conf = RandGenConfig::new(sel).with_npath(n).with_max_length(max).with_weighted(weighted).with_remove_total_weight(rm);
    let g: VectorFst<W> = randgen_with_config(&f, conf)?;
    let (draws, _) = judge(&m, &g, n, max, weighted, rm, sy)?;
    let log = log.borrow();
    let ends = log.iter().filter(|(s, x)| *x == m.trs[*s].len()).count();
    ensure!(draws.map_or(ends > 0, |d| d == ends), "draws lost", "the selector ended {} paths, the result has {:?}", ends, draws);
    if let (Some(s), true) = (m.start, n > 0) {
        let first = log.iter().take(n).filter(|(q, _)| *q == s).count();
        let any = m.fin[s].is_some() || !m.trs[s].is_empty();
        ensure!(!any || first == n, "start not sampled", "the selector chose {} times at the start, {} paths were requested", first, n);
    }
    if draws.is_some() && no_dead_end(&m, max) {
        // every choice is on a path: transitions with labels used by one transition of the machine only
        let mut uses: BTreeMap<(u32, u32), usize> = BTreeMap::new();
        for (s, x) in log.iter() {
            if let Some(t) = m.trs[*s].get(*x) {
                *uses.entry((t.il, t.ol)).or_default() += 1;
            }
        }
        let mut got: BTreeMap<(u32, u32), usize> = BTreeMap::new();
        for (p, w) in all_paths(&RFst::from_fst(&g)?)? {
            let k = if weighted { ((-(*w.value() as f64)).exp() * if rm { n as f64 } else { 1.0 }).round() as usize } else { 1 };
            for l in p {
                *got.entry(l).or_default() += k;
            }
        }
        ensure!(uses == got, "choices not followed", "labels chosen {:?}, labels on the result {:?}", uses, got);
        c.tag("all choices accounted for");
    }
    c.nontrivial = ends >= 2;
    Ok(())
}

/// Each choice at a state is equally likely (7 standard deviations allowed).
fn distribution(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let k = 1 + c.below(7);
    let fin = c.bool();
    let mut m: RFst<W> = RFst::new(2);
    m.start = Some(0);
    m.fin[1] = Some(W::one());
    for i in 0..k {
        m.trs[0].push(RTr { il: i as u32 + 1, ol: i as u32 + 1, w: W::gen(c), n: 1 });
    }
    if fin {
        m.fin[0] = Some(W::gen(c));
    }
    let n = 2000 + c.below(2000);
    let seed = c.src.below(1 << 30);
    let f = realize(c, &m);
    c.note(|| format!("{} draws with seed {} from {}", n, seed, m.show()));
    let conf = RandGenConfig::new(UniformTrSelector::from_seed(seed)).with_npath(n).with_weighted(true).with_remove_total_weight(true);
    let g: VectorFst<W> = randgen_with_config(&f, conf)?;
    let ps = all_paths(&RFst::from_fst(&g)?)?;
    let choices = k + fin as usize;
    let p = 1.0 / choices as f64;
    let sd = (n as f64 * p * (1.0 - p)).sqrt();
    ensure!(ps.len() == choices, "choice never drawn", "{} of {} choices drawn in {} draws", ps.len(), choices, n);
    for (l, w) in &ps {
        let x = (-(*w.value() as f64)).exp() * n as f64;
        ensure!((x - n as f64 * p).abs() <= 7.0 * sd + 1.0, "not uniform", "{:?} drawn {:.0} times of {}, {} choices", l, x, n, choices);
    }
    c.nontrivial = choices >= 2;
    Ok(())
}
