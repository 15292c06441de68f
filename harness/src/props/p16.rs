use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::determinize::*;
use rustfst::fst_properties::FstProperties as P;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        subs: vec![
            Sub { name: "acceptors", rule: "a non-deterministic acceptor that accepts at least 2 strings", quick: 250_000, thorough: 3_000_000, f: acceptors },
            Sub { name: "transducers", rule: "a non-deterministic transducer that accepts at least 2 pairs", quick: 250_000, thorough: 3_000_000, f: transducers },
            Sub { name: "distance", rule: "a non-deterministic acceptor that accepts at least 2 strings", quick: 80_000, thorough: 1_000_000, f: distance },
            Sub { name: "rounding", rule: "a non-deterministic acceptor that accepts at least 2 strings", quick: 200_000, thorough: 3_000_000, f: rounding },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => acceptors(c), _ => transducers(c) }) },
        ],
    }
}

fn machine<W: TW>(c: &mut Ctx, acceptor: bool) -> RFst<W> {
    let mut k = Cfg { max_states: 5, max_out: 3, labels: 2, eps: *c.pick(&[0usize, 0, 20]), acceptor, degenerate: c.chance(1, 10), neg: 2, ..Default::default() };
    match c.below(5) {
        n if c.big && n < 3 => {
            let mut m = path_union(c, false);
            if acceptor {
                m.trs.iter_mut().flatten().for_each(|t| t.ol = t.il);
            }
            m
        }
        _ if c.big => {
            k.eps = 0;
            let m = det_rfst(c, &k);
            if W::IDEMP && m.ntr() < 4 * m.n() {
                copies(c, &m, &k)
            } else {
                m
            }
        }
        // any acyclic machine
        0 | 1 => {
            k.acyclic = true;
            k.max_states = 6;
            gen_rfst(c, &k)
        }
        // any unweighted acceptor
        2 if acceptor && W::IDEMP => {
            k.unweighted = true;
            k.labels = *c.pick(&[1usize, 2]);
            gen_rfst(c, &k)
        }
        3 if !acceptor => path_union(c, false),
        _ => {
            k.max_states = 4;
            k.eps_acyclic = !W::IDEMP;
            let m = det_rfst(c, &k);
            if W::IDEMP {
                copies(c, &m, &k)
            } else {
                m
            }
        }
    }
}

fn know<W: TW>(c: &mut Ctx, m: &RFst<W>) -> R<VectorFst<W>> {
    let mut f = realize(c, m);
    if c.chance(2, 3) {
        f.compute_and_update_properties_all()?;
    }
    Ok(f)
}

fn small_delta<W: TW>() -> f32 {
    if W::IDEMP {
        rustfst::KDELTA
    } else {
        1e-6
    }
}

pub fn subset_count<W: TW>(m: &RFst<W>) -> usize {
    let Some(s) = m.start else { return 0 };
    let mut seen = BTreeSet::new();
    let mut work = vec![BTreeSet::from([s])];
    while let Some(x) = work.pop() {
        if !seen.insert(x.clone()) {
            continue;
        }
        let mut by: BTreeMap<u32, BTreeSet<usize>> = BTreeMap::new();
        for q in &x {
            for t in &m.trs[*q] {
                by.entry(t.il).or_default().insert(t.n);
            }
        }
        work.extend(by.into_values());
    }
    seen.len()
}

fn acceptors(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => acc::<LogWeight>(c),
        1 => acc::<ProbabilityWeight>(c),
        _ => acc::<TropicalWeight>(c),
    }
}

fn acc<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx) -> R {
    let m: RFst<W> = machine(c, true);
    let mut f = know(c, &m)?;
    f.compute_and_update_properties(P::ACCEPTOR | P::NOT_ACCEPTOR)?;
    let ty = *c.pick(&[DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeNonFunctional, DeterminizeType::DeterminizeDisambiguate]);
    c.note(|| format!("determinize {:?} of the acceptor {}", ty, m.show()));
    let cfg = || DeterminizeConfig::new(small_delta::<W>(), ty);
    let before = f.clone();
    let d: VectorFst<W> = determinize_with_config(&f, cfg())?;
    ensure!(before == f, "determinize changed its input", "determinize modified its input");
    let r = RFst::from_fst(&d)?;
    ensure!(is_det(&r), "result not deterministic", "{}", r.show());
    ensure!(r.trs.iter().flatten().all(|t| t.il == t.ol), "result not an acceptor", "{}", r.show());
    let ok = same_lang("determinize (acceptor)", &m, &r, 5)?;
    let d2: VectorFst<W> = determinize_with_config(&f, cfg())?;
    // approximate equality of rounded weights may merge differently
    ensure!(!W::IDEMP || d.num_states() == d2.num_states(), "size changes from run to run", "{} states, then {} for the same input", d.num_states(), d2.num_states());
    let un = |m: &RFst<W>| m.trs.iter().flatten().all(|t| t.w.is_one());
    if W::IDEMP && un(&m) {
        let n = subset_count(&m);
        ensure!(r.n() <= n + 1, "more states than subsets", "{} states where only {} subsets are reachable: {}", r.n(), n, r.show());
    }
    if c.chance(1, 3) {
        let cf: VectorFst<W> = determinize_with_config(&ConstFst::from(f.clone()), cfg())?;
        same_lang("determinize (ConstFst)", &m, &RFst::from_fst(&cf)?, 5)?;
    }
    c.nontrivial = ok && !is_det(&m) && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}

/// Weights that floats cannot represent exactly do not multiply the states. The factor keeps every weight next to a
/// multiple of the default step, so that rounding to the step cannot pile up.
fn rounding(c: &mut Ctx) -> R {
    let m: RFst<TropicalWeight> = machine(c, true);
    if !crate::props::p17::fits(&m) {
        return Ok(());
    }
    let h = crate::props::p17::scaled(&m, 1.000_007);
    c.note(|| format!("determinize the acceptor {}", h.show()));
    let a: VectorFst<TropicalWeight> = determinize(&m.vector())?;
    let b: VectorFst<TropicalWeight> = determinize(&h.vector())?;
    let r = RFst::from_fst(&b)?;
    ensure!(is_det(&r), "result not deterministic", "{}", r.show());
    ensure!(a.num_states() == b.num_states(), "rounding changes the size", "{} states, but {} with all weights multiplied by 1.000007", a.num_states(), b.num_states());
    c.nontrivial = !is_det(&m) && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}

fn transducers(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => tra::<LogWeight>(c),
        _ => tra::<TropicalWeight>(c),
    }
}

fn tra<W: TW + WeaklyDivisibleSemiring + WeightQuantize + 'static>(c: &mut Ctx) -> R {
    let mut m: RFst<W> = if c.chance(1, 6) { path_union(c, true) } else { machine(c, false) };
    let trimmed = c.chance(3, 4);
    if trimmed {
        m = m.trim();
    }
    let f = know(c, &m)?;
    let mut ty = *c.pick(&[DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeNonFunctional, DeterminizeType::DeterminizeDisambiguate]);
    if !m.acyclic() && ty == DeterminizeType::DeterminizeNonFunctional {
        // residual sets may grow without bound around a cycle
        ty = DeterminizeType::DeterminizeFunctional;
    }
    let acceptor_known = f.properties().contains(P::ACCEPTOR);
    c.note(|| format!("determinize {:?} of the transducer {}", ty, m.show()));
    let i_eps = m.trs.iter().flatten().any(|t| t.il == 0);
    let exp = if m.acyclic() { m.full_lang() } else { m.trim().lang(4, 4) };
    let Some(exp) = exp else { return Ok(()) };
    let mut by: BTreeMap<Vec<u32>, Vec<(Vec<u32>, W)>> = BTreeMap::new();
    for ((i, o), w) in &exp {
        by.entry(i.clone()).or_default().push((o.clone(), w.clone()));
    }
    let functional = by.values().all(|v| v.len() == 1);
    let res: anyhow::Result<VectorFst<W>> = determinize_with_config(&f, DeterminizeConfig::new(small_delta::<W>(), ty));
    let what = match ty {
        DeterminizeType::DeterminizeFunctional => "functional",
        DeterminizeType::DeterminizeNonFunctional => "non-functional",
        DeterminizeType::DeterminizeDisambiguate => "disambiguating",
    };
    match ty {
        DeterminizeType::DeterminizeDisambiguate if !W::IDEMP && !acceptor_known => {
            ensure!(res.is_err(), "disambiguation of a non-path weight accepted", "determinize in disambiguating mode accepted {} weights", W::NAME);
            return Ok(());
        }
        DeterminizeType::DeterminizeFunctional if !functional && trimmed && !i_eps => {
            ensure!(res.is_err(), "non-functional input accepted", "determinize in functional mode accepted a non-functional transducer and returned {}", RFst::from_fst(&res?)?.show());
            c.tag("refused");
            return Ok(());
        }
        DeterminizeType::DeterminizeFunctional if !functional || !trimmed || i_eps => {
            if res.is_err() {
                return Ok(());
            }
        }
        _ => {}
    }
    let d = res?;
    let r = RFst::from_fst(&d)?;
    if !i_eps && ty != DeterminizeType::DeterminizeNonFunctional {
        ensure!(is_det(&r), format!("{} result not deterministic", what), "{}", r.show());
    }
    // one transition per ordinary input label in every mode
    for v in &r.trs {
        let l: Vec<u32> = v.iter().map(|t| t.il).filter(|l| *l != 0).collect();
        let s: BTreeSet<u32> = l.iter().cloned().collect();
        ensure!(l.len() == s.len(), format!("{} result repeats an input label", what), "{}", r.show());
    }
    let rt = r.trim();
    let got = if m.acyclic() { rt.full_lang() } else { rt.lang(4, 4) };
    let Some(got) = got else { return Ok(()) };
    if ty == DeterminizeType::DeterminizeDisambiguate && !acceptor_known {
        if i_eps {
            return Ok(());
        }
        let mut gi: BTreeMap<Vec<u32>, (Vec<u32>, W)> = BTreeMap::new();
        for ((i, o), w) in &got {
            ensure!(gi.insert(i.clone(), (o.clone(), w.clone())).is_none(), "disambiguating mode keeps two outputs", "input {:?} has two outputs: {}", i, r.show());
        }
        ensure!(gi.keys().eq(by.keys()), "disambiguating mode changes the input strings", "{:?}, expected {:?}", gi.keys(), by.keys());
        for (i, (o, w)) in &gi {
            let mut best = W::zero();
            for (_, x) in &by[i] {
                best = best.plus(x)?;
            }
            ensure!(best.close(w), "disambiguating mode: weight", "input {:?}: weight {} but the best is {}", i, w.show(), best.show());
            ensure!(by[i].iter().any(|(x, y)| x == o && y.close(w)), "disambiguating mode: output", "input {:?}: output {:?} with {} is not one of {:?}", i, o, w.show(), by[i]);
        }
    } else {
        check_lang(&format!("determinize ({})", what), &exp, &got)?;
    }
    let d2: VectorFst<W> = determinize_with_config(&f, DeterminizeConfig::new(small_delta::<W>(), ty))?;
    // approximate equality of rounded weights may merge differently
    ensure!(!W::IDEMP || d.num_states() == d2.num_states(), format!("{}: size changes from run to run", what), "{} states, then {} for the same input", d.num_states(), d2.num_states());
    c.nontrivial = !is_det(&m) && exp.len() >= 2;
    Ok(())
}

fn distance(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let m: RFst<W> = machine(c, true);
    let mut f = know(c, &m)?;
    f.compute_and_update_properties(P::ACCEPTOR | P::NOT_ACCEPTOR)?;
    c.note(|| format!("determinize_with_distance of {}", m.show()));
    let ind = shortest_distance(&f, true)?;
    let (d, out): (VectorFst<W>, Vec<W>) = determinize_with_distance(&f, &ind, rustfst::KDELTA)?;
    let r = RFst::from_fst(&d)?;
    ensure!(is_det(&r), "result not deterministic", "{}", r.show());
    let ok = same_lang("determinize_with_distance", &m, &r, 5)?;
    let Some(exp) = crate::props::p20::rdist(&r) else { return Ok(()) };
    ensure!(out.len() == r.n(), "distance: length", "{} distances for {} states", out.len(), r.n());
    for s in 0..r.n() {
        ensure!(out[s].close(&exp[s]), "distance: value", "state {}: distance {} but the distance to a final state is {}; machine {}", s, out[s].show(), exp[s].show(), r.show());
    }
    c.nontrivial = ok && !is_det(&m) && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}
