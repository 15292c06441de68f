//! C31: matchers, label by label and state by state, against a scan of the transitions.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::*;
use rustfst::fst_traits::CoreFst;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::Arc;

type V<W> = VectorFst<W>;

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        subs: vec![
            Sub { name: "sorted", rule: "some state has 2 or more transitions with one label and another label", quick: 300_000, thorough: 3_000_000, f: |c| if c.bool() { sorted::<TropicalWeight>(c) } else { sorted::<StringWeightLeft>(c) } },
            Sub { name: "sigma", rule: "some state has wildcard and other transitions", quick: 300_000, thorough: 3_000_000, f: sigma },
            Sub { name: "multi_eps", rule: "two or more labels act as epsilons and occur at one state", quick: 300_000, thorough: 3_000_000, f: multi_eps },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => sorted::<TropicalWeight>(c), 1 => sigma(c), _ => multi_eps(c) }) },
        ],
    }
}

fn label<W: Semiring>(t: &Tr<W>, input: bool) -> Label {
    if input {
        t.ilabel
    } else {
        t.olabel
    }
}

/// None stands for the implicit epsilon loop
type Items<W> = Vec<Option<Tr<W>>>;

fn collect<W: Semiring>(it: impl Iterator<Item = IterItemMatcher<W>>) -> Items<W> {
    it.take(200)
        .map(|x| match x {
            IterItemMatcher::Tr(t) => Some(t),
            IterItemMatcher::EpsLoop => None,
        })
        .collect()
}

fn key<W: Semiring + Debug>(x: &Items<W>) -> Vec<String> {
    let mut v: Vec<String> = x.iter().map(|t| format!("{:?}", t)).collect();
    v.sort();
    v
}

fn by_label<W: Semiring>(trs: &[Tr<W>], input: bool, l: Label) -> Items<W> {
    trs.iter().filter(|t| label(t, input) == l).cloned().map(Some).collect()
}

/// what a plain matcher answers
fn plain<W: Semiring>(trs: &[Tr<W>], input: bool, l: Label) -> Items<W> {
    match l {
        EPS_LABEL => std::iter::once(None).chain(by_label(trs, input, EPS_LABEL)).collect(),
        x if x == NO_LABEL => by_label(trs, input, EPS_LABEL),
        _ => by_label(trs, input, l),
    }
}

fn setup<W: TW>(c: &mut Ctx) -> R<(V<W>, bool, MatchType)> {
    let k = Cfg { max_states: 4, max_out: 7, labels: 4, eps: 20, big_labels: true, ..Default::default() };
    let r = gen_rfst::<W>(c, &k);
    let input = c.bool();
    let mut f: V<W> = r.vector();
    if c.bool() {
        f.compute_and_update_properties_all()?;
    }
    if input {
        tr_sort(&mut f, ILabelCompare {});
    } else {
        tr_sort(&mut f, OLabelCompare {});
    }
    c.note(|| format!("{} matched on the {}", RFst::from_fst(&f).unwrap().show(), if input { "input" } else { "output" }));
    Ok((f, input, if input { MatchType::MatchInput } else { MatchType::MatchOutput }))
}

fn labels<W: Semiring>(f: &V<W>) -> Vec<Label> {
    let mut l: BTreeSet<Label> = [EPS_LABEL, NO_LABEL, 1, 2, 3, 4, 5, 9].into_iter().collect();
    for s in f.states_iter() {
        for t in f.get_trs(s).unwrap().trs() {
            l.insert(t.ilabel);
            l.insert(t.olabel);
        }
    }
    l.into_iter().collect()
}

fn sorted<W: TW>(c: &mut Ctx) -> R {
    let (f, input, mt) = setup::<W>(c)?;
    for s in f.states_iter() {
        let trs = f.get_trs(s)?;
        let l: Vec<Label> = trs.trs().iter().map(|t| label(t, input)).collect();
        let d: BTreeSet<Label> = l.iter().copied().collect();
        c.nontrivial |= d.len() >= 2 && d.len() < l.len();
    }
    let k: ConstFst<W> = f.clone().into();
    macro_rules! judge {
        ($m:expr, $f:expr, $what:expr) => {{
            let m = $m;
            for s in $f.states_iter() {
                let trs = $f.get_trs(s)?;
                for l in labels(&f) {
                    let got = collect(m.iter(s, l)?);
                    let want = plain(trs.trs(), input, l);
                    ensure!(key(&got) == key(&want), format!("{}-iter", $what), "state {} label {}: {:?} instead of {:?}", s, l, got, want);
                }
                ensure!(m.final_weight(s)? == $f.final_weight(s)?, format!("{}-final", $what), "final weight of {}", s);
                ensure!(m.priority(s)? == trs.len(), format!("{}-priority", $what), "priority of {} is {} with {} transitions", s, m.priority(s)?, trs.len());
            }
            let n = $f.states_iter().count() as StateId;
            ensure!(m.iter(n, 1).is_err() && m.final_weight(n).is_err() && m.priority(n).is_err(), format!("{}-unknown", $what), "a state that does not exist is answered");
            ensure!(m.match_type(true)? == mt, format!("{}-type", $what), "sorted machine: match type {:?}", m.match_type(true)?);
        }};
    }
    judge!(SortedMatcher::<W, V<W>, _>::new(&f, mt)?, &f, "vector");
    judge!(SortedMatcher::<W, V<W>, _>::new(Arc::new(f.clone()), mt)?, &f, "shared");
    judge!(SortedMatcher::<W, ConstFst<W>, _>::new(&k, mt)?, &k, "const");
    // the other side: what is known decides
    let other = if input { MatchType::MatchOutput } else { MatchType::MatchInput };
    let m = SortedMatcher::<W, V<W>, _>::new(&f, other)?;
    let is = f.states_iter().all(|s| f.get_trs(s).unwrap().trs().windows(2).all(|w| label(&w[0], !input) <= label(&w[1], !input)));
    // (asking about a machine of which it was never computed may be refused)
    let known = f.properties().intersects(if input { FstProperties::O_LABEL_SORTED | FstProperties::NOT_O_LABEL_SORTED } else { FstProperties::I_LABEL_SORTED | FstProperties::NOT_I_LABEL_SORTED });
    let truth = if is { other } else { MatchType::MatchNone };
    match m.match_type(true) {
        Ok(t) => ensure!(t == truth, "type-tested", "other side sorted {}: {:?}", is, t),
        Err(e) => ensure!(!known, "type-tested", "other side sorted {}: {:?}", is, e),
    }
    let u = m.match_type(false)?;
    ensure!(u == truth || (u == MatchType::MatchUnknown && !known), "type-known", "untested match type {:?}, in truth {:?}", u, truth);
    Ok(())
}

fn sigma(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let (mut f, input, mt) = setup::<W>(c)?;
    if c.bool() {
        f.compute_and_update_properties_all()?;
    }
    let sl = *c.pick(&[1u32, 2, 3, 7]);
    let mode = c.below(3);
    let allowed: Option<HashSet<Label>> = if c.bool() { None } else { Some([0u32, 1, 2, 3, 4, 9].into_iter().filter(|_| c.bool()).collect()) };
    let acceptor = f.properties().contains(FstProperties::ACCEPTOR);
    let both = match mode {
        0 => acceptor,
        1 => true,
        _ => false,
    };
    c.note(|| format!("wildcard {} mode {} allowed {:?} rewrite both {}", sl, mode, allowed, both));
    let rm = match mode {
        0 => MatcherRewriteMode::MatcherRewriteAuto,
        1 => MatcherRewriteMode::MatcherRewriteAlways,
        _ => MatcherRewriteMode::MatcherRewriteNever,
    };
    let inner = Arc::new(SortedMatcher::<W, V<W>, &V<W>>::new(&f, mt)?);
    let m = SigmaMatcher::new(mt, sl, rm, inner, allowed.clone())?;
    for s in f.states_iter() {
        let trs = f.get_trs(s)?;
        let sig = by_label(trs.trs(), input, sl);
        c.nontrivial |= !sig.is_empty() && sig.len() < trs.len();
        for l in labels(&f) {
            if l == sl {
                ensure!(m.iter(s, l).is_err(), "sigma-itself", "looking for the wildcard itself is answered");
                continue;
            }
            let mut want = plain(trs.trs(), input, l);
            if l != EPS_LABEL && l != NO_LABEL && allowed.as_ref().map(|a| a.contains(&l)).unwrap_or(true) {
                for t in &sig {
                    let mut t = t.clone().unwrap();
                    if input || (both && t.ilabel == sl) {
                        t.ilabel = l;
                    }
                    if !input || (both && t.olabel == sl) {
                        t.olabel = l;
                    }
                    want.push(Some(t));
                }
            }
            let got = collect(m.iter(s, l)?);
            ensure!(key(&got) == key(&want), "sigma-iter", "state {} label {}: {:?} instead of {:?}", s, l, got, want);
        }
        let p = if sig.is_empty() { trs.len() } else { REQUIRE_PRIORITY };
        ensure!(m.priority(s)? == p, "sigma-priority", "priority of {} is {}, not {}", s, m.priority(s)?, p);
        ensure!(m.final_weight(s)? == f.final_weight(s)?, "sigma-final", "final weight of {}", s);
    }
    ensure!(m.flags().contains(MatcherFlags::REQUIRE_MATCH), "sigma-flags", "a wildcard matcher does not require to be matched");
    ensure!(m.sigma_label() == sl, "sigma-label", "{}", m.sigma_label());
    Ok(())
}

fn multi_eps(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let (f, input, mt) = setup::<W>(c)?;
    let mut flags = MultiEpsMatcherFlags::empty();
    if c.chance(3, 4) {
        flags |= MultiEpsMatcherFlags::MULTI_EPS_LOOP;
    }
    if c.chance(3, 4) {
        flags |= MultiEpsMatcherFlags::MULTI_EPS_LIST;
    }
    let mut m = MultiEpsMatcher::<W, V<W>, &V<W>, SortedMatcher<W, V<W>, &V<W>>>::new_with_opts(&f, mt, flags, None)?;
    let mut set: BTreeSet<Label> = BTreeSet::new();
    let mut hist = Vec::new();
    for _ in 0..1 + c.below(7) {
        let l = 1 + c.below(6) as Label;
        match c.weighted(&[10, 4, 1, 1]) {
            0 => {
                hist.push(format!("add {}", l));
                m.add_multi_eps_label(l)?;
                set.insert(l);
            }
            1 => {
                hist.push(format!("remove {}", l));
                m.remove_multi_eps_label(l)?;
                set.remove(&l);
            }
            2 => {
                hist.push("clear".into());
                m.clear_multi_eps_labels();
                set.clear();
            }
            _ => {
                ensure!(m.add_multi_eps_label(EPS_LABEL).is_err() && m.remove_multi_eps_label(EPS_LABEL).is_err(), "multi-eps-zero", "epsilon itself was taken as a multi-epsilon label");
            }
        }
    }
    c.note(|| format!("flags {:?}; {}", flags, hist.join(", ")));
    for s in f.states_iter() {
        let trs = f.get_trs(s)?;
        let here: BTreeSet<Label> = trs.trs().iter().map(|t| label(t, input)).filter(|l| set.contains(l)).collect();
        c.nontrivial |= here.len() >= 2;
        for l in labels(&f) {
            let want = if l == NO_LABEL {
                let mut w = plain(trs.trs(), input, l);
                if flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LIST) {
                    for x in &set {
                        w.extend(by_label(trs.trs(), input, *x));
                    }
                }
                w
            } else if flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LOOP) && set.contains(&l) {
                vec![None]
            } else {
                plain(trs.trs(), input, l)
            };
            let got = collect(m.iter(s, l)?);
            ensure!(key(&got) == key(&want), "multi-eps-iter", "state {} label {}: {:?} instead of {:?}", s, l, got, want);
        }
        ensure!(m.final_weight(s)? == f.final_weight(s)?, "multi-eps-final", "final weight of {}", s);
        ensure!(m.priority(s)? == trs.len(), "multi-eps-priority", "priority of {}", s);
    }
    Ok(())
}
