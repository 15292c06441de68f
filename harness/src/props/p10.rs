use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p08::*;
use crate::*;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::SimpleHashMapCache;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        subs: vec![
            Sub { name: "output_side", rule: "the composition accepts something and the looking-ahead machine has an epsilon on the join", quick: 500_000, thorough: 5_000_000, f: |c| ws(c, 0) },
            Sub { name: "input_side", rule: "the composition accepts something and the looking-ahead machine has an epsilon on the join", quick: 500_000, thorough: 5_000_000, f: |c| ws(c, 1) },
            Sub { name: "transition_look_ahead", rule: "the composition accepts something and epsilons occur on the join", quick: 500_000, thorough: 5_000_000, f: |c| if c.chance(1, 3) { tr_look::<LogWeight>(c) } else { tr_look::<TropicalWeight>(c) } },
            Sub { name: "reachable", rule: "some label is reachable through an epsilon and some is not", quick: 200_000, thorough: 2_000_000, f: reachable },
            Sub { name: "intervals", rule: "at least 2 overlapping or adjacent intervals", quick: 200_000, thorough: 2_000_000, f: intervals },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => ws(c, 0), _ => ws(c, 1) }) },
        ],
    }
}

fn ws(c: &mut Ctx, side: usize) -> R {
    match c.below(3) {
        0 => look::<LogWeight>(c, side),
        _ => look::<TropicalWeight>(c, side),
    }
}

#[derive(Debug, Clone, PartialOrd, PartialEq)]
pub struct OFlags {}
impl MatcherFlagsTrait for OFlags {
    fn flags() -> MatcherFlags {
        MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX
    }
}
#[derive(Debug, Clone, PartialOrd, PartialEq)]
pub struct OFull {}
impl MatcherFlagsTrait for OFull {
    fn flags() -> MatcherFlags {
        MatcherFlags::OLABEL_LOOKAHEAD_FLAGS
    }
}
#[derive(Debug, Clone, PartialOrd, PartialEq)]
pub struct IFull {}
impl MatcherFlagsTrait for IFull {
    fn flags() -> MatcherFlags {
        MatcherFlags::ILABEL_LOOKAHEAD_FLAGS
    }
}

type V<S> = VectorFst<S>;
type Sm<S, F> = SortedMatcher<S, F, Arc<F>>;
type La<S, F, FL> = LabelLookAheadMatcher<S, F, Arc<F>, Sm<S, F>, FL>;
type LaFst<S, FL> = MatcherFst<S, V<S>, Arc<V<S>>, La<S, V<S>, FL>, LabelReachableData>;

macro_rules! run {
    ($a:expr, $b:expr, $m1:ty, $m2:ty, $x1:expr, $x2:expr, $cf:ty) => {{
        let cf = <$cf>::new(Arc::clone(&$a), Arc::clone(&$b), Some($x1), Some($x2))?;
        let opts = ComposeFstOpOptions::<_, _, $cf, _>::new(None, None, cf, None);
        let d = ComposeFst::<_, _, _, _, _, $m1, $m2, $cf, SimpleHashMapCache<_>>::new_with_options(Arc::clone(&$a), Arc::clone(&$b), opts)?;
        let r: V<W> = d.compute()?;
        r
    }};
}

fn compose_out<W: TW + SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring, FL: MatcherFlagsTrait + PartialEq>(fa: &V<W>, fb: &V<W>, stack: usize) -> anyhow::Result<V<W>> {
    let mut b = fb.clone();
    type F1<W, FL> = LaFst<W, FL>;
    let a = Arc::new(F1::<W, FL>::new_with_relabeling(fa.clone(), &mut b, true)?);
    tr_sort(&mut b, ILabelCompare {});
    let b = Arc::new(b);
    type M1<W, FL> = La<W, F1<W, FL>, FL>;
    type M2<W> = Sm<W, V<W>>;
    let x1 = <M1<W, FL>>::new_with_data(Arc::clone(&a), MatchType::MatchOutput, a.data(MatchType::MatchOutput).cloned())?;
    let x2 = <M2<W>>::new(Arc::clone(&b), MatchType::MatchInput)?;
    type Al<W, FL> = AltSequenceComposeFilterBuilder<W, F1<W, FL>, V<W>, Arc<F1<W, FL>>, Arc<V<W>>, M1<W, FL>, M2<W>>;
    type Lk<W, FL> = LookAheadComposeFilterBuilder<W, F1<W, FL>, V<W>, Arc<F1<W, FL>>, Arc<V<W>>, M1<W, FL>, M2<W>, Al<W, FL>, SMatchOutput>;
    type Pw<W, FL> = PushWeightsComposeFilterBuilder<W, F1<W, FL>, V<W>, Arc<F1<W, FL>>, Arc<V<W>>, M1<W, FL>, M2<W>, Lk<W, FL>, SMatchOutput>;
    type Pl<W, FL> = PushLabelsComposeFilterBuilder<W, F1<W, FL>, V<W>, Arc<F1<W, FL>>, Arc<V<W>>, M1<W, FL>, M2<W>, Pw<W, FL>, SMatchOutput>;
    type Pl0<W, FL> = PushLabelsComposeFilterBuilder<W, F1<W, FL>, V<W>, Arc<F1<W, FL>>, Arc<V<W>>, M1<W, FL>, M2<W>, Lk<W, FL>, SMatchOutput>;
    Ok(match stack {
        0 => run!(a, b, M1<W, FL>, M2<W>, x1, x2, Lk<W, FL>),
        1 => run!(a, b, M1<W, FL>, M2<W>, x1, x2, Pw<W, FL>),
        2 => run!(a, b, M1<W, FL>, M2<W>, x1, x2, Pl<W, FL>),
        _ => run!(a, b, M1<W, FL>, M2<W>, x1, x2, Pl0<W, FL>),
    })
}

fn compose_in<W: TW + SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring, FL: MatcherFlagsTrait + PartialEq>(fa: &V<W>, fb: &V<W>, stack: usize) -> anyhow::Result<V<W>> {
    let mut a = fa.clone();
    type F2<W, FL> = LaFst<W, FL>;
    let b = Arc::new(F2::<W, FL>::new_with_relabeling(fb.clone(), &mut a, false)?);
    tr_sort(&mut a, OLabelCompare {});
    let a = Arc::new(a);
    type M1<W> = Sm<W, V<W>>;
    type M2<W, FL> = La<W, F2<W, FL>, FL>;
    let x1 = <M1<W>>::new(Arc::clone(&a), MatchType::MatchOutput)?;
    let x2 = <M2<W, FL>>::new_with_data(Arc::clone(&b), MatchType::MatchInput, b.data(MatchType::MatchInput).cloned())?;
    // the only base filter the library allows under look-ahead; on this side it is exact when
    // the other machine has no epsilon on the join
    type Sq<W, FL> = AltSequenceComposeFilterBuilder<W, V<W>, F2<W, FL>, Arc<V<W>>, Arc<F2<W, FL>>, M1<W>, M2<W, FL>>;
    type Lk<W, FL> = LookAheadComposeFilterBuilder<W, V<W>, F2<W, FL>, Arc<V<W>>, Arc<F2<W, FL>>, M1<W>, M2<W, FL>, Sq<W, FL>, SMatchInput>;
    type Pw<W, FL> = PushWeightsComposeFilterBuilder<W, V<W>, F2<W, FL>, Arc<V<W>>, Arc<F2<W, FL>>, M1<W>, M2<W, FL>, Lk<W, FL>, SMatchInput>;
    type Pl<W, FL> = PushLabelsComposeFilterBuilder<W, V<W>, F2<W, FL>, Arc<V<W>>, Arc<F2<W, FL>>, M1<W>, M2<W, FL>, Pw<W, FL>, SMatchInput>;
    type Pl0<W, FL> = PushLabelsComposeFilterBuilder<W, V<W>, F2<W, FL>, Arc<V<W>>, Arc<F2<W, FL>>, M1<W>, M2<W, FL>, Lk<W, FL>, SMatchInput>;
    Ok(match stack {
        0 => run!(a, b, M1<W>, M2<W, FL>, x1, x2, Lk<W, FL>),
        1 => run!(a, b, M1<W>, M2<W, FL>, x1, x2, Pw<W, FL>),
        2 => run!(a, b, M1<W>, M2<W, FL>, x1, x2, Pl<W, FL>),
        _ => run!(a, b, M1<W>, M2<W, FL>, x1, x2, Pl0<W, FL>),
    })
}

/// Many labels shared unevenly between the states, so that the labels reachable from one of them
/// form many intervals (`many`), or the same labels on few transitions per state.
fn wide<W: TW>(c: &mut Ctx, many: bool) -> RFst<W> {
    let n = 3 + c.below(2);
    let labels = 10 + c.below(5) as u32;
    let mut m = RFst::new(n);
    m.start = Some(0);
    m.fin[n - 1] = Some(W::gen(c));
    for s in 0..n - 1 {
        if many {
            let skip = c.below(4);
            for l in 1..=labels {
                if s == 0 && skip == 0 || c.chance(1, 2) {
                    let t = s + 1 + c.below(n - s - 1);
                    m.trs[s].push(RTr { il: l, ol: l, w: W::gen(c), n: t });
                }
            }
            if c.chance(1, 3) {
                m.trs[s].push(RTr { il: 0, ol: 0, w: W::gen(c), n: s + 1 });
            }
        } else {
            for _ in 0..2 + c.below(2) {
                let t = s + 1 + c.below(n - s - 1);
                let (il, ol) = (1 + c.below(labels as usize) as u32, 1 + c.below(3) as u32);
                m.trs[s].push(RTr { il, ol: if c.bool() { il } else { ol }, w: W::gen(c), n: t });
            }
        }
    }
    m
}

fn look<W: TW + SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring>(c: &mut Ctx, side: usize) -> R {
    let acyclic = !W::IDEMP || c.chance(2, 3);
    let k = Cfg { max_states: 5, max_out: 3, labels: 4, eps: *c.pick(&[0usize, 25, 50]), acyclic, degenerate: c.chance(1, 10), ..Default::default() };
    let (mut a, b): (RFst<W>, RFst<W>) = if c.chance(1, 6) {
        let (x, y) = (wide(c, true), wide(c, false));
        if side == 0 { (x, y) } else { (y, x) }
    } else {
        (gen_rfst(c, &k), gen_rfst(c, &k))
    };
    if side == 1 {
        a.trs.iter_mut().flatten().filter(|t| t.ol == 0).for_each(|t| t.ol = 1);
    }
    let (fa, fb) = (realize(c, &a), realize(c, &b));
    let stack = c.below(4);
    let full = c.bool();
    c.note(|| format!("look-ahead side {} stack {} full flags {}\nA {}\nB {}", side + 1, ["look-ahead", "push weights", "push labels and weights", "push labels"][stack], full, a.show(), b.show()));
    let r = match (side, full) {
        (0, false) => compose_out::<W, OFlags>(&fa, &fb, stack)?,
        (0, true) => compose_out::<W, OFull>(&fa, &fb, stack)?,
        _ => compose_in::<W, IFull>(&fa, &fb, stack)?,
    };
    let what = format!("look-ahead composition (side {}, stack {})", side + 1, stack);
    let m = RFst::from_fst(&r)?;
    m.validate()?;
    check_props(&what, r.properties(), &m)?;
    let Some(e) = ref_compose(&a, &b) else { return Ok(()) };
    same_lang(&what, &e, &m, 4)?;
    let eps = if side == 0 { a.trs.iter().flatten().any(|t| t.ol == 0) } else { b.trs.iter().flatten().any(|t| t.il == 0) };
    c.nontrivial = eps && e.lang(4, 4).map_or(false, |l| !l.is_empty());
    Ok(())
}

macro_rules! fl {
    ($n:ident, $e:expr) => {
        #[derive(Debug, Clone, PartialOrd, PartialEq)]
        pub struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                $e
            }
        }
    };
}
const BASE: MatcherFlags = MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER.union(MatcherFlags::INPUT_LOOKAHEAD_MATCHER).union(MatcherFlags::LOOKAHEAD_EPSILONS).union(MatcherFlags::LOOKAHEAD_NON_EPSILONS);
fl!(T0, BASE);
fl!(T1, BASE.union(MatcherFlags::LOOKAHEAD_WEIGHT));
fl!(T2, BASE.union(MatcherFlags::LOOKAHEAD_PREFIX));
fl!(T3, BASE.union(MatcherFlags::LOOKAHEAD_WEIGHT).union(MatcherFlags::LOOKAHEAD_PREFIX).union(MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX));
fl!(T4, BASE.union(MatcherFlags::LOOKAHEAD_WEIGHT).union(MatcherFlags::LOOKAHEAD_PREFIX));

fn compose_tr<W: TW + SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring, FL: MatcherFlagsTrait + PartialEq, SMT: lookahead_filters::lookahead_selector::MatchTypeTrait>(fa: &V<W>, fb: &V<W>, stack: usize) -> anyhow::Result<V<W>> {
    let a = Arc::new(fa.clone());
    let b = Arc::new(fb.clone());
    type M<W, FL> = TrLookAheadMatcher<W, V<W>, Arc<V<W>>, Sm<W, V<W>>, FL>;
    let x1 = <M<W, FL>>::new(Arc::clone(&a), MatchType::MatchOutput)?;
    let x2 = <M<W, FL>>::new(Arc::clone(&b), MatchType::MatchInput)?;
    type Al<W, FL> = AltSequenceComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, M<W, FL>, M<W, FL>>;
    type Lk<W, FL, SMT> = LookAheadComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, M<W, FL>, M<W, FL>, Al<W, FL>, SMT>;
    type Pw<W, FL, SMT> = PushWeightsComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, M<W, FL>, M<W, FL>, Lk<W, FL, SMT>, SMT>;
    type Pl<W, FL, SMT> = PushLabelsComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, M<W, FL>, M<W, FL>, Pw<W, FL, SMT>, SMT>;
    Ok(match stack {
        0 => run!(a, b, M<W, FL>, M<W, FL>, x1, x2, Lk<W, FL, SMT>),
        1 => run!(a, b, M<W, FL>, M<W, FL>, x1, x2, Pw<W, FL, SMT>),
        _ => run!(a, b, M<W, FL>, M<W, FL>, x1, x2, Pl<W, FL, SMT>),
    })
}

fn tr_look<W: TW + SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring>(c: &mut Ctx) -> R {
    let acyclic = !W::IDEMP || c.chance(2, 3);
    let k = Cfg { max_states: 5, max_out: 3, labels: 3, eps: *c.pick(&[0usize, 20, 40]), acyclic, degenerate: c.chance(1, 10), ..Default::default() };
    let (mut a, mut b): (RFst<W>, RFst<W>) = (gen_rfst(c, &k), gen_rfst(c, &k));
    let stack = c.below(3);
    let flags = c.below(5);
    let side = c.below(2);
    if flags == 3 && side == 1 {
        // prefixes that skip epsilons rely on the sequence filter, which the library does not offer on this side
        a.trs.iter_mut().flatten().filter(|t| t.ol == 0).for_each(|t| t.ol = 1);
    }
    a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol));
    b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il));
    let (mut fa, mut fb) = (realize(c, &a), realize(c, &b));
    know_sorted(&mut fa)?;
    know_sorted(&mut fb)?;
    c.note(|| format!("transition look-ahead side {} stack {} flags {}\nA {}\nB {}", side + 1, stack, flags, a.show(), b.show()));
    let r = match (flags, side) {
        (0, 0) => compose_tr::<W, T0, SMatchOutput>(&fa, &fb, stack)?,
        (0, _) => compose_tr::<W, T0, SMatchInput>(&fa, &fb, stack)?,
        (1, 0) => compose_tr::<W, T1, SMatchOutput>(&fa, &fb, stack)?,
        (1, _) => compose_tr::<W, T1, SMatchInput>(&fa, &fb, stack)?,
        (2, 0) => compose_tr::<W, T2, SMatchOutput>(&fa, &fb, stack)?,
        (2, _) => compose_tr::<W, T2, SMatchInput>(&fa, &fb, stack)?,
        (3, 0) => compose_tr::<W, T3, SMatchOutput>(&fa, &fb, stack)?,
        (3, _) => compose_tr::<W, T3, SMatchInput>(&fa, &fb, stack)?,
        (_, 0) => compose_tr::<W, T4, SMatchOutput>(&fa, &fb, stack)?,
        _ => compose_tr::<W, T4, SMatchInput>(&fa, &fb, stack)?,
    };
    let what = format!("transition look-ahead composition (side {}, stack {}, flags {})", side + 1, stack, flags);
    let m = RFst::from_fst(&r)?;
    m.validate()?;
    check_props(&what, r.properties(), &m)?;
    let Some(e) = ref_compose(&a, &b) else { return Ok(()) };
    same_lang(&what, &e, &m, 4)?;
    let eps = a.trs.iter().flatten().any(|t| t.ol == 0) || b.trs.iter().flatten().any(|t| t.il == 0);
    c.nontrivial = eps && e.lang(4, 4).map_or(false, |l| !l.is_empty());
    Ok(())
}

/// labels (and "end of path") reachable from each state through transitions whose label is epsilon
fn reach_model<W: TW>(m: &RFst<W>, input: bool) -> Vec<(BTreeSet<Label>, bool)> {
    (0..m.n())
        .map(|s| {
            let mut seen = vec![false; m.n()];
            let mut todo = vec![s];
            seen[s] = true;
            let mut l = BTreeSet::new();
            let mut fin = false;
            while let Some(q) = todo.pop() {
                fin |= m.fin[q].is_some();
                for t in &m.trs[q] {
                    let x = if input { t.il } else { t.ol };
                    if x != 0 {
                        l.insert(x);
                    } else if !seen[t.n] {
                        seen[t.n] = true;
                        todo.push(t.n);
                    }
                }
            }
            (l, fin)
        })
        .collect()
}

fn reachable(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let k = Cfg { max_states: 7, max_out: 3, labels: 6, eps: 45, acyclic: c.bool(), ..Default::default() };
    let wid = c.chance(1, 4);
    let m: RFst<W> = if wid { wide(c, true) } else { gen_rfst(c, &k) };
    let f = realize(c, &m);
    let input = c.bool();
    c.note(|| format!("input {}\n{}", input, m.show()));
    let mut lr = LabelReachable::new(&f, input)?;
    let e = reach_model(&m, input);
    let map: HashMap<Label, Label> = lr.data().label2index().clone();
    // distinct labels have distinct indices, none of them epsilon
    let idx: BTreeSet<Label> = map.values().cloned().collect();
    ensure!(idx.len() == map.len() && !idx.contains(&0), "label reachability: indices are not distinct", "{:?}", map);
    let all: BTreeSet<Label> = m.trs.iter().flatten().map(|t| if input { t.il } else { t.ol }).filter(|l| *l != 0).collect();
    for l in &all {
        ensure!(map.contains_key(l), "label reachability: a label has no index", "{}", l);
    }
    // relabelling pairs: every label goes to its index, and when asked so no other label goes to one
    for avoid in [false, true] {
        let pairs = lr.data().relabel_pairs(avoid);
        let to: HashMap<Label, Label> = pairs.iter().cloned().collect();
        ensure!(to.len() == pairs.len(), "relabelling pairs: a label occurs twice", "{:?}", pairs);
        for l in 1..40u32 {
            let g = to.get(&l).cloned().unwrap_or(l);
            if all.contains(&l) {
                ensure!(g == map[&l], "relabelling pairs: wrong index", "label {} goes to {}, not {}", l, g, map[&l]);
            } else if avoid {
                ensure!(!idx.contains(&g), "relabelling pairs: an unknown label collides with an index", "label {} goes to {}: {:?}", l, g, map);
            }
        }
    }
    let anyfinal = m.fin.iter().any(|f| f.is_some());
    for s in 0..m.n() {
        for l in &all {
            let g = lr.reach_label(s as u32, map[l])?;
            ensure!(g == e[s].0.contains(l), "label reachability: wrong answer for a label", "state {} label {} got {}", s, l, g);
        }
        if anyfinal {
            let g = lr.reach_final(s as u32)?;
            ensure!(g == e[s].1, "label reachability: wrong answer for the end of a path", "state {} got {}", s, g);
        }
    }
    ensure!(lr.reach_label(m.n() as u32, 1).is_err() && lr.reach_final(m.n() as u32).is_err(), "label reachability: a state that does not exist is answered", "");
    // the range of transitions of another state that can be read
    let n = c.below(9);
    let mut trs: Vec<(Label, W)> = vec![];
    for _ in 0..n {
        let l = c.below(if wid { 16 } else { 7 }) as u32;
        trs.push((map.get(&l).cloned().unwrap_or(if l == 0 { 0 } else { 100 + l }), gen_weight(c, &k)));
    }
    trs.sort_by_key(|t| t.0);
    let mut g: V<W> = VectorFst::new();
    let s0 = g.add_state();
    let reach_input = c.bool();
    for (l, w) in &trs {
        let o = c.below(4) as u32;
        g.add_tr(s0, if reach_input { Tr::new(*l, o, w.clone(), s0) } else { Tr::new(o, *l, w.clone(), s0) })?;
    }
    g.compute_and_update_properties(SORT_BITS)?;
    lr.reach_init(&g, reach_input)?;
    if m.n() > 0 {
        let s = c.below(m.n());
        let (lo, hi) = {
            let x = c.below(n + 1);
            let y = c.below(n + 1);
            (x.min(y), x.max(y))
        };
        let ok = |l: Label| l != 0 && e[s].0.iter().any(|x| map[x] == l);
        let hits: Vec<usize> = (lo..hi).filter(|i| ok(trs[*i].0)).collect();
        let r = lr.reach(s as u32, g.get_trs(s0)?, lo, hi, true)?;
        match (&r, hits.first()) {
            (None, None) => {}
            (Some((b, en, w)), Some(first)) => {
                ensure!(b == first && *en == hits.last().unwrap() + 1, "label reachability: wrong range of readable transitions", "state {} got {}..{} expected {:?}", s, b, en, hits);
                let mut sum = W::zero();
                for i in &hits {
                    sum = sum.sum(&trs[*i].1).unwrap();
                }
                ensure!(sum.close(w), "label reachability: wrong weight of the readable transitions", "got {} expected {}", w, sum);
            }
            _ => fail!("label reachability: wrong answer about readable transitions", "state {} got {:?} expected {:?}", s, r.map(|r| (r.0, r.1)), hits),
        }
    }
    let through = (0..m.n()).any(|s| e[s].0.iter().any(|l| !m.trs[s].iter().any(|t| (if input { t.il } else { t.ol }) == *l)));
    c.nontrivial = through && e.iter().any(|x| x.0.len() < all.len());
    Ok(())
}

fn intervals(c: &mut Ctx) -> R {
    let mut s = IntervalSet::default();
    let mut m: BTreeSet<usize> = BTreeSet::new();
    let mut list = vec![];
    for _ in 0..c.below(7) {
        let b = c.below(12);
        let lo = if c.chance(1, 6) { 0 } else { 1 };
        let e = b + c.range(lo, 5);
        list.push((b, e));
    }
    c.note(|| format!("{:?}", list));
    let cut = if list.is_empty() { 0 } else { c.below(list.len() + 1) };
    let mut t = IntervalSet::default();
    for (i, (b, e)) in list.iter().enumerate() {
        m.extend(*b..*e);
        if i < cut { &mut s } else { &mut t }.push(IntInterval::new(*b, *e));
    }
    if c.bool() {
        s.normalize();
    }
    if c.bool() {
        t.normalize();
    }
    s.union(t);
    s.normalize();
    for v in 0..20 {
        ensure!(s.member(v) == m.contains(&v), "interval set: wrong membership", "{} in {:?}", v, s);
    }
    ensure!(s.count() == Some(m.len()), "interval set: wrong count", "{:?} expected {}", s.count(), m.len());
    let iv: Vec<(usize, usize)> = s.iter().map(|i| (i.begin, i.end)).collect();
    ensure!(iv.iter().all(|i| i.0 < i.1) && iv.windows(2).all(|w| w[0].1 < w[1].0), "interval set: not normal after normalize", "{:?}", iv);
    ensure!(s.singleton() == (m.len() == 1), "interval set: wrong singleton answer", "{:?}", iv);
    c.nontrivial = list.len() >= 2 && iv.len() < list.len();
    Ok(())
}
