use crate::bprops::*;
use crate::ctx::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use rustfst::fst_properties::FstProperties as P;
use rustfst::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        subs: vec![
            Sub { name: "edits", rule: "at least 6 edits, machine with transitions, at least one property still known", quick: 100_000, thorough: 1_500_000, f: edits },
            Sub { name: "operations", rule: "at least one operation ran on a machine with transitions and three properties are known of the result", quick: 800_000, thorough: 10_000_000, f: operations },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, edits) },
        ],
    }
}

fn edits(c: &mut Ctx) -> R {
    match c.below(3) {
        0 => edits_w::<LogWeight>(c),
        _ => edits_w::<TropicalWeight>(c),
    }
}

fn edits_w<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 4, labels: 4, eps: *c.pick(&[0usize, 10, 30]), acyclic: c.chance(1, 3), acceptor: c.chance(1, 3), unweighted: c.chance(1, 4), neg: 0, ..Default::default() };
    let m = if c.chance(1, 4) { RFst::new(0) } else { gen_rfst::<W>(c, &k) };
    let mut h = Hist::new(m);
    if c.bool() {
        h.f.set_properties(true_props(&h.m));
    }
    let start = h.m.show();
    let n = c.range(1, 25);
    let mut had = false;
    for _ in 0..n {
        let r = h.step(c, &k, true).and_then(|_| check_props("after edit", h.f.properties(), &h.m));
        if r.is_err() {
            c.note(|| format!("start {} then {}", start, h.show()));
            return r;
        }
        had |= h.m.ntr() > 0;
        for (f, m) in &h.snaps {
            check_props("clone", f.properties(), m)?;
        }
    }
    c.note(|| format!("start {} then {}", start, h.show()));
    c.nontrivial = had && n >= 6 && !(h.f.properties() & P::all()).is_empty();
    Ok(())
}

type W = TropicalWeight;
type V = VectorFst<W>;

/// One operation on `f` (with `g` as other operand). None: the operation does not apply here.
fn operate(c: &mut Ctx, f: &V, g: &V, name: &mut &'static str) -> R<Option<V>> {
    use rustfst::algorithms::closure::*;
    use rustfst::algorithms::compose::*;
    use rustfst::algorithms::concat::*;
    use rustfst::algorithms::determinize::*;
    use rustfst::algorithms::encode::*;
    use rustfst::algorithms::factor_weight::factor_iterators::*;
    use rustfst::algorithms::factor_weight::*;
    use rustfst::algorithms::randgen::*;
    use rustfst::algorithms::replace::*;
    use rustfst::algorithms::rm_epsilon::*;
    use rustfst::algorithms::tr_mappers::*;
    use rustfst::algorithms::union::*;
    use rustfst::algorithms::weight_converters::*;
    use rustfst::algorithms::*;
    type G = GallicWeightLeft<W>;
    let m = RFst::from_fst(f)?;
    let mut h = f.clone();
    let ct = if c.bool() { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
    let op = c.below(40);
    macro_rules! lazy {
        ($e:expr) => {{
            let l = $e;
            let p0 = l.properties();
            let Some(lm) = RFst::from_any(&l, 60)? else { return Ok(None) };
            check_props(&format!("lazy {}", name), p0, &lm)?;
            check_props(&format!("lazy {}", name), l.properties(), &lm)?;
            l.compute::<V>()?
        }};
    }
    let set = |n: &mut &'static str, s: &'static str| *n = s;
    let small = m.n() <= 12 && g.num_states() <= 12;
    let r: V = match op {
        0 => {
            set(name, "concat");
            concat(&mut h, g)?;
            h
        }
        1 => {
            set(name, "union");
            union(&mut h, g)?;
            h
        }
        2 => {
            set(name, "closure");
            closure(&mut h, ct);
            h
        }
        3 => {
            set(name, "reverse");
            reverse(f)?
        }
        4 => {
            set(name, "invert");
            invert(&mut h);
            h
        }
        5 => {
            let p = if c.bool() { ProjectType::ProjectInput } else { ProjectType::ProjectOutput };
            set(name, "project");
            project(&mut h, p);
            h
        }
        6 if small => {
            set(name, "compose");
            let mut g = g.clone();
            tr_sort(&mut h, OLabelCompare {});
            tr_sort(&mut g, ILabelCompare {});
            let conf = ComposeConfig { connect: c.bool(), ..Default::default() };
            compose_with_config::<_, V, V, _, _, _>(&h, &g, conf)?
        }
        7 if m.acyclic() => {
            set(name, "determinize");
            let t = if c.bool() { DeterminizeType::DeterminizeDisambiguate } else { DeterminizeType::DeterminizeNonFunctional };
            if m.ntr() > 14 {
                return Ok(None);
            }
            match determinize_with_config::<_, V, V>(f, DeterminizeConfig::default().with_det_type(t)) {
                Ok(x) => x,
                Err(_) => return Ok(None),
            }
        }
        8 => {
            set(name, "minimize");
            if minimize_with_config(&mut h, MinimizeConfig::default().with_allow_nondet(true)).is_err() {
                return Ok(None);
            }
            h
        }
        9 => {
            set(name, "push_weights");
            push_weights(&mut h, if c.bool() { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal })?;
            h
        }
        10 => {
            set(name, "push");
            let t = PushType::PUSH_LABELS | if c.bool() { PushType::PUSH_WEIGHTS } else { PushType::empty() };
            push(f, if c.bool() { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal }, t)?
        }
        11 => {
            set(name, "rm_epsilon");
            rm_epsilon(&mut h)?;
            h
        }
        12 => {
            set(name, "rm_final_epsilon");
            rm_final_epsilon(&mut h)?;
            h
        }
        13 => {
            set(name, "connect");
            connect(&mut h)?;
            h
        }
        14 => {
            set(name, "top_sort");
            let _ = top_sort(&mut h);
            h
        }
        15 => {
            set(name, "tr_sort");
            if c.bool() {
                tr_sort(&mut h, ILabelCompare {});
            } else {
                tr_sort(&mut h, OLabelCompare {});
            }
            h
        }
        16 => {
            set(name, "tr_unique");
            tr_unique(&mut h);
            h
        }
        17 => {
            set(name, "tr_sum");
            tr_sum(&mut h);
            h
        }
        18 => {
            set(name, "state_sort");
            let mut o: Vec<u32> = (0..m.n() as u32).collect();
            for i in (1..o.len()).rev() {
                o.swap(i, c.below(i + 1));
            }
            state_sort(&mut h, &o)?;
            h
        }
        19 => {
            set(name, "shortest_path");
            let n = 1 + c.below(3);
            shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(n))?
        }
        20 if m.acyclic() => {
            set(name, "randgen");
            let s = c.src.below(1 << 16);
            randgen_with_config(f, RandGenConfig::new(UniformTrSelector::from_seed(s)).with_npath(3).with_weighted(c.bool()).with_remove_total_weight(true))?
        }
        21 | 22 if small => {
            set(name, "replace");
            // one label of f stands for g, another for a machine that may not be referred to
            let (root, la, lb) = *c.pick(&[(77, 3, 4), (3, 1, 2), (1, 2, 3), (2, 3, 1)]);
            let k = Cfg { max_states: 3, labels: 2, acceptor: c.bool(), neg: 0, ..Default::default() };
            let mut third = gen_rfst::<W>(c, &k);
            for t in third.trs.iter_mut().flatten() {
                t.ol += 10;
            }
            let third = realize(c, &third);
            let mut list = vec![(root, f.clone()), (la, g.clone())];
            if c.bool() {
                list.push((lb, third));
            }
            let uses = |m: &RFst<W>, l: u32| m.trs.iter().flatten().any(|t| t.ol == l);
            if uses(&m, root) || uses(&RFst::from_fst(g)?, root) || uses(&RFst::from_fst(g)?, la) {
                // no recursion here
                return Ok(None);
            }
            let eps = c.bool();
            if op == 21 {
                replace::<_, V, V, V>(list, root, eps)?
            } else {
                lazy!(ReplaceFst::<W, V, V>::new(list, root, eps)?)
            }
        }
        23 => {
            set(name, "encode");
            let t = *c.pick(&[0, 1, 2]);
            let t = match t {
                0 => EncodeType::EncodeLabels,
                1 => EncodeType::EncodeWeights,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            let tb = encode(&mut h, t)?;
            check_props("encode", h.properties(), &RFst::from_fst(&h)?)?;
            if c.bool() {
                set(name, "decode");
                decode(&mut h, tb)?;
            }
            h
        }
        24 => {
            set(name, "rm_weight map");
            tr_map(&mut h, &RmWeightMapper {})?;
            h
        }
        25 => {
            if c.bool() {
                set(name, "input epsilon map");
                tr_map(&mut h, &InputEpsilonMapper {})?;
            } else {
                set(name, "output epsilon map");
                tr_map(&mut h, &OutputEpsilonMapper {})?;
            }
            h
        }
        26 => {
            match c.below(4) {
                0 => {
                    set(name, "times map");
                    tr_map(&mut h, &TimesMapper::from_weight(W::gen(c)))?;
                }
                1 => {
                    set(name, "plus map");
                    tr_map(&mut h, &PlusMapper::from_weight(W::gen(c)))?;
                }
                2 => {
                    set(name, "invert weight map");
                    tr_map(&mut h, &InvertWeightMapper {})?;
                    check_props(name, h.properties(), &RFst::from_fst(&h)?)?;
                    tr_map(&mut h, &InvertWeightMapper {})?;
                }
                _ => {
                    set(name, "quantize map");
                    tr_map(&mut h, &QuantizeMapper::new(0.25))?;
                }
            }
            h
        }
        27 => {
            set(name, "relabel_pairs");
            let a: Vec<(u32, u32)> = (0..c.below(3)).map(|i| (i as u32 + 1, c.below(4) as u32)).collect();
            let b: Vec<(u32, u32)> = (0..c.below(3)).map(|i| (i as u32 + 1, c.below(4) as u32)).collect();
            relabel_pairs(&mut h, a, b)?;
            h
        }
        28 => {
            set(name, "gallic factoring");
            let mut to = ToGallicConverter {};
            let k: VectorFst<G> = weight_convert(f, &mut to)?;
            let km = RFst::from_fst(&k)?;
            check_gallic("to gallic", k.properties(), &km)?;
            let fw: VectorFst<G> = factor_weight::<_, VectorFst<G>, _, _, GallicFactorLeft<W>>(&k, FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS))?;
            check_gallic("factor_weight", fw.properties(), &RFst::from_fst(&fw)?)?;
            let mut from = FromGallicConverter { superfinal_label: 0 };
            weight_convert(&fw, &mut from)?
        }
        29 => {
            set(name, "simple weight conversion");
            let k: VectorFst<LogWeight> = weight_convert(f, &mut SimpleWeightConverter {})?;
            check_props("to log", k.properties(), &RFst::from_fst(&k)?)?;
            weight_convert(&k, &mut SimpleWeightConverter {})?
        }
        30 => {
            set(name, "condense");
            let (_, k): (_, V) = condense(f)?;
            k
        }
        31 => {
            set(name, "const and back");
            let k: ConstFst<W> = f.clone().into();
            check_props("ConstFst", k.properties(), &m)?;
            if c.bool() {
                fst_convert_from_ref(&k)
            } else {
                fst_convert(k)
            }
        }
        32 => {
            set(name, "binary round trip");
            let mut b = vec![];
            if c.bool() {
                f.store(&mut b)?;
                V::load(&b)?
            } else {
                let k: ConstFst<W> = f.clone().into();
                k.store(&mut b)?;
                let k = ConstFst::<W>::load(&b)?;
                check_props("ConstFst read", k.properties(), &m)?;
                fst_convert_from_ref(&k)
            }
        }
        33 => {
            set(name, "text round trip");
            if m.start.is_none() || m.trs.iter().all(|t| t.is_empty()) {
                return Ok(None);
            }
            V::from_text_string(&f.text()?)?
        }
        34 => {
            set(name, "union");
            lazy!(UnionFst::new(f.clone(), g.clone())?)
        }
        35 => {
            set(name, "concat");
            lazy!(ConcatFst::new(f.clone(), g.clone())?)
        }
        36 => {
            set(name, "closure");
            lazy!(ClosureFst::new(f.clone(), ct)?)
        }
        37 => {
            set(name, "rm_epsilon");
            lazy!(RmEpsilonFst::<W, V, V>::new(f.clone())?)
        }
        38 if small => {
            set(name, "composition");
            use rustfst::algorithms::compose::compose_filters::*;
            use rustfst::algorithms::compose::matchers::*;
            type Gm = GenericMatcher<W, V, std::sync::Arc<V>>;
            type Seq = SequenceComposeFilter<W, V, V, std::sync::Arc<V>, std::sync::Arc<V>, Gm, Gm>;
            type SeqB = SequenceComposeFilterBuilder<W, V, V, std::sync::Arc<V>, std::sync::Arc<V>, Gm, Gm>;
            let _ = std::marker::PhantomData::<Seq>;
            let mut g = g.clone();
            tr_sort(&mut h, OLabelCompare {});
            tr_sort(&mut g, ILabelCompare {});
            lazy!(ComposeFst::<W, V, V, std::sync::Arc<V>, std::sync::Arc<V>, Gm, Gm, SeqB>::new_auto(std::sync::Arc::new(h), std::sync::Arc::new(g))?)
        }
        39 => {
            set(name, "optimize");
            if !m.acyclic() {
                return Ok(None);
            }
            optimize(&mut h)?;
            h
        }
        _ => return Ok(None),
    };
    Ok(Some(r))
}

/// Gallic machines: whether a gallic weight is "weighted" follows from the weight itself.
fn check_gallic<X: TW>(what: &str, props: P, m: &RFst<X>) -> R {
    check_props(what, props, m)
}

fn operations(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 4, max_out: 3, labels: 4, eps: *c.pick(&[0usize, 10, 30]), acyclic: c.chance(1, 2), acceptor: c.chance(1, 3), unweighted: c.chance(1, 3), neg: 0, ..Default::default() };
    let m = gen_rfst::<W>(c, &k);
    let mut f = realize(c, &m);
    let mut names = vec![];
    let start = (m.show(), f.properties());
    let mut n = 0;
    let mut show2 = vec![];
    for _ in 0..c.range(1, 4) {
        let k2 = Cfg { max_states: 3, labels: 3, eps: *c.pick(&[0usize, 25]), acyclic: c.bool(), acceptor: c.bool(), unweighted: c.bool(), neg: 0, ..Default::default() };
        let m2 = gen_rfst::<W>(c, &k2);
        let g = realize(c, &m2);
        let mut name = "";
        let before = RFst::from_fst(&f)?.show();
        show2.push(format!("(other operand {} knowing {:?})", m2.show(), g.properties()));
        if std::env::var_os("VH_DBG").is_some() {
            eprintln!("step from {}\n{:?}", before, f.properties());
        }
        let r = operate(c, &f, &g, &mut name);
        names.push(name);
        let res = (|| -> R<Option<V>> {
            let Some(r) = r? else { return Ok(None) };
            let rm = RFst::from_fst(&r)?;
            check_props(name, r.properties(), &rm)?;
            Ok(Some(r))
        })();
        match res {
            Err(e) => {
                c.note(|| format!("{} knowing {:?} then {:?} with {:?}; last step from {} knowing {:?}", start.0, start.1, names, show2, before, f.properties()));
                return Err(e);
            }
            Ok(None) => {
                names.pop();
                show2.pop();
            }
            Ok(Some(r)) => {
                n += 1;
                c.tag(name);
                if r.num_states() > 40 || r.num_trs_total() > 120 {
                    break;
                }
                f = r;
            }
        }
    }
    c.note(|| format!("{} knowing {:?} then {:?} with {:?}", start.0, start.1, names, show2));
    let kn = f.properties() & P::all();
    c.nontrivial = n >= 1 && m.ntr() > 0 && kn.bits().count_ones() >= 3;
    Ok(())
}

trait Total {
    fn num_trs_total(&self) -> usize;
}
impl Total for V {
    fn num_trs_total(&self) -> usize {
        (0..self.num_states()).map(|s| self.num_trs(s as u32).unwrap()).sum()
    }
}
