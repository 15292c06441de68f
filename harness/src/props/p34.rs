//! C34: which symbol tables a machine carries after an operation.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::randgen::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use std::sync::Arc;

type W = TropicalWeight;
type V = VectorFst<W>;
type Tb = Option<Arc<SymbolTable>>;

pub fn prop() -> Prop {
    Prop {
        id: "C34",
        subs: vec![
            Sub { name: "operations", rule: "a machine carries a table, the operation applies and the operand has a transition", quick: 900_000, thorough: 9_000_000, f: operations },
            Sub { name: "lazy", rule: "the operands carry a table", quick: 350_000, thorough: 3_500_000, f: lazies },
            Sub { name: "chain", rule: "3 or more operations were applied to a machine with a table", quick: 250_000, thorough: 3_000_000, f: chain },
        ],
    }
}

fn table(c: &mut Ctx) -> Tb {
    if c.chance(1, 4) {
        return None;
    }
    let n = c.below(6);
    let mut t = gen_symt(c, n);
    if c.bool() {
        // so that two tables of one case seldom look alike
        t.add_symbol(format!("mark{}", c.below(1000)));
    }
    Some(Arc::new(t))
}

fn show(t: &Tb) -> String {
    t.as_ref().map_or("none".into(), |t| format!("{:?}", t.symbols().collect::<Vec<_>>()))
}

fn tables<S: Semiring>(f: &impl Fst<S>) -> (Tb, Tb) {
    (f.input_symbols().cloned(), f.output_symbols().cloned())
}

fn expect<S: Semiring>(what: &str, f: &impl Fst<S>, e: &(Tb, Tb)) -> R {
    let g = tables(f);
    ensure!(g.0 == e.0, format!("{}: input table", what), "{}: expected the input table {} got {}", what, show(&e.0), show(&g.0));
    ensure!(g.1 == e.1, format!("{}: output table", what), "{}: expected the output table {} got {}", what, show(&e.1), show(&g.1));
    Ok(())
}

fn machine(c: &mut Ctx) -> V {
    let k = Cfg { max_states: 5, max_out: 3, labels: 3, eps: 20, degenerate: c.chance(1, 6), acyclic: c.bool(), acceptor: c.chance(1, 3), ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    if let Some(t) = table(c) {
        if c.chance(1, 4) {
            f.set_output_symbols(t.clone());
        }
        f.set_input_symbols(t);
    }
    if c.chance(3, 4) {
        if let Some(t) = table(c) {
            f.set_output_symbols(t);
        }
    }
    f
}

const OPS: usize = 41;

/// None: the operation does not apply to this machine
fn apply(c: &mut Ctx, f: &V, g: &V, op: usize, name: &mut String) -> R<Option<(V, (Tb, Tb))>> {
    let mut h = f.clone();
    let (e, eg) = (tables(f), tables(g));
    macro_rules! name {
        ($($e:tt)*) => { *name = format!($($e)*) };
    }
    let star = c.bool();
    let ct = if star { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
    let toi = c.bool();
    let rt = if toi { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal };
    let m = RFst::from_fst(f)?;
    let acyclic = m.acyclic();
    // distances do not exist around a negative cycle, which mapping weights in an earlier step can leave behind
    if !acyclic && matches!(op, 12 | 14 | 16 | 24) && m.trs.iter().flatten().any(|t| t.w.value() < &0.0) {
        return Ok(None);
    }
    let r: V = match op {
        0 => {
            name!("union");
            union(&mut h, g)?;
            h
        }
        1 => {
            name!("concat");
            concat(&mut h, g)?;
            h
        }
        2 => {
            name!("closure {:?}", ct);
            closure(&mut h, ct);
            h
        }
        3 => {
            name!("invert");
            invert(&mut h);
            return Ok(Some((h, (e.1, e.0))));
        }
        4 => {
            let input = c.bool();
            name!("project input {}", input);
            project(&mut h, if input { ProjectType::ProjectInput } else { ProjectType::ProjectOutput });
            let t = if input { e.0 } else { e.1 };
            return Ok(Some((h, (t.clone(), t))));
        }
        5 => {
            name!("reverse");
            reverse(f)?
        }
        6 => {
            name!("connect");
            connect(&mut h)?;
            h
        }
        7 => {
            name!("top_sort");
            let _ = top_sort(&mut h);
            h
        }
        8 => {
            name!("tr_sort");
            tr_sort(&mut h, ILabelCompare {});
            h
        }
        9 => {
            name!("tr_unique");
            tr_unique(&mut h);
            h
        }
        10 => {
            name!("tr_sum");
            tr_sum(&mut h);
            h
        }
        11 => {
            name!("state_sort");
            let o: Vec<u32> = (0..f.num_states() as u32).rev().collect();
            state_sort(&mut h, &o)?;
            h
        }
        12 => {
            name!("rm_epsilon");
            rm_epsilon(&mut h)?;
            h
        }
        13 => {
            name!("rm_final_epsilon");
            rm_final_epsilon(&mut h)?;
            h
        }
        14 => {
            name!("push_weights");
            push_weights(&mut h, rt)?;
            h
        }
        15 if acyclic => {
            let t = *c.pick(&[PushType::PUSH_LABELS, PushType::PUSH_WEIGHTS, PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS, PushType::empty()]);
            name!("push {:?}", t);
            push(f, rt, t)?
        }
        16 => {
            let nd = c.bool();
            name!("minimize allow_nondet {}", nd);
            if minimize_with_config(&mut h, MinimizeConfig::default().with_allow_nondet(nd)).is_err() {
                return Ok(None);
            }
            h
        }
        17 if acyclic => {
            name!("optimize");
            optimize(&mut h)?;
            h
        }
        18 => {
            let et = match c.below(3) {
                0 => EncodeType::EncodeLabels,
                1 => EncodeType::EncodeWeights,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            name!("encode and decode");
            let tb = encode(&mut h, et)?;
            if c.bool() {
                tr_sort(&mut h, ILabelCompare {});
            }
            decode(&mut h, tb)?;
            h
        }
        19 => {
            name!("ConstFst and back");
            let k: ConstFst<W> = f.clone().into();
            expect("into ConstFst", &k, &e)?;
            if c.bool() {
                fst_convert_from_ref(&k)
            } else {
                fst_convert(k)
            }
        }
        20 => {
            name!("write and read");
            let mut b = vec![];
            if c.bool() {
                f.store(&mut b)?;
                V::load(&b)?
            } else {
                let k: ConstFst<W> = f.clone().into();
                k.store(&mut b)?;
                fst_convert(ConstFst::load(&b)?)
            }
        }
        21 => {
            name!("add_super_final_state");
            add_super_final_state(&mut h);
            h
        }
        22 => {
            type G = GallicWeightLeft<W>;
            name!("gallic weights, factored and back");
            let k: VectorFst<G> = weight_convert(f, &mut ToGallicConverter {})?;
            expect("weight_convert to gallic", &k, &e)?;
            let k: VectorFst<G> = factor_weight::<_, VectorFst<G>, _, _, GallicFactorLeft<W>>(&k, FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS))?;
            expect("factor_weight", &k, &e)?;
            weight_convert(&k, &mut FromGallicConverter { superfinal_label: 0 })?
        }
        23 => {
            name!("log weights and back");
            let k: VectorFst<LogWeight> = weight_convert(f, &mut SimpleWeightConverter {})?;
            expect("weight_convert to log", &k, &e)?;
            weight_convert(&k, &mut SimpleWeightConverter {})?
        }
        24 => {
            name!("shortest_path 1");
            shortest_path(f)?
        }
        25 if acyclic => {
            let (n, u) = (1 + c.below(3), c.bool());
            name!("shortest_path {} unique {}", n, u);
            if u && f.num_states() > 0 && m.trs.iter().flatten().any(|t| t.il != t.ol) {
                return Ok(None);
            }
            shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(n).with_unique(u))?
        }
        26 if acyclic => {
            let t = match c.below(3) {
                0 => DeterminizeType::DeterminizeFunctional,
                _ => DeterminizeType::DeterminizeNonFunctional,
            };
            name!("determinize {:?}", t);
            match determinize_with_config::<_, V, V>(f, DeterminizeConfig::default().with_det_type(t)) {
                Ok(x) => x,
                Err(_) => return Ok(None),
            }
        }
        27 => {
            let wt = c.bool();
            name!("randgen weighted {}", wt);
            if f.start().is_none() {
                return Ok(None);
            }
            randgen_with_config(f, RandGenConfig::new(UniformTrSelector::from_seed(c.below(100) as u64)).with_npath(1 + c.below(3)).with_max_length(6).with_weighted(wt))?
        }
        28 => {
            let mut g = g.clone();
            name!("compose");
            tr_sort(&mut h, OLabelCompare {});
            tr_sort(&mut g, ILabelCompare {});
            let filter = *c.pick(&[ComposeFilterEnum::AutoFilter, ComposeFilterEnum::SequenceFilter, ComposeFilterEnum::AltSequenceFilter, ComposeFilterEnum::MatchFilter, ComposeFilterEnum::TrivialFilter]);
            let conf = ComposeConfig { connect: c.bool(), compose_filter: filter, ..Default::default() };
            return Ok(Some((compose_with_config::<_, V, V, _, _, _>(&h, &g, conf)?, (e.0, eg.1))));
        }
        29 => {
            name!("replace");
            let mg = RFst::from_fst(g)?;
            if mg.trs.iter().flatten().any(|t| t.ol == 1) {
                return Ok(None);
            }
            // the tables are those of the first machine of the list
            replace::<_, V, V, V>(vec![(77, f.clone()), (1, g.clone())], if c.bool() { 77 } else { 1 }, true)?
        }
        30 => {
            name!("relabel_pairs");
            relabel_pairs(&mut h, vec![(1, 2), (2, 1)], vec![(3, 0)])?;
            h
        }
        31 => {
            let k = c.below(5);
            name!("tr_map {}", k);
            match k {
                0 => tr_map(&mut h, &IdentityTrMapper {})?,
                1 => tr_map(&mut h, &RmWeightMapper {})?,
                2 => tr_map(&mut h, &TimesMapper::new(1.0f32))?,
                3 => tr_map(&mut h, &PlusMapper::new(1.0f32))?,
                _ => tr_map(&mut h, &QuantizeMapper::default())?,
            }
            h
        }
        32 => {
            name!("reweight");
            let p: Vec<W> = (0..f.num_states()).map(|_| W::new(c.below(5) as f32)).collect();
            if m.trs.iter().flatten().any(|t| t.w.nil()) {
                return Ok(None);
            }
            reweight(&mut h, &p, rt)?;
            h
        }
        33 => {
            name!("del_all_states");
            h.del_all_states();
            h
        }
        34 => {
            name!("copy");
            if c.bool() {
                h.clone()
            } else {
                fst_convert_from_ref(&h)
            }
        }
        35 => {
            name!("edits");
            let s = h.add_state();
            h.set_start(s)?;
            h.set_final(s, W::new(0.5))?;
            h.add_tr(s, Tr::new(1, 2, W::one(), s))?;
            h.del_states(vec![0])?;
            h
        }
        36 => {
            name!("compute properties");
            h.compute_and_update_properties_all()?;
            h
        }
        37 => {
            name!("quantize");
            ExpandedFst::quantize::<V>(f)?
        }
        38 => {
            name!("closure then union with itself");
            closure(&mut h, ct);
            let k = h.clone();
            union(&mut h, &k)?;
            h
        }
        39 => {
            let (ti, to) = (table(c), table(c));
            name!("set {} {}", show(&ti), show(&to));
            // tables are replaced or taken off one at a time
            match &ti {
                Some(t) => h.set_input_symbols(t.clone()),
                None => {
                    let was = h.take_input_symbols();
                    ensure!(was == e.0, "take_input_symbols: wrong table", "expected {} got {}", show(&e.0), show(&was));
                }
            }
            expect("after setting the input table", &h, &(ti.clone(), e.1.clone()))?;
            match &to {
                Some(t) => h.set_output_symbols(t.clone()),
                None => {
                    let was = h.take_output_symbols();
                    ensure!(was == e.1, "take_output_symbols: wrong table", "expected {} got {}", show(&e.1), show(&was));
                }
            }
            return Ok(Some((h, (ti, to))));
        }
        40 => {
            name!("set_symts_from_fst");
            h.set_symts_from_fst(g);
            return Ok(Some((h, eg)));
        }
        _ => return Ok(None),
    };
    Ok(Some((r, e)))
}

fn operations(c: &mut Ctx) -> R {
    let (f, g) = (machine(c), machine(c));
    let (ef, eg) = (tables(&f), tables(&g));
    let op = c.below(OPS);
    let mut name = String::new();
    c.note(|| format!("op {}: tables {} / {} and {} / {}\n{}\n{}", op, show(&ef.0), show(&ef.1), show(&eg.0), show(&eg.1), RFst::from_fst(&f).unwrap().show(), RFst::from_fst(&g).unwrap().show()));
    let Some((r, e)) = apply(c, &f, &g, op, &mut name)? else { return Ok(()) };
    expect(&name, &r, &e)?;
    expect(&format!("operand of {}", name), &f, &ef)?;
    expect(&format!("second operand of {}", name), &g, &eg)?;
    c.nontrivial = (ef.0.is_some() || ef.1.is_some()) && (0..f.num_states()).any(|s| f.num_trs(s as u32).unwrap() > 0);
    Ok(())
}

fn chain(c: &mut Ctx) -> R {
    let mut f = machine(c);
    let mut e = tables(&f);
    c.note(|| format!("tables {} / {}\n{}", show(&e.0), show(&e.1), RFst::from_fst(&f).unwrap().show()));
    let any = e.0.is_some() || e.1.is_some();
    let mut done = 0;
    let n = 2 + c.below(4);
    for _ in 0..n {
        if f.num_states() > 14 || (0..f.num_states()).map(|s| f.num_trs(s as u32).unwrap()).sum::<usize>() > 20 {
            break;
        }
        let g = machine(c);
        let op = c.below(OPS);
        let mut name = String::new();
        let Some((r, x)) = apply(c, &f, &g, op, &mut name)? else { continue };
        c.note(|| format!("{} with {} / {}", name, show(&tables(&g).0), show(&tables(&g).1)));
        expect(&name, &r, &x)?;
        f = r;
        e = x;
        done += 1;
    }
    expect("end of chain", &f, &e)?;
    c.nontrivial = any && done >= 3;
    Ok(())
}

/// the tables a lazy machine shows, hands over to what is computed from it, and lets go of
fn lazy<F: Fst<W>>(c: &mut Ctx, what: &str, mut z: F, e: (Tb, Tb), compute: impl Fn(&F) -> anyhow::Result<V>) -> R {
    expect(what, &z, &e)?;
    if c.bool() {
        let v = compute(&z)?;
        expect(&format!("{} computed", what), &v, &e)?;
    }
    let mut e = e;
    for _ in 0..c.below(4) {
        match c.below(4) {
            0 => {
                if let Some(t) = table(c) {
                    z.set_input_symbols(t.clone());
                    e.0 = Some(t);
                }
            }
            1 => {
                if let Some(t) = table(c) {
                    z.set_output_symbols(t.clone());
                    e.1 = Some(t);
                }
            }
            2 => {
                let t = z.take_input_symbols();
                ensure!(t == e.0, format!("{}: take_input_symbols", what), "expected {} got {}", show(&e.0), show(&t));
                e.0 = None;
            }
            _ => {
                let t = z.take_output_symbols();
                ensure!(t == e.1, format!("{}: take_output_symbols", what), "expected {} got {}", show(&e.1), show(&t));
                e.1 = None;
            }
        }
        expect(&format!("{} edited", what), &z, &e)?;
    }
    let v = compute(&z)?;
    expect(&format!("{} edited and computed", what), &v, &e)
}

fn lazies(c: &mut Ctx) -> R {
    let (f, g) = (machine(c), machine(c));
    let (ef, eg) = (tables(&f), tables(&g));
    let op = c.below(8);
    c.note(|| format!("lazy {}: tables {} / {} and {} / {}\n{}\n{}", op, show(&ef.0), show(&ef.1), show(&eg.0), show(&eg.1), RFst::from_fst(&f).unwrap().show(), RFst::from_fst(&g).unwrap().show()));
    let cyc = !RFst::from_fst(&f)?.acyclic();
    match op {
        0 => lazy(c, "UnionFst", UnionFst::new(f.clone(), g.clone())?, ef.clone(), |z| z.compute())?,
        1 => lazy(c, "ConcatFst", ConcatFst::new(f.clone(), g.clone())?, ef.clone(), |z| z.compute())?,
        2 => {
            let ct = if c.bool() { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
            lazy(c, "ClosureFst", ClosureFst::new(f.clone(), ct)?, ef.clone(), |z| z.compute())?
        }
        3 => lazy(c, "RmEpsilonFst", RmEpsilonFst::<W, V, V>::new(f.clone())?, ef.clone(), |z| z.compute())?,
        4 => {
            let (mut a, mut b) = (f.clone(), g.clone());
            tr_sort(&mut a, OLabelCompare {});
            tr_sort(&mut b, ILabelCompare {});
            let e = (ef.0.clone(), eg.1.clone());
            lazy(c, "ComposeFst", ComposeFst::<W, V, V, _, _, _, _, _, _>::new_auto(a, b)?, e, |z| z.compute())?
        }
        5 => {
            if RFst::from_fst(&g)?.trs.iter().flatten().any(|t| t.ol == 1) {
                return Ok(());
            }
            lazy(c, "ReplaceFst", ReplaceFst::<W, V, V>::new(vec![(77, f.clone()), (1, g.clone())], 77, true)?, ef.clone(), |z| z.compute())?
        }
        6 if !cyc => {
            type G = GallicWeightLeft<W>;
            let k: VectorFst<G> = weight_convert(&f, &mut ToGallicConverter {})?;
            let z = FactorWeightFst::<G, VectorFst<G>, VectorFst<G>, GallicFactorLeft<W>>::new(k, FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS))?;
            expect("FactorWeightFst", &z, &ef)?;
            let v: VectorFst<G> = z.compute()?;
            expect("FactorWeightFst computed", &v, &ef)?;
        }
        6 => return Ok(()),
        _ => {
            let z = Arc::new(f.clone());
            expect("shared machine", &z, &ef)?;
            let k: ConstFst<W> = f.clone().into();
            lazy(c, "ConstFst", k, ef.clone(), |z| Ok(fst_convert_from_ref(z)))?
        }
    }
    expect("operand", &f, &ef)?;
    expect("second operand", &g, &eg)?;
    c.nontrivial = ef.0.is_some() || ef.1.is_some();
    Ok(())
}
