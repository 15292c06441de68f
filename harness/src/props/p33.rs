//! C33: chains of operations. Each step's result (with whatever it claims to know about itself) feeds the next; the
//! expected relation is carried along beside it as a plain table.
use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::fst_traits::{CoreFst, SerializableFst};
use rustfst::prelude::*;

type W = TropicalWeight;
type V = VectorFst<W>;
type L = Lang<W>;

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        subs: vec![
            Sub { name: "acyclic", rule: "3 or more steps were taken and the final relation is not empty", quick: 400_000, thorough: 6_000_000, f: |c| chain(c, true) },
            Sub { name: "cyclic", rule: "3 or more steps were taken and the final relation is not empty", quick: 400_000, thorough: 6_000_000, f: |c| chain(c, false) },
        ],
    }
}

const B: usize = 4;

fn map(l: &L, f: impl Fn(&[u32], &[u32]) -> (Vec<u32>, Vec<u32>)) -> Option<L> {
    let mut r = L::new();
    for ((x, y), w) in l {
        add(&mut r, f(x, y), *w)?;
    }
    Some(r)
}

fn join(a: &L, b: &L) -> Option<L> {
    let mut r = L::new();
    for ((x, y), w) in a {
        for ((y2, z), v) in b {
            if y == y2 {
                add(&mut r, (x.clone(), z.clone()), w.mul(v)?)?;
            }
        }
    }
    r.retain(|_, w| !w.nil());
    Some(r)
}

fn ntr(f: &V) -> usize {
    (0..f.num_states()).map(|s| f.num_trs(s as u32).unwrap()).sum()
}

/// Some((result, its relation)), or None when the step does not apply
fn step(c: &mut Ctx, f: &V, l: &L, g: &V, lg: &L, acyclic: bool, name: &mut String) -> R<Option<(V, L)>> {
    let bound = if acyclic { usize::MAX } else { B };
    let mut h = f.clone();
    let star = c.bool();
    let ct = if star { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
    let toi = c.bool();
    let rt = if toi { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal };
    let small = ntr(f) <= 16;
    macro_rules! some {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Ok(None),
            }
        };
    }
    macro_rules! name {
        ($($e:tt)*) => { *name = format!($($e)*) };
    }
    let same = |r: V| Ok(Some((r, l.clone())));
    let op = c.below(if acyclic { 32 } else { 28 });
    match op {
        0 => {
            name!("union");
            union(&mut h, g)?;
            Ok(Some((h, some!(lang_plus(l, lg)))))
        }
        1 => {
            name!("union (lazy)");
            Ok(Some((UnionFst::new(f.clone(), g.clone())?.compute()?, some!(lang_plus(l, lg)))))
        }
        2 => {
            name!("concat");
            concat(&mut h, g)?;
            Ok(Some((h, some!(lang_times(l, lg, bound, bound)))))
        }
        3 => {
            name!("concat (lazy)");
            Ok(Some((ConcatFst::new(f.clone(), g.clone())?.compute()?, some!(lang_times(l, lg, bound, bound)))))
        }
        4 => {
            name!("invert");
            invert(&mut h);
            Ok(Some((h, some!(map(l, |x, y| (y.to_vec(), x.to_vec()))))))
        }
        5 => {
            name!("reverse");
            let rev = |x: &[u32]| x.iter().rev().copied().collect::<Vec<_>>();
            Ok(Some((reverse(f)?, some!(map(l, |x, y| (rev(x), rev(y)))))))
        }
        6 => {
            name!("connect");
            connect(&mut h)?;
            same(h)
        }
        7 => {
            name!("top_sort");
            let _ = top_sort(&mut h);
            same(h)
        }
        8 => {
            name!("tr_sort input");
            tr_sort(&mut h, ILabelCompare {});
            same(h)
        }
        9 => {
            name!("tr_sort output");
            tr_sort(&mut h, OLabelCompare {});
            same(h)
        }
        10 => {
            name!("tr_unique");
            tr_unique(&mut h);
            same(h)
        }
        11 => {
            name!("tr_sum");
            tr_sum(&mut h);
            same(h)
        }
        12 => {
            let mut o: Vec<u32> = (0..f.num_states() as u32).collect();
            for i in (1..o.len()).rev() {
                o.swap(i, c.below(i + 1));
            }
            name!("state_sort {:?}", o);
            state_sort(&mut h, &o)?;
            same(h)
        }
        13 => {
            name!("rm_epsilon");
            rm_epsilon(&mut h)?;
            same(h)
        }
        14 => {
            name!("rm_epsilon (lazy)");
            same(RmEpsilonFst::<W, V, V>::new(f.clone())?.compute()?)
        }
        15 => {
            name!("rm_final_epsilon");
            rm_final_epsilon(&mut h)?;
            same(h)
        }
        16 => {
            name!("push_weights to start {}", toi);
            push_weights(&mut h, rt)?;
            same(h)
        }
        17 if small => {
            let t = PushType::PUSH_LABELS | if c.bool() { PushType::PUSH_WEIGHTS } else { PushType::empty() };
            name!("push {:?} to start {}", t, toi);
            same(push(f, rt, t)?)
        }
        18 => {
            name!("minimize");
            if minimize_with_config(&mut h, MinimizeConfig::default().with_allow_nondet(true)).is_err() {
                return Ok(None);
            }
            same(h)
        }
        19 if small => {
            name!("optimize");
            optimize(&mut h)?;
            same(h)
        }
        20 => {
            // the classical sandwich: optimise what encoding made an unweighted acceptor
            let t = *c.pick(&[0, 1, 2]);
            let et = match t {
                0 => EncodeType::EncodeLabels,
                1 => EncodeType::EncodeWeights,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            let tb = encode(&mut h, et)?;
            let inner = c.below(6);
            name!("encode {} / {} / decode", t, inner);
            match inner {
                0 => {
                    rm_epsilon(&mut h)?;
                }
                1 if t == 2 && small => {
                    // an unweighted acceptor, apart from the final weights that are kept outside
                    h = determinize::<_, V, V>(&h)?;
                }
                2 if t == 2 => {
                    let _ = minimize_with_config(&mut h, MinimizeConfig::default().with_allow_nondet(true));
                }
                3 => tr_sort(&mut h, ILabelCompare {}),
                4 => connect(&mut h)?,
                _ => {}
            }
            decode(&mut h, tb)?;
            same(h)
        }
        21 => {
            name!("ConstFst and back");
            let k: ConstFst<W> = f.clone().into();
            same(fst_convert_from_ref(&k))
        }
        22 => {
            name!("write and read");
            let mut b = vec![];
            f.store(&mut b)?;
            same(V::load(&b)?)
        }
        23 => {
            name!("add_super_final_state");
            add_super_final_state(&mut h);
            same(h)
        }
        24 if small => {
            name!("gallic weights, factored and back");
            type G = GallicWeightLeft<W>;
            let k: VectorFst<G> = weight_convert(f, &mut ToGallicConverter {})?;
            let k: VectorFst<G> = factor_weight::<_, VectorFst<G>, _, _, GallicFactorLeft<W>>(&k, FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS))?;
            same(weight_convert(&k, &mut FromGallicConverter { superfinal_label: 0 })?)
        }
        25 => {
            name!("log weights and back");
            let k: VectorFst<LogWeight> = weight_convert(f, &mut SimpleWeightConverter {})?;
            same(weight_convert(&k, &mut SimpleWeightConverter {})?)
        }
        26 => {
            name!("properties computed");
            h.compute_and_update_properties_all()?;
            same(h)
        }
        27 if !acyclic => {
            let lazy = c.bool();
            name!("closure {:?} lazy {}", ct, lazy);
            let e = some!(lang_star(l, B, B, !star));
            if lazy {
                return Ok(Some((ClosureFst::new(f.clone(), ct)?.compute()?, e)));
            }
            closure(&mut h, ct);
            Ok(Some((h, e)))
        }
        27 => {
            let input = c.bool();
            name!("project input {}", input);
            project(&mut h, if input { ProjectType::ProjectInput } else { ProjectType::ProjectOutput });
            let e = some!(map(l, |x, y| if input { (x.to_vec(), x.to_vec()) } else { (y.to_vec(), y.to_vec()) }));
            Ok(Some((h, e)))
        }
        28 => {
            let mut g = g.clone();
            let conn = c.bool();
            name!("compose connect {}", conn);
            tr_sort(&mut h, OLabelCompare {});
            tr_sort(&mut g, ILabelCompare {});
            let conf = ComposeConfig { connect: conn, ..Default::default() };
            Ok(Some((compose_with_config::<_, V, V, _, _, _>(&h, &g, conf)?, some!(join(l, lg)))))
        }
        29 => {
            let mut g = g.clone();
            name!("compose from the left");
            tr_sort(&mut g, OLabelCompare {});
            tr_sort(&mut h, ILabelCompare {});
            Ok(Some((compose::<_, V, V, _, _, _>(&g, &h)?, some!(join(lg, l)))))
        }
        30 => {
            let a: Vec<(u32, u32)> = (0..c.below(3)).map(|i| (i as u32 + 1, c.below(4) as u32)).collect();
            let b: Vec<(u32, u32)> = (0..c.below(3)).map(|i| (i as u32 + 1, c.below(4) as u32)).collect();
            name!("relabel {:?} {:?}", a, b);
            let sub = |x: &[u32], p: &[(u32, u32)]| x.iter().map(|l| p.iter().find(|q| q.0 == *l).map(|q| q.1).unwrap_or(*l)).filter(|l| *l != 0).collect::<Vec<_>>();
            relabel_pairs(&mut h, a.clone(), b.clone())?;
            let e = some!(map(l, |x, y| (sub(x, &a), sub(y, &b))));
            Ok(Some((h, e)))
        }
        31 if c.bool() => {
            name!("determinize");
            if !small {
                return Ok(None);
            }
            match determinize_with_config::<_, V, V>(f, DeterminizeConfig::default().with_det_type(DeterminizeType::DeterminizeNonFunctional)) {
                Ok(x) => same(x),
                Err(_) => Ok(None),
            }
        }
        31 => {
            // f with label 1 (on the output) standing for g
            name!("replace 1");
            let mg = RFst::from_fst(g)?;
            if mg.trs.iter().flatten().any(|t| t.ol == 1) || RFst::from_fst(f)?.trs.iter().flatten().any(|t| t.ol == 1 && t.il != 1) {
                return Ok(None);
            }
            let r: V = replace::<_, V, V, V>(vec![(77, f.clone()), (1, g.clone())], 77, true)?;
            // on acceptors: substitute in the strings
            if !l.keys().chain(lg.keys()).all(|(x, y)| x == y) || !RFst::from_fst(f)?.trs.iter().flatten().all(|t| t.il == t.ol) {
                return Ok(None);
            }
            let mut e = L::new();
            for ((x, _), w) in l {
                let mut acc = L::new();
                acc.insert((vec![], vec![]), *w);
                for s in x {
                    let mut one = L::new();
                    one.insert((vec![*s], vec![*s]), W::one());
                    acc = some!(lang_times(&acc, if *s == 1 { lg } else { &one }, usize::MAX, usize::MAX));
                    if acc.len() > 400 {
                        return Ok(None);
                    }
                }
                e = some!(lang_plus(&e, &acc));
            }
            Ok(Some((r, e)))
        }
        _ => Ok(None),
    }
}

fn lang_of(m: &RFst<W>, acyclic: bool) -> Option<L> {
    if acyclic {
        m.full_lang()
    } else {
        m.lang(B, B)
    }
}

fn chain(c: &mut Ctx, acyclic: bool) -> R {
    let k = Cfg { max_states: 4, max_out: 3, labels: 3, eps: *c.pick(&[0usize, 10, 30]), acyclic, acceptor: c.chance(1, 3), unweighted: c.chance(1, 3), ..Default::default() };
    let m = gen_rfst::<W>(c, &k);
    let mut f = realize(c, &m);
    let Some(mut l) = lang_of(&m, acyclic) else { return Ok(()) };
    let mut log = vec![format!("{} knowing {:?}", m.show(), f.properties())];
    let mut n = 0;
    let want = c.range(2, 7);
    let r = (|| -> R {
        for _ in 0..want {
            let k2 = Cfg { max_states: 3, labels: 3, eps: *c.pick(&[0usize, 25]), acyclic, acceptor: c.bool(), unweighted: c.bool(), ..Default::default() };
            let m2 = gen_rfst::<W>(c, &k2);
            let g = realize(c, &m2);
            let Some(lg) = lang_of(&m2, acyclic) else { continue };
            let mut name = String::new();
            let before = f.properties();
            let r = step(c, &f, &l, &g, &lg, acyclic, &mut name);
            let binary = ["union", "concat", "compose", "replace"].iter().any(|x| name.starts_with(x));
            log.push(if binary { format!("{} with {} knowing {:?}", name, m2.show(), g.properties()) } else { name.clone() });
            let Some((h, e)) = r? else {
                log.pop();
                continue;
            };
            let hm = RFst::from_fst(&h)?;
            hm.validate()?;
            let what = name.split(' ').next().unwrap_or("").to_string();
            check_props(&what, h.properties(), &hm)?;
            if acyclic {
                ensure!(hm.trim().acyclic(), format!("{}: cyclic", what), "{} of a machine knowing {:?} gave a cyclic machine {}", name, before, hm.show());
            }
            let Some(got) = lang_of(&hm, acyclic) else {
                return Ok(());
            };
            if let Some(d) = diff_lang(&e, &got) {
                fail!(format!("{}: wrong weighted relation", what), "{} applied to {} knowing {:?} gave {}: {}", name, RFst::from_fst(&f)?.show(), before, hm.show(), d);
            }
            n += 1;
            if hm.n() > 40 || hm.ntr() > 90 || e.len() > 400 {
                return Ok(());
            }
            f = h;
            l = e;
        }
        Ok(())
    })();
    c.note(|| log.join("; then "));
    c.nontrivial = n >= 3 && !l.is_empty();
    r
}
