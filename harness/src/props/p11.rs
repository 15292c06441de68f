use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        subs: vec![
            Sub { name: "union", rule: "both operands accept something", quick: 120_000, thorough: 1_200_000, f: |c| dispatch(c, 0) },
            Sub { name: "concat", rule: "both operands accept something", quick: 120_000, thorough: 1_200_000, f: |c| dispatch(c, 1) },
            Sub { name: "closure", rule: "the operand accepts a non-empty pair", quick: 120_000, thorough: 1_200_000, f: |c| dispatch(c, 2) },
            Sub { name: "chains", rule: "at least 3 operations applied to one machine", quick: 60_000, thorough: 600_000, f: chains },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 30000, thorough: 450000, f: |c| { c.fine = true; match c.below(4) { 3 => chains(c), o => dispatch(c, o) } } },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| { let o = c.below(3); dispatch(c, o) }) },
        ],
    }
}

fn dispatch(c: &mut Ctx, op: usize) -> R {
    match c.below(7) {
        0 => run::<LogWeight>(c, op),
        1 => run::<ProbabilityWeight>(c, op),
        2 => run::<IntegerWeight>(c, op),
        3 => run::<BooleanWeight>(c, op),
        4 => run::<crate::mat::Mat>(c, op),
        _ => run::<TropicalWeight>(c, op),
    }
}

pub const L: usize = 4;

fn cfg<W: TW>(c: &mut Ctx) -> Cfg {
    Cfg {
        max_states: 4,
        max_out: 2,
        labels: 2,
        eps: *c.pick(&[0usize, 15, 35]),
        acyclic: c.chance(1, 3),
        eps_acyclic: !W::IDEMP,
        acceptor: c.chance(1, 4),
        zeros: *c.pick(&[0usize, 0, 8]),
        ..Default::default()
    }
}

fn operand<W: TW>(c: &mut Ctx) -> (RFst<W>, VectorFst<W>) {
    let k = cfg::<W>(c);
    let m = match c.below(12) {
        0 => RFst::new(0),
        1 => {
            let mut m: RFst<W> = gen_rfst(c, &k);
            m.start = None;
            m
        }
        2 => {
            let mut m: RFst<W> = gen_rfst(c, &k);
            if let Some(s) = m.start {
                m.fin[s] = Some(gen_weight(c, &k));
            }
            m
        }
        _ => gen_rfst(c, &k),
    };
    let f = realize(c, &m);
    (m, f)
}

fn compare<W: TW>(what: &str, exp: &Lang<W>, got: &RFst<W>) -> R<bool> {
    match got.lang(L, L) {
        Some(l) => {
            check_lang(what, exp, &l)?;
            Ok(true)
        }
        None => Ok(false),
    }
}

fn run<W: TW>(c: &mut Ctx, op: usize) -> R {
    let (m1, f1) = operand::<W>(c);
    let (m2, f2) = operand::<W>(c);
    let plus = c.bool();
    let cst = c.chance(1, 4);
    c.note(|| match op {
        2 => format!("closure {} of {}", if plus { "plus" } else { "star" }, m1.show()),
        _ => format!("{} {} and {}", ["union", "concat"][op], m1.show(), m2.show()),
    });
    let (Some(l1), Some(l2)) = (m1.lang(L, L), m2.lang(L, L)) else {
        return Ok(());
    };
    let empty = (vec![], vec![]);
    let exp = match op {
        0 => lang_plus(&l1, &l2),
        1 => lang_times(&l1, &l2, L, L),
        _ => lang_star(&l1, L, L, plus),
    };
    let Some(exp) = exp else { return Ok(()) };
    let ct = || if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar };
    let mut g = f1.clone();
    let before = f2.clone();
    match op {
        0 if cst => union(&mut g, &ConstFst::from(f2.clone()))?,
        0 => union(&mut g, &f2)?,
        1 if cst => concat(&mut g, &ConstFst::from(f2.clone()))?,
        1 => concat(&mut g, &f2)?,
        _ => closure(&mut g, ct()),
    }
    ensure!(before == f2, "second operand changed", "the second operand was modified");
    let name = ["union", "concat", "closure"][op];
    let r = RFst::from_fst(&g)?;
    let ok = compare(name, &exp, &r)?;
    // lazy forms, read directly and materialised
    let (lz, comp): (Option<RFst<W>>, VectorFst<W>) = match op {
        0 => {
            let l = UnionFst::new(f1.clone(), f2.clone())?;
            (RFst::from_any(&l, 400)?, l.compute()?)
        }
        1 => {
            let l = ConcatFst::new(f1.clone(), f2.clone())?;
            (RFst::from_any(&l, 400)?, l.compute()?)
        }
        _ => {
            let l = ClosureFst::new(f1.clone(), ct())?;
            (RFst::from_any(&l, 400)?, l.compute()?)
        }
    };
    if let Some(lz) = lz {
        compare(&format!("lazy {}", name), &exp, &lz)?;
    }
    compare(&format!("computed lazy {}", name), &exp, &RFst::from_fst(&comp)?)?;
    c.nontrivial = ok
        && match op {
            2 => l1.keys().any(|k| *k != empty),
            _ => !l1.is_empty() && !l2.is_empty(),
        };
    Ok(())
}

/// Repeated operations on one machine, whose stored properties steer the next operation.
fn chains(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let k = Cfg { max_states: 3, max_out: 2, labels: 2, eps: 15, acyclic: c.bool(), ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    let Some(mut l) = m.lang(L, L) else { return Ok(()) };
    let n = c.range(2, 4);
    let mut log = m.show();
    for _ in 0..n {
        let op = c.below(4);
        let m2: RFst<W> = gen_rfst(c, &k);
        let f2 = realize(c, &m2);
        let Some(l2) = m2.lang(L, L) else { return Ok(()) };
        match op {
            0 => {
                log += &format!(" union {}", m2.show());
                union(&mut f, &f2)?;
                l = lang_plus(&l, &l2).unwrap();
            }
            1 => {
                log += &format!(" concat {}", m2.show());
                concat(&mut f, &f2)?;
                l = lang_times(&l, &l2, L, L).unwrap();
            }
            o => {
                log += &format!(" closure plus={}", o == 2);
                closure(&mut f, if o == 2 { ClosureType::ClosurePlus } else { ClosureType::ClosureStar });
                match lang_star(&l, L, L, o == 2) {
                    Some(x) => l = x,
                    None => return Ok(()),
                }
            }
        }
        let r = compare("chain", &l, &RFst::from_fst(&f)?);
        match r {
            Err(e) => {
                c.note(|| log.clone());
                return Err(e);
            }
            Ok(false) => return Ok(()),
            _ => {}
        }
    }
    c.note(|| log.clone());
    c.nontrivial = n >= 3 && !l.is_empty();
    Ok(())
}
