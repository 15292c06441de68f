use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::hist::agrees;
use crate::mat::Mat;
use crate::model::*;
use crate::props::p05::{GalL, GalU, ProdTL};
use crate::*;
use rustfst::algorithms::{fst_convert, fst_convert_from_ref};
use rustfst::prelude::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        subs: vec![
            Sub { name: "representations", rule: "at least 3 states with different numbers of transitions", quick: 80_000, thorough: 1_500_000, f: repr_d },
            Sub { name: "fine_weights", rule: "at least 3 states with different numbers of transitions, or the original is changed after the copy was made", quick: 40_000, thorough: 800_000, f: |c| { c.fine = true; c.wild = true; match c.below(4) { 0 => sharing::<TropicalWeight>(c), 1 => repr::<LogWeight>(c), 2 => repr::<ProbabilityWeight>(c), _ => repr::<TropicalWeight>(c) } } },
            Sub { name: "equality", rule: "the two machines differ in one place", quick: 80_000, thorough: 1_500_000, f: eq_d },
            Sub { name: "sharing", rule: "the original is changed after the copy was made", quick: 80_000, thorough: 1_500_000, f: share_d },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => repr_d(c), 1 => eq_d(c), _ => share_d(c) }) },
        ],
    }
}

fn repr_d(c: &mut Ctx) -> R {
    match c.below(9) {
        0 => repr::<LogWeight>(c),
        1 => repr::<ProbabilityWeight>(c),
        2 => repr::<IntegerWeight>(c),
        3 => repr::<BooleanWeight>(c),
        4 => repr::<Mat>(c),
        5 => repr::<GalL>(c),
        6 => repr::<GalU>(c),
        7 => repr::<ProdTL>(c),
        _ => repr::<TropicalWeight>(c),
    }
}
fn eq_d(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => equality::<IntegerWeight>(c),
        1 => equality::<Mat>(c),
        2 => equality::<LogWeight>(c),
        _ => equality::<TropicalWeight>(c),
    }
}
fn share_d(c: &mut Ctx) -> R {
    match c.below(3) {
        0 => sharing::<IntegerWeight>(c),
        1 => sharing::<Mat>(c),
        _ => sharing::<TropicalWeight>(c),
    }
}

fn symbols<W: Semiring, A: Fst<W>, B: Fst<W>>(what: &str, a: &A, b: &B) -> R {
    ensure!(a.input_symbols() == b.input_symbols(), format!("{}: input symbols differ", what), "{:?} {:?}", a.input_symbols(), b.input_symbols());
    ensure!(a.output_symbols() == b.output_symbols(), format!("{}: output symbols differ", what), "{:?} {:?}", a.output_symbols(), b.output_symbols());
    Ok(())
}

fn cfg(c: &mut Ctx) -> Cfg {
    Cfg { max_states: 7, max_out: *c.pick(&[2usize, 4, 7]), labels: 3, eps: 30, zeros: *c.pick(&[0usize, 8]), big_labels: c.chance(1, 6), ..Default::default() }
}

fn full<W: TW + 'static, F: ExpandedFst<W>>(what: &str, f: &F, m: &RFst<W>, orig: &VectorFst<W>) -> R {
    agrees(what, f, m)?;
    symbols(what, f, orig)?;
    check_props(what, f.properties(), m)
}

fn repr<W: TW + 'static>(c: &mut Ctx) -> R {
    let k = cfg(c);
    let mut m: RFst<W> = gen_rfst(c, &k);
    // whether a zero final weight makes a state final is not specified
    m.fin.iter_mut().for_each(|w| {
        if w.as_ref().map_or(false, |w| w.is_zero()) {
            *w = None
        }
    });
    let mut f = realize(c, &m);
    if c.chance(1, 2) {
        f.set_input_symbols(Arc::new(gen_symt(c, 4)));
    }
    if c.chance(1, 2) {
        f.set_output_symbols(Arc::new(gen_symt(c, 4)));
    }
    c.note(|| m.show());
    let cst = ConstFst::from(f.clone());
    match c.below(9) {
        0 => full("ConstFst::from(VectorFst)", &cst, &m, &f)?,
        1 => full("fst_convert(VectorFst)", &fst_convert::<_, _, VectorFst<W>>(f.clone()), &m, &f)?,
        2 => full("fst_convert(ConstFst)", &fst_convert::<_, _, VectorFst<W>>(cst), &m, &f)?,
        3 => full("fst_convert_from_ref(VectorFst)", &fst_convert_from_ref::<_, _, VectorFst<W>>(&f), &m, &f)?,
        4 => full("fst_convert_from_ref(ConstFst)", &fst_convert_from_ref::<_, _, VectorFst<W>>(&cst), &m, &f)?,
        5 => full("Arc<VectorFst>", &Arc::new(f.clone()), &m, &f)?,
        6 => full("Arc<ConstFst>", &Arc::new(cst), &m, &f)?,
        7 => full("ConstFst::from(fst_convert(ConstFst))", &ConstFst::from(fst_convert::<_, _, VectorFst<W>>(cst)), &m, &f)?,
        _ => full("fst_convert(Arc<ConstFst>)", &fst_convert::<_, _, VectorFst<W>>(Arc::new(cst)), &m, &f)?,
    }
    full("original", &f, &m, &f)?;
    let mut ns: Vec<usize> = m.trs.iter().map(|t| t.len()).collect();
    ns.dedup();
    c.nontrivial = m.n() >= 3 && ns.len() >= 3;
    Ok(())
}

fn equality<W: TW + 'static>(c: &mut Ctx) -> R {
    let mut k = cfg(c);
    k.zeros = 0;
    let a: RFst<W> = gen_rfst(c, &k);
    let mut b = a.clone();
    let mut changed = false;
    if c.chance(2, 3) && b.n() > 0 {
        let s = c.below(b.n());
        match c.below(6) {
            0 => {
                let n = c.below(b.n() + 1);
                b.start = if n == b.n() { None } else { Some(n) };
            }
            1 => b.fin[s] = if c.bool() { None } else { Some(gen_weight(c, &k)) },
            2 => {
                b.fin.push(None);
                b.trs.push(vec![]);
            }
            n if !b.trs[s].is_empty() => {
                let i = c.below(b.trs[s].len());
                let w = gen_weight(c, &k);
                let nx = c.below(b.n());
                let t = &mut b.trs[s][i];
                match n {
                    3 => t.w = w,
                    4 => t.n = nx,
                    _ => {
                        if c.bool() {
                            t.il += 1
                        } else {
                            t.ol += 1
                        }
                    }
                }
            }
            _ => b.trs[s].push(RTr { il: 1, ol: 1, w: gen_weight(c, &k), n: s }),
        }
    }
    let same_w = |x: &W, y: &W| x.show() == y.show();
    let mut eq = a.n() == b.n() && a.start == b.start;
    if eq {
        for s in 0..a.n() {
            eq &= match (&a.fin[s], &b.fin[s]) {
                (Some(x), Some(y)) => same_w(x, y),
                (None, None) => true,
                _ => false,
            };
            eq &= a.trs[s].len() == b.trs[s].len() && a.trs[s].iter().zip(&b.trs[s]).all(|(x, y)| x.il == y.il && x.ol == y.ol && x.n == y.n && same_w(&x.w, &y.w));
        }
    }
    changed |= !eq;
    c.note(|| format!("{}\n{}", a.show(), b.show()));
    let (mut fa, fb) = (realize(c, &a), realize(c, &b));
    if c.bool() {
        fa.set_input_symbols(Arc::new(gen_symt(c, 3)));
    }
    let (ca, cb) = (ConstFst::from(fa.clone()), ConstFst::from(fb.clone()));
    ensure!((fa == fb) == eq, "VectorFst ==: wrong answer", "expected {} got {}", eq, fa == fb);
    ensure!((ca == cb) == eq, "ConstFst ==: wrong answer", "expected {} got {}", eq, ca == cb);
    ensure!(fa == fa.clone() && ca == ca.clone(), "==: a machine differs from its clone", "");
    for (what, g) in [("vector/vector", fa.approx_equal(&fb, 1.0 / 1024.0)), ("vector/const", fa.approx_equal(&cb, 1.0 / 1024.0)), ("const/vector", ca.approx_equal(&fb, 1.0 / 1024.0))] {
        ensure!(g == eq, format!("approx_equal {}: wrong answer", what), "expected {} got {}", eq, g);
    }
    c.nontrivial = changed;
    Ok(())
}

/// a copy does not change when the original is edited, and the other way round
fn sharing<W: TW + 'static>(c: &mut Ctx) -> R {
    let mut k = cfg(c);
    k.zeros = 0;
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    c.note(|| m.show());
    let cst = ConstFst::from(f.clone());
    let arc = Arc::new(f.clone());
    let held: Vec<_> = (0..m.n()).map(|s| cst.get_trs(s as StateId).unwrap()).collect();
    let n = c.range(1, 4);
    let mut ed = false;
    for _ in 0..n {
        if f.num_states() == 0 {
            break;
        }
        ed = true;
        let s = c.below(f.num_states()) as StateId;
        match c.below(5) {
            0 => {
                f.pop_trs(s)?;
            }
            1 => f.add_tr(s, Tr::new(7, 7, W::one(), s))?,
            2 => f.del_states(vec![s])?,
            3 => {
                let mut it = f.tr_iter_mut(s)?;
                for i in 0..it.len() {
                    it.set_ilabel(i, 9)?;
                }
            }
            _ => f.set_final(s, W::one())?,
        }
    }
    full("ConstFst after its source changed", &cst, &m, &cst_vec(&cst))?;
    full("Arc after its source changed", &arc, &m, &m.vector())?;
    drop(cst);
    for s in 0..m.n() {
        let e: Vec<Tr<W>> = m.trs[s].iter().map(|t| Tr::new(t.il, t.ol, t.w.clone(), t.n as StateId)).collect();
        ensure!(held[s].trs() == &e[..], "transitions held from a ConstFst changed", "state {}", s);
    }
    c.nontrivial = ed;
    Ok(())
}

fn cst_vec<W: TW + 'static>(f: &ConstFst<W>) -> VectorFst<W> {
    fst_convert_from_ref(f)
}
