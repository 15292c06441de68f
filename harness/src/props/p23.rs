use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::props::p22::paths;
use crate::*;
use rustfst::algorithms::encode::{decode, encode, EncodeType};
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        subs: vec![
            Sub { name: "encode", rule: "two transitions share a code and two do not", quick: 600_000, thorough: 6_000_000, f: enc_d },
            Sub { name: "factor", rule: "some weight has two or more factors", quick: 400_000, thorough: 4_000_000, f: fac_d },
            Sub { name: "gallic", rule: "an output label or final weight is carried through the gallic form", quick: 400_000, thorough: 4_000_000, f: gal_d },
            Sub { name: "simple", rule: "a weighted transition is converted", quick: 200_000, thorough: 2_000_000, f: simple_d },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => enc_d(c), _ => gal_d(c) }) },
        ],
    }
}

fn enc_d(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => enc::<IntegerWeight>(c),
        1 => enc::<LogWeight>(c),
        2 => enc::<Mat>(c),
        3 => enc::<BooleanWeight>(c),
        _ => enc::<TropicalWeight>(c),
    }
}

fn nozero<W: TW>(m: &mut RFst<W>) {
    m.fin.iter_mut().for_each(|w| {
        if w.as_ref().map_or(false, |w| w.is_zero()) {
            *w = None
        }
    });
}

fn symts<W: Semiring>(c: &mut Ctx, f: &mut VectorFst<W>) {
    if c.chance(1, 3) {
        f.set_input_symbols(Arc::new(gen_symt(c, 3)));
    }
    if c.chance(1, 3) {
        f.set_output_symbols(Arc::new(gen_symt(c, 3)));
    }
}

fn enc<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: *c.pick(&[1usize, 2, 3]), eps: *c.pick(&[0usize, 25]), acyclic: !W::IDEMP || c.bool(), acceptor: c.chance(1, 4), ..Default::default() };
    let mut m: RFst<W> = gen_rfst(c, &k);
    nozero(&mut m);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    let ty = *c.pick(&[EncodeType::EncodeWeights, EncodeType::EncodeLabels, EncodeType::EncodeWeightsAndLabels]);
    c.note(|| format!("{:?}\n{}", ty, m.show()));
    let (si, so) = (f.input_symbols().cloned(), f.output_symbols().cloned());
    let (el, ew) = (ty.encode_labels(), ty.encode_weights());
    let table = encode(&mut f, ty)?;
    let e = RFst::from_fst(&f)?;
    check_props("encode", f.properties(), &e)?;
    // the encoded machine: same graph, codes equal exactly when the encoded parts are
    if m.start.is_some() {
        ensure!(e.n() >= m.n() && e.start == m.start, "encode: states changed", "{} -> {}", m.n(), e.n());
        let mut code: BTreeMap<(u32, Option<u32>, Option<String>), u32> = BTreeMap::new();
        let mut back: BTreeMap<u32, (u32, Option<u32>, Option<String>)> = BTreeMap::new();
        let mut shared = false;
        for s in 0..m.n() {
            let fin = m.fin[s].is_some() && ew;
            ensure!(e.trs[s].len() == m.trs[s].len() + fin as usize, "encode: transitions added or lost", "state {}: {} -> {}", s, m.trs[s].len(), e.trs[s].len());
            for (i, t) in e.trs[s].iter().enumerate() {
                let o = m.trs[s].get(i);
                let key = match o {
                    Some(o) => (o.il, el.then_some(o.ol), ew.then(|| o.w.show())),
                    None => (0, el.then_some(0), ew.then(|| m.fin[s].as_ref().unwrap().show())),
                };
                ensure!(t.il != 0, "encode: the code is epsilon", "state {} transition {}", s, i);
                if let Some(p) = back.insert(t.il, key.clone()) {
                    ensure!(p == key, "encode: different transitions share a code", "code {}: {:?} and {:?}", t.il, p, key);
                    shared = true;
                }
                if let Some(p) = code.insert(key.clone(), t.il) {
                    ensure!(p == t.il, "encode: equal transitions have different codes", "{:?}: {} and {}", key, p, t.il);
                }
                if el {
                    ensure!(t.ol == t.il, "encode: output label is not the code", "state {} transition {}", s, i);
                } else {
                    ensure!(t.ol == o.map_or(0, |o| o.ol), "encode: output label changed", "state {} transition {}", s, i);
                }
                if ew {
                    ensure!(t.w.is_one(), "encode: a weight is left", "state {} transition {}", s, i);
                } else {
                    ensure!(o.map_or(false, |o| o.w == t.w), "encode: weight changed", "state {} transition {}", s, i);
                }
                if let Some(o) = o {
                    ensure!(o.n == t.n, "encode: target changed", "state {} transition {}", s, i);
                }
            }
            if !ew {
                ensure!(e.fin[s] == m.fin[s], "encode: final weight changed", "state {}", s);
            } else {
                ensure!(e.fin[s].is_none(), "encode: final weight left", "state {}", s);
            }
        }
        c.nontrivial = shared && code.len() >= 2;
    }
    // the code survives relation-preserving surgery on the encoded machine
    match c.below(4) {
        0 => connect(&mut f)?,
        1 => tr_sort(&mut f, ILabelCompare {}),
        2 if W::IDEMP => tr_unique(&mut f),
        _ => {}
    }
    decode(&mut f, table)?;
    let d = RFst::from_fst(&f)?;
    check_props("decode", f.properties(), &d)?;
    ensure!(f.input_symbols().cloned() == si && f.output_symbols().cloned() == so, "encode/decode: symbol tables changed", "");
    same_lang("encode/decode", &m, &d, 4)?;
    Ok(())
}

// ---- factoring -----------------------------------------------------------

type L = Vec<(Vec<u32>, f32)>;
trait Sw: Semiring + WeightQuantize {
    type F: FactorIterator<Self>;
    const MULTI: bool;
    fn mk(l: &L) -> Self;
    fn rd(&self) -> Option<L>;
}
macro_rules! sw {
    ($t:ident, $f:ident) => {
        impl Sw for $t<TropicalWeight> {
            type F = $f<TropicalWeight>;
            const MULTI: bool = false;
            fn mk(l: &L) -> Self {
                (l[0].0.clone(), TropicalWeight::new(l[0].1)).into()
            }
            fn rd(&self) -> Option<L> {
                if self.value1().value().is_infinity() { None } else { let l = self.value1().value().unwrap_labels(); Some(vec![(l.clone(), *self.value2().value())]) }
            }
        }
    };
}
sw!(GallicWeightLeft, GallicFactorLeft);
sw!(GallicWeightRight, GallicFactorRight);
sw!(GallicWeightRestrict, GallicFactorRestrict);
sw!(GallicWeightMin, GallicFactorMin);
impl Sw for GallicWeight<TropicalWeight> {
    type F = GallicFactor<TropicalWeight>;
    const MULTI: bool = true;
    fn mk(l: &L) -> Self {
        let mut w = GallicWeight::zero();
        for (s, v) in l {
            let x: GallicWeight<TropicalWeight> = (s.clone(), TropicalWeight::new(*v)).into();
            w.plus_assign(&x).unwrap();
        }
        w
    }
    fn rd(&self) -> Option<L> {
        self.iter()
            .map(|g| if g.value1().value().is_infinity() { None } else { let l = g.value1().value().unwrap_labels(); Some((l.clone(), *g.value2().value())) })
            .collect()
    }
}
macro_rules! sws {
    ($t:ident, $f:ident) => {
        impl Sw for $t {
            type F = $f;
            const MULTI: bool = false;
            fn mk(l: &L) -> Self {
                l[0].0.clone().into()
            }
            fn rd(&self) -> Option<L> {
                if self.value().is_infinity() { None } else { let l = self.value().unwrap_labels(); Some(vec![(l.clone(), 0.0)]) }
            }
        }
    };
}
sws!(StringWeightLeft, StringFactorLeft);
sws!(StringWeightRight, StringFactorRight);
sws!(StringWeightRestrict, StringFactorRestrict);

fn fac_d(c: &mut Ctx) -> R {
    match c.below(9) {
        0 => fac::<GallicWeightLeft<TropicalWeight>>(c, false),
        1 => fac::<GallicWeightRight<TropicalWeight>>(c, false),
        2 => fac::<GallicWeightRestrict<TropicalWeight>>(c, false),
        3 => fac::<GallicWeightMin<TropicalWeight>>(c, false),
        4 => fac::<StringWeightLeft>(c, true),
        5 => fac::<StringWeightRight>(c, true),
        6 => fac::<StringWeightRestrict>(c, true),
        _ => fac::<GallicWeight<TropicalWeight>>(c, false),
    }
}

fn mulw(a: &L, b: &L) -> L {
    let mut o = vec![];
    for (x, v) in a {
        for (y, w) in b {
            let mut z = x.clone();
            z.extend(y);
            o.push((z, v + w));
        }
    }
    o
}

/// (istr, ostr, string) -> sorted list of weights, over all paths; labels >= cut are dropped
type PM = BTreeMap<(Str, Str, Vec<u32>), f32>;
fn walk(n: usize, start: Option<usize>, fin: &[Option<L>], trs: &[Vec<(u32, u32, L, usize)>], cut: u32) -> Option<PM> {
    let mut o = PM::new();
    let Some(s) = start else { return Some(o) };
    let mut st: Vec<(usize, Str, Str, L, usize)> = vec![(s, vec![], vec![], vec![(vec![], 0.0)], 0)];
    let mut steps = 0;
    while let Some((s, x, y, w, d)) = st.pop() {
        steps += 1;
        if steps > 4000 || d > 60 || s >= n {
            return None;
        }
        if let Some(f) = &fin[s] {
            for (z, v) in mulw(&w, f) {
                let e = o.entry((x.clone(), y.clone(), z)).or_insert(f32::INFINITY);
                *e = e.min(v);
            }
        }
        for (i, l, tw, nx) in &trs[s] {
            let (mut x2, mut y2) = (x.clone(), y.clone());
            if *i != 0 && *i < cut {
                x2.push(*i);
            }
            if *l != 0 && *l < cut {
                y2.push(*l);
            }
            st.push((*nx, x2, y2, mulw(&w, tw), d + 1));
        }
    }
    Some(o)
}

fn fac<W: Sw>(c: &mut Ctx, plain: bool) -> R {
    let k = Cfg { max_states: 4, max_out: 2, labels: 2, eps: 20, acyclic: true, ..Default::default() };
    let g: RFst<TropicalWeight> = gen_rfst(c, &k);
    let gw = |c: &mut Ctx| -> L {
        let n = if W::MULTI && c.chance(1, 3) { 2 } else { 1 };
        let mut l: L = (0..n)
            .map(|_| {
                let k = c.weighted(&[3, 3, 2, 2]);
                ((0..k).map(|_| 1 + c.below(2) as u32).collect(), if plain { 0.0 } else { c.below(4) as f32 })
            })
            .collect();
        l.dedup_by(|a, b| a.0 == b.0);
        l
    };
    let mut f: VectorFst<W> = VectorFst::new();
    f.add_states(g.n());
    if let Some(s) = g.start {
        f.set_start(s as StateId)?;
    }
    let mut fin = vec![];
    let mut trs = vec![];
    let mut multi = false;
    for s in 0..g.n() {
        let mut v = vec![];
        for t in &g.trs[s] {
            let l = gw(c);
            multi |= l.len() > 1 || l[0].0.len() > 1;
            f.add_tr(s as StateId, Tr::new(t.il, t.ol, W::mk(&l), t.n as StateId))?;
            v.push((t.il, t.ol, l, t.n));
        }
        trs.push(v);
        fin.push(if g.fin[s].is_some() {
            let l = gw(c);
            multi |= l.len() > 1 || l[0].0.len() > 1;
            f.set_final(s as StateId, W::mk(&l))?;
            Some(l)
        } else {
            None
        });
    }
    let arc = c.bool();
    let fi = !arc || c.bool();
    let mode = match (fi, arc) {
        (true, true) => FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS,
        (true, false) => FactorWeightType::FACTOR_FINAL_WEIGHTS,
        _ => FactorWeightType::FACTOR_ARC_WEIGHTS,
    };
    let mut opts = FactorWeightOptions::new(mode);
    let cut = 100;
    let mut incr = (false, false);
    if c.chance(1, 3) {
        opts.final_ilabel = cut;
        opts.final_olabel = cut;
        incr = (c.bool(), c.bool());
        opts.increment_final_ilabel = incr.0;
        opts.increment_final_olabel = incr.1;
    }
    c.note(|| format!("arc {} final {} incr {:?} final label {}\nstates {} start {:?} finals {:?}\ntransitions {:?}", arc, fi, incr, opts.final_ilabel, g.n(), g.start, fin, trs));
    let Some(exp) = walk(g.n(), g.start, &fin, &trs, cut) else { return Ok(()) };
    let o: VectorFst<W> = factor_weight::<_, VectorFst<W>, _, _, W::F>(&f, opts.clone())?;
    let n = o.num_states();
    ensure!(n < 3000, "factor_weight: absurd number of states", "{}", n);
    let (mut fin2, mut trs2) = (vec![], vec![]);
    for s in 0..n as StateId {
        let mut v = vec![];
        let (mut li, mut lo) = (vec![], vec![]);
        for t in o.get_trs(s)?.trs() {
            ensure!((t.nextstate as usize) < n, "factor_weight: transition to a missing state", "{:?}", t);
            let Some(l) = t.weight.rd() else { fail!("factor_weight: infinite weight", "{:?}", t) };
            if arc || t.ilabel >= cut {
                ensure!(l.len() == 1 && l[0].0.len() <= 1, "factor_weight: transition weight is not a single factor", "{:?}", t);
            }
            if t.ilabel >= cut {
                li.push(t.ilabel);
                lo.push(t.olabel);
            }
            v.push((t.ilabel, t.olabel, l, t.nextstate as usize));
        }
        for (on, l) in [(incr.0, &mut li), (incr.1, &mut lo)] {
            l.sort();
            let e: Vec<u32> = (0..l.len() as u32).map(|i| if on { cut + i } else { cut }).collect();
            ensure!(*l == e, "factor_weight: wrong labels on factored final weights", "state {}: expected {:?} got {:?}", s, e, l);
        }
        trs2.push(v);
        let fw = match o.final_weight(s)? {
            None => None,
            Some(w) => {
                let Some(l) = w.rd() else { fail!("factor_weight: infinite final weight", "state {}", s) };
                if fi {
                    ensure!(l.len() == 1 && l[0].0.len() <= 1, "factor_weight: final weight is not a single factor", "state {}: {:?}", s, l);
                }
                Some(l)
            }
        };
        fin2.push(fw);
    }
    let Some(got) = walk(n, o.start().map(|s| s as usize), &fin2, &trs2, cut) else { return Ok(()) };
    let close = exp.len() == got.len() && exp.iter().zip(&got).all(|(a, b)| a.0 == b.0 && (a.1 - b.1).abs() < 1e-3);
    ensure!(close, "factor_weight: relation changed", "expected {:?}\n     got {:?}", exp, got);
    c.nontrivial = multi && !exp.is_empty();
    Ok(())
}

// ---- conversions -----------------------------------------------------------

fn gal_d(c: &mut Ctx) -> R {
    match c.below(3) {
        0 => gal::<IntegerWeight>(c),
        1 => gal::<Mat>(c),
        _ => gal::<TropicalWeight>(c),
    }
}

fn gal<W: TW + 'static>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: 3, eps: 30, acyclic: true, ..Default::default() };
    let mut m: RFst<W> = gen_rfst(c, &k);
    nozero(&mut m);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    c.note(|| m.show());
    let mut to = ToGallicConverter {};
    let mut from = FromGallicConverter { superfinal_label: EPS_LABEL };
    macro_rules! go {
        ($g:ident, $name:expr) => {{
            let g: VectorFst<$g<W>> = weight_convert(&f, &mut to)?;
            if m.start.is_some() {
                ensure!(g.num_states() == m.n(), format!("to {}: states changed", $name), "{} -> {}", m.n(), g.num_states());
                for s in 0..m.n() {
                    for t in g.get_trs(s as StateId)?.trs() {
                        ensure!(t.ilabel == t.olabel, format!("to {}: not an acceptor", $name), "{:?}", t);
                    }
                }
            }
            let h: VectorFst<W> = weight_convert(&g, &mut from)?;
            (h, $name)
        }};
    }
    let (h, name) = match c.below(5) {
        0 => go!(GallicWeightLeft, "left gallic"),
        1 => go!(GallicWeightRight, "right gallic"),
        2 => go!(GallicWeightRestrict, "restrict gallic"),
        3 => go!(GallicWeightMin, "min gallic"),
        _ => go!(GallicWeight, "gallic"),
    };
    let r = RFst::from_fst(&h)?;
    check_props(&format!("{} and back", name), h.properties(), &r)?;
    let (Some(a), Some(b)) = (paths(&m, 500), paths(&r, 500)) else { return Ok(()) };
    ensure!(a == b, format!("{} and back: paths changed", name), "expected {:?}\n     got {:?}", a, b);
    if m.start.is_some() {
        ensure!(h.input_symbols() == f.input_symbols() && h.output_symbols() == f.output_symbols(), format!("{} and back: symbol tables changed", name), "");
    }
    c.nontrivial = m.trs.iter().flatten().any(|t| t.ol != 0 && t.ol != t.il) && !a.is_empty();
    Ok(())
}

fn simple_d(c: &mut Ctx) -> R {
    match c.below(3) {
        0 => simple::<LogWeight, ProbabilityWeight>(c),
        1 => simple::<TropicalWeight, LogWeight>(c),
        _ => simple::<LogWeight, TropicalWeight>(c),
    }
}

fn simple<A: TW + Semiring<Type = f32>, B: TW + Semiring<Type = f32>>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: 3, unweighted: c.chance(1, 4), ..Default::default() };
    let mut m: RFst<A> = gen_rfst(c, &k);
    nozero(&mut m);
    // no value that is the zero of the target type
    for s in 0..m.n() {
        if m.fin[s].as_ref().map_or(false, |w| B::new(*w.value()).is_zero()) {
            m.fin[s] = None;
        }
    }
    let mut f = realize(c, &m);
    symts(c, &mut f);
    c.note(|| m.show());
    let g: VectorFst<B> = weight_convert(&f, &mut SimpleWeightConverter {})?;
    let r = RFst::from_fst(&g)?;
    if m.start.is_none() {
        ensure!(r.start.is_none(), "simple conversion: a start state appeared", "");
        return Ok(());
    }
    ensure!(r.n() == m.n() && r.start == m.start, "simple conversion: states changed", "{}", r.show());
    for s in 0..m.n() {
        let e: Vec<_> = m.trs[s].iter().map(|t| (t.il, t.ol, t.w.value().to_bits(), t.n)).collect();
        let o: Vec<_> = r.trs[s].iter().map(|t| (t.il, t.ol, t.w.value().to_bits(), t.n)).collect();
        ensure!(e == o, "simple conversion: transitions changed", "state {}: {:?} -> {:?}", s, e, o);
        ensure!(m.fin[s].as_ref().map(|w| w.value().to_bits()) == r.fin[s].as_ref().map(|w| w.value().to_bits()), "simple conversion: final weight changed", "state {}", s);
    }
    check_props("simple conversion", g.properties(), &r)?;
    ensure!(g.input_symbols() == f.input_symbols() && g.output_symbols() == f.output_symbols(), "simple conversion: symbol tables changed", "");
    c.nontrivial = m.trs.iter().flatten().any(|t| !t.w.is_one());
    Ok(())
}
