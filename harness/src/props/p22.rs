use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::props::p05::GalL;
use crate::*;
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        subs: vec![
            Sub { name: "reverse", rule: "the machine accepts at least 2 pairs", quick: 180_000, thorough: 2_000_000, f: reverse_d },
            Sub { name: "reverse_strings", rule: "at least 2 paths with string weights", quick: 60_000, thorough: 600_000, f: reverse_str },
            Sub { name: "invert_project_relabel", rule: "a label changes on some transition", quick: 180_000, thorough: 2_000_000, f: labels_d },
            Sub { name: "mappers", rule: "a transition or final weight is changed by the mapper", quick: 180_000, thorough: 2_000_000, f: mappers_d },
            Sub { name: "final_labels", rule: "the mapper puts a label on a final weight", quick: 180_000, thorough: 2_000_000, f: superfinal_d },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 40000, thorough: 600000, f: |c| { c.fine = true; match c.below(4) { 0 => reverse_d(c), 1 => labels_d(c), 2 => superfinal_d(c), _ => mappers_d(c) } } },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => reverse_d(c), 1 => labels_d(c), _ => mappers_d(c) }) },
        ],
    }
}

macro_rules! ws {
    ($c:expr, $f:ident) => {
        match $c.below(7) {
            0 => $f::<LogWeight>($c),
            1 => $f::<ProbabilityWeight>($c),
            2 => $f::<IntegerWeight>($c),
            3 => $f::<Mat>($c),
            4 => $f::<BooleanWeight>($c),
            _ => $f::<TropicalWeight>($c),
        }
    };
}

fn reverse_d(c: &mut Ctx) -> R {
    match c.below(7) {
        0 => rev::<LogWeight>(c),
        1 => rev::<ProbabilityWeight>(c),
        2 => rev::<IntegerWeight>(c),
        3 | 4 => rev::<Mat>(c),
        _ => rev::<TropicalWeight>(c),
    }
}

fn cfg<W: TW>(c: &mut Ctx) -> Cfg {
    Cfg { max_states: 5, max_out: 3, labels: 3, eps: *c.pick(&[0usize, 20]), acyclic: !W::IDEMP || c.bool(), acceptor: c.chance(1, 4), zeros: *c.pick(&[0usize, 0, 5]), ..Default::default() }
}

fn symts<W: TW>(c: &mut Ctx, f: &mut VectorFst<W>) {
    if c.chance(1, 3) {
        f.set_input_symbols(Arc::new(gen_symt(c, 4)));
    }
    if c.chance(1, 3) {
        f.set_output_symbols(Arc::new(gen_symt(c, 3)));
    }
}

fn rev<W: TW + Semiring<ReverseWeight = W>>(c: &mut Ctx) -> R {
    let k = cfg::<W>(c);
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    c.note(|| m.show());
    let g: VectorFst<W> = if c.bool() { reverse(&f)? } else { reverse(&ConstFst::from(f.clone()))? };
    let r = RFst::from_fst(&g)?;
    ensure!(g.input_symbols() == f.input_symbols() && g.output_symbols() == f.output_symbols(), "reverse: symbol tables changed", "symbol tables are not those of the input");
    let l = 4;
    let (Some(a), Some(b)) = (m.lang(l, l), r.lang(l, l)) else { return Ok(()) };
    let mut e = Lang::new();
    for ((x, y), w) in &a {
        let (mut x, mut y) = (x.clone(), y.clone());
        x.reverse();
        y.reverse();
        e.insert((x, y), w.reverse()?);
    }
    check_lang("reverse", &e, &b)?;
    let h: VectorFst<W> = reverse(&g)?;
    if let Some(d) = RFst::from_fst(&h)?.lang(l, l) {
        check_lang("reverse twice", &a, &d)?;
    }
    c.nontrivial = a.len() >= 2;
    Ok(())
}

pub type Paths = Vec<(Str, Str, String)>;

/// every successful path of an acyclic machine: labels without epsilons, product of weights
pub fn paths<W: TW>(m: &RFst<W>, cap: usize) -> Option<Paths> {
    let mut out = vec![];
    let mut work = 0;
    let mut st: Vec<(usize, Str, Str, W)> = vec![];
    if let Some(s) = m.start {
        st.push((s, vec![], vec![], W::one()));
    }
    while let Some((s, x, y, w)) = st.pop() {
        work += 1;
        if out.len() + st.len() > cap || work > 100 * cap {
            return None;
        }
        if let Some(f) = &m.fin[s] {
            out.push((x.clone(), y.clone(), w.mul(f)?.show()));
        }
        for t in &m.trs[s] {
            let (mut x2, mut y2) = (x.clone(), y.clone());
            if t.il != 0 {
                x2.push(t.il);
            }
            if t.ol != 0 {
                y2.push(t.ol);
            }
            st.push((t.n, x2, y2, w.mul(&t.w)?));
        }
    }
    out.sort();
    Some(out)
}

fn reverse_str(c: &mut Ctx) -> R {
    if c.bool() {
        rev_twice::<StringWeightLeft>(c)
    } else {
        rev_twice::<GalL>(c)
    }
}

fn rev_twice<W: TW>(c: &mut Ctx) -> R
where
    W::ReverseWeight: Semiring<ReverseWeight = W>,
{
    let k = Cfg { acyclic: true, max_states: 5, ..cfg::<W>(c) };
    let m: RFst<W> = gen_rfst(c, &k);
    let f = realize(c, &m);
    c.note(|| m.show());
    let g: VectorFst<W::ReverseWeight> = reverse(&f)?;
    let h: VectorFst<W> = reverse(&g)?;
    let r = RFst::from_fst(&h)?;
    // the once reversed machine: transitions turned around, weights reversed
    let q = RFst::from_fst(&g)?;
    let mut e: Vec<String> = vec![];
    for s in 0..m.n() {
        for t in &m.trs[s] {
            e.push(format!("{} {} {:?} {} {}", t.il, t.ol, t.w.reverse()?, t.n + 1, s + 1));
        }
        if let Some(w) = &m.fin[s] {
            e.push(format!("0 0 {:?} 0 {}", w.reverse()?, s + 1));
        }
    }
    let mut a: Vec<String> = q.trs.iter().enumerate().flat_map(|(s, v)| v.iter().map(move |t| format!("{} {} {:?} {} {}", t.il, t.ol, t.w, s, t.n))).collect();
    e.sort();
    a.sort();
    if q.n() == m.n() + 1 && q.start == Some(0) {
        ensure!(a == e, "reverse: wrong transitions", "reversed transitions {:?}, expected {:?}", a, e);
    }
    let (Some(x), Some(y)) = (paths(&m, 2000), paths(&r, 2000)) else { return Ok(()) };
    ensure!(x == y, "reverse twice: paths changed", "paths {:?} became {:?}", x, y);
    c.nontrivial = x.len() >= 2;
    Ok(())
}

fn exact<W: TW>(what: &str, e: &RFst<W>, g: &RFst<W>) -> R {
    ensure!(e.n() == g.n() && e.start == g.start, format!("{}: states changed", what), "{}: expected {}, got {}", what, e.show(), g.show());
    for s in 0..e.n() {
        let fe = match (&e.fin[s], &g.fin[s]) {
            (None, None) => true,
            (Some(a), Some(b)) => a.close(b),
            (None, Some(b)) => b.nil(),
            (Some(a), None) => a.nil(),
        };
        ensure!(fe, format!("{}: wrong final weight", what), "{}: state {}: expected {:?}, got {:?}", what, s, e.fin[s], g.fin[s]);
        ensure!(e.trs[s].len() == g.trs[s].len(), format!("{}: number of transitions changed", what), "{}: {}", what, g.show());
        for (a, b) in e.trs[s].iter().zip(&g.trs[s]) {
            ensure!(a.il == b.il && a.ol == b.ol && a.n == b.n && a.w.close(&b.w), format!("{}: wrong transition", what), "{}: state {}: expected {:?}, got {:?}", what, s, a, b);
        }
    }
    Ok(())
}

fn labels_d(c: &mut Ctx) -> R {
    ws!(c, labels)
}

fn labels<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { big_labels: true, ..cfg::<W>(c) };
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    let (si, so) = (f.input_symbols().cloned(), f.output_symbols().cloned());
    let snapshot = f.clone();
    let held: Vec<_> = (0..m.n()).map(|s| f.get_trs(s as StateId).unwrap()).collect();
    let mut e = m.clone();
    let op = c.below(4);
    let what = ["invert", "project input", "project output", "relabel_pairs"][op];
    let (mut ei, mut eo) = (si.clone(), so.clone());
    match op {
        0 => {
            invert(&mut f);
            for t in e.trs.iter_mut().flatten() {
                std::mem::swap(&mut t.il, &mut t.ol);
            }
            std::mem::swap(&mut ei, &mut eo);
        }
        1 => {
            project(&mut f, ProjectType::ProjectInput);
            e.trs.iter_mut().flatten().for_each(|t| t.ol = t.il);
            eo = ei.clone();
        }
        2 => {
            project(&mut f, ProjectType::ProjectOutput);
            e.trs.iter_mut().flatten().for_each(|t| t.il = t.ol);
            ei = eo.clone();
        }
        _ => {
            let mut table = |c: &mut Ctx| {
                let mut b: BTreeMap<u32, u32> = BTreeMap::new();
                for _ in 0..c.below(5) {
                    let a = c.below(5) as u32;
                    b.insert(a, c.below(6) as u32);
                }
                b
            };
            let (ip, op) = (table(c), table(c));
            c.note(|| format!("input pairs {:?} output pairs {:?}", ip, op));
            if !ip.is_empty() && c.chance(1, 5) {
                // the same label twice is refused, and nothing changes
                let (a, b) = ip.iter().next().unwrap();
                let mut v: Vec<(u32, u32)> = ip.clone().into_iter().collect();
                v.push((*a, b + 1));
                let side = c.bool();
                let r = if side { relabel_pairs(&mut f, v, op.clone()) } else { relabel_pairs(&mut f, op.clone(), v) };
                ensure!(r.is_err(), "relabel_pairs accepted a label twice", "pairs with {} twice accepted", a);
                exact("refused relabel_pairs", &m, &RFst::from_fst(&f)?)?;
            }
            relabel_pairs(&mut f, ip.clone(), op.clone())?;
            for t in e.trs.iter_mut().flatten() {
                t.il = *ip.get(&t.il).unwrap_or(&t.il);
                t.ol = *op.get(&t.ol).unwrap_or(&t.ol);
            }
        }
    }
    c.note(|| format!("{} of {}", what, m.show()));
    let r = RFst::from_fst(&f)?;
    exact(what, &e, &r)?;
    crate::hist::agrees(what, &f, &e)?;
    ensure!(f.input_symbols() == ei.as_ref() && f.output_symbols() == eo.as_ref(), format!("{}: symbol tables do not follow the labels", what), "{}: input table {:?}, output table {:?}; before {:?} {:?}", what, f.input_symbols().map(|t| t.len()), f.output_symbols().map(|t| t.len()), si.map(|t| t.len()), so.map(|t| t.len()));
    // earlier clones and transition lists are untouched
    exact("clone taken before", &m, &RFst::from_fst(&snapshot)?)?;
    for (s, h) in held.iter().enumerate() {
        let ok = h.trs().len() == m.trs[s].len() && h.trs().iter().zip(&m.trs[s]).all(|(a, b)| a.ilabel == b.il && a.olabel == b.ol);
        ensure!(ok, "transition list taken before was modified", "state {}", s);
    }
    if op == 0 {
        invert(&mut f);
        exact("invert twice", &m, &RFst::from_fst(&f)?)?;
        ensure!(f == snapshot, "invert twice is not the identity", "the machine differs from the original");
    }
    c.nontrivial = m.trs.iter().flatten().zip(e.trs.iter().flatten()).any(|(a, b)| a.il != b.il || a.ol != b.ol);
    Ok(())
}

fn mappers_d(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => mappers::<LogWeight>(c),
        1 => mappers::<ProbabilityWeight>(c),
        _ => mappers::<TropicalWeight>(c),
    }
}

fn mappers<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx) -> R {
    let mut k = cfg::<W>(c);
    let op = c.below(8);
    if op == 3 {
        k.zeros = 0;
    }
    let mut m: RFst<W> = gen_rfst(c, &k);
    if m.start.is_none() {
        return Ok(());
    }
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.nil()) {
            *f = None;
        }
    }
    let mut f = realize(c, &m);
    symts(c, &mut f);
    let (si, so) = (f.input_symbols().cloned(), f.output_symbols().cloned());
    let x = W::gen(c);
    let names = ["identity", "input_epsilon", "output_epsilon", "invert_weight", "plus", "times", "rm_weight", "quantize"];
    let what = names[op];
    c.note(|| format!("{} {} of {}", what, x.show(), m.show()));
    let mut e = m.clone();
    let each = |e: &mut RFst<W>, g: &dyn Fn(&W) -> W| {
        for t in e.trs.iter_mut().flatten() {
            t.w = g(&t.w);
        }
        for w in e.fin.iter_mut().flatten() {
            *w = g(w);
        }
    };
    let conv = c.bool();
    macro_rules! go {
        ($m:expr) => {{
            let mut mp = $m;
            if conv {
                let g: VectorFst<W> = weight_convert(&f, &mut mp)?;
                let before = RFst::from_fst(&f)?;
                exact("input of weight_convert", &m, &before)?;
                f = g;
            } else {
                tr_map(&mut f, &&mp)?;
            }
        }};
    }
    match op {
        0 => go!(IdentityTrMapper {}),
        1 => {
            go!(InputEpsilonMapper {});
            e.trs.iter_mut().flatten().for_each(|t| t.il = 0);
        }
        2 => {
            go!(OutputEpsilonMapper {});
            e.trs.iter_mut().flatten().for_each(|t| t.ol = 0);
        }
        3 => {
            go!(InvertWeightMapper {});
            each(&mut e, &|w| W::one().divide(w, DivideType::DivideAny).unwrap());
        }
        4 => {
            if c.bool() {
                go!(PlusMapper::from_weight(x.clone()))
            } else {
                go!(PlusMapper::<W>::new(x.value().clone()))
            }
            each(&mut e, &|w| w.plus(&x).unwrap());
        }
        5 => {
            if c.bool() {
                go!(TimesMapper::from_weight(x.clone()))
            } else {
                go!(TimesMapper::<W>::new(x.value().clone()))
            }
            each(&mut e, &|w| w.times(&x).unwrap());
        }
        6 => {
            go!(RmWeightMapper {});
            each(&mut e, &|w| if w.is_zero() { w.clone() } else { W::one() });
        }
        _ => {
            let d = *c.pick(&[0.5f32, 0.25, 1.0, 1.0 / 1024.0]);
            go!(QuantizeMapper::new(d));
            each(&mut e, &|w| w.quantize(d).unwrap());
        }
    }
    let what = &format!("{} mapper", what);
    exact(what, &e, &RFst::from_fst(&f)?)?;
    crate::hist::agrees(what, &f, &RFst::from_fst(&f)?)?;
    ensure!(f.input_symbols() == si.as_ref() && f.output_symbols() == so.as_ref(), format!("{}: symbol tables changed", what), "symbol tables are not those of the input");
    c.nontrivial = m.ntr() > 0 && op > 0 && format!("{:?}", m) != format!("{:?}", e);
    Ok(())
}

/// user-defined mapper: relabels transitions, and turns final weights into labelled transitions
struct Lab {
    action: usize,
    shift: u32,
    /// label put on final weights that are not one
    fl: u32,
    odd_only: bool,
}

impl<W: Semiring> TrMapper<W> for Lab {
    fn tr_map(&self, tr: &mut Tr<W>) -> anyhow::Result<()> {
        if tr.ilabel != 0 {
            tr.ilabel += self.shift;
        }
        Ok(())
    }
    fn final_tr_map(&self, t: &mut FinalTr<W>) -> anyhow::Result<()> {
        if !(self.odd_only && t.weight.is_one()) {
            t.ilabel = self.fl;
            t.olabel = self.fl;
        }
        Ok(())
    }
    fn final_action(&self) -> MapFinalAction {
        match self.action {
            0 => MapFinalAction::MapNoSuperfinal,
            1 => MapFinalAction::MapAllowSuperfinal,
            _ => MapFinalAction::MapRequireSuperfinal,
        }
    }
    fn properties(&self, _p: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}
struct LabConv(Lab);
impl<W: Semiring> WeightConverter<W, W> for LabConv {
    fn tr_map(&mut self, tr: &Tr<W>) -> anyhow::Result<Tr<W>> {
        let mut t = tr.clone();
        TrMapper::<W>::tr_map(&self.0, &mut t)?;
        Ok(t)
    }
    fn final_tr_map(&mut self, t: &FinalTr<W>) -> anyhow::Result<FinalTr<W>> {
        let mut t = t.clone();
        TrMapper::<W>::final_tr_map(&self.0, &mut t)?;
        Ok(t)
    }
    fn final_action(&self) -> MapFinalAction {
        TrMapper::<W>::final_action(&self.0)
    }
    fn properties(&self, p: FstProperties) -> FstProperties {
        TrMapper::<W>::properties(&self.0, p)
    }
}

fn superfinal_d(c: &mut Ctx) -> R {
    ws!(c, superfinal)
}

fn superfinal<W: TW>(c: &mut Ctx) -> R {
    let k = cfg::<W>(c);
    let mut m: RFst<W> = gen_rfst(c, &k);
    if m.start.is_none() {
        return Ok(());
    }
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.nil()) {
            *f = None;
        }
    }
    let lab = Lab { action: c.below(3), shift: c.below(3) as u32, fl: *c.pick(&[0u32, 9, 9]), odd_only: c.bool() };
    let mut f = realize(c, &m);
    c.note(|| format!("final action {} final label {} only-weighted {} of {}", lab.action, lab.fl, lab.odd_only, m.show()));
    let mut e = m.clone();
    for t in e.trs.iter_mut().flatten() {
        if t.il != 0 {
            t.il += lab.shift;
        }
    }
    // expected: finals that got a label become a transition to a fresh final state
    let q = e.n();
    e.fin.push(Some(W::one()));
    e.trs.push(vec![]);
    let mut labelled = false;
    for s in 0..q {
        if let Some(w) = e.fin[s].clone() {
            if lab.fl != 0 && !(lab.odd_only && w.is_one()) {
                e.fin[s] = None;
                e.trs[s].push(RTr { il: lab.fl, ol: lab.fl, w, n: q });
                labelled = true;
            }
        }
    }
    let action = lab.action;
    let conv = c.bool();
    let r: anyhow::Result<VectorFst<W>> = if conv {
        weight_convert(&f, &mut LabConv(lab))
    } else {
        let r = tr_map(&mut f, &&lab);
        r.map(|_| f.clone())
    };
    let what = format!("{} with final action {}", if conv { "weight_convert" } else { "tr_map" }, action);
    if action == 0 && labelled {
        ensure!(r.is_err(), format!("{}: a final label was accepted without a super-final state", what), "no error");
        c.nontrivial = true;
        return Ok(());
    }
    let g = RFst::from_fst(&r?)?;
    same_lang(&what, &e, &g, 4)?;
    if action == 2 {
        ensure!(g.fin.iter().flatten().count() == 1, format!("{}: more than one final state", what), "{}", g.show());
    }
    c.nontrivial = labelled;
    Ok(())
}
