use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p14::struct_trim;
use crate::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        subs: vec![
            Sub { name: "compose", rule: "the composition accepts something and epsilons occur on both sides of the join, or 2 pairs are accepted", quick: 200_000, thorough: 2_000_000, f: comp_d },
            Sub { name: "epsilon_heavy", rule: "epsilons occur on both sides of the join and the composition accepts something", quick: 200_000, thorough: 2_000_000, f: eps_d },
            Sub { name: "wide", rule: "some state has more than 8 transitions on the join side", quick: 50_000, thorough: 500_000, f: wide_d },
            Sub { name: "order", rule: "the sortedness of both sides is known and they are not both sorted", quick: 60_000, thorough: 600_000, f: order },
            Sub { name: "filters", rule: "the filter visits one pair of states with different filter states", quick: 40_000, thorough: 400_000, f: filters },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 30000, thorough: 450000, f: |c| { c.fine = true; match c.below(3) { 0 => comp_d(c), 1 => eps_d(c), _ => wide_d(c) } } },
            Sub { name: "large", rule: crate::big::RULE, quick: 5_000, thorough: 60_000, f: |c| crate::big::large(c, comp_d) },
        ],
    }
}

macro_rules! ws {
    ($c:expr, $f:ident, $($a:expr),*) => {
        match $c.below(6) {
            0 => $f::<LogWeight>($c, $($a),*),
            1 => $f::<ProbabilityWeight>($c, $($a),*),
            2 | 3 => $f::<IntegerWeight>($c, $($a),*),
            _ => $f::<TropicalWeight>($c, $($a),*),
        }
    };
}
fn comp_d(c: &mut Ctx) -> R {
    ws!(c, comp, 0)
}
fn eps_d(c: &mut Ctx) -> R {
    ws!(c, comp, 1)
}
fn wide_d(c: &mut Ctx) -> R {
    ws!(c, comp, 2)
}

/// Reference composition: product with one canonical interleaving per pair of paths
/// (between two matches, first the moves of A alone, then those of B alone).
pub fn ref_compose<W: TW>(a: &RFst<W>, b: &RFst<W>) -> Option<RFst<W>> {
    let mut o: RFst<W> = RFst::new(0);
    let (Some(sa), Some(sb)) = (a.start, b.start) else { return Some(o) };
    let mut id: HashMap<(usize, usize, bool), usize> = HashMap::new();
    let mut todo = vec![];
    fn get<W: TW>(o: &mut RFst<W>, id: &mut HashMap<(usize, usize, bool), usize>, todo: &mut Vec<(usize, usize, bool)>, k: (usize, usize, bool)) -> usize {
        *id.entry(k).or_insert_with(|| {
            todo.push(k);
            o.fin.push(None);
            o.trs.push(vec![]);
            o.fin.len() - 1
        })
    }
    let s = get(&mut o, &mut id, &mut todo, (sa, sb, false));
    o.start = Some(s);
    while let Some(k @ (p, q, f)) = todo.pop() {
        let s = id[&k];
        if o.n() > 2000 {
            return None;
        }
        if let (Some(x), Some(y)) = (&a.fin[p], &b.fin[q]) {
            o.fin[s] = Some(x.mul(y)?);
        }
        if !f {
            for t in a.trs[p].iter().filter(|t| t.ol == 0) {
                let n = get(&mut o, &mut id, &mut todo, (t.n, q, false));
                o.trs[s].push(RTr { il: t.il, ol: 0, w: t.w.clone(), n });
            }
        }
        for u in b.trs[q].iter().filter(|u| u.il == 0) {
            let n = get(&mut o, &mut id, &mut todo, (p, u.n, true));
            o.trs[s].push(RTr { il: 0, ol: u.ol, w: u.w.clone(), n });
        }
        for t in a.trs[p].iter().filter(|t| t.ol != 0) {
            for u in b.trs[q].iter().filter(|u| u.il == t.ol) {
                let n = get(&mut o, &mut id, &mut todo, (t.n, u.n, false));
                o.trs[s].push(RTr { il: t.il, ol: u.ol, w: t.w.mul(&u.w)?, n });
            }
        }
    }
    Some(o)
}

/// definition of relational composition over the full relations of two machines without cycles
fn lang_compose<W: TW>(a: &Lang<W>, b: &Lang<W>) -> Option<Lang<W>> {
    let mut o = Lang::new();
    for ((x, y), v) in a {
        for ((y2, z), w) in b {
            if y == y2 {
                add(&mut o, (x.clone(), z.clone()), v.mul(w)?)?;
            }
        }
    }
    Some(o)
}

pub fn know_sorted<W: TW>(f: &mut VectorFst<W>) -> R {
    f.compute_and_update_properties(SORT_BITS)?;
    Ok(())
}
pub const SORT_BITS: FstProperties = FstProperties::I_LABEL_SORTED
    .union(FstProperties::NOT_I_LABEL_SORTED)
    .union(FstProperties::O_LABEL_SORTED)
    .union(FstProperties::NOT_O_LABEL_SORTED);

fn comp<W: TW>(c: &mut Ctx, kind: usize) -> R {
    let acyclic = !W::IDEMP && c.chance(3, 4) || c.bool();
    let ka = match kind {
        1 => Cfg { max_states: 4, max_out: 3, labels: 2, eps: 60, acyclic, ..Default::default() },
        2 => Cfg { max_states: 3, max_out: 12, labels: 6, eps: 15, acyclic: true, ..Default::default() },
        _ => Cfg { max_states: 5, max_out: 3, labels: 3, eps: *c.pick(&[0usize, 25]), acyclic, zeros: *c.pick(&[0usize, 0, 4]), big_labels: false, ..Default::default() },
    };
    let mut a: RFst<W> = gen_rfst(c, &ka);
    let mut b: RFst<W> = gen_rfst(c, &ka);
    if c.chance(1, 8) {
        // a label at the edge of the label range on the join
        for t in a.trs.iter_mut().flatten().filter(|t| t.ol == 1) {
            t.ol = u32::MAX - 1;
        }
        for t in b.trs.iter_mut().flatten().filter(|t| t.il == 1) {
            t.il = u32::MAX - 1;
        }
    }
    // sort at least one side of the join
    let sorted = c.below(3);
    if sorted != 1 {
        a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol));
    }
    if sorted != 0 {
        b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il));
    }
    let (mut fa, mut fb) = (realize(c, &a), realize(c, &b));
    // inputs whose sortedness was never established may be refused
    know_sorted(&mut fa)?;
    know_sorted(&mut fb)?;
    if c.chance(1, 3) {
        fa.set_input_symbols(Arc::new(gen_symt(c, 3)));
    }
    if c.chance(1, 3) {
        fb.set_output_symbols(Arc::new(gen_symt(c, 3)));
    }
    let aeps = a.trs.iter().flatten().any(|t| t.ol == 0);
    let beps = b.trs.iter().flatten().any(|t| t.il == 0);
    use ComposeFilterEnum::*;
    let mut fs = vec![AutoFilter, SequenceFilter, AltSequenceFilter, MatchFilter];
    if W::IDEMP {
        fs.extend([TrivialFilter, NoMatchFilter]);
    }
    if !aeps && !beps {
        fs.extend([NullFilter, TrivialFilter, NoMatchFilter]);
    }
    let filter = *c.pick(&fs);
    let conn = c.bool();
    c.note(|| format!("{:?} connect {} sorted {}\nA {}\nB {}", filter, conn, ["A", "B", "both"][sorted], a.show(), b.show()));
    let cfg = ComposeConfig { compose_filter: filter, connect: conn, ..Default::default() };
    let what = format!("compose {:?}", filter);
    let r: VectorFst<W> = match c.below(4) {
        0 if filter == AutoFilter && conn => compose::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb)?,
        1 => compose_with_config::<_, ConstFst<W>, VectorFst<W>, _, _, _>(&ConstFst::from(fa.clone()), &fb, cfg)?,
        2 => compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(Arc::new(fa.clone()), Arc::new(fb.clone()), cfg)?,
        _ => compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb, cfg)?,
    };
    ensure!(r.input_symbols() == fa.input_symbols() && r.output_symbols() == fb.output_symbols(), "compose: symbol tables are not those of the outer sides", "");
    let m = RFst::from_fst(&r)?;
    m.validate()?;
    check_props(&what, r.properties(), &m)?;
    if conn {
        ensure!(struct_trim(&m).n() == m.n(), "compose: useless states although trimming was asked for", "{}", m.show());
    }
    let mut nt = 0;
    if let Some(e) = ref_compose(&a, &b) {
        same_lang(&what, &e, &m, 4)?;
        nt = e.lang(4, 4).map_or(0, |l| l.len());
    }
    if a.acyclic() && b.acyclic() {
        if let (Some(x), Some(y)) = (a.full_lang(), b.full_lang()) {
            if let (Some(e), Some(g)) = (lang_compose(&x, &y), m.full_lang()) {
                check_lang(&what, &e, &g)?;
                nt = nt.max(e.len());
            }
        }
    }
    c.nontrivial = match kind {
        1 => aeps && beps && nt > 0,
        2 => nt > 0 && (a.trs.iter().any(|t| t.len() > 8) || b.trs.iter().any(|t| t.len() > 8)),
        _ => (aeps && beps && nt > 0) || nt >= 2,
    };
    Ok(())
}

/// sortedness: refused when neither side is sorted, accepted (and right) when one is
fn order(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let k = Cfg { max_states: 4, max_out: 3, labels: 3, eps: 15, acyclic: true, degenerate: false, ..Default::default() };
    let (mut a, mut b): (RFst<W>, RFst<W>) = (gen_rfst(c, &k), gen_rfst(c, &k));
    match c.below(4) {
        0 => a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol)),
        1 => b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il)),
        _ => {}
    }
    let sa = a.trs.iter().all(|v| v.windows(2).all(|w| w[0].ol <= w[1].ol));
    let sb = b.trs.iter().all(|v| v.windows(2).all(|w| w[0].il <= w[1].il));
    let (fa, fb) = (realize(c, &a), realize(c, &b));
    let sk = |f: &VectorFst<W>| (f.properties() & SORT_BITS).bits().count_ones() == 2;
    let known = sk(&fa) && sk(&fb);
    use ComposeFilterEnum::*;
    let filter = *c.pick(&[AutoFilter, SequenceFilter, AltSequenceFilter, MatchFilter, TrivialFilter, NoMatchFilter]);
    c.note(|| format!("{:?} A sorted {} B sorted {}\nA {}\nB {}", filter, sa, sb, a.show(), b.show()));
    let cfg = ComposeConfig { compose_filter: filter, ..Default::default() };
    let r: anyhow::Result<VectorFst<W>> = compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb, cfg);
    match r {
        Ok(r) => {
            ensure!(sa || sb, "compose: accepted two machines of which neither is sorted", "{:?}", filter);
            let m = RFst::from_fst(&r)?;
            if let Some(e) = ref_compose(&a, &b) {
                same_lang(&format!("compose {:?}", filter), &e, &m, 5)?;
            }
        }
        Err(e) => ensure!(!sa && !sb || !known, "compose: refused although one side is sorted", "{:?}: {:#}", filter, e),
    }
    c.nontrivial = !(sa && sb) && known;
    Ok(())
}

/// A filter that has been elsewhere before answers as a new one does.
fn filters(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    type V = VectorFst<W>;
    type M = matchers::SortedMatcher<W, V, Arc<V>>;
    use compose_filters::*;
    let k = Cfg { max_states: 3, max_out: 3, labels: 2, eps: 45, degenerate: false, ..Default::default() };
    let mut a: RFst<W> = gen_rfst(c, &k);
    let mut b: RFst<W> = gen_rfst(c, &k);
    a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol));
    b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il));
    let (fa, fb) = (Arc::new(realize(c, &a)), Arc::new(realize(c, &b)));
    c.note(|| format!("filters over {} and {}", a.show(), b.show()));
    macro_rules! go {
        ($t:ident) => {{
            let bl = $t::<W, V, V, Arc<V>, Arc<V>, M, M>::new(fa.clone(), fb.clone(), None, None)?;
            reuse(c, stringify!($t), &a, &b, || Ok(bl.build()?))
        }};
    }
    match c.below(6) {
        0 => go!(SequenceComposeFilterBuilder),
        1 => go!(AltSequenceComposeFilterBuilder),
        2 => go!(MatchComposeFilterBuilder),
        3 => go!(NullComposeFilterBuilder),
        4 => go!(TrivialComposeFilterBuilder),
        _ => go!(NoMatchComposeFilterBuilder),
    }
}

fn reuse<F, M1, M2, CF>(c: &mut Ctx, what: &str, a: &RFst<TropicalWeight>, b: &RFst<TropicalWeight>, mk: impl Fn() -> R<CF>) -> R
where
    F: Fst<TropicalWeight>,
    M1: matchers::Matcher<TropicalWeight, F, Arc<F>>,
    M2: matchers::Matcher<TropicalWeight, F, Arc<F>>,
    CF: compose_filters::ComposeFilter<TropicalWeight, F, F, Arc<F>, Arc<F>, M1, M2>,
{
    use filter_states::FilterState;
    let mut old = mk()?;
    let mut known = vec![old.start()];
    let mut at: HashMap<(usize, usize), Vec<CF::FS>> = HashMap::new();
    for _ in 0..c.range(2, 10) {
        let (s1, s2) = (c.below(a.n()), c.below(b.n()));
        let i = c.below(known.len());
        let fs = known[i].clone();
        let v = at.entry((s1, s2)).or_default();
        if !v.contains(&fs) {
            v.push(fs.clone());
        }
        let mut new = mk()?;
        ensure!(new.start() == old.start(), format!("{}: start changed", what), "");
        old.set_state(s1 as StateId, s2 as StateId, &fs)?;
        new.set_state(s1 as StateId, s2 as StateId, &fs)?;
        // real transitions and the implicit epsilon loops
        let tr = |r: &RFst<TropicalWeight>, s: usize, i: usize, lp: Tr<TropicalWeight>| match r.trs[s].get(i) {
            Some(t) => Tr::new(t.il, t.ol, t.w, t.n as StateId),
            None => lp,
        };
        for _ in 0..c.range(1, 3) {
            let x = tr(a, s1, c.below(a.trs[s1].len() + 1), Tr::new(0, NO_LABEL, TropicalWeight::one(), s1 as StateId));
            let y = tr(b, s2, c.below(b.trs[s2].len() + 1), Tr::new(NO_LABEL, 0, TropicalWeight::one(), s2 as StateId));
            let (mut x1, mut y1, mut x2, mut y2) = (x.clone(), y.clone(), x.clone(), y.clone());
            let (p, q) = (old.filter_tr(&mut x1, &mut y1)?, new.filter_tr(&mut x2, &mut y2)?);
            ensure!(p == q && x1 == x2 && y1 == y2, format!("{}: depends on where the filter was before", what), "at ({}, {}) in {:?}, {:?} with {:?}: {:?}, from a new filter {:?}", s1, s2, fs, x, y, p, q);
            if p != CF::FS::new_no_state() && !known.contains(&p) {
                known.push(p);
            }
        }
    }
    c.nontrivial = at.values().any(|v| v.len() > 1);
    Ok(())
}
