use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p08::*;
use crate::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        subs: vec![
            Sub { name: "sigma", rule: "a wildcard transition takes part in an accepted path of the composition", quick: 240_000, thorough: 4_000_000, f: |c| ws(c, false) },
            Sub { name: "explicit_and_sigma", rule: "a wildcard transition takes part in an accepted path and some state has both a wildcard and an explicit transition", quick: 160_000, thorough: 3_000_000, f: |c| ws(c, true) },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 30000, thorough: 450000, f: |c| { c.fine = true; let e = c.bool(); ws(c, e) } },
            Sub { name: "refused", rule: "the other side uses the wildcard label itself, the wildcard label is epsilon, or the wildcard machine is not sorted", quick: 20_000, thorough: 200_000, f: refused },
        ],
    }
}

fn ws(c: &mut Ctx, both: bool) -> R {
    match c.below(5) {
        0 => sigma::<LogWeight>(c, both),
        1 => sigma::<IntegerWeight>(c, both),
        2 => sigma::<ProbabilityWeight>(c, both),
        _ => sigma::<TropicalWeight>(c, both),
    }
}

/// side 1 = the wildcard side is the second machine (matched on input), 0 = the first (matched on output)
fn expand<W: TW>(m: &RFst<W>, side: usize, sigma: Label, labels: &[Label], both: bool) -> RFst<W> {
    let mut o = m.clone();
    for v in o.trs.iter_mut() {
        let mut n = vec![];
        for t in v.drain(..) {
            let l = if side == 1 { t.il } else { t.ol };
            if l != sigma {
                n.push(t);
                continue;
            }
            for x in labels {
                let mut u = t.clone();
                if both {
                    if u.il == sigma {
                        u.il = *x;
                    }
                    if u.ol == sigma {
                        u.ol = *x;
                    }
                } else if side == 1 {
                    u.il = *x;
                } else {
                    u.ol = *x;
                }
                n.push(u);
            }
        }
        *v = n;
    }
    o
}

fn sigma<W: TW>(c: &mut Ctx, both_kinds: bool) -> R {
    let acyclic = !W::IDEMP || c.bool();
    let k = Cfg { max_states: 4, max_out: if both_kinds { 5 } else { 3 }, labels: 3, eps: *c.pick(&[0usize, 15]), acyclic, degenerate: c.chance(1, 10), ..Default::default() };
    let (mut a, mut b): (RFst<W>, RFst<W>) = (gen_rfst(c, &k), gen_rfst(c, &k));
    let side = c.below(2);
    // the labels of one case: small ones, or ones anywhere in the label range
    let names: [Label; 4] = if c.chance(1, 2) { [1, 2, 3, 7] } else { *c.pick(&[[1, 300, 70_000, 900], [255, 256, 257, 65_536], [5, 1 << 24, (1 << 31) + 5, u32::MAX - 2], [u32::MAX - 3, 128, 65_535, 1000]]) };
    for t in a.trs.iter_mut().chain(b.trs.iter_mut()).flatten() {
        for l in [&mut t.il, &mut t.ol] {
            if (1..=3).contains(l) {
                *l = names[*l as usize - 1];
            }
        }
    }
    let sigma = *c.pick(&[4u32, names[0], names[1], names[2], 1001, u32::MAX - 1]);
    {
        let (s, o) = if side == 1 { (&mut b, &mut a) } else { (&mut a, &mut b) };
        // the other side never carries the wildcard on the join
        for t in o.trs.iter_mut().flatten() {
            let l = if side == 1 { &mut t.ol } else { &mut t.il };
            if *l == sigma {
                *l = names[3];
            }
        }
        let acc = c.chance(1, 3);
        for i in 0..s.n() {
            for j in 0..s.trs[i].len() {
                let hit = c.chance(1, 3);
                let other = c.chance(1, 3);
                let t = &mut s.trs[i][j];
                if hit {
                    *(if side == 1 { &mut t.il } else { &mut t.ol }) = sigma;
                }
                if other {
                    *(if side == 1 { &mut t.ol } else { &mut t.il }) = sigma;
                }
                if acc {
                    t.ol = if side == 1 { t.il } else { t.ol };
                    t.il = t.ol;
                }
            }
            if both_kinds {
                // a wildcard beside every explicit transition
                if let Some(t) = s.trs[i].first().cloned() {
                    let mut u = t;
                    if side == 1 {
                        u.il = sigma
                    } else {
                        u.ol = sigma
                    }
                    if acc {
                        u.il = sigma;
                        u.ol = sigma;
                    }
                    s.trs[i].push(u);
                }
            }
        }
    }
    // the wildcard side must be sorted, the other one may be
    let other_sorted = c.bool();
    if side == 0 || other_sorted {
        a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol));
    }
    if side == 1 || other_sorted {
        b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il));
    }
    let (mut fa, mut fb) = (realize(c, &a), realize(c, &b));
    let bits = SORT_BITS.union(FstProperties::ACCEPTOR).union(FstProperties::NOT_ACCEPTOR);
    fa.compute_and_update_properties(bits)?;
    fb.compute_and_update_properties(bits)?;
    let allowed: Option<Vec<Label>> = if c.bool() {
        None
    } else {
        let mut v = vec![];
        for l in [names[0], names[1], names[2], names[3], 0, u32::MAX - 1] {
            if c.chance(1, 2) {
                v.push(l);
            }
        }
        Some(v)
    };
    let mode = c.below(3);
    let acceptor = if side == 1 { &b } else { &a }.trs.iter().flatten().all(|t| t.il == t.ol);
    let both = match mode {
        0 => acceptor,
        1 => true,
        _ => false,
    };
    let mut labels: Vec<Label> = if side == 1 { a.trs.iter().flatten().map(|t| t.ol).collect() } else { b.trs.iter().flatten().map(|t| t.il).collect() };
    labels.sort();
    labels.dedup();
    labels.retain(|l| *l != 0 && allowed.as_ref().map_or(true, |v| v.contains(l)));
    let aeps = a.trs.iter().flatten().any(|t| t.ol == 0);
    let beps = b.trs.iter().flatten().any(|t| t.il == 0);
    use ComposeFilterEnum::*;
    let mut fs = vec![SequenceFilter, AltSequenceFilter, MatchFilter];
    if W::IDEMP || (!aeps && !beps) {
        fs.extend([TrivialFilter, NoMatchFilter]);
    }
    if !aeps && !beps {
        fs.push(NullFilter);
    }
    let filter = *c.pick(&fs);
    let conn = c.bool();
    let mc = MatcherConfig {
        sigma_matcher_config: Some(SigmaMatcherConfig {
            sigma_label: sigma,
            rewrite_mode: match mode {
                0 => MatcherRewriteMode::MatcherRewriteAuto,
                1 => MatcherRewriteMode::MatcherRewriteAlways,
                _ => MatcherRewriteMode::MatcherRewriteNever,
            },
            sigma_allowed_matches: allowed.clone(),
        }),
    };
    c.note(|| format!("{:?} wildcard {} on side {} mode {} allowed {:?}\nA {}\nB {}", filter, sigma, side + 1, ["auto", "always", "never"][mode], allowed, a.show(), b.show()));
    let mut cfg = ComposeConfig { compose_filter: filter, connect: conn, ..Default::default() };
    if side == 1 {
        cfg.matcher2_config = mc;
    } else {
        cfg.matcher1_config = mc;
    }
    let r: VectorFst<W> = if c.bool() {
        compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb, cfg)?
    } else {
        compose_with_config::<_, ConstFst<W>, VectorFst<W>, _, _, _>(&ConstFst::from(fa.clone()), Arc::new(fb.clone()), cfg)?
    };
    let m = RFst::from_fst(&r)?;
    m.validate()?;
    check_props("compose with wildcard", r.properties(), &m)?;
    let (ea, eb, none_a, none_b) = if side == 1 {
        (a.clone(), expand(&b, 1, sigma, &labels, both), a.clone(), expand(&b, 1, sigma, &[], both))
    } else {
        (expand(&a, 0, sigma, &labels, both), b.clone(), expand(&a, 0, sigma, &[], both), b.clone())
    };
    let Some(e) = ref_compose(&ea, &eb) else { return Ok(()) };
    same_lang(&format!("wildcard composition on side {}", side + 1), &e, &m, 4)?;
    if let (Some(x), Some(y)) = (e.lang(4, 4), ref_compose(&none_a, &none_b).and_then(|n| n.lang(4, 4))) {
        let used = x.len() != y.len() || diff_lang(&x, &y).is_some();
        let s = if side == 1 { &b } else { &a };
        let lab = |t: &RTr<W>| if side == 1 { t.il } else { t.ol };
        let mixed = s.trs.iter().any(|v| v.iter().any(|t| lab(t) == sigma) && v.iter().any(|t| lab(t) != sigma && lab(t) != 0));
        c.nontrivial = used && (!both_kinds || mixed);
    }
    Ok(())
}

/// wildcards are only found in a machine sorted on the side they are matched on: any other machine is refused
fn unsorted(c: &mut Ctx, mut a: RFst<TropicalWeight>, mut b: RFst<TropicalWeight>, side: usize) -> R {
    type W = TropicalWeight;
    let m = if side == 1 { &mut b } else { &mut a };
    for v in m.trs.iter_mut() {
        v.reverse();
    }
    let lab = |t: &RTr<W>| if side == 1 { t.il } else { t.ol };
    if m.trs.iter().all(|v| v.windows(2).all(|w| lab(&w[0]) <= lab(&w[1]))) || a.start.is_none() || b.start.is_none() {
        return Ok(());
    }
    let (mut fa, mut fb) = (realize(c, &a), realize(c, &b));
    if c.bool() {
        know_sorted(&mut fa)?;
        know_sorted(&mut fb)?;
    }
    let mc = MatcherConfig { sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: 9, rewrite_mode: MatcherRewriteMode::MatcherRewriteAuto, sigma_allowed_matches: None }) };
    let mut cfg = ComposeConfig { compose_filter: ComposeFilterEnum::SequenceFilter, ..Default::default() };
    if side == 1 {
        cfg.matcher2_config = mc;
    } else {
        cfg.matcher1_config = mc;
    }
    c.note(|| format!("wildcard 9 side {} unsorted\nA {}\nB {}", side + 1, a.show(), b.show()));
    let r: anyhow::Result<VectorFst<W>> = compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb, cfg);
    ensure!(r.is_err(), "wildcard composition: an unsorted wildcard machine was not refused", "");
    c.nontrivial = true;
    Ok(())
}

/// a wildcard that is epsilon is refused; so is the wildcard label itself on the other side of a state that gets matched
fn refused(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let k = Cfg { max_states: 4, max_out: 3, labels: 3, eps: 15, acyclic: true, degenerate: false, ..Default::default() };
    let (mut a, mut b): (RFst<W>, RFst<W>) = (gen_rfst(c, &k), gen_rfst(c, &k));
    a.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.ol));
    b.trs.iter_mut().for_each(|v| v.sort_by_key(|t| t.il));
    let (mut fa, mut fb) = (realize(c, &a), realize(c, &b));
    know_sorted(&mut fa)?;
    know_sorted(&mut fb)?;
    let side = c.below(2);
    let sigma = *c.pick(&[0u32, 1, 1, 9]);
    if sigma == 9 {
        return unsorted(c, a, b, side);
    }
    let mc = MatcherConfig { sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: sigma, rewrite_mode: MatcherRewriteMode::MatcherRewriteAuto, sigma_allowed_matches: None }) };
    let mut cfg = ComposeConfig { compose_filter: ComposeFilterEnum::SequenceFilter, ..Default::default() };
    if side == 1 {
        cfg.matcher2_config = mc;
    } else {
        cfg.matcher1_config = mc;
    }
    c.note(|| format!("wildcard {} side {}\nA {}\nB {}", sigma, side + 1, a.show(), b.show()));
    let r: anyhow::Result<VectorFst<W>> = compose_with_config::<_, VectorFst<W>, VectorFst<W>, _, _, _>(&fa, &fb, cfg);
    let start_uses = {
        let (x, y) = (a.start.unwrap_or(0), b.start.unwrap_or(0));
        if side == 1 {
            a.trs.get(x).map_or(false, |v| v.iter().any(|t| t.ol == sigma)) && b.trs.get(y).map_or(false, |v| v.iter().any(|t| t.il == sigma))
        } else {
            b.trs.get(y).map_or(false, |v| v.iter().any(|t| t.il == sigma)) && a.trs.get(x).map_or(false, |v| v.iter().any(|t| t.ol == sigma))
        }
    };
    if sigma == 0 {
        ensure!(r.is_err(), "wildcard composition: epsilon accepted as wildcard label", "");
        c.nontrivial = true;
    } else if start_uses && a.start.is_some() && b.start.is_some() {
        ensure!(r.is_err(), "wildcard composition: the wildcard label on the matched side was not refused", "");
        c.nontrivial = true;
    }
    Ok(())
}
