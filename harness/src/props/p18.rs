use crate::bprops::reach;
use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p05::{GalL, ProdTL};
use crate::props::p20::{close, dist, rdist};
use crate::*;
use rustfst::algorithms::{push_weights_with_config, push_with_config, reweight, PushConfig, PushType, PushWeightsConfig, ReweightType};
use rustfst::prelude::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        subs: vec![
            Sub { name: "weights", rule: "the machine accepts at least 2 pairs and some weight moved", quick: 450_000, thorough: 4_500_000, f: weights },
            Sub { name: "reweight", rule: "at least 2 accepted pairs and a potential other than one", quick: 360_000, thorough: 3_600_000, f: potentials },
            Sub { name: "push", rule: "labels pushed on a machine that accepts at least 2 pairs", quick: 360_000, thorough: 3_600_000, f: pushing },
            Sub { name: "large", rule: crate::big::RULE, quick: 5_000, thorough: 60_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => weights(c), 1 => potentials(c), _ => pushing(c) }) },
        ],
    }
}

fn dir(initial: bool) -> ReweightType {
    if initial {
        ReweightType::ReweightToInitial
    } else {
        ReweightType::ReweightToFinal
    }
}

fn word(initial: bool) -> &'static str {
    if initial {
        "towards the start"
    } else {
        "towards the end"
    }
}

pub fn coreach<W: TW>(m: &RFst<W>) -> Vec<bool> {
    (0..m.n()).map(|s| reach(m, s).iter().enumerate().any(|(t, r)| *r && m.fin[t].is_some())).collect()
}

/// Outgoing (incoming) weights sum to one, the start left out unless the total was removed.
fn normal<W: TW>(what: &str, r: &RFst<W>, initial: bool, removed: bool) -> R {
    let Some(st) = r.start else { return Ok(()) };
    if initial {
        let co = coreach(r);
        for s in 0..r.n() {
            if !co[s] || (s == st && !removed) {
                continue;
            }
            let mut sum = r.fin[s].clone().unwrap_or_else(W::zero);
            for t in r.trs[s].iter().filter(|t| co[t.n]) {
                sum = sum.plus(&t.w).unwrap();
            }
            ensure!(close(&sum, &W::one()), "weights do not sum to one", "{}: the weights leaving state {} sum to {}: {}", what, s, sum.show(), r.show());
        }
    } else {
        let acc = reach(r, st);
        for s in (0..r.n()).filter(|s| acc[*s]) {
            let mut sum = if s == st { W::one() } else { W::zero() };
            for p in (0..r.n()).filter(|p| acc[*p]) {
                for t in r.trs[p].iter().filter(|t| t.n == s) {
                    sum = sum.plus(&t.w).unwrap();
                }
            }
            ensure!(close(&sum, &W::one()), "weights do not sum to one", "{}: the weights entering state {} sum to {}: {}", what, s, sum.show(), r.show());
        }
        if removed && acc.iter().enumerate().any(|(s, a)| *a && r.fin[s].is_some()) {
            let mut sum = W::zero();
            for s in (0..r.n()).filter(|s| acc[*s]) {
                if let Some(w) = &r.fin[s] {
                    sum = sum.plus(w).unwrap();
                }
            }
            ensure!(close(&sum, &W::one()), "final weights do not sum to one", "{}: the final weights sum to {}: {}", what, sum.show(), r.show());
        }
    }
    Ok(())
}

/// a machine that accepts (x, y) with weight w / total
fn scaled<W: TW + WeaklyDivisibleSemiring>(m: &RFst<W>, total: &W) -> Option<RFst<W>> {
    let mut r = RFst::new(m.n() + 1);
    let s = m.n();
    for q in 0..m.n() {
        r.trs[q] = m.trs[q].clone();
        r.fin[q] = m.fin[q].clone();
    }
    let w = W::one().divide(total, DivideType::DivideAny).ok()?;
    r.start = Some(s);
    if let Some(st) = m.start {
        r.trs[s].push(RTr { il: 0, ol: 0, w, n: st });
    }
    Some(r)
}

fn total<W: TW>(m: &RFst<W>) -> Option<W> {
    let t = m.trim();
    match t.start {
        None => Some(W::zero()),
        Some(s) => Some(rdist(&t)?[s].clone()),
    }
}

fn cfg<W: TW>(c: &mut Ctx) -> Cfg {
    Cfg {
        max_states: 6,
        max_out: 3,
        labels: *c.pick(&[1usize, 2, 3]),
        eps: *c.pick(&[0usize, 20, 40]),
        acceptor: c.chance(1, 3),
        acyclic: !W::IDEMP || c.bool(),
        eps_acyclic: c.chance(1, 2),
        unweighted: c.chance(1, 10),
        degenerate: c.chance(1, 8),
        neg: 2,
        ..Default::default()
    }
}

fn symts<W: TW>(c: &mut Ctx, f: &mut VectorFst<W>) -> bool {
    if !c.chance(1, 4) {
        return false;
    }
    let mut s = SymbolTable::new();
    for l in ["a", "b", "c"] {
        s.add_symbol(l);
    }
    let s = Arc::new(s);
    f.set_input_symbols(s.clone());
    f.set_output_symbols(s);
    true
}

fn has_symts<W: Semiring, F: Fst<W>>(f: &F) -> R {
    ensure!(f.input_symbols().is_some() && f.output_symbols().is_some(), "symbol tables lost", "pushing dropped the symbol tables");
    Ok(())
}

fn weights(c: &mut Ctx) -> R {
    match c.below(9) {
        0 | 1 => wpush::<LogWeight>(c, true),
        2 => wpush::<ProbabilityWeight>(c, true),
        3 => wpush::<ProdTL>(c, true),
        4 => wpush::<GalL>(c, false),
        _ => wpush::<TropicalWeight>(c, true),
    }
}

fn wpush<W: TW + WeaklyDivisibleSemiring>(c: &mut Ctx, both: bool) -> R {
    let mut k = cfg::<W>(c);
    if !W::COMM {
        // left string weights: sums are prefixes, only the direction they divide in is meant
        k.acyclic = true;
    }
    // (and one path per pair, as concatenation does not distribute over prefixes from the right)
    let m: RFst<W> = if W::COMM { gen_rfst(c, &k) } else { det_rfst(c, &Cfg { acceptor: true, eps: 0, ..k }) };
    let initial = !both || c.bool();
    let remove = c.chance(1, 3);
    let mut f = realize(c, &m);
    let sy = symts(c, &mut f);
    c.note(|| format!("push the weights {}{} in {}", word(initial), if remove { ", total removed," } else { "" }, m.show()));
    let mut pc = PushWeightsConfig::default().with_remove_total_weight(remove);
    if !W::IDEMP {
        // sums are otherwise only as precise as the default convergence threshold
        pc = pc.with_delta(1e-7);
    }
    push_weights_with_config(&mut f, dir(initial), pc)?;
    let r = RFst::from_fst(&f)?;
    let what = format!("push_weights {}", word(initial));
    let ok;
    if remove {
        let Some(t) = total(&m) else { return Ok(()) };
        if t.is_zero() || !W::COMM {
            ok = false;
        } else {
            let Some(x) = scaled(&m, &t) else { return Ok(()) };
            ok = same_lang(&format!("{}, total removed", what), &x, &r, 4)?;
        }
    } else {
        ok = same_lang(&what, &m, &r, 4)?;
    }
    normal(&what, &r, initial, remove)?;
    if sy {
        has_symts(&f)?;
    }
    crate::bprops::check_props("push_weights", f.properties(), &r)?;
    c.tag(if initial { "to initial" } else { "to final" });
    if r.n() > m.n() {
        c.tag("new start state");
    }
    c.nontrivial = ok && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2) && r.show() != m.show();
    Ok(())
}

fn potentials(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => rew::<LogWeight>(c),
        1 => rew::<ProbabilityWeight>(c),
        2 => rew::<ProdTL>(c),
        _ => rew::<TropicalWeight>(c),
    }
}

fn rew<W: TW + WeaklyDivisibleSemiring>(c: &mut Ctx) -> R {
    let mut k = cfg::<W>(c);
    k.eps_acyclic |= !W::IDEMP;
    k.acyclic &= c.bool();
    let m: RFst<W> = gen_rfst(c, &k);
    let initial = c.bool();
    let useful = m.trim().n();
    let _ = useful;
    let mut p: Vec<W> = (0..m.n()).map(|_| if c.chance(1, 4) { W::one() } else { W::gen(c) }).collect();
    // a state that cannot matter may be left without a potential
    let dead = match m.start {
        None => vec![true; m.n()],
        Some(s) => {
            let a = reach(&m, s);
            let co = coreach(&m);
            (0..m.n()).map(|q| if initial { !co[q] } else { !a[q] }).collect()
        }
    };
    for s in 0..m.n() {
        if dead[s] && c.bool() {
            p[s] = W::zero();
        }
    }
    while p.last().map_or(false, |w| w.is_zero()) && dead[p.len() - 1] && c.bool() {
        p.pop();
    }
    let mut f = realize(c, &m);
    c.note(|| format!("reweight {} by {:?} {}", word(initial), p.iter().map(|w| w.show()).collect::<Vec<_>>(), m.show()));
    if p.iter().any(|w| !w.is_zero() && W::one().divide(w, DivideType::DivideAny).is_err()) {
        return Ok(());
    }
    reweight(&mut f, &p, dir(initial))?;
    let r = RFst::from_fst(&f)?;
    let ok = same_lang(&format!("reweight {}", word(initial)), &m, &r, 4)?;
    crate::bprops::check_props("reweight", f.properties(), &r)?;
    // transition weights follow the potentials where the start is not involved
    for s in 0..m.n() {
        if Some(s) == m.start || p.get(s).map_or(true, |w| w.is_zero()) {
            continue;
        }
        ensure!(r.trs[s].len() == m.trs[s].len(), "transitions changed", "state {} has {} transitions after reweighting, {} before", s, r.trs[s].len(), m.trs[s].len());
        for (a, b) in m.trs[s].iter().zip(&r.trs[s]) {
            let Some(q) = p.get(a.n).filter(|w| !w.is_zero()) else { continue };
            let e = if initial { a.w.times(q)?.divide(&p[s], DivideType::DivideLeft)? } else { p[s].times(&a.w)?.divide(q, DivideType::DivideRight)? };
            ensure!(a.il == b.il && a.ol == b.ol && a.n == b.n && close(&e, &b.w), "wrong reweighted transition", "state {}: {}:{} to {} has weight {}, not {}", s, b.il, b.ol, b.n, b.w.show(), e.show());
        }
    }
    c.tag(if r.n() > m.n() { "new start state" } else { "start kept" });
    c.nontrivial = ok && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2) && p.iter().any(|w| !w.is_one());
    Ok(())
}

fn pushing(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => push_all::<LogWeight>(c),
        _ => push_all::<TropicalWeight>(c),
    }
}

/// Longest common prefix of the outputs from each state (None where nothing is accepted).
/// the input strings of up to 4 labels with the weights reached just after them
fn partial<W: TW>(m: &RFst<W>) -> Option<std::collections::BTreeSet<(Vec<u32>, String)>> {
    if !W::IDEMP {
        return None;
    }
    let mut out = std::collections::BTreeSet::new();
    let mut seen = std::collections::BTreeSet::new();
    let mut st = vec![];
    if let Some(s) = m.start {
        st.push((s, vec![], W::one()));
    }
    while let Some((s, x, w)) = st.pop() {
        if !seen.insert((s, x.clone(), w.show())) {
            continue;
        }
        if seen.len() > 3000 {
            return None;
        }
        for t in &m.trs[s] {
            let mut x = x.clone();
            let w = w.times(&t.w).ok()?;
            if t.il != 0 {
                if x.len() == 4 {
                    continue;
                }
                x.push(t.il);
                out.insert((x.clone(), w.show()));
            }
            st.push((t.n, x, w));
        }
    }
    Some(out)
}

fn prefixes<W: TW>(m: &RFst<W>) -> Vec<Option<Vec<u32>>> {
    let mut d: Vec<Option<Vec<u32>>> = vec![None; m.n()];
    fn join(a: Option<Vec<u32>>, b: Vec<u32>) -> Option<Vec<u32>> {
        Some(match a {
            None => b,
            Some(a) => a.into_iter().zip(b).take_while(|(x, y)| x == y).map(|p| p.0).collect(),
        })
    }
    // lengths only shrink once set, so this ends
    for _ in 0..10_000 {
        let mut next = d.clone();
        for s in 0..m.n() {
            let mut v = d[s].clone();
            if m.fin[s].is_some() {
                v = join(v, vec![]);
            }
            for t in &m.trs[s] {
                if let Some(q) = &d[t.n] {
                    let mut o = if t.ol == 0 { vec![] } else { vec![t.ol] };
                    o.extend(q);
                    v = join(v, o);
                }
            }
            next[s] = v;
        }
        if next == d {
            return d;
        }
        d = next;
    }
    d
}

fn push_all<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx) -> R
where
    W::ReverseWeight: 'static,
{
    let mut k = cfg::<W>(c);
    k.max_states = 5;
    k.acceptor = c.chance(1, 6);
    if c.bool() {
        k.labels = 1 + c.below(2);
    }
    let kind = c.below(4);
    let mut m: RFst<W> = match kind {
        0 if !c.big => det_rfst(c, &k),
        1 => path_union(c, false),
        _ if c.big => path_union(c, true),
        _ => gen_rfst(c, &k),
    };
    if c.chance(1, 3) {
        // a common prefix or suffix
        let n = m.n();
        if n > 0 && m.start.is_some() {
            m.trs.push(vec![]);
            m.fin.push(None);
            let l = 1 + c.below(2) as u32;
            if c.bool() {
                m.trs[n].push(RTr { il: l, ol: 3 - l, w: W::gen(c), n: m.start.unwrap() });
                m.start = Some(n);
            } else {
                for s in 0..n {
                    if let Some(w) = m.fin[s].take() {
                        m.trs[s].push(RTr { il: l, ol: 3 - l, w, n });
                    }
                }
                m.fin[n] = Some(W::one());
            }
        }
    }
    let initial = c.bool();
    let mut ty = PushType::empty();
    for (n, t) in [(3, PushType::PUSH_LABELS), (2, PushType::PUSH_WEIGHTS), (1, PushType::REMOVE_COMMON_AFFIX)] {
        if c.chance(n, 4) {
            ty |= t;
        }
    }
    if ty.contains(PushType::PUSH_WEIGHTS) && c.chance(1, 3) {
        ty |= PushType::REMOVE_TOTAL_WEIGHT;
    }
    let labels = ty.contains(PushType::PUSH_LABELS);
    let affix = labels && ty.contains(PushType::REMOVE_COMMON_AFFIX);
    let mut f = realize(c, &m);
    let sy = symts(c, &mut f);
    c.note(|| format!("push {:?} {} {}", ty, word(initial), m.show()));
    let before = RFst::from_fst(&f)?;
    let g: VectorFst<W> = if W::IDEMP && c.bool() { push(&f, dir(initial), ty)? } else { push_with_config(&f, dir(initial), ty, PushConfig::new(1e-7))? };
    ensure!(RFst::from_fst(&f)?.show() == before.show(), "input changed", "push changed its input");
    let r = RFst::from_fst(&g)?;
    let mut exp = m.clone();
    let removed = ty.contains(PushType::REMOVE_TOTAL_WEIGHT);
    if removed {
        let Some(t) = total(&m) else { return Ok(()) };
        if !t.is_zero() {
            let Some(x) = scaled(&m, &t) else { return Ok(()) };
            exp = x;
        }
    }
    let what = format!("push {:?} {}", ty, word(initial));
    let mut ok = false;
    if affix {
        // the whole relation, the common affix taken off by hand
        if let Some(l) = exp.trim().acyclic().then(|| exp.trim().full_lang()).flatten() {
            let Some(got) = r.trim().acyclic().then(|| r.trim().full_lang()).flatten() else {
                if r.trim().acyclic() && r.n() > 19 {
                    return Ok(());
                }
                fail!("cyclic result", "{}: the result of an acyclic machine has a cycle or too many paths: {}", what, r.show());
            };
            let outs: Vec<Vec<u32>> = l.keys().map(|k| k.1.clone()).collect();
            let mut n = outs.iter().map(|o| o.len()).min().unwrap_or(0);
            for o in &outs {
                let p = &outs[0];
                n = n.min(if initial { o.iter().zip(p).take_while(|(a, b)| a == b).count() } else { o.iter().rev().zip(p.iter().rev()).take_while(|(a, b)| a == b).count() });
            }
            let exp: Lang<W> = l.into_iter().map(|(k, w)| ((k.0, if initial { k.1[n..].to_vec() } else { k.1[..k.1.len() - n].to_vec() }), w)).collect();
            check_lang(&what, &exp, &got)?;
            if n > 0 {
                c.tag("affix removed");
            }
            ok = exp.len() >= 2;
        }
    } else {
        ok = same_lang(&what, &exp, &r, 4)? && m.trim().lang(3, 3).map_or(false, |l| l.len() >= 2);
    }
    if labels && !ty.contains(PushType::PUSH_WEIGHTS) {
        // every weight stays behind the input label it followed
        if let (Some(a), Some(b)) = (partial(&m.trim()), partial(&r.trim())) {
            if let Some(x) = a.symmetric_difference(&b).next() {
                fail!("labels only: weights moved", "{}: after reading {:?} a weight of {} is reached {}: {}", what, x.0, x.1, if a.contains(x) { "before only" } else { "afterwards only" }, r.show());
            }
            c.tag("weights in place");
        }
    }
    if ty.is_empty() {
        ensure!(r.show() == m.show(), "nothing to push, machine changed", "{}", r.show());
    }
    if ty.contains(PushType::PUSH_WEIGHTS) && !labels {
        normal(&what, &r, initial, removed)?;
    }
    if ty.contains(PushType::PUSH_WEIGHTS) && labels && initial {
        normal(&what, &r, true, false)?;
    }
    if labels && initial {
        // a transition carries one label, so outputs may queue up, but never wait behind an empty slot
        let t = r.trim();
        let p = prefixes(&t);
        for x in t.trs.iter().flatten().filter(|x| x.ol == 0 && Some(x.n) != t.start) {
            ensure!(p[x.n].as_ref().map_or(true, |p| p.is_empty()), "labels not pushed", "{}: state {} of the result is entered without output but still has the common output {:?} ahead of it: {}", what, x.n, p[x.n], t.show());
        }
    }
    if sy {
        has_symts(&g)?;
    }
    crate::bprops::check_props("push", g.properties(), &r)?;
    let _ = dist::<W>;
    c.tag(if labels { "labels" } else { "weights only" });
    c.nontrivial = ok && labels;
    Ok(())
}
