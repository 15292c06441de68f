use crate::ctx::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use rustfst::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        subs: vec![
            Sub { name: "history", rule: "at least 8 calls took effect, at least one state deletion or in-place edit, and the machine had transitions", quick: 24_000, thorough: 600_000, f: history },
            Sub { name: "fine_weights", rule: "at least 8 calls took effect, at least one state deletion or in-place edit, and the machine had transitions", quick: 24_000, thorough: 1_000_000, f: |c| { c.fine = true; c.wild = true; match c.below(4) { 0 => hist::<LogWeight>(c), 1 => hist::<ProbabilityWeight>(c), _ => hist::<TropicalWeight>(c) } } },
            Sub { name: "equality", rule: "two machines with at least one transition compared", quick: 6_000, thorough: 100_000, f: equality },
            Sub { name: "relabel_tables", rule: "at least one transition relabelled through two different tables", quick: 4_000, thorough: 60_000, f: relabel_tables },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => history(c), _ => equality(c) }) },
        ],
    }
}

fn history(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => hist::<TropicalWeight>(c),
        1 => hist::<LogWeight>(c),
        2 => hist::<IntegerWeight>(c),
        3 => hist::<StringWeightLeft>(c),
        _ => hist::<PairW>(c),
    }
}

fn hist<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { zeros: 3, big_labels: true, ..Default::default() };
    let m = if c.chance(1, 3) { RFst::new(0) } else { gen_rfst::<W>(c, &k) };
    let mut h = Hist::new(m);
    let start = h.m.show();
    let n = c.range(1, if c.thorough { 60 } else { 30 });
    let mut had = h.m.ntr() > 0;
    for _ in 0..n {
        let r = h.step(c, &k, false).and_then(|_| {
            agrees("vector", &h.f, &h.m)?;
            ensure!(h.f.input_symbols() == h.isym.as_ref() && h.f.output_symbols() == h.osym.as_ref(), "symbols", "symbol tables differ");
            for (f, m) in &h.snaps {
                agrees("clone", f, m)?;
            }
            for (t, m) in &h.held {
                let e: Vec<Tr<W>> = m.iter().map(|t| Tr::new(t.il, t.ol, t.w.clone(), t.n as StateId)).collect();
                ensure!(t.trs() == &e[..] && t.trs().iter().zip(&e).all(|(a, b)| a.weight.same(&b.weight)), "held transition list changed", "{:?} expected {:?}", t.trs(), e);
            }
            Ok(())
        });
        if r.is_err() {
            c.note(|| format!("start {} then {}", start, h.show()));
            return r;
        }
        had |= h.m.ntr() > 0;
    }
    c.note(|| format!("start {} then {}", start, h.show()));
    c.nontrivial = had && h.log.len() >= 8 && (h.dels > 0 || h.log.iter().any(|l| l.starts_with("tr_iter_mut")));
    Ok(())
}

fn equality(c: &mut Ctx) -> R {
    // == holds exactly between machines with the same content
    let k = Cfg { max_states: 3, ..Default::default() };
    let a = gen_rfst::<TropicalWeight>(c, &k);
    let mut b = a.clone();
    let n = b.n();
    let mut same = true;
    if n > 0 {
        let s = c.below(n);
        match c.below(7) {
            0 => {}
            1 => {
                if b.fin[s].is_some() { b.fin[s] = None } else { b.fin[s] = Some(TropicalWeight::one()) }
                same = false;
            }
            2 => {
                let old = b.start;
                b.start = Some(s);
                same = old == b.start;
            }
            x if !b.trs[s].is_empty() => {
                let i = c.below(b.trs[s].len());
                let t = &mut b.trs[s][i];
                match x {
                    3 => t.il += 1,
                    4 => t.ol += 1,
                    5 => t.w = TropicalWeight::new(t.w.value() + 1.0),
                    _ => t.n = (t.n + 1) % n,
                }
                same = a.trs[s][i] == b.trs[s][i];
            }
            _ => {}
        }
    }
    c.note(|| format!("{} vs {}", a.show(), b.show()));
    // built through different histories
    let fa: VectorFst<TropicalWeight> = a.vector();
    let mut fb: VectorFst<TropicalWeight> = VectorFst::new();
    fb.add_states(n + 1);
    fb.del_state(n as StateId)?;
    for s in (0..n).rev() {
        for t in &b.trs[s] {
            fb.add_tr(s as StateId, Tr::new(t.il, t.ol, t.w, t.n as StateId))?;
        }
        if let Some(w) = b.fin[s] {
            fb.set_final(s as StateId, w)?;
        }
    }
    if let Some(s) = b.start {
        fb.set_start(s as StateId)?;
    }
    ensure!((fa == fb) == same, "equality", "== gives {} for machines that are{} equal", fa == fb, if same { "" } else { " not" });
    c.nontrivial = a.ntr() > 0;
    Ok(())
}

fn relabel_tables(c: &mut Ctx) -> R {
    use std::sync::Arc;
    let k = Cfg { labels: 4, ..Default::default() };
    let m = gen_rfst::<TropicalWeight>(c, &k);
    let names = ["a", "b", "c", "d"];
    let mk = |c: &mut Ctx, drop: bool| {
        let mut v: Vec<&str> = names.to_vec();
        for i in (1..4).rev() {
            let j = c.below(i + 1);
            v.swap(i, j);
        }
        if drop && c.chance(1, 5) {
            v.pop();
        }
        let mut t = SymbolTable::new();
        for x in v {
            t.add_symbol(x);
        }
        Arc::new(t)
    };
    let (oi, ni, oo, no) = (mk(c, false), mk(c, true), mk(c, false), mk(c, true));
    let (ai, ao) = (c.bool(), c.bool());
    let attach = c.bool();
    let mut f = m.vector();
    if attach {
        f.set_input_symbols(oi.clone());
        f.set_output_symbols(oo.clone());
    }
    c.note(|| format!("{} tables {:?} -> {:?}, {:?} -> {:?}", m.show(), oi, ni, oo, no));
    let r = if attach { f.relabel_tables(None, &ni, ai, None, &no, ao) } else { f.relabel_tables(Some(&oi), &ni, ai, Some(&oo), &no, ao) };
    let mut e = m.clone();
    let mut ok = true;
    for v in e.trs.iter_mut() {
        for t in v.iter_mut() {
            let x = oi.get_symbol(t.il).and_then(|s| ni.get_label(s));
            let y = oo.get_symbol(t.ol).and_then(|s| no.get_label(s));
            match (x, y) {
                (Some(x), Some(y)) => { t.il = x; t.ol = y; }
                _ => ok = false,
            }
        }
    }
    ensure!(ok == r.is_ok(), "relabel_tables: wrong verdict", "symbols all present: {}, result {:?}", ok, r);
    if ok {
        agrees("relabel_tables", &f, &e)?;
        ensure!(f.input_symbols() == if ai { Some(&ni) } else { None }, "relabel_tables: input symbols", "wrong attachment");
        ensure!(f.output_symbols() == if ao { Some(&no) } else { None }, "relabel_tables: output symbols", "wrong attachment");
        c.nontrivial = m.ntr() > 0 && ni != oi;
    }
    Ok(())
}
