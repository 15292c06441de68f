use crate::bprops::*;
use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        subs: vec![
            Sub { name: "connect", rule: "some state is removed and something is accepted", quick: 90_000, thorough: 900_000, f: |c| disp(c, 0) },
            Sub { name: "state_sort", rule: "a non-identity order on a machine with transitions", quick: 45_000, thorough: 450_000, f: |c| disp(c, 1) },
            Sub { name: "top_sort", rule: "an acyclic machine that was not sorted, or a cyclic one", quick: 75_000, thorough: 750_000, f: |c| disp(c, 2) },
            Sub { name: "tr_sort", rule: "some state's transitions were out of order", quick: 45_000, thorough: 450_000, f: |c| disp(c, 3) },
            Sub { name: "tr_unique", rule: "a duplicate transition was present", quick: 45_000, thorough: 450_000, f: |c| disp(c, 4) },
            Sub { name: "tr_sum", rule: "parallel transitions were present", quick: 45_000, thorough: 450_000, f: |c| disp(c, 5) },
            Sub { name: "rm_final_epsilon", rule: "a foldable final epsilon was present", quick: 120_000, thorough: 1_200_000, f: |c| disp(c, 6) },
            Sub { name: "super_final", rule: "at least two final states or a weighted one", quick: 45_000, thorough: 450_000, f: |c| disp(c, 7) },
            Sub { name: "dup_pressure", rule: "at least 4 parallel transitions in one state", quick: 45_000, thorough: 450_000, f: |c| disp(c, 8) },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 40000, thorough: 600000, f: |c| { c.fine = true; let o = *c.pick(&[0usize, 1, 2, 3, 5, 6, 7]); disp(c, o) } },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| { let o = c.below(8); disp(c, o) }) },
        ],
    }
}

fn disp(c: &mut Ctx, op: usize) -> R {
    match c.below(6) {
        0 => run::<LogWeight>(c, op),
        1 => run::<ProbabilityWeight>(c, op),
        2 => run::<IntegerWeight>(c, op),
        3 => run::<Mat>(c, op),
        _ => run::<TropicalWeight>(c, op),
    }
}

fn key<W: TW>(t: &RTr<W>) -> (u32, u32, usize) {
    (t.il, t.ol, t.n)
}

/// same states, start, finals; transitions of each state the same multiset
fn same_but_order<W: TW>(what: &str, a: &RFst<W>, b: &RFst<W>) -> R {
    ensure!(a.n() == b.n() && a.start == b.start && a.fin == b.fin, format!("{}: states or final weights changed", what), "{}: {} became {}", what, a.show(), b.show());
    for s in 0..a.n() {
        let mut x: Vec<String> = a.trs[s].iter().map(|t| format!("{:?} {}", key(t), t.w.show())).collect();
        let mut y: Vec<String> = b.trs[s].iter().map(|t| format!("{:?} {}", key(t), t.w.show())).collect();
        x.sort();
        y.sort();
        ensure!(x == y, format!("{}: transitions changed", what), "{}: state {}: {:?} became {:?}", what, s, x, y);
    }
    Ok(())
}

fn run<W: TW>(c: &mut Ctx, op: usize) -> R {
    let k = Cfg {
        max_states: if c.thorough { 7 } else { 6 },
        max_out: 3,
        labels: 2,
        eps: if op == 6 { 55 } else { *c.pick(&[0usize, 20, 40]) },
        acyclic: op == 8 || c.bool(),
        eps_acyclic: !W::IDEMP,
        degenerate: true,
        zeros: *c.pick(&[0usize, 0, 5]),
        neg: 2,
        ..Default::default()
    };
    let mut m: RFst<W> = gen_rfst(c, &k);
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.is_zero()) {
            *f = None;
        }
    }
    if op == 8 && m.n() > 1 {
        // many parallel transitions with few distinct weights
        let s = c.below(m.n() - 1);
        if !m.trs[s].is_empty() {
            let t0 = m.trs[s][0].clone();
            let ws: Vec<W> = (0..1 + c.below(3)).map(|_| gen_weight(c, &k)).collect();
            for _ in 0..c.range(3, 30) {
                let w = c.pick(&ws).clone();
                let mut t = RTr { w, ..t0.clone() };
                if c.chance(1, 3) {
                    t.il = 1 + c.below(2) as u32;
                }
                m.trs[s].push(t);
            }
        }
    }
    if op == 6 && c.bool() && m.n() > 0 {
        let last = m.n() - 1;
        m.trs[last].clear();
        m.fin[last] = Some(W::gen(c));
        let n = c.below(3);
        for _ in 0..n {
            let s = c.below(m.n());
            if s != last {
                let w = gen_weight(c, &k);
                m.trs[s].push(RTr { il: 0, ol: 0, w, n: last });
            }
        }
    }
    let mut f = realize(c, &m);
    let names = ["connect", "state_sort", "top_sort", "tr_sort", "tr_unique", "tr_sum", "rm_final_epsilon", "add_super_final_state", "tr_sum/unique"];
    let what = names[op];
    c.note(|| format!("{} of {}", what, m.show()));
    match op {
        0 => {
            connect(&mut f)?;
            let r = RFst::from_fst(&f)?;
            let acc: Vec<bool> = match m.start {
                Some(s) => reach(&m, s),
                None => vec![false; m.n()],
            };
            let all = reach_all(&m);
            let good: Vec<bool> = (0..m.n()).map(|s| acc[s] && (0..m.n()).any(|t| all[s][t] && m.fin[t].is_some())).collect();
            let n = good.iter().filter(|b| **b).count();
            ensure!(r.n() == n, "connect: wrong number of states", "connect left {} states, {} lie on a successful path: {}", r.n(), n, r.show());
            let nt: usize = (0..m.n()).filter(|s| good[*s]).map(|s| m.trs[s].iter().filter(|t| good[t.n]).count()).sum();
            ensure!(r.ntr() == nt, "connect: wrong number of transitions", "connect left {} transitions, {} lie on a successful path: {}", r.ntr(), nt, r.show());
            same_lang(what, &m, &r, 4)?;
            c.nontrivial = n > 0 && n < m.n();
        }
        1 => {
            let mut perm: Vec<StateId> = (0..m.n() as StateId).collect();
            for i in (1..perm.len()).rev() {
                let j = c.below(i + 1);
                perm.swap(i, j);
            }
            c.note(|| format!("order {:?}", perm));
            state_sort(&mut f, &perm)?;
            let mut e = RFst::new(m.n());
            e.start = m.start.map(|s| perm[s] as usize);
            for s in 0..m.n() {
                e.fin[perm[s] as usize] = m.fin[s].clone();
                e.trs[perm[s] as usize] = m.trs[s].iter().map(|t| RTr { n: perm[t.n] as usize, ..t.clone() }).collect();
            }
            same_but_order(what, &e, &RFst::from_fst(&f)?)?;
            crate::hist::agrees(what, &f, &RFst::from_fst(&f)?)?;
            c.nontrivial = m.ntr() > 0 && perm.windows(2).any(|w| w[0] > w[1]);
            // an order of the wrong length is refused
            let mut short = perm.clone();
            short.push(0);
            ensure!(state_sort(&mut f, &short).is_err(), "state_sort accepted an order of the wrong length", "order of length {} for {} states", short.len(), m.n());
        }
        2 => {
            top_sort(&mut f)?;
            let r = RFst::from_fst(&f)?;
            if m.acyclic() {
                for s in 0..r.n() {
                    for t in &r.trs[s] {
                        ensure!(t.n > s, "top_sort: transition goes backwards", "{} -> {} in {}", s, t.n, r.show());
                    }
                }
                ensure!(r.n() == m.n() && r.ntr() == m.ntr(), "top_sort: size changed", "{}", r.show());
                same_lang(what, &m, &r, 4)?;
                c.nontrivial = (0..m.n()).any(|s| m.trs[s].iter().any(|t| t.n <= s));
            } else {
                same_but_order(what, &m, &r)?;
                c.nontrivial = true;
            }
        }
        3 => {
            let by_out = c.bool();
            if by_out {
                tr_sort(&mut f, OLabelCompare {})
            } else {
                tr_sort(&mut f, ILabelCompare {})
            }
            let r = RFst::from_fst(&f)?;
            let g = |t: &RTr<W>| if by_out { t.ol } else { t.il };
            for v in &r.trs {
                ensure!(v.windows(2).all(|w| g(&w[0]) <= g(&w[1])), "tr_sort: not sorted", "{}", r.show());
            }
            same_but_order(what, &m, &r)?;
            c.nontrivial = m.trs.iter().any(|v| v.windows(2).any(|w| g(&w[0]) > g(&w[1])));
        }
        4 | 5 | 8 => {
            let sum = op == 5 || (op == 8 && c.bool());
            if sum {
                tr_sum(&mut f)
            } else {
                tr_unique(&mut f)
            }
            let r = RFst::from_fst(&f)?;
            let what = if sum { "tr_sum" } else { "tr_unique" };
            ensure!(r.n() == m.n() && r.start == m.start && r.fin == m.fin, format!("{}: states or final weights changed", what), "{}", r.show());
            let mut dup = false;
            for s in 0..m.n() {
                if sum {
                    let mut e: BTreeMap<(u32, u32, usize), W> = BTreeMap::new();
                    for t in &m.trs[s] {
                        dup |= e.contains_key(&key(t));
                        add(&mut e, key(t), t.w.clone());
                    }
                    ensure!(r.trs[s].len() == e.len(), "tr_sum: parallel transitions remain or were lost", "state {} of {}", s, r.show());
                    for t in &r.trs[s] {
                        let ok = e.get(&key(t)).map_or(false, |w| w.close(&t.w));
                        ensure!(ok, "tr_sum: wrong summed weight", "state {} transition {:?} has weight {}, expected {:?}", s, key(t), t.w.show(), e.get(&key(t)).map(|w| w.show()));
                    }
                } else {
                    for (i, t) in r.trs[s].iter().enumerate() {
                        ensure!(!r.trs[s][..i].contains(t), "tr_unique: identical transitions remain", "state {} of {}", s, r.show());
                        ensure!(m.trs[s].contains(t), "tr_unique: transition invented", "state {} of {}", s, r.show());
                    }
                    for t in &m.trs[s] {
                        ensure!(r.trs[s].contains(t), "tr_unique: transition lost", "state {} of {}", s, r.show());
                    }
                    dup |= (0..m.trs[s].len()).any(|i| m.trs[s][..i].contains(&m.trs[s][i]));
                }
            }
            if sum || W::IDEMP {
                same_lang(what, &m, &r, 3)?;
            }
            // per-state accessors (epsilon counts) stay right
            crate::hist::agrees(what, &f, &r)?;
            c.nontrivial = dup;
        }
        6 => {
            rm_final_epsilon(&mut f)?;
            let r = RFst::from_fst(&f)?;
            same_lang(what, &m, &r, 4)?;
            // one folding step of the reference
            let all = reach_all(&m);
            let coacc: Vec<bool> = (0..m.n()).map(|s| (0..m.n()).any(|t| all[s][t] && m.fin[t].is_some())).collect();
            let sink: Vec<bool> = (0..m.n()).map(|s| m.fin[s].is_some() && !m.trs[s].iter().any(|t| coacc[t.n])).collect();
            let mut e = m.clone();
            let mut any = false;
            for s in 0..m.n() {
                let mut w = m.fin[s].clone();
                for t in &m.trs[s] {
                    if t.il == 0 && t.ol == 0 && sink[t.n] {
                        let x = t.w.times(m.fin[t.n].as_ref().unwrap())?;
                        w = Some(match w {
                            None => x,
                            Some(w) => w.plus(&x)?,
                        });
                        any = true;
                    }
                }
                e.fin[s] = w.filter(|w| !w.is_zero());
                e.trs[s].retain(|t| !(t.il == 0 && t.ol == 0 && sink[t.n]));
            }
            let cnt = |x: &RFst<W>| x.trs.iter().flatten().filter(|t| t.il == 0 && t.ol == 0).count();
            let (ge, ee) = (cnt(&r), cnt(&struct_trim(&e)));
            ensure!(ge <= ee, "rm_final_epsilon: a foldable final epsilon remains", "{} epsilon transitions remain, folding leaves {}: {}", ge, ee, r.show());
            c.nontrivial = any;
        }
        _ => {
            let s = add_super_final_state(&mut f) as usize;
            let r = RFst::from_fst(&f)?;
            same_lang(what, &m, &r, 4)?;
            let fins: Vec<usize> = (0..r.n()).filter(|s| r.fin[*s].is_some()).collect();
            ensure!(fins == vec![s], "add_super_final_state: not exactly one final state", "final states {:?}, returned {}: {}", fins, s, r.show());
            ensure!(r.fin[s].as_ref().unwrap().is_one(), "add_super_final_state: final weight is not one", "{}", r.show());
            ensure!(r.n() <= m.n() + 1, "add_super_final_state: too many states", "{}", r.show());
            let fm: Vec<&W> = m.fin.iter().flatten().collect();
            c.nontrivial = fm.len() > 1 || fm.iter().any(|w| !w.is_one());
        }
    }
    Ok(())
}

/// accessible and coaccessible states only, zero-weight transitions kept
pub fn struct_trim<W: TW>(m: &RFst<W>) -> RFst<W> {
    let all = reach_all(m);
    let good: Vec<bool> = (0..m.n())
        .map(|s| m.start.map_or(false, |x| all[x][s]) && (0..m.n()).any(|t| all[s][t] && m.fin[t].is_some()))
        .collect();
    let mut map = vec![usize::MAX; m.n()];
    let mut k = 0;
    for s in 0..m.n() {
        if good[s] {
            map[s] = k;
            k += 1;
        }
    }
    let mut r = RFst::new(k);
    r.start = m.start.filter(|s| good[*s]).map(|s| map[s]);
    for s in 0..m.n() {
        if good[s] {
            r.fin[map[s]] = m.fin[s].clone();
            r.trs[map[s]] = m.trs[s].iter().filter(|t| good[t.n]).map(|t| RTr { n: map[t.n], ..t.clone() }).collect();
        }
    }
    r
}
