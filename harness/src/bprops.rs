//! Structural properties decided from their definitions by brute force.
use crate::ctx::*;
use crate::model::*;
use rustfst::fst_properties::FstProperties as P;
use rustfst::prelude::*;

pub fn reach<W>(m: &RFst<W>, s: usize) -> Vec<bool> {
    let mut v = vec![false; m.trs.len()];
    let mut st = vec![s];
    v[s] = true;
    while let Some(x) = st.pop() {
        for t in &m.trs[x] {
            if !v[t.n] {
                v[t.n] = true;
                st.push(t.n);
            }
        }
    }
    v
}

pub fn reach_all<W>(m: &RFst<W>) -> Vec<Vec<bool>> {
    (0..m.trs.len()).map(|s| reach(m, s)).collect()
}

/// Exactly one bit of each pair.
pub fn true_props<W: Semiring>(m: &RFst<W>) -> P {
    let n = m.n();
    let mut p = P::empty();
    let mut set = |c: bool, a: P, b: P| p |= if c { a } else { b };
    let all = || m.trs.iter().flatten();
    set(all().all(|t| t.il == t.ol), P::ACCEPTOR, P::NOT_ACCEPTOR);
    let det = |f: &dyn Fn(&RTr<W>) -> u32| {
        m.trs.iter().all(|v| {
            let mut l: Vec<u32> = v.iter().map(|t| f(t)).collect();
            l.sort();
            l.windows(2).all(|w| w[0] != w[1])
        })
    };
    set(det(&|t| t.il), P::I_DETERMINISTIC, P::NOT_I_DETERMINISTIC);
    set(det(&|t| t.ol), P::O_DETERMINISTIC, P::NOT_O_DETERMINISTIC);
    set(all().any(|t| t.il == 0 && t.ol == 0), P::EPSILONS, P::NO_EPSILONS);
    set(all().any(|t| t.il == 0), P::I_EPSILONS, P::NO_I_EPSILONS);
    set(all().any(|t| t.ol == 0), P::O_EPSILONS, P::NO_O_EPSILONS);
    set(m.trs.iter().all(|v| v.windows(2).all(|w| w[0].il <= w[1].il)), P::I_LABEL_SORTED, P::NOT_I_LABEL_SORTED);
    set(m.trs.iter().all(|v| v.windows(2).all(|w| w[0].ol <= w[1].ol)), P::O_LABEL_SORTED, P::NOT_O_LABEL_SORTED);
    let wd = |w: &W| !w.is_one() && !w.is_zero();
    set(all().any(|t| wd(&t.w)) || m.fin.iter().flatten().any(wd), P::WEIGHTED, P::UNWEIGHTED);
    let r = reach_all(m);
    let on_cycle = |s: usize| m.trs[s].iter().any(|t| r[t.n][s]);
    set((0..n).any(on_cycle), P::CYCLIC, P::ACYCLIC);
    set(m.start.map_or(false, on_cycle), P::INITIAL_CYCLIC, P::INITIAL_ACYCLIC);
    set((0..n).all(|s| m.trs[s].iter().all(|t| t.n > s)), P::TOP_SORTED, P::NOT_TOP_SORTED);
    set(n == 0 || m.start.map_or(false, |x| r[x].iter().all(|b| *b)), P::ACCESSIBLE, P::NOT_ACCESSIBLE);
    let fin: Vec<usize> = (0..n).filter(|s| m.fin[*s].as_ref().map_or(false, |w| !w.is_zero())).collect();
    set((0..n).all(|s| fin.iter().any(|f| r[s][*f])), P::COACCESSIBLE, P::NOT_COACCESSIBLE);
    let string = n == 0
        || (m.start == Some(0)
            && fin == vec![n - 1]
            && m.trs[n - 1].is_empty()
            && (0..n - 1).all(|s| m.trs[s].len() == 1 && m.trs[s][0].n == s + 1));
    set(string, P::STRING, P::NOT_STRING);
    set((0..n).any(|s| m.trs[s].iter().any(|t| wd(&t.w) && r[t.n][s])), P::WEIGHTED_CYCLES, P::UNWEIGHTED_CYCLES);
    p
}

/// The property definitions do not say whether states without a start state form a "string".
pub fn judged<W>(m: &RFst<W>) -> P {
    if m.start.is_none() && !m.trs.is_empty() {
        P::all() - (P::STRING | P::NOT_STRING)
    } else {
        P::all()
    }
}

/// Every property bit in `props` is true of `m`.
pub fn check_props<W: TW>(what: &str, props: P, m: &RFst<W>) -> R {
    let truth = true_props(m);
    let wrong = (props & judged(m)) - truth;
    if !wrong.is_empty() {
        let names: Vec<String> = wrong.iter_names().map(|x| x.0.to_string()).collect();
        fail!(format!("{}: false property {}", what, names.join("+")), "{}: the FST claims {} but it is not: {}", what, names.join(", "), m.show());
    }
    Ok(())
}
