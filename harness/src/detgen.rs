//! Generators for machines that determinization and its relatives must terminate on.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;

/// At most one transition per input label and state.
pub fn det_rfst<W: TW>(c: &mut Ctx, k: &Cfg) -> RFst<W> {
    let mut m: RFst<W> = gen_rfst(c, k);
    for v in m.trs.iter_mut() {
        let mut seen = vec![];
        v.retain(|t| {
            let b = !seen.contains(&t.il);
            seen.push(t.il);
            b
        });
    }
    m
}

/// Every state in up to 3 copies, each with a constant entry cost: non-deterministic, and
/// determinizable even when cyclic because residual weights are constant per copy.
pub fn copies<W: TW>(c: &mut Ctx, m: &RFst<W>, k: &Cfg) -> RFst<W> {
    let n = m.n();
    let mut first = vec![];
    let mut cost: Vec<W> = vec![];
    let mut of = vec![];
    for s in 0..n {
        first.push(cost.len());
        let x = if c.chance(1, 2) { c.range(2, 3) } else { 1 };
        for i in 0..x {
            cost.push(if i == 0 { W::one() } else { gen_weight(c, k) });
            of.push(s);
        }
    }
    let mut r = RFst::new(cost.len());
    r.start = m.start.map(|s| first[s]);
    for q in 0..cost.len() {
        let s = of[q];
        r.fin[q] = match &m.fin[s] {
            Some(w) if c.bool() => Some(w.clone()),
            Some(_) => Some(gen_weight(c, k)),
            None => None,
        };
        for t in &m.trs[s] {
            for j in 0..cost.len() {
                if of[j] == t.n {
                    r.trs[q].push(RTr { il: t.il, ol: t.ol, w: t.w.times(&cost[j]).unwrap(), n: j });
                }
            }
        }
    }
    r
}

/// A finite set of input strings with their outputs, written as separate paths that spread the
/// output over the path in different ways. Functional unless `dup`.
pub fn path_union<W: TW>(c: &mut Ctx, dup: bool) -> RFst<W> {
    let k = Cfg::default();
    let mut r: RFst<W> = RFst::new(1);
    r.start = Some(0);
    let (n, len, labels) = if c.big && W::IDEMP { (c.range(5, 40), 8, *c.pick(&[2usize, 6])) } else { (c.range(1, 4), 3, 2) };
    c.made_big |= c.big && W::IDEMP;
    let mut done: Vec<(Vec<u32>, Vec<u32>)> = vec![];
    for _ in 0..n {
        let li: Vec<u32> = (0..c.range(1, len)).map(|_| 1 + c.below(labels) as u32).collect();
        let mut lo: Vec<u32> = (0..c.below(li.len() + 1)).map(|_| 1 + c.below(labels) as u32).collect();
        if !dup {
            match done.iter().find(|d| d.0 == li) {
                Some(d) => lo = d.1.clone(),
                None => {}
            }
        }
        done.push((li.clone(), lo.clone()));
        for _ in 0..c.range(1, 2) {
            // positions that carry an output label
            let mut pos: Vec<bool> = (0..li.len()).map(|i| i < lo.len()).collect();
            for i in (1..pos.len()).rev() {
                let j = c.below(i + 1);
                pos.swap(i, j);
            }
            let mut s = 0;
            let mut o = lo.iter();
            for (i, l) in li.iter().enumerate() {
                r.trs.push(vec![]);
                r.fin.push(None);
                let t = r.n() - 1;
                let ol = if pos[i] { *o.next().unwrap() } else { 0 };
                let w = gen_weight(c, &k);
                r.trs[s].push(RTr { il: *l, ol, w, n: t });
                s = t;
            }
            r.fin[s] = Some(gen_weight(c, &k));
        }
    }
    // an empty string too, now and then
    if c.chance(1, 5) {
        r.fin[0] = Some(gen_weight(c, &k));
    }
    r
}

pub fn is_det<W>(m: &RFst<W>) -> bool {
    m.trs.iter().all(|v| {
        let mut l: Vec<u32> = v.iter().map(|t| t.il).collect();
        l.sort();
        l.windows(2).all(|w| w[0] != w[1])
    })
}
