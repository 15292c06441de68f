use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::replace::{replace, ReplaceFst};
use rustfst::prelude::*;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        subs: vec![
            Sub { name: "expand", rule: "the root reaches a call of a machine that accepts something, and the result accepts something", quick: 750_000, thorough: 1_500_000, f: dispatch },
            Sub { name: "recursive", rule: "recursive rules, at least 3 paths within the bound", quick: 300_000, thorough: 3_000_000, f: recursive },
            Sub { name: "errors", rule: "the root label names no machine", quick: 10_000, thorough: 100_000, f: errors },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 30000, thorough: 450000, f: |c| { c.fine = true; dispatch(c) } },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, dispatch) },
        ],
    }
}

fn dispatch(c: &mut Ctx) -> R {
    match c.below(7) {
        0 => expand::<LogWeight>(c),
        1 => expand::<ProbabilityWeight>(c),
        2 => expand::<IntegerWeight>(c),
        3 => expand::<BooleanWeight>(c),
        4 => expand::<crate::mat::Mat>(c),
        _ => expand::<TropicalWeight>(c),
    }
}

const L: usize = 4;

pub struct Grammar<W: TW> {
    /// in list order
    pub labels: Vec<u32>,
    pub ms: Vec<RFst<W>>,
    /// index of the root
    pub root: usize,
}

impl<W: TW> Grammar<W> {
    pub fn show(&self) -> String {
        let mut s = format!("root {};", self.labels[self.root]);
        for (l, m) in self.labels.iter().zip(&self.ms) {
            s += &format!(" [{}] = {};", l, m.show());
        }
        s
    }
    fn rule(&self, ol: u32) -> Option<usize> {
        self.labels.iter().position(|l| *l == ol)
    }
    pub fn list(&self, c: &mut Ctx) -> Vec<(u32, VectorFst<W>)> {
        (0..self.ms.len()).map(|i| (self.labels[i], realize(c, &self.ms[i]))).collect()
    }
}

/// Nonterminal labels are anywhere among the terminals; rule `order[i]` calls only rules later in
/// `order` unless `rec`.
pub fn grammar<W: TW>(c: &mut Ctx, rec: bool) -> Grammar<W> {
    let n = c.range(1, 4);
    let pool: Vec<u32> = match c.below(4) {
        0 => vec![1, 2, 3, 4, 5],
        1 => vec![2, 5, 7, 9, 11],
        2 => vec![10, 11, 12, 13, 14],
        _ => vec![3, 1000, 65_537, 0x7fff_fff0, 6],
    };
    let mut labels: Vec<u32> = vec![];
    while labels.len() < n {
        let l = *c.pick(&pool);
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    let root = c.below(n);
    let mut ord: Vec<usize> = (0..n).filter(|i| *i != root).collect();
    for i in (1..ord.len()).rev() {
        let j = c.below(i + 1);
        ord.swap(i, j);
    }
    ord.insert(0, root);
    let mut ms: Vec<RFst<W>> = vec![RFst::new(0); n];
    for (pos, &i) in ord.iter().enumerate() {
        let k = Cfg {
            max_states: if n > 2 { 3 } else { 4 },
            max_out: 2,
            labels: 2,
            eps: *c.pick(&[0usize, 15, 35]),
            acyclic: c.chance(1, 2),
            eps_acyclic: !W::IDEMP,
            acceptor: c.chance(1, 3),
            degenerate: c.chance(1, 4),
            ..Default::default()
        };
        let mut m: RFst<W> = gen_rfst(c, &k);
        // terminals must not be mistaken for a nonterminal
        let acc = k.acceptor && c.chance(2, 3);
        for t in m.trs.iter_mut().flatten() {
            for x in [&mut t.il, &mut t.ol] {
                if *x != 0 {
                    *x = if labels.contains(x) { 20 + *x % 2 } else { *x };
                }
            }
            let callees: Vec<u32> = if rec { labels.clone() } else { ord[pos + 1..].iter().map(|j| labels[*j]).collect() };
            if !callees.is_empty() && c.chance(2, 5) {
                t.ol = *c.pick(&callees);
                if acc || c.chance(1, 3) {
                    t.il = t.ol;
                }
            }
        }
        // an epsilon cycle made only of calls would need an infinite sum
        ms[i] = m;
    }
    Grammar { labels, ms, root }
}

/// Inline every call.
fn expand_model<W: TW>(g: &Grammar<W>, i: usize, eps: bool, budget: &mut usize) -> Option<RFst<W>> {
    let m = &g.ms[i];
    let mut r = m.clone();
    for s in 0..m.n() {
        for (p, t) in m.trs[s].iter().enumerate() {
            let Some(j) = (if t.ol == 0 { None } else { g.rule(t.ol) }) else { continue };
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            let sub = expand_model(g, j, eps, budget)?;
            let off = r.n();
            for q in 0..sub.n() {
                let mut out: Vec<RTr<W>> = sub.trs[q].iter().map(|u| RTr { n: u.n + off, ..u.clone() }).collect();
                if let Some(w) = &sub.fin[q] {
                    out.push(RTr { il: 0, ol: 0, w: w.clone(), n: t.n });
                }
                r.trs.push(out);
                r.fin.push(None);
            }
            let il = if eps { 0 } else { t.il };
            r.trs[s][p] = match sub.start {
                Some(q) => RTr { il, ol: 0, w: t.w.clone(), n: off + q },
                None => {
                    // dead end
                    r.trs.push(vec![]);
                    r.fin.push(None);
                    RTr { il, ol: 0, w: t.w.clone(), n: r.n() - 1 }
                }
            };
        }
    }
    Some(r)
}

fn expand<W: TW>(c: &mut Ctx) -> R {
    let g: Grammar<W> = grammar(c, false);
    let eps = c.bool();
    let mode = c.below(3);
    c.note(|| format!("replace eps={} {}", eps, g.show()));
    let mut budget = 40;
    let Some(model) = expand_model(&g, g.root, eps, &mut budget) else { return Ok(()) };
    let model = model.trim();
    if !W::IDEMP && !model.eps_acyclic() {
        return Ok(());
    }
    let Some(exp) = model.lang(L, L) else { return Ok(()) };
    let list = g.list(c);
    let root = g.labels[g.root];
    let got: VectorFst<W> = match mode {
        0 => replace::<W, VectorFst<W>, VectorFst<W>, _>(list.clone(), root, eps)?,
        1 => {
            let l: Vec<(u32, ConstFst<W>)> = list.iter().map(|(l, f)| (*l, ConstFst::from(f.clone()))).collect();
            replace::<W, ConstFst<W>, VectorFst<W>, _>(l, root, eps)?
        }
        _ => {
            let l: Vec<(u32, &VectorFst<W>)> = list.iter().map(|(l, f)| (*l, f)).collect();
            replace::<W, VectorFst<W>, VectorFst<W>, _>(l, root, eps)?
        }
    };
    let r = RFst::from_fst(&got)?;
    if let Some(l) = r.lang(L, L) {
        check_lang("replace", &exp, &l)?;
        c.nontrivial = budget < 40 && !exp.is_empty();
    }
    let lz = ReplaceFst::<W, VectorFst<W>, VectorFst<W>>::new(list, root, eps)?;
    if let Some(z) = RFst::from_any(&lz, 2000)? {
        if let Some(l) = z.lang(L, L) {
            check_lang("lazy replace", &exp, &l)?;
        }
    }
    Ok(())
}

type Acc<W> = BTreeMap<(Vec<u32>, Vec<u32>), W>;

fn acc<W: TW>(m: &mut Acc<W>, k: (Vec<u32>, Vec<u32>), w: W) -> R {
    let x = match m.get(&k) {
        Some(y) => y.plus(&w)?,
        None => w,
    };
    m.insert(k, x);
    Ok(())
}

fn app(v: &[u32], l: u32) -> Vec<u32> {
    let mut v = v.to_vec();
    if l != 0 {
        v.push(l);
    }
    v
}

const DEPTH: usize = 6;

/// Rules that call themselves: the lazy machine is compared with a stack machine on every path of
/// at most DEPTH transitions.
fn recursive(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let g: Grammar<W> = grammar(c, true);
    let eps = c.bool();
    c.note(|| format!("recursive replace eps={} {}", eps, g.show()));
    let list = g.list(c);
    let lz = ReplaceFst::<W, VectorFst<W>, VectorFst<W>>::new(list, g.labels[g.root], eps)?;
    let mut exp: Acc<W> = BTreeMap::new();
    let mut npaths = 0usize;
    if let Some(s) = g.ms[g.root].start {
        // (stack of return points, rule, state)
        let mut work = vec![(Vec::<(usize, usize)>::new(), g.root, s, vec![], vec![], W::one(), 0usize)];
        while let Some((stack, r, q, li, lo, w, d)) = work.pop() {
            npaths += 1;
            if npaths > 4000 {
                return Ok(());
            }
            if let Some(fw) = &g.ms[r].fin[q] {
                let w2 = w.times(fw)?;
                match stack.last() {
                    None => acc(&mut exp, (li.clone(), lo.clone()), w2)?,
                    Some((r2, q2)) if d < DEPTH => {
                        let mut st = stack.clone();
                        st.pop();
                        work.push((st, *r2, *q2, li.clone(), lo.clone(), w2, d + 1));
                    }
                    _ => {}
                }
            }
            if d == DEPTH {
                continue;
            }
            for t in &g.ms[r].trs[q] {
                let w2 = w.times(&t.w)?;
                match if t.ol == 0 { None } else { g.rule(t.ol) } {
                    None => work.push((stack.clone(), r, t.n, app(&li, t.il), app(&lo, t.ol), w2, d + 1)),
                    Some(j) => {
                        if let Some(s2) = g.ms[j].start {
                            let mut st = stack.clone();
                            st.push((r, t.n));
                            let li = if eps { li.clone() } else { app(&li, t.il) };
                            work.push((st, j, s2, li, lo.clone(), w2, d + 1));
                        }
                    }
                }
            }
        }
    }
    let mut got: Acc<W> = BTreeMap::new();
    if let Some(s) = lz.start() {
        let mut work = vec![(s, vec![], vec![], W::one(), 0usize)];
        let mut n = 0;
        while let Some((q, li, lo, w, d)) = work.pop() {
            n += 1;
            ensure!(n <= 10 * npaths + 100, "recursive replace: too many paths", "{} paths of at most {} transitions where {} are expected", n, DEPTH, npaths);
            if let Some(fw) = lz.final_weight(q)? {
                acc(&mut got, (li.clone(), lo.clone()), w.times(&fw)?)?;
            }
            if d == DEPTH {
                continue;
            }
            for t in lz.get_trs(q)?.trs() {
                work.push((t.nextstate, app(&li, t.ilabel), app(&lo, t.olabel), w.times(&t.weight)?, d + 1));
            }
        }
    }
    let k1: Vec<_> = exp.keys().collect();
    let k2: Vec<_> = got.keys().collect();
    ensure!(k1 == k2, "recursive replace: strings", "paths of at most {} transitions accept {:?}, expected {:?}", DEPTH, k2, k1);
    for (k, w) in &exp {
        ensure!(w.close(&got[k]), "recursive replace: weight", "{:?} has weight {} expected {}", k, got[k].show(), w.show());
    }
    c.nontrivial = exp.len() >= 3;
    Ok(())
}

fn errors(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let g: Grammar<W> = grammar(c, false);
    let mut list = g.list(c);
    if c.chance(1, 5) {
        list.clear();
    }
    let mut root = *c.pick(&[0u32, 1, 4, 6, 15, 99, u32::MAX]);
    while g.labels.contains(&root) {
        root += 100;
    }
    c.note(|| format!("missing root {} in {:?}", root, g.labels));
    let eps = c.bool();
    let r = replace::<W, VectorFst<W>, VectorFst<W>, VectorFst<W>>(list.clone(), root, eps);
    ensure!(r.is_err(), "missing root accepted", "replace with a root label that has no machine gave {:?}", r);
    ensure!(ReplaceFst::<W, VectorFst<W>, VectorFst<W>>::new(list, root, eps).is_err(), "missing root accepted lazily", "ReplaceFst::new accepted a root label that has no machine");
    c.nontrivial = true;
    Ok(())
}
