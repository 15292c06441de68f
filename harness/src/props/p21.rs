use crate::bprops::check_props;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p22::Paths;
use crate::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        subs: vec![
            Sub { name: "best", rule: "the machine has at least 2 successful paths of different weight", quick: 480_000, thorough: 4_800_000, f: best },
            Sub { name: "nbest", rule: "more than n paths exist, or two of the n best tie", quick: 480_000, thorough: 4_800_000, f: nbest },
            Sub { name: "unique", rule: "some input string has several paths", quick: 480_000, thorough: 4_800_000, f: unique },
            Sub { name: "refused", rule: "the weight type lacks the path property", quick: 40_000, thorough: 400_000, f: refused },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => best(c), _ => nbest(c) }) },
        ],
    }
}

type T = TropicalWeight;
fn v(w: &T) -> f64 {
    *w.value() as f64
}

fn gen(c: &mut Ctx, acyclic: bool, acceptor: bool) -> RFst<T> {
    let k = Cfg { max_states: 6, max_out: 3, labels: *c.pick(&[1usize, 2, 3]), eps: *c.pick(&[0usize, 25]), acyclic, acceptor, zeros: 0, unweighted: c.chance(1, 10), neg: 2, ..Default::default() };
    let mut m: RFst<T> = gen_rfst(c, &k);
    // no infinite weights; dyadic values, so that sums are exact; negative ones only without cycles
    let neg = acyclic && c.chance(1, 3);
    let fix = |c: &mut Ctx, w: &mut T| {
        let x = c.below(9) as f32 * 0.5;
        *w = T::new(if neg { x - 2.0 } else { x });
    };
    if !k.unweighted {
        for s in 0..m.n() {
            for i in 0..m.trs[s].len() {
                fix(c, &mut m.trs[s][i].w);
                if !acyclic && v(&m.trs[s][i].w) == 0.0 && c.chance(3, 4) {
                    m.trs[s][i].w = T::new(1.0);
                }
            }
            if let Some(w) = &mut m.fin[s] {
                fix(c, w);
            }
        }
    }
    m
}

/// weights of the k best paths, by dynamic programming over path length
fn kbest(m: &RFst<T>, k: usize) -> Vec<f64> {
    let n = m.n();
    let Some(s0) = m.start else { return vec![] };
    let mut cur: Vec<Vec<f64>> = vec![vec![]; n];
    cur[s0].push(0.0);
    let mut all = vec![];
    for _ in 0..=(n * (k + 1)) {
        let mut nx: Vec<Vec<f64>> = vec![vec![]; n];
        for s in 0..n {
            if let Some(w) = &m.fin[s] {
                all.extend(cur[s].iter().map(|x| x + v(w)));
            }
            for t in &m.trs[s] {
                nx[t.n].extend(cur[s].iter().map(|x| x + v(&t.w)));
            }
        }
        for q in nx.iter_mut() {
            q.sort_by(|a, b| a.partial_cmp(b).unwrap());
            q.truncate(k);
        }
        cur = nx;
    }
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    all.truncate(k);
    all
}

/// all paths of weight at most wk (the cap bounds the search)
fn upto(m: &RFst<T>, wk: f64, k: usize, cap: usize) -> Option<Vec<(Str, Str, f64)>> {
    let n = m.n();
    let mut back = vec![f64::INFINITY; n];
    for _ in 0..=n {
        for s in 0..n {
            let mut b = m.fin[s].as_ref().map_or(f64::INFINITY, v);
            for t in &m.trs[s] {
                b = b.min(v(&t.w) + back[t.n]);
            }
            back[s] = back[s].min(b);
        }
    }
    let mut out = vec![];
    let mut st = vec![(m.start?, vec![], vec![], 0.0, 0usize)];
    let mut steps = 0;
    while let Some((s, x, y, w, l)) = st.pop() {
        steps += 1;
        if steps > cap {
            return None;
        }
        if let Some(f) = &m.fin[s] {
            if w + v(f) <= wk {
                out.push((x.clone(), y.clone(), w + v(f)));
            }
        }
        if l > n * (k + 1) {
            continue;
        }
        for t in &m.trs[s] {
            let w2 = w + v(&t.w);
            if w2 + back[t.n] <= wk {
                let (mut x2, mut y2) = (x.clone(), y.clone());
                if t.il != 0 {
                    x2.push(t.il);
                }
                if t.ol != 0 {
                    y2.push(t.ol);
                }
                st.push((t.n, x2, y2, w2, l + 1));
            }
        }
    }
    Some(out)
}

fn result_paths(what: &str, f: &VectorFst<T>) -> R<Vec<(Str, Str, f64)>> {
    let r = RFst::from_fst(f)?;
    r.validate()?;
    check_props(what, f.properties(), &r)?;
    ensure!(r.acyclic(), format!("{}: result has a cycle", what), "{}", r.show());
    let ps: Paths = match crate::props::p22::paths(&r, 20_000) {
        Some(p) => p,
        None => fail!(format!("{}: result has an absurd number of paths", what), "{}", r.show()),
    };
    let mut o: Vec<(Str, Str, f64)> = ps.into_iter().map(|(x, y, w)| (x, y, w.parse::<f64>().unwrap_or(f64::NAN))).collect();
    o.sort_by(|a, b| a.2.partial_cmp(&b.2).unwrap().then(a.cmp2(b)));
    Ok(o)
}
trait Cmp2 {
    fn cmp2(&self, o: &Self) -> std::cmp::Ordering;
}
impl Cmp2 for (Str, Str, f64) {
    fn cmp2(&self, o: &Self) -> std::cmp::Ordering {
        (&self.0, &self.1).cmp(&(&o.0, &o.1))
    }
}

fn sub_multiset(what: &str, got: &[(Str, Str, f64)], all: &[(Str, Str, f64)]) -> R {
    let mut cnt: BTreeMap<(Str, Str, String), i64> = BTreeMap::new();
    for (x, y, w) in all {
        *cnt.entry((x.clone(), y.clone(), format!("{}", w))).or_default() += 1;
    }
    for (x, y, w) in got {
        let e = cnt.entry((x.clone(), y.clone(), format!("{}", w))).or_default();
        *e -= 1;
        ensure!(*e >= 0, format!("{}: path invented or repeated", what), "{:?}:{:?}/{} occurs more often than in the input", x, y, w);
    }
    Ok(())
}

fn zero_cycle(m: &RFst<T>) -> bool {
    !m.is_acyclic_by(|t| v(&t.w) <= 0.0) && !m.acyclic()
}

fn symts(c: &mut Ctx, f: &mut VectorFst<T>) {
    if c.chance(1, 4) {
        f.set_input_symbols(Arc::new(gen_symt(c, 3)));
    }
    if c.chance(1, 4) {
        f.set_output_symbols(Arc::new(gen_symt(c, 3)));
    }
}

fn run(c: &mut Ctx, what: &str, f: &VectorFst<T>, k: Option<ShortestPathConfig>) -> R<VectorFst<T>> {
    let g: VectorFst<T> = match k {
        None => shortest_path(f)?,
        Some(k) => {
            if c.chance(1, 3) {
                shortest_path_with_config(&ConstFst::from(f.clone()), k)?
            } else {
                shortest_path_with_config(f, k)?
            }
        }
    };
    ensure!(g.input_symbols() == f.input_symbols() && g.output_symbols() == f.output_symbols(), format!("{}: symbol tables differ from the input's", what), "");
    Ok(g)
}

fn weights_ok(what: &str, got: &[(Str, Str, f64)], exp: &[f64]) -> R {
    let g: Vec<f64> = got.iter().map(|p| p.2).collect();
    ensure!(g.len() == exp.len(), format!("{}: wrong number of paths", what), "expected {} paths {:?}, got {} {:?}", exp.len(), exp, g.len(), g);
    ensure!(g.iter().zip(exp).all(|(a, b)| (a - b).abs() < 1e-3), format!("{}: not the best weights", what), "expected {:?} got {:?}", exp, g);
    Ok(())
}

fn best(c: &mut Ctx) -> R {
    let ac = c.bool();
    let m = gen(c, ac, false);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    c.note(|| m.show());
    let what = "shortest_path";
    let n = c.below(3);
    if n == 2 {
        let g: VectorFst<T> = shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(0))?;
        ensure!(result_paths(what, &g)?.is_empty(), "shortest_path: paths although none were asked for", "");
    }
    let u = n == 1 && c.bool();
    let k = if n == 1 { Some(ShortestPathConfig::default().with_nshortest(1).with_unique(u)) } else { None };
    let g = run(c, what, &f, k)?;
    let ps = result_paths(what, &g)?;
    let e = kbest(&m, 2);
    weights_ok(what, &ps, &e[..e.len().min(1)])?;
    // linear: every state has at most one transition, and only the last one is final
    let r = RFst::from_fst(&g)?;
    ensure!(r.trs.iter().all(|t| t.len() <= 1) && r.fin.iter().flatten().count() <= 1 && r.ntr() + 1 >= r.n(), "shortest_path: result is not linear", "{}", r.show());
    if !ps.is_empty() && !zero_cycle(&m) {
        if let Some(all) = upto(&m, e[0], 1, 20_000) {
            sub_multiset(what, &ps, &all)?;
        }
    }
    c.nontrivial = e.len() == 2 && e[0] != e[1];
    Ok(())
}

fn nbest(c: &mut Ctx) -> R {
    let ac = c.bool();
    let m = gen(c, ac, false);
    let mut f = realize(c, &m);
    symts(c, &mut f);
    let k = c.range(2, if c.thorough { 12 } else { 7 });
    c.note(|| format!("n = {}\n{}", k, m.show()));
    let what = "n-shortest_path";
    let g = run(c, what, &f, Some(ShortestPathConfig::default().with_nshortest(k)))?;
    let ps = result_paths(what, &g)?;
    let e = kbest(&m, k + 1);
    weights_ok(what, &ps, &e[..e.len().min(k)])?;
    if !ps.is_empty() && !zero_cycle(&m) {
        if let Some(all) = upto(&m, e[e.len().min(k) - 1], k, 20_000) {
            sub_multiset(what, &ps, &all)?;
        }
    }
    c.nontrivial = e.len() > k || e.windows(2).any(|w| w[0] == w[1]);
    Ok(())
}

fn unique(c: &mut Ctx) -> R {
    let acceptor = c.chance(9, 10);
    let mut m = gen(c, true, acceptor);
    // epsilons count as ordinary symbols in this mode, so strings are only distinct without them
    m.trs.iter_mut().flatten().for_each(|t| {
        t.il = t.il.max(1);
        t.ol = t.ol.max(1)
    });
    let mut f = realize(c, &m);
    symts(c, &mut f);
    let k = c.range(2, 7);
    c.note(|| format!("n = {} unique\n{}", k, m.show()));
    let what = "n-shortest_path unique";
    let is_acc = m.trs.iter().flatten().all(|t| t.il == t.ol);
    let g = match run(c, what, &f, Some(ShortestPathConfig::default().with_nshortest(k).with_unique(true))) {
        Ok(g) => g,
        Err(e) => {
            ensure!(!is_acc, "n-shortest_path unique: refused an acceptor", "{}", e.msg);
            return Ok(());
        }
    };
    let ps = result_paths(what, &g)?;
    let Some(all) = upto(&m, f64::INFINITY, 3, 20_000).or(if m.start.is_none() { Some(vec![]) } else { None }) else { return Ok(()) };
    let mut by: BTreeMap<Str, f64> = BTreeMap::new();
    for (x, _, w) in &all {
        let e = by.entry(x.clone()).or_insert(f64::INFINITY);
        *e = e.min(*w);
    }
    if !is_acc {
        // outside the documented domain: only that nothing is invented
        return sub_multiset(what, &ps, &all);
    }
    let mut e: Vec<f64> = by.values().copied().collect();
    e.sort_by(|a, b| a.partial_cmp(b).unwrap());
    e.truncate(k);
    weights_ok(what, &ps, &e)?;
    for (i, (x, _, w)) in ps.iter().enumerate() {
        ensure!(by.get(x) == Some(w), "n-shortest_path unique: not the best weight of its string", "{:?}/{} best is {:?}", x, w, by.get(x));
        ensure!(ps[..i].iter().all(|p| p.0 != *x), "n-shortest_path unique: string repeated", "{:?}", x);
    }
    c.nontrivial = all.len() > by.len();
    Ok(())
}

fn refused(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 4, max_out: 2, labels: 2, degenerate: false, acyclic: true, neg: 2, ..Default::default() };
    let m: RFst<LogWeight> = gen_rfst(c, &k);
    let f = realize(c, &m);
    if m.start.is_none() {
        return Ok(());
    }
    let n = c.range(1, 4);
    c.note(|| format!("n = {}\n{}", n, m.show()));
    let g: anyhow::Result<VectorFst<LogWeight>> = shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n));
    ensure!(g.is_err(), "shortest_path: accepted a weight type without the path property", "log weights");
    c.nontrivial = true;
    Ok(())
}
