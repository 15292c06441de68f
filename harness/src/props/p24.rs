use crate::bprops::{check_props, reach_all};
use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        subs: vec![
            Sub { name: "isomorphic", rule: "the machines have equal or nearly equal size and differ in at most one edit", quick: 960_000, thorough: 3_000_000, f: iso_d },
            Sub { name: "condense", rule: "some component has 2 or more states and there are at least 2 components", quick: 720_000, thorough: 2_000_000, f: cond_d },
            Sub { name: "tolerance", rule: "a deterministic machine with at least 2 states and 3 weights", quick: 150_000, thorough: 1_500_000, f: tolerance },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => iso_d(c), _ => cond_d(c) }) },
        ],
    }
}

fn iso_d(c: &mut Ctx) -> R {
    match c.below(5) {
        0 => iso::<IntegerWeight>(c),
        1 => iso::<BooleanWeight>(c),
        2 => iso::<LogWeight>(c),
        _ => iso::<TropicalWeight>(c),
    }
}
fn cond_d(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => cond::<IntegerWeight>(c),
        1 => cond::<Mat>(c),
        2 => cond::<LogWeight>(c),
        _ => cond::<TropicalWeight>(c),
    }
}

/// the part reachable from the start
fn accessible<W: TW>(m: &RFst<W>) -> RFst<W> {
    let Some(s) = m.start else { return RFst::new(0) };
    let r = crate::bprops::reach(m, s);
    let mut id = vec![usize::MAX; m.n()];
    let mut n = 0;
    for q in 0..m.n() {
        if r[q] {
            id[q] = n;
            n += 1;
        }
    }
    let mut o = RFst::new(n);
    o.start = Some(id[s]);
    for q in 0..m.n() {
        if r[q] {
            o.fin[id[q]] = m.fin[q].clone();
            o.trs[id[q]] = m.trs[q].iter().map(|t| RTr { n: id[t.n], ..t.clone() }).collect();
        }
    }
    o
}

fn renumber<W: TW>(c: &mut Ctx, m: &RFst<W>) -> RFst<W> {
    let n = m.n();
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.below(i + 1);
        p.swap(i, j);
    }
    let mut o = RFst::new(n);
    o.start = m.start.map(|s| p[s]);
    for q in 0..n {
        o.fin[p[q]] = m.fin[q].clone();
        let mut v: Vec<_> = m.trs[q].iter().map(|t| RTr { n: p[t.n], ..t.clone() }).collect();
        for i in (1..v.len()).rev() {
            let j = c.below(i + 1);
            v.swap(i, j);
        }
        o.trs[p[q]] = v;
    }
    o
}

/// split one state in two with the same outgoing transitions, incoming ones shared out
fn split<W: TW>(c: &mut Ctx, m: &RFst<W>) -> RFst<W> {
    let mut o = m.clone();
    let q = c.below(m.n());
    let d = o.n();
    o.fin.push(o.fin[q].clone());
    o.trs.push(o.trs[q].clone());
    for s in 0..o.n() {
        for i in 0..o.trs[s].len() {
            if o.trs[s][i].n == q && c.bool() {
                o.trs[s][i].n = d;
            }
        }
    }
    o
}

type Sg = Vec<(u32, u32, String)>;
fn sig<W: TW>(m: &RFst<W>, s: usize) -> (Option<String>, Sg) {
    let mut v: Sg = m.trs[s].iter().map(|t| (t.il, t.ol, t.w.show())).collect();
    v.sort();
    (m.fin[s].as_ref().map(|w| w.show()), v)
}

/// colour refinement: decides unless the machines are too symmetric
fn refine<W: TW>(a: &RFst<W>, b: &RFst<W>) -> Option<bool> {
    if a.n() != b.n() || a.start.is_some() != b.start.is_some() {
        return Some(false);
    }
    let n = a.n();
    let ms = [a, b];
    let mut col: Vec<Vec<usize>> = vec![vec![0; n]; 2];
    let mut count = 1;
    loop {
        let mut ids: BTreeMap<_, usize> = BTreeMap::new();
        let mut next = vec![vec![0; n]; 2];
        for (j, m) in ms.iter().enumerate() {
            let mut inc: Vec<Vec<(u32, u32, String, usize)>> = vec![vec![]; n];
            for s in 0..n {
                for t in &m.trs[s] {
                    inc[t.n].push((t.il, t.ol, t.w.show(), col[j][s]));
                }
            }
            for s in 0..n {
                let mut out: Vec<_> = m.trs[s].iter().map(|t| (t.il, t.ol, t.w.show(), col[j][t.n])).collect();
                out.sort();
                inc[s].sort();
                let k = (col[j][s], m.start == Some(s), m.fin[s].as_ref().map(|w| w.show()), out, inc[s].clone());
                let l = ids.len();
                next[j][s] = *ids.entry(k).or_insert(l);
            }
        }
        col = next;
        let mut x = col[0].clone();
        let mut y = col[1].clone();
        x.sort();
        y.sort();
        if x != y {
            return Some(false);
        }
        if ids.len() == n {
            return Some(true);
        }
        if ids.len() == count {
            return None;
        }
        count = ids.len();
    }
}

/// brute force: search for a bijection of states respecting everything
fn iso_oracle<W: TW>(a: &RFst<W>, b: &RFst<W>) -> bool {
    if a.n() != b.n() || a.start.is_some() != b.start.is_some() {
        return false;
    }
    let n = a.n();
    let sa: Vec<_> = (0..n).map(|s| sig(a, s)).collect();
    let sb: Vec<_> = (0..n).map(|s| sig(b, s)).collect();
    fn full<W: TW>(a: &RFst<W>, b: &RFst<W>, p: &[usize]) -> bool {
        for s in 0..a.n() {
            let mut x: Vec<_> = a.trs[s].iter().map(|t| (t.il, t.ol, t.w.show(), p[t.n])).collect();
            let mut y: Vec<_> = b.trs[p[s]].iter().map(|t| (t.il, t.ol, t.w.show(), t.n)).collect();
            x.sort();
            y.sort();
            if x != y {
                return false;
            }
        }
        true
    }
    fn rec<W: TW>(a: &RFst<W>, b: &RFst<W>, sa: &[(Option<String>, Sg)], sb: &[(Option<String>, Sg)], p: &mut Vec<usize>, used: &mut Vec<bool>) -> bool {
        let s = p.len();
        if s == a.n() {
            return full(a, b, p);
        }
        for t in 0..b.n() {
            if !used[t] && sa[s] == sb[t] && (a.start == Some(s)) == (b.start == Some(t)) {
                used[t] = true;
                p.push(t);
                if rec(a, b, sa, sb, p, used) {
                    return true;
                }
                p.pop();
                used[t] = false;
            }
        }
        false
    }
    rec(a, b, &sa, &sb, &mut vec![], &mut vec![false; n])
}

fn iso<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: *c.pick(&[2usize, 5]), eps: 15, zeros: 0, unweighted: c.bool(), ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let a = accessible(&m);
    if a.n() == 0 && c.bool() {
        return Ok(());
    }
    let mut b = match c.below(6) {
        0 if a.n() > 0 => accessible(&split(c, &a)),
        1 => {
            let m: RFst<W> = gen_rfst(c, &k);
            accessible(&m)
        }
        _ => a.clone(),
    };
    if b.n() > 0 && c.chance(1, 2) {
        let s = c.below(b.n());
        match c.below(5) {
            0 => b.fin[s] = if c.bool() { None } else { Some(gen_weight(c, &k)) },
            n if !b.trs[s].is_empty() => {
                let i = c.below(b.trs[s].len());
                match n {
                    1 => b.trs[s][i].n = c.below(b.n()),
                    2 => b.trs[s][i].w = gen_weight(c, &k),
                    3 => b.trs[s][i].il = gen_label(c, &k),
                    _ => b.trs[s][i].ol = gen_label(c, &k),
                }
            }
            _ => {}
        }
        b = accessible(&b);
    }
    let b = renumber(c, &b);
    if a.fin.iter().chain(&b.fin).flatten().any(|w| w.is_zero()) {
        return Ok(());
    }
    c.note(|| format!("{}\n{}", a.show(), b.show()));
    let det = |m: &RFst<W>| m.trs.iter().all(|v| v.iter().map(|t| (t.il, t.ol, t.w.show())).collect::<BTreeSet<_>>().len() == v.len());
    let exp = if a.n() > 8 || b.n() > 8 {
        match refine(&a, &b) {
            Some(x) => x,
            None => return Ok(()),
        }
    } else {
        iso_oracle(&a, &b)
    };
    let (x, y) = if c.bool() { (a, b) } else { (b, a) };
    let (fx, fy) = (realize(c, &x), realize(c, &y));
    let got = if c.bool() { isomorphic(&fx, &fy) } else { isomorphic(&ConstFst::from(fx), &fy) };
    let d = det(&x) && det(&y);
    match got {
        Ok(true) => ensure!(exp, "isomorphic: yes for machines that are not isomorphic", "{} states, {} states", x.n(), y.n()),
        Ok(false) => ensure!(!exp || !d, "isomorphic: no for isomorphic machines", "{} states", x.n()),
        Err(e) => ensure!(!d, "isomorphic: refused a deterministic pair", "{:#}", e),
    }
    c.tag(if exp { "isomorphic" } else { "not isomorphic" });
    c.nontrivial = x.n() >= 2;
    Ok(())
}

fn cond<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 8, max_out: *c.pick(&[2usize, 3]), labels: 3, zeros: 0, ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let f = realize(c, &m);
    c.note(|| m.show());
    let (scc, g): (Vec<i32>, VectorFst<W>) = if c.bool() { condense(&f)? } else { condense(&ConstFst::from(f))? };
    let g = {
        let r = RFst::from_fst(&g)?;
        check_props("condense", g.properties(), &r)?;
        r
    };
    ensure!(scc.len() == m.n(), "condense: mapping has the wrong length", "{} for {} states", scc.len(), m.n());
    let r = reach_all(&m);
    for a in 0..m.n() {
        ensure!(scc[a] >= 0 && (scc[a] as usize) < g.n(), "condense: mapping leaves the machine", "state {} -> {}", a, scc[a]);
        for b in 0..m.n() {
            let same = a == b || (r[a][b] && r[b][a]);
            ensure!((scc[a] == scc[b]) == same, "condense: wrong components", "states {} and {}: mutually reachable {}, components {} {}", a, b, same, scc[a], scc[b]);
        }
    }
    let used: BTreeSet<i32> = scc.iter().copied().collect();
    ensure!(used.len() == g.n(), "condense: states that are no component", "{} components, {} states", used.len(), g.n());
    ensure!(g.start == m.start.map(|s| scc[s] as usize), "condense: wrong start", "{:?}", g.start);
    for q in 0..g.n() {
        let mut e: Vec<_> = vec![];
        let mut fin: Option<W> = None;
        for s in 0..m.n() {
            if scc[s] as usize != q {
                continue;
            }
            for t in &m.trs[s] {
                if scc[t.n] as usize != q {
                    e.push((t.il, t.ol, t.w.show(), scc[t.n] as usize));
                }
            }
            if let Some(w) = &m.fin[s] {
                fin = Some(match fin {
                    None => w.clone(),
                    Some(v) => match v.sum(w) {
                        Some(x) => x,
                        None => return Ok(()),
                    },
                });
            }
        }
        let mut o: Vec<_> = g.trs[q].iter().map(|t| (t.il, t.ol, t.w.show(), t.n)).collect();
        e.sort();
        o.sort();
        ensure!(e == o, "condense: transitions between components differ", "component {}: expected {:?} got {:?}", q, e, o);
        let ok = match (&fin, &g.fin[q]) {
            (None, None) => true,
            (Some(a), Some(b)) => a.close(b),
            _ => false,
        };
        ensure!(ok, "condense: wrong final weight", "component {}", q);
    }
    ensure!(g.acyclic(), "condense: result has a cycle", "{}", g.show());
    let mut sz: BTreeMap<i32, usize> = BTreeMap::new();
    scc.iter().for_each(|x| *sz.entry(*x).or_default() += 1);
    c.nontrivial = sz.len() >= 2 && sz.values().any(|n| *n >= 2);
    Ok(())
}

/// Weights are compared up to the tolerance asked for: closer is the same, further is not.
fn tolerance(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 6, max_out: 3, labels: 3, acceptor: c.bool(), ..Default::default() };
    let m: RFst<TropicalWeight> = accessible(&crate::detgen::det_rfst(c, &k));
    let mut a = m.clone();
    let weights = |m: &mut RFst<TropicalWeight>, f: &mut dyn FnMut(&mut TropicalWeight)| {
        for s in 0..m.n() {
            for t in m.trs[s].iter_mut() {
                f(&mut t.w);
            }
            if let Some(w) = m.fin[s].as_mut() {
                f(w);
            }
        }
    };
    let default = c.chance(1, 3);
    let delta = if default { 1.0 / 1024.0 } else { *c.pick(&[1.0 / 4096.0, 0.0625f32, 1.0]) };
    let mut count = 0;
    weights(&mut a, &mut |w| {
        if !w.is_zero() {
            count += 1;
            *w = TropicalWeight::new(*w.value() + delta * *c.pick(&[-0.75f32, -0.5, 0.0, 0.5, 0.75]));
        }
    });
    let far = count > 0 && c.bool();
    if far {
        let pick = c.below(count);
        let by = delta * *c.pick(&[-4.0f32, -2.5, 2.5, 4.0]);
        let mut i = 0;
        weights(&mut a, &mut |w| {
            if !w.is_zero() {
                if i == pick {
                    *w = TropicalWeight::new(*w.value() + by);
                }
                i += 1;
            }
        });
    }
    let b = renumber(c, &a);
    c.note(|| format!("delta {} {} vs {}", delta, m.show(), b.show()));
    c.nontrivial = m.n() >= 2 && count >= 3;
    let (x, y) = (m.vector(), b.vector());
    let r = if default { isomorphic(&x, &y)? } else { isomorphic_with_config(&x, &y, IsomorphicConfig::new(delta))? };
    ensure!(r != far, if far { "isomorphic: weights further apart than the tolerance accepted" } else { "isomorphic: weights within the tolerance told apart" }, "answer {}", r);
    Ok(())
}
