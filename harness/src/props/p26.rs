use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::props::p05::GalL;
use crate::props::p22::{paths, Paths};
use crate::*;
use rustfst::check_path_in_fst;
use rustfst::prelude::*;
use rustfst::utils::{acceptor, decode_linear_fst, epsilon_machine, transducer};
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        subs: vec![
            Sub { name: "enumerate", rule: "at least 3 paths, or a machine without a start state", quick: 720_000, thorough: 2_000_000, f: enum_d },
            Sub { name: "strings", rule: "at least 2 paths with different strings", quick: 360_000, thorough: 3_600_000, f: strings },
            Sub { name: "linear", rule: "the label sequences differ in length or hold an epsilon", quick: 720_000, thorough: 2_000_000, f: linear_d },
            Sub { name: "path_calculus", rule: "the path is built from at least 3 pieces", quick: 360_000, thorough: 3_600_000, f: pathcalc_d },
            Sub { name: "membership", rule: "the machine has epsilons and the queried path is accepted, or a near miss", quick: 720_000, thorough: 2_000_000, f: member_d },
            Sub { name: "fine_weights", rule: "weights closer to each other than the tolerance, and the rule of the check it repeats", quick: 40000, thorough: 600000, f: |c| { c.fine = true; match c.below(4) { 0 => enum_d(c), 1 => linear_d(c), 2 => pathcalc_d(c), _ => member_d(c) } } },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, enum_d) },
        ],
    }
}

macro_rules! ws {
    ($c:expr, $f:ident) => {
        match $c.below(8) {
            0 => $f::<LogWeight>($c),
            1 => $f::<ProbabilityWeight>($c),
            2 => $f::<IntegerWeight>($c),
            3 => $f::<Mat>($c),
            4 => $f::<GalL>($c),
            5 => $f::<StringWeightLeft>($c),
            _ => $f::<TropicalWeight>($c),
        }
    };
}
fn enum_d(c: &mut Ctx) -> R {
    ws!(c, enumerate)
}
fn linear_d(c: &mut Ctx) -> R {
    ws!(c, linear)
}
fn pathcalc_d(c: &mut Ctx) -> R {
    ws!(c, pathcalc)
}
fn member_d(c: &mut Ctx) -> R {
    ws!(c, member)
}

fn cfg(c: &mut Ctx) -> Cfg {
    Cfg { max_states: 6, max_out: 3, labels: 3, eps: *c.pick(&[0usize, 30, 60]), acyclic: true, zeros: *c.pick(&[0usize, 0, 5]), big_labels: c.chance(1, 8), ..Default::default() }
}

fn got<W: TW>(it: impl Iterator<Item = FstPath<W>>) -> Paths {
    let mut v: Paths = it.map(|p| (p.ilabels, p.olabels, p.weight.show())).collect();
    v.sort();
    v
}

fn enumerate<W: TW>(c: &mut Ctx) -> R {
    let k = cfg(c);
    let m: RFst<W> = gen_rfst(c, &k);
    let f = realize(c, &m);
    c.note(|| m.show());
    let Some(e) = paths(&m, 400) else { return Ok(()) };
    let g = match c.below(3) {
        0 => got(f.paths_iter()),
        1 => got(ConstFst::from(f.clone()).paths_iter()),
        _ => {
            // pieces taken one at a time agree with the whole
            let mut it = f.paths_iter();
            let mut v = vec![];
            while let Some(p) = it.next() {
                v.push(p);
                ensure!(v.len() <= e.len(), "paths_iter: more paths than the machine has", "expected {} paths", e.len());
            }
            ensure!(it.next().is_none(), "paths_iter: goes on after the end", "next() after None gave a path");
            got(v.into_iter())
        }
    };
    ensure!(e == g, "paths_iter: paths differ", "expected {:?}\n     got {:?}", e, g);
    let d = decode_linear_fst(&f);
    if e.len() > 1 {
        ensure!(d.is_err(), "decode_linear_fst: accepted a machine with several paths", "{} paths", e.len());
    } else if e.len() == 1 {
        let p = d?;
        ensure!((p.ilabels.clone(), p.olabels.clone(), p.weight.show()) == e[0], "decode_linear_fst: wrong path", "expected {:?} got {:?} {:?} {}", e[0], p.ilabels, p.olabels, p.weight.show());
    }
    c.nontrivial = e.len() >= 3 || m.start.is_none();
    Ok(())
}

fn strings(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: 3, eps: 30, acyclic: true, ..Default::default() };
    let m: RFst<TropicalWeight> = gen_rfst(c, &k);
    let mut f = realize(c, &m);
    c.note(|| m.show());
    let Some(e) = paths(&m, 300) else { return Ok(()) };
    let (hi, ho) = (c.chance(9, 10), c.chance(9, 10));
    let si = Arc::new(gen_symt(c, 4));
    let so = Arc::new(gen_symt(c, 4));
    c.note(|| format!("isymt {:?}\nosymt {:?}", si, so));
    if hi {
        f.set_input_symbols(si.clone());
    }
    if ho {
        f.set_output_symbols(so.clone());
    }
    let it = f.string_paths_iter();
    if !(hi && ho) {
        ensure!(it.is_err(), "string_paths_iter: accepted a machine without its symbol tables", "isymt {} osymt {}", hi, ho);
        return Ok(());
    }
    let rend = |t: &SymbolTable, l: &[u32]| -> Option<String> {
        let mut v = vec![];
        for x in l {
            v.push(t.get_symbol(*x)?.to_string());
        }
        Some(v.join(" "))
    };
    let mut exp: Vec<_> = e.iter().map(|(x, y, w)| (x.clone(), y.clone(), w.clone(), rend(&si, x), rend(&so, y))).collect();
    let mut g: Vec<_> = it?.map(|p| (p.ilabels().to_vec(), p.olabels().to_vec(), p.weight().show(), p.istring().ok(), p.ostring().ok())).collect();
    exp.sort();
    g.sort();
    ensure!(exp == g, "string_paths_iter: paths differ", "expected {:?}\n     got {:?}", exp, g);
    c.nontrivial = exp.windows(2).any(|w| (&w[0].3, &w[0].4) != (&w[1].3, &w[1].4));
    Ok(())
}

fn labs(c: &mut Ctx, n: usize, eps: bool) -> Vec<u32> {
    (0..n)
        .map(|_| {
            if eps && c.chance(1, 5) {
                0
            } else if c.chance(1, 20) {
                u32::MAX - 1
            } else {
                1 + c.below(4) as u32
            }
        })
        .collect()
}

fn noeps(v: &[u32]) -> Vec<u32> {
    v.iter().copied().filter(|x| *x != 0).collect()
}

fn linear<W: TW>(c: &mut Ctx) -> R {
    let n = c.below(7);
    let eps = c.chance(1, 3);
    let x = labs(c, n, eps);
    let w: W = loop {
        let w: W = gen_weight(c, &Cfg::default());
        if !w.is_zero() {
            break w;
        }
    };
    let (f, y): (VectorFst<W>, Vec<u32>) = if c.bool() {
        (acceptor(&x, w.clone()), x.clone())
    } else {
        let n = c.below(7);
        let y = labs(c, n, eps);
        (transducer(&x, &y, w.clone()), y)
    };
    c.note(|| format!("{:?} -> {:?} weight {}", x, y, w.show()));
    let p = decode_linear_fst(&f)?;
    ensure!(p.ilabels == noeps(&x) && p.olabels == noeps(&y), "linear machine: labels differ after decoding", "built from {:?}:{:?}, decoded {:?}:{:?}", x, y, p.ilabels, p.olabels);
    ensure!(p.weight == w, "linear machine: weight differs after decoding", "built with {}, decoded {}", w.show(), p.weight.show());
    let m = RFst::from_fst(&f)?;
    ensure!(m.n() == x.len().max(y.len()) + 1 && m.fin.iter().filter(|f| f.is_some()).count() == 1, "linear machine: not linear", "{}", m.show());
    bprops::check_props("linear machine", f.properties(), &m)?;
    let e: VectorFst<W> = epsilon_machine()?;
    let p = decode_linear_fst(&e)?;
    ensure!(p.is_empty() && p.ilabels.is_empty() && p.olabels.is_empty() && p.weight.is_one(), "epsilon machine: decodes to something", "{:?}", p);
    c.nontrivial = x.len() != y.len() || x.contains(&0) || y.contains(&0);
    Ok(())
}

fn pathcalc<W: TW>(c: &mut Ctx) -> R {
    let (mut x, mut y, mut w) = (vec![], vec![], W::one());
    let mut p = FstPath::<W>::default();
    let n = c.below(6);
    for _ in 0..n {
        let v: W = gen_weight(c, &Cfg::default());
        let Some(nw) = w.mul(&v) else { return Ok(()) };
        w = nw;
        match c.below(4) {
            0 => p.add_weight(&v)?,
            1 => {
                let (a, b) = (c.below(4), c.below(4));
                let (a, b) = (labs(c, a, false), labs(c, b, false));
                x.extend(a.clone());
                y.extend(b.clone());
                p.concat(FstPath::new(a, b, v))?;
            }
            _ => {
                let (a, b) = (c.below(3) as u32, c.below(3) as u32);
                if a != 0 {
                    x.push(a);
                }
                if b != 0 {
                    y.push(b);
                }
                p.add_to_path(a, b, &v)?;
            }
        }
    }
    ensure!(p.ilabels == x && p.olabels == y && p.weight == w, "path operations: wrong path", "expected {:?}:{:?}/{} got {:?}:{:?}/{}", x, y, w.show(), p.ilabels, p.olabels, p.weight.show());
    ensure!(p.is_empty() == (x.is_empty() && y.is_empty() && w.is_one()), "path operations: is_empty wrong", "{:?}", p);
    ensure!(p == p.clone(), "path operations: a path differs from its clone", "{:?}", p);
    c.nontrivial = n >= 3;
    Ok(())
}

fn member<W: TW>(c: &mut Ctx) -> R {
    let mut k = cfg(c);
    k.degenerate = false;
    k.max_states = 5;
    let m: RFst<W> = gen_rfst(c, &k);
    if m.start.is_none() {
        return Ok(());
    }
    let f = realize(c, &m);
    let Some(e) = paths(&m, 200) else { return Ok(()) };
    let all: Vec<FstPath<W>> = f.paths_iter().collect();
    // the queried path: a real one, a real one slightly changed, or a random one
    let mut p = if !all.is_empty() && c.chance(4, 5) {
        let i = c.below(all.len());
        all[i].clone()
    } else {
        let (a, b) = (c.below(4), c.below(4));
        FstPath::new(labs(c, a, false), labs(c, b, false), gen_weight(c, &Cfg::default()))
    };
    if c.bool() {
        let side = c.bool();
        let n = c.below(4);
        let v = if side { &mut p.ilabels } else { &mut p.olabels };
        match n {
            0 => v.push(1),
            1 => {
                v.pop();
            }
            2 if !v.is_empty() => {
                let i = c.below(v.len());
                v[i] = 1 + (v[i] % 3);
            }
            _ => p.weight = gen_weight(c, &Cfg::default()),
        }
    }
    c.note(|| format!("{}\npath {:?}:{:?}/{}", m.show(), p.ilabels, p.olabels, p.weight.show()));
    let exp = all.iter().any(|q| *q == p);
    ensure!(e.len() == all.len(), "paths_iter: paths differ", "expected {} paths got {}", e.len(), all.len());
    let g = check_path_in_fst(&f, &p);
    ensure!(g == exp, "check_path_in_fst: wrong answer", "expected {} got {}", exp, g);
    c.nontrivial = m.trs.iter().flatten().any(|t| t.il == 0 || t.ol == 0) && (exp || p.ilabels.len() + p.olabels.len() > 0);
    Ok(())
}
