use crate::bprops::*;
use crate::ctx::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use rustfst::fst_properties::{compute_fst_properties, known_properties, FstProperties as P};
use rustfst::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        subs: vec![
            Sub { name: "compute", rule: "the machine has at least 2 states and 2 transitions", quick: 480_000, thorough: 4_800_000, f: compute },
            Sub { name: "after_history", rule: "properties computed after at least 5 edits on a machine with transitions", quick: 80_000, thorough: 800_000, f: after_history },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => compute(c), _ => after_history(c) }) },
        ],
    }
}

fn gen_mask(c: &mut Ctx) -> P {
    match c.below(3) {
        0 => P::all(),
        1 => {
            let names: Vec<P> = P::all().iter().collect();
            *c.pick(&names)
        }
        _ => {
            let mut p = P::empty();
            for f in P::all().iter() {
                if c.chance(1, 4) {
                    p |= f;
                }
            }
            p
        }
    }
}

fn verdict<W: TW>(what: &str, got: P, mask: P, m: &RFst<W>) -> R {
    let truth = true_props(m);
    // both bits of each requested pair are decided, and correctly
    let want = known_properties(mask) & P::all();
    let wrong = (got ^ truth) & want & judged(m);
    if !wrong.is_empty() {
        let bad = P::all().iter().filter(|b| wrong.contains(*b)).map(|b| format!("{:?}", b)).collect::<Vec<_>>().join(" ");
        fail!(format!("{}: wrong verdict", what), "{}: wrong about {} (mask {:?}); truth {:?}; got {:?}", what, bad, mask, truth & want, got & want);
    }
    Ok(())
}

fn compute(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => compute_w::<LogWeight>(c),
        1 => compute_w::<IntegerWeight>(c),
        _ => compute_w::<TropicalWeight>(c),
    }
}

fn shape<W: TW>(c: &mut Ctx) -> RFst<W> {
    let k = Cfg {
        max_states: 7,
        max_out: *c.pick(&[1usize, 2, 3]),
        labels: *c.pick(&[2usize, 8, 30]),
        eps: *c.pick(&[0usize, 10, 30]),
        acyclic: c.chance(1, 3),
        acceptor: c.chance(1, 3),
        unweighted: c.chance(1, 3),
        zeros: if c.chance(1, 10) { 15 } else { 0 },
        big_labels: true,
        ..Default::default()
    };
    let mut m: RFst<W> = gen_rfst(c, &k);
    if c.chance(1, 6) {
        // a string, possibly broken in one place
        let n = c.range(1, 6);
        m = RFst::new(n);
        m.start = Some(0);
        for s in 0..n - 1 {
            let l = gen_label(c, &k);
            m.trs[s].push(RTr { il: l, ol: l, w: gen_weight(c, &k), n: s + 1 });
        }
        m.fin[n - 1] = Some(gen_weight(c, &k));
        match c.below(6) {
            0 => m.start = Some(c.below(n)),
            1 => {
                let s = c.below(n);
                m.fin[s] = Some(W::one())
            }
            2 => {
                let s = c.below(n);
                let t = RTr { il: 1, ol: 1, w: W::one(), n: c.below(n) };
                m.trs[s].push(t)
            }
            _ => {}
        }
    }
    if c.chance(1, 3) {
        for v in m.trs.iter_mut() {
            v.sort_by_key(|t| t.il);
        }
    } else if c.chance(1, 3) {
        for v in m.trs.iter_mut() {
            v.sort_by_key(|t| t.ol);
        }
    }
    // final weights equal to zero: whether such a state is final is not fixed by the accessors
    for w in m.fin.iter_mut() {
        if w.as_ref().map_or(false, |w| w.is_zero()) {
            *w = None;
        }
    }
    m
}

fn compute_w<W: TW>(c: &mut Ctx) -> R {
    let m: RFst<W> = shape(c);
    let mask = gen_mask(c);
    c.note(|| format!("{} mask {:?}", m.show(), mask));
    c.nontrivial = m.n() >= 2 && m.ntr() >= 2;
    let mut f: VectorFst<W> = m.vector();
    match c.below(3) {
        0 => f.set_properties(P::empty()),
        1 => f.set_properties(true_props(&m)),
        _ => {}
    }
    let mut known = P::empty();
    let got = compute_fst_properties(&f, mask, &mut known, c.bool())?;
    verdict("compute_fst_properties", got, mask, &m)?;
    ensure!(known.contains(mask), "compute_fst_properties: known mask", "requested {:?}, reported as known {:?}", mask, known);
    check_props("compute_fst_properties", got, &m)?;
    let got = f.compute_and_update_properties(mask)?;
    let wrong = (got ^ true_props(&m)) & mask & judged(&m);
    ensure!(wrong.is_empty(), "compute_and_update_properties: wrong verdict", "wrong about {:?}", wrong);
    verdict("stored after compute_and_update_properties", f.properties(), mask, &m)?;
    check_props("stored after compute_and_update_properties", f.properties(), &m)?;
    if f.properties().knows(mask) {
        ensure!(f.properties_check(mask).is_ok(), "properties_check", "refuses known properties");
    }
    ensure!(f.properties_with_mask(mask) == f.properties() & mask, "properties_with_mask", "differs");
    let all = f.compute_and_update_properties_all()?;
    ensure!((all & judged(&m)) == (true_props(&m) & judged(&m)), "compute_and_update_properties_all: wrong verdict", "got {:?} truth {:?}", all, true_props(&m));
    // the constant form answers alike
    let cf: ConstFst<W> = f.clone().into();
    let mut known = P::empty();
    let got = compute_fst_properties(&cf, mask, &mut known, false)?;
    verdict("compute_fst_properties(const)", got, mask, &m)?;
    Ok(())
}

fn after_history(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 4, labels: 4, ..Default::default() };
    let m = gen_rfst::<TropicalWeight>(c, &k);
    let mut h = Hist::new(m);
    let n = c.range(5, 20);
    for _ in 0..n {
        h.step(c, &k, true)?;
    }
    let mask = gen_mask(c);
    c.note(|| format!("{} => {} mask {:?}", h.show(), h.m.show(), mask));
    let got = h.f.compute_and_update_properties(mask)?;
    let wrong = (got ^ true_props(&h.m)) & mask & judged(&h.m);
    ensure!(wrong.is_empty(), "compute_and_update_properties after edits: wrong verdict", "wrong about {:?}", wrong);
    c.nontrivial = h.m.ntr() > 0;
    Ok(())
}
