use crate::ctx::*;
use crate::gen::*;
use crate::mat::Mat;
use crate::model::*;
use crate::props::p20::damp;
use crate::*;
use rustfst::algorithms::rm_epsilon::{rm_epsilon, RmEpsilonFst};
use rustfst::prelude::*;

pub fn prop() -> Prop {
    let rule = "an epsilon transition on a successful path";
    Prop {
        id: "C15",
        subs: vec![
            Sub { name: "acyclic", rule, quick: 120_000, thorough: 2_000_000, f: |c| disp(c, true) },
            Sub { name: "cyclic", rule, quick: 240_000, thorough: 4_000_000, f: |c| disp(c, false) },
            Sub { name: "large", rule: crate::big::RULE, quick: 4_000, thorough: 60_000, f: |c| crate::big::large(c, |c| { let a = c.bool(); disp(c, a) }) },
        ],
    }
}

fn disp(c: &mut Ctx, a: bool) -> R {
    match c.below(7) {
        0 => run::<LogWeight>(c, a),
        1 => run::<ProbabilityWeight>(c, a),
        2 => run::<IntegerWeight>(c, a),
        3 => run::<Mat>(c, a),
        4 => run::<BooleanWeight>(c, a),
        _ => run::<TropicalWeight>(c, a),
    }
}

fn run<W: TW>(c: &mut Ctx, acyclic: bool) -> R {
    let k = Cfg {
        max_states: 7,
        max_out: if W::IDEMP { 3 } else { 2 },
        labels: 2,
        eps: *c.pick(&[30usize, 60, 80]),
        acyclic,
        eps_acyclic: W::NAME == "integer",
        acceptor: c.bool(),
        zeros: *c.pick(&[0usize, 0, 5]),
        neg: 2,
        ..Default::default()
    };
    let mut m: RFst<W> = gen_rfst(c, &k);
    if !W::IDEMP && !acyclic {
        damp(&mut m);
    }
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.nil()) {
            *f = None;
        }
    }
    let mut f = realize(c, &m);
    c.note(|| m.show());
    // the epsilon closures must converge before the library is asked to sum them
    let mut e = m.clone();
    for v in e.trs.iter_mut() {
        v.retain(|t| t.il == 0 && t.ol == 0);
    }
    for s in 0..e.n() {
        if crate::props::p20::dist(&e, s).is_none() {
            return Ok(());
        }
    }
    let lz = RmEpsilonFst::new(f.clone())?;
    let before = f.clone();
    rm_epsilon(&mut f)?;
    let r = RFst::from_fst(&f)?;
    let noeps = |what: &str, r: &RFst<W>| -> R {
        ensure!(m.start.is_none() || r.trs.iter().flatten().all(|t| t.il != 0 || t.ol != 0), format!("{}: epsilon transitions remain", what), "{}", r.show());
        Ok(())
    };
    noeps("rm_epsilon", &r)?;
    crate::hist::agrees("rm_epsilon", &f, &r)?;
    let l = 3;
    let a = same_lang("rm_epsilon", &m, &r, l)?;
    if c.bool() {
        if let Some(z) = RFst::from_any(&lz, 200)? {
            noeps("lazy rm_epsilon", &z)?;
            same_lang("lazy rm_epsilon", &m, &z, l)?;
        }
    } else {
        let g: VectorFst<W> = lz.compute()?;
        let z = RFst::from_fst(&g)?;
        noeps("computed lazy rm_epsilon", &z)?;
        same_lang("computed lazy rm_epsilon", &m, &z, l)?;
    }
    drop(before);
    let t = m.trim();
    c.nontrivial = a && t.trs.iter().flatten().any(|t| t.il == 0 && t.ol == 0);
    if a && !t.eps_acyclic() {
        c.tag("epsilon cycle on a successful path");
    }
    Ok(())
}
