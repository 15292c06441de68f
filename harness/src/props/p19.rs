use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::optimize;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        subs: vec![
            Sub { name: "acceptors", rule: "an acceptor of at least 2 strings", quick: 240_000, thorough: 2_500_000, f: acceptors },
            Sub { name: "transducers", rule: "a transducer of at least 2 pairs", quick: 240_000, thorough: 2_500_000, f: transducers },
            Sub { name: "large", rule: crate::big::RULE, quick: 5_000, thorough: 60_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => acceptors(c), _ => transducers(c) }) },
        ],
    }
}

fn acceptors(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => opt::<LogWeight>(c, true),
        _ => opt::<TropicalWeight>(c, true),
    }
}

fn transducers(c: &mut Ctx) -> R {
    match c.below(6) {
        0 => opt::<LogWeight>(c, false),
        _ => opt::<TropicalWeight>(c, false),
    }
}

fn opt<W: TW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx, acceptor: bool) -> R
where
    W::ReverseWeight: WeightQuantize,
{
    let k = Cfg {
        max_states: 5,
        max_out: 3,
        labels: *c.pick(&[1usize, 2, 3]),
        eps: *c.pick(&[0usize, 15, 35]),
        acceptor,
        acyclic: c.bool(),
        eps_acyclic: !W::IDEMP,
        unweighted: c.chance(1, 3),
        degenerate: c.chance(1, 12),
        neg: 2,
        ..Default::default()
    };
    let mut m: RFst<W> = match c.below(5) {
        _ if c.big => det_rfst(c, &Cfg { eps: 0, ..k.clone() }),
        0 => det_rfst(c, &k),
        1 => {
            let d = det_rfst(c, &k);
            copies(c, &d, &k)
        }
        2 if !acceptor => path_union(c, true),
        _ => gen_rfst(c, &k),
    };
    if W::IDEMP && c.chance(1, 4) && !k.acyclic {
        // cycles of weight one only
        let all: Vec<Vec<bool>> = crate::bprops::reach_all(&m);
        for s in 0..m.n() {
            for t in m.trs[s].iter_mut() {
                if all[t.n][s] {
                    t.w = W::one();
                }
            }
        }
    }
    if !W::IDEMP && !m.acyclic() {
        // infinite sums have to converge
        crate::props::p20::damp(&mut m);
        crate::props::p20::damp(&mut m);
    }
    let mut f = realize(c, &m);
    // knowledge decides which pipeline runs
    let know = c.below(3);
    if know > 0 {
        let mut mask = FstProperties::empty();
        for (i, p) in [
            FstProperties::ACCEPTOR,
            FstProperties::NO_EPSILONS,
            FstProperties::I_DETERMINISTIC,
            FstProperties::ACYCLIC,
            FstProperties::UNWEIGHTED,
            FstProperties::UNWEIGHTED_CYCLES,
        ]
        .iter()
        .enumerate()
        {
            let _ = i;
            if know == 1 || c.bool() {
                mask |= *p;
            }
        }
        f.compute_and_update_properties(mask)?;
    }
    let sy = c.chance(1, 4);
    if sy {
        let mut s = SymbolTable::new();
        for l in ["a", "b", "c"] {
            s.add_symbol(l);
        }
        let s = Arc::new(s);
        f.set_input_symbols(s.clone());
        f.set_output_symbols(s);
    }
    let p0 = f.properties();
    c.note(|| format!("optimize {} (known: {:?})", m.show(), p0 & (FstProperties::ACCEPTOR | FstProperties::NO_EPSILONS | FstProperties::I_DETERMINISTIC | FstProperties::ACYCLIC | FstProperties::UNWEIGHTED | FstProperties::UNWEIGHTED_CYCLES)));
    optimize(&mut f)?;
    let r = RFst::from_fst(&f)?;
    let ok = same_lang("optimize", &m, &r, 4)?;
    if sy {
        ensure!(f.input_symbols().is_some() && f.output_symbols().is_some(), "symbol tables lost", "optimize dropped the symbol tables");
    }
    crate::bprops::check_props("optimize", f.properties(), &r)?;
    let t = m.trim();
    let det = FstProperties::ACCEPTOR | FstProperties::NO_EPSILONS | FstProperties::I_DETERMINISTIC;
    if W::IDEMP && p0.contains(det) {
        if let Some((n, extra)) = crate::props::p17::minimal(&m) {
            ensure!(r.n() <= n + extra as usize, "not optimized", "{} states where {} are enough: {}", r.n(), n, r.show());
            c.tag("minimal");
        }
    }
    let d = is_det(&m);
    c.tag(if d { "deterministic" } else { "non-deterministic" });
    c.tag(match know {
        0 => "nothing known",
        1 => "all known",
        _ => "some known",
    });
    c.nontrivial = ok && t.lang(3, 3).map_or(false, |l| l.len() >= 2);
    Ok(())
}
