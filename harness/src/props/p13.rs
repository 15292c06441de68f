use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::props::p08::know_sorted;
use crate::props::p12::grammar;
use crate::*;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::factor_weight::{factor_iterators::GallicFactorLeft, factor_weight, FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::replace::{replace, ReplaceFst};
use rustfst::algorithms::rm_epsilon::{rm_epsilon, RmEpsilonFst};
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::{Arc, Barrier, Mutex};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        subs: vec![
            Sub { name: "order", rule: "at least 3 states and 10 queries in random order", quick: 120_000, thorough: 1_500_000, f: |c| operations(c, Mode::Order) },
            Sub { name: "threads", rule: "at least 3 states queried by at least 2 threads at once", quick: 20_000, thorough: 300_000, f: |c| operations(c, Mode::Threads) },
            Sub { name: "caches", rule: "at least 3 states, user-defined operation, 10 queries", quick: 80_000, thorough: 1_000_000, f: caches },
            Sub { name: "restart", rule: "at least 3 states, saved and restored at least once with a partial cache", quick: 40_000, thorough: 400_000, f: restart },
            Sub { name: "cache_history", rule: "at least 10 calls on one cache", quick: 60_000, thorough: 1_500_000, f: cache_history },
            Sub { name: "nested", rule: "a lazy operand with at least 3 states", quick: 60_000, thorough: 800_000, f: nested },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => operations(c, Mode::Order), 1 => caches(c), _ => nested(c) }) },
        ],
    }
}

type W = TropicalWeight;
type V = VectorFst<W>;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Order,
    Threads,
}

/// What has been read from a lazy machine so far.
#[derive(Clone)]
struct Obs<S: TW> {
    start: Option<u32>,
    known: Vec<u32>,
    fin: BTreeMap<u32, Option<S>>,
    trs: BTreeMap<u32, Vec<Tr<S>>>,
}

impl<S: TW> Obs<S> {
    fn new(start: Option<u32>) -> Self {
        Obs { start, known: start.into_iter().collect(), fin: BTreeMap::new(), trs: BTreeMap::new() }
    }
    fn saw_fin(&mut self, s: u32, w: Option<S>) -> R {
        match self.fin.get(&s) {
            Some(x) => ensure!(*x == w, "final weight changed", "final weight of state {} was {:?}, now {:?}", s, x, w),
            None => {
                self.fin.insert(s, w);
            }
        }
        Ok(())
    }
    fn saw_trs(&mut self, s: u32, t: &[Tr<S>]) -> R {
        match self.trs.get(&s) {
            Some(x) => ensure!(x == t, "transitions changed", "transitions of state {} were {:?}, now {:?}", s, x, t),
            None => {
                for x in t {
                    if !self.known.contains(&x.nextstate) {
                        self.known.push(x.nextstate);
                    }
                }
                self.trs.insert(s, t.to_vec());
            }
        }
        Ok(())
    }
    fn merge(&mut self, o: &Obs<S>) -> R {
        ensure!(self.start == o.start, "start differs", "start {:?} and {:?}", self.start, o.start);
        for (s, w) in &o.fin {
            self.saw_fin(*s, w.clone())?;
        }
        for (s, t) in &o.trs {
            self.saw_trs(*s, t)?;
        }
        Ok(())
    }
}

const MAXST: usize = 60;

/// One query of a known state, chosen by `x`.
fn query<S: TW, F: Fst<S>>(f: &F, o: &mut Obs<S>, mut x: u64) -> R {
    if f.start() != o.start {
        fail!("start changed", "start was {:?}, now {:?}", o.start, f.start());
    }
    if o.known.is_empty() {
        return Ok(());
    }
    let s = o.known[(x % o.known.len() as u64) as usize];
    x /= 97;
    let eps = |o: &Obs<S>, inp: bool| o.trs[&s].iter().filter(|t| if inp { t.ilabel } else { t.olabel } == 0).count();
    match x % 9 {
        0 | 1 => {
            let w = f.final_weight(s)?;
            o.saw_fin(s, w)?;
        }
        2 | 3 => {
            let t = f.get_trs(s)?;
            o.saw_trs(s, t.trs())?;
        }
        4 => {
            let n = f.num_trs(s)?;
            let t = f.get_trs(s)?;
            o.saw_trs(s, t.trs())?;
            ensure!(n == o.trs[&s].len(), "num_trs", "state {} has {} transitions, num_trs says {}", s, o.trs[&s].len(), n);
        }
        5 => {
            let n = f.num_input_epsilons(s)?;
            let t = f.get_trs(s)?;
            o.saw_trs(s, t.trs())?;
            ensure!(n == eps(o, true), "num_input_epsilons", "state {}: num_input_epsilons {} for {:?}", s, n, o.trs[&s]);
        }
        6 => {
            let n = f.num_output_epsilons(s)?;
            let t = f.get_trs(s)?;
            o.saw_trs(s, t.trs())?;
            ensure!(n == eps(o, false), "num_output_epsilons", "state {}: num_output_epsilons {} for {:?}", s, n, o.trs[&s]);
        }
        7 => {
            let b = f.is_final(s)?;
            let w = f.final_weight(s)?;
            ensure!(b == w.is_some(), "is_final", "is_final({}) = {} but final weight {:?}", s, b, w);
            o.saw_fin(s, w)?;
        }
        _ => {
            let t = unsafe { f.get_trs_unchecked(s) };
            o.saw_trs(s, t.trs())?;
            let w = unsafe { f.final_weight_unchecked(s) };
            o.saw_fin(s, w)?;
        }
    }
    Ok(())
}

/// Exact up to state numbers when transitions come in the same order, else by relation.
fn same<S: TW>(what: &str, a: &RFst<S>, b: &RFst<S>) -> R {
    let eq = a.n() == b.n() && (0..a.n()).all(|s| a.fin[s] == b.fin[s] && a.trs[s].len() == b.trs[s].len() && a.trs[s].iter().zip(&b.trs[s]).all(|(x, y)| x.il == y.il && x.ol == y.ol && x.n == y.n && x.w == y.w));
    if eq {
        return Ok(());
    }
    ensure!(a.n() == b.n() && a.ntr() == b.ntr(), format!("{}: size", what), "{}: {} states and {} transitions, expected {} and {}:\n{}\nexpected\n{}", what, b.n(), b.ntr(), a.n(), a.ntr(), b.show(), a.show());
    same_lang(what, a, b, 4)?;
    Ok(())
}

/// The same machine queried by one thread per seed.
fn par<S: TW + Send, F: Fst<S> + Sync>(b: &F, seeds: &[u64], steps: usize) -> Vec<R<Obs<S>>> {
    let bar = Barrier::new(seeds.len());
    std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let bar = &bar;
                sc.spawn(move || {
                    let mut x = *seed | 1;
                    bar.wait();
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut o = Obs::new(b.start());
                        for _ in 0..steps {
                            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            query(b, &mut o, x >> 20)?;
                        }
                        Ok(o)
                    }))
                    .unwrap_or_else(|_| Err(Fail::new("panic under concurrent access", "a thread panicked")))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("panic under concurrent access", "a thread panicked")))).collect()
    })
}

/// `mk` builds the same lazy machine afresh each time.
fn exercise<S: TW, F: Fst<S>>(c: &mut Ctx, mode: Mode, par: Option<fn(&F, &[u64], usize) -> Vec<R<Obs<S>>>>, what: &str, mk: &dyn Fn() -> R<F>, comp: &dyn Fn(&F) -> R<VectorFst<S>>, eager: Option<&VectorFst<S>>) -> R {
    let mode = if par.is_none() { Mode::Order } else { mode };
    let a = mk()?;
    let Some(ra) = RFst::from_any(&a, MAXST)? else { return Ok(()) };
    let b = mk()?;
    let steps = c.range(1, 40);
    match mode {
        Mode::Order => {
            let mut o = Obs::new(b.start());
            for _ in 0..steps {
                let x = c.src.below(1 << 30);
                query(&b, &mut o, x)?;
            }
            c.nontrivial = ra.n() >= 3 && steps >= 10;
            // whole-machine iteration, on a machine some of whose states are already known
            if c.chance(1, 3) {
                let mut n = 0;
                let mut prev = None;
                let mut seen = std::collections::BTreeSet::new();
                for d in b.fst_iter() {
                    n += 1;
                    ensure!(prev < Some(d.state_id), format!("{}: fst_iter order", what), "fst_iter repeated or skipped back: {:?} then {}", prev, d.state_id);
                    prev = Some(d.state_id);
                    seen.insert(d.state_id);
                    o.saw_trs(d.state_id, d.trs.trs())?;
                    o.saw_fin(d.state_id, d.final_weight)?;
                    ensure!(d.num_trs == o.trs[&d.state_id].len(), format!("{}: fst_iter num_trs", what), "state {}: {} for {} transitions", d.state_id, d.num_trs, o.trs[&d.state_id].len());
                    if n > 4 * MAXST {
                        break;
                    }
                }
                for s in &o.known {
                    ensure!(seen.contains(s), format!("{}: fst_iter misses states", what), "fst_iter did not yield state {} of {:?}", s, o.known);
                }
            }
        }
        Mode::Threads => {
            let nt = c.range(2, 4);
            let seeds: Vec<u64> = (0..nt).map(|_| c.src.below(1 << 30)).collect();
            let res = par.unwrap()(&b, &seeds, steps);
            let mut all = Obs::new(b.start());
            for r in res {
                all.merge(&r?)?;
            }
            c.nontrivial = ra.n() >= 3 && steps >= 5;
        }
    }
    let Some(rb) = RFst::from_any(&b, MAXST)? else {
        fail!(format!("{}: size depends on access", what), "more than {} states where a fresh one has {}", MAXST, ra.n());
    };
    same(&format!("{} read in another order", what), &ra, &rb)?;
    let rc = RFst::from_any(&comp(&b)?, 4 * MAXST)?.unwrap_or(RFst::new(0));
    same(&format!("{} computed after partial reads", what), &ra, &rc)?;
    if let Some(e) = eager {
        let re = RFst::from_fst(e)?;
        same_lang(&format!("{} against the eager operation", what), &re, &ra, 4)?;
    }
    Ok(())
}

fn gen_v(c: &mut Ctx, labels: usize) -> (RFst<W>, V) {
    let k = Cfg { max_states: 5, max_out: 3, labels, eps: *c.pick(&[0usize, 15, 35]), acyclic: c.chance(1, 3), degenerate: c.chance(1, 8), ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let f = realize(c, &m);
    (m, f)
}

type Sm = SortedMatcher<W, V, Arc<V>>;
type Gm = GenericMatcher<W, V, Arc<V>>;
type Seq = SequenceComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Alt = AltSequenceComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Mat = MatchComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Nul = NullComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Tri = TrivialComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Nom = NoMatchComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Sm, Sm>;
type Cf<B, C> = ComposeFst<W, V, V, Arc<V>, Arc<V>, Sm, Sm, B, C>;
type SeqG = SequenceComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Gm, Gm>;

fn sorted(c: &mut Ctx) -> R<(Arc<V>, Arc<V>)> {
    let (_, mut f1) = gen_v(c, 3);
    let (_, mut f2) = gen_v(c, 3);
    tr_sort(&mut f1, OLabelCompare {});
    tr_sort(&mut f2, ILabelCompare {});
    know_sorted(&mut f1)?;
    know_sorted(&mut f2)?;
    Ok((Arc::new(f1), Arc::new(f2)))
}

fn operations(c: &mut Ctx, mode: Mode) -> R {
    match c.below(9) {
        0 => {
            let ((m1, f1), (m2, f2)) = (gen_v(c, 2), gen_v(c, 2));
            c.note(|| format!("lazy union of {} and {}", m1.show(), m2.show()));
            let mut e = f1.clone();
            union(&mut e, &f2)?;
            exercise(c, mode, Some(par), "union", &|| Ok(UnionFst::new(f1.clone(), f2.clone())?), &|f| Ok(f.compute()?), Some(&e))
        }
        1 => {
            let ((m1, f1), (m2, f2)) = (gen_v(c, 2), gen_v(c, 2));
            c.note(|| format!("lazy concat of {} and {}", m1.show(), m2.show()));
            let mut e = f1.clone();
            concat(&mut e, &f2)?;
            exercise(c, mode, Some(par), "concat", &|| Ok(ConcatFst::new(f1.clone(), f2.clone())?), &|f| Ok(f.compute()?), Some(&e))
        }
        2 => {
            let (m1, f1) = gen_v(c, 2);
            let plus = c.bool();
            let ct = || if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar };
            c.note(|| format!("lazy closure plus={} of {}", plus, m1.show()));
            let mut e = f1.clone();
            closure(&mut e, ct());
            exercise(c, mode, Some(par), "closure", &|| Ok(ClosureFst::new(f1.clone(), ct())?), &|f| Ok(f.compute()?), Some(&e))
        }
        3 => {
            let g = grammar::<W>(c, false);
            let list = g.list(c);
            let eps = c.bool();
            let root = g.labels[g.root];
            c.note(|| format!("lazy replace eps={} {}", eps, g.show()));
            let e: V = replace::<W, V, V, V>(list.clone(), root, eps)?;
            exercise(c, mode, Some(par), "replace", &|| Ok(ReplaceFst::<W, V, V>::new(list.clone(), root, eps)?), &|f| Ok(f.compute()?), Some(&e))
        }
        4 => {
            let (m1, f1) = gen_v(c, 2);
            c.note(|| format!("lazy rm_epsilon of {}", m1.show()));
            let mut e = f1.clone();
            rm_epsilon(&mut e)?;
            exercise(c, mode, None, "rm_epsilon", &|| Ok(RmEpsilonFst::<W, V, V>::new(f1.clone())?), &|f| Ok(f.compute()?), Some(&e))
        }
        5 => {
            type G = GallicWeightLeft<W>;
            let mut k = Cfg { max_states: 4, max_out: 2, labels: 2, ..Default::default() };
            k.degenerate = false;
            k.acyclic = c.bool();
            let big = std::mem::replace(&mut c.big, false);
            let m: RFst<crate::props::p05::GalL> = gen_rfst(c, &k);
            c.big = big;
            let f: VectorFst<G> = m.vector();
            c.note(|| format!("lazy factor_weight of {}", m.show()));
            let opts = || FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS);
            exercise(c, mode, Some(par), "factor_weight", &|| Ok(FactorWeightFst::<G, VectorFst<G>, VectorFst<G>, GallicFactorLeft<W>>::new(f.clone(), opts())?), &|f| Ok(f.compute()?), None)?;
            if !m.acyclic() {
                return Ok(());
            }
            let _: VectorFst<G> = factor_weight::<G, VectorFst<G>, VectorFst<G>, _, GallicFactorLeft<W>>(f.clone(), opts())?;
            Ok(())
        }
        _ => {
            let (f1, f2) = sorted(c)?;
            let (fb, cache) = (c.below(7), c.below(4));
            c.note(|| format!("lazy composition, filter {} cache {}: {} and {}", fb, cache, RFst::from_fst(&*f1).map_or("?".into(), |m| m.show()), RFst::from_fst(&*f2).map_or("?".into(), |m| m.show())));
            let e: V = compose::<W, V, V, V, _, _>(f1.clone(), f2.clone())?;
            // only these filters agree with the default one on every input
            let eager = if fb == 3 { None } else { Some(&e) };
            macro_rules! go {
                ($b:ty, $c:ty) => {
                    exercise(c, mode, Some(par), "composition", &|| Ok(Cf::<$b, $c>::new(f1.clone(), f2.clone())?), &|f| Ok(f.compute()?), eager)
                };
            }
            macro_rules! by_cache {
                ($b:ty) => {
                    match cache {
                        0 => go!($b, SimpleVecCache<W>),
                        1 => go!($b, SimpleHashMapCache<W>),
                        2 => go!($b, FirstCache<W, SimpleVecCache<W>>),
                        _ => go!($b, Arc<SimpleHashMapCache<W>>),
                    }
                };
            }
            match fb {
                0 => by_cache!(Seq),
                1 => by_cache!(Alt),
                2 => by_cache!(Mat),
                3 => by_cache!(Nul),
                4 => by_cache!(Tri),
                5 => by_cache!(Nom),
                _ => exercise(c, mode, Some(par), "composition", &|| Ok(ComposeFst::<W, V, V, Arc<V>, Arc<V>, Gm, Gm, SeqG>::new_auto(f1.clone(), f2.clone())?), &|f| Ok(f.compute()?), eager),
            }
        }
    }
}

// ---- user-defined operations and caches ----------------------------------------------------

#[derive(Debug)]
struct TableOp {
    start: Option<u32>,
    fin: Vec<Option<W>>,
    trs: Vec<Vec<Tr<W>>>,
}

impl TableOp {
    fn new(m: &RFst<W>) -> Self {
        TableOp { start: m.start.map(|s| s as u32), fin: m.fin.clone(), trs: m.trs.iter().map(|v| v.iter().map(|t| Tr::new(t.il, t.ol, t.w.clone(), t.n as u32)).collect()).collect() }
    }
}

impl FstOp<W> for TableOp {
    fn compute_start(&self) -> anyhow::Result<Option<u32>> {
        Ok(self.start)
    }
    fn compute_trs(&self, id: u32) -> anyhow::Result<TrsVec<W>> {
        Ok(TrsVec(Arc::new(self.trs[id as usize].clone())))
    }
    fn compute_final_weight(&self, id: u32) -> anyhow::Result<Option<W>> {
        Ok(self.fin[id as usize].clone())
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}

#[derive(Debug)]
struct TableOp2(TableOp);

impl FstOp2<W> for TableOp2 {
    fn compute_start(&self) -> anyhow::Result<Option<u32>> {
        self.0.compute_start()
    }
    fn compute_trs_and_final_weight(&self, id: u32) -> anyhow::Result<(TrsVec<W>, Option<W>)> {
        Ok((self.0.compute_trs(id)?, self.0.compute_final_weight(id)?))
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}

/// A cache that forgets: every k-th insertion of transitions or final weights is dropped, and
/// everything is dropped now and then.
#[derive(Debug)]
struct Forgetful {
    inner: SimpleVecCache<W>,
    known: Mutex<usize>,
    n: Mutex<usize>,
    k: usize,
}

impl Forgetful {
    fn new(k: usize) -> Self {
        Forgetful { inner: Default::default(), known: Mutex::new(0), n: Mutex::new(0), k }
    }
    fn tick(&self) -> bool {
        let mut n = self.n.lock().unwrap();
        *n += 1;
        if *n % 11 == 0 {
            self.inner.clear();
        }
        *n % self.k == 0
    }
    fn know(&self, s: u32) {
        let mut n = self.known.lock().unwrap();
        *n = (*n).max(s as usize + 1);
    }
}

impl FstCache<W> for Forgetful {
    fn get_start(&self) -> CacheStatus<Option<u32>> {
        self.inner.get_start()
    }
    fn insert_start(&self, id: Option<u32>) {
        if let Some(s) = id {
            self.know(s);
        }
        if !self.tick() {
            self.inner.insert_start(id)
        }
    }
    fn get_trs(&self, id: u32) -> CacheStatus<TrsVec<W>> {
        self.inner.get_trs(id)
    }
    fn insert_trs(&self, id: u32, trs: TrsVec<W>) {
        self.know(id);
        for t in trs.trs() {
            self.know(t.nextstate);
        }
        if !self.tick() {
            self.inner.insert_trs(id, trs)
        }
    }
    fn get_final_weight(&self, id: u32) -> CacheStatus<Option<W>> {
        self.inner.get_final_weight(id)
    }
    fn insert_final_weight(&self, id: u32, weight: Option<W>) {
        self.know(id);
        if !self.tick() {
            self.inner.insert_final_weight(id, weight)
        }
    }
    fn num_known_states(&self) -> usize {
        *self.known.lock().unwrap()
    }
    fn compute_num_known_trs(&self) -> usize {
        self.inner.compute_num_known_trs()
    }
    fn num_trs(&self, id: u32) -> Option<usize> {
        self.inner.num_trs(id)
    }
    fn num_input_epsilons(&self, id: u32) -> Option<usize> {
        self.inner.num_input_epsilons(id)
    }
    fn num_output_epsilons(&self, id: u32) -> Option<usize> {
        self.inner.num_output_epsilons(id)
    }
    fn len_trs(&self) -> usize {
        self.inner.len_trs()
    }
    fn len_final_weights(&self) -> usize {
        self.inner.len_final_weights()
    }
}

fn caches(c: &mut Ctx) -> R {
    let (m, _) = gen_v(c, 3);
    let (kind, two, forget) = (c.below(6), c.bool(), c.range(1, 4));
    c.note(|| format!("user-defined operation, cache {} two={} forget={}: {}", kind, two, forget, m.show()));
    // everything accessible, so the whole machine is what a reader sees
    let e: V = m.vector();
    macro_rules! go {
        ($mk:expr) => {
            if two {
                exercise(c, Mode::Order, None, "lazy machine (joint)", &|| Ok(LazyFst2::from_op_and_cache(TableOp2(TableOp::new(&m)), $mk, None, None)), &|f| Ok(f.compute()?), Some(&e))
            } else {
                exercise(c, Mode::Order, None, "lazy machine", &|| Ok(LazyFst::from_op_and_cache(TableOp::new(&m), $mk, None, None)), &|f| Ok(f.compute()?), Some(&e))
            }
        };
    }
    match kind {
        0 => go!(SimpleVecCache::<W>::default()),
        1 => go!(SimpleHashMapCache::<W>::default()),
        2 => go!(FirstCache::<W, SimpleVecCache<W>>::default()),
        3 => go!(FirstCache::<W, SimpleHashMapCache<W>>::default()),
        4 => go!(Arc::new(SimpleVecCache::<W>::default())),
        _ => go!(Forgetful::new(forget)),
    }
}

// ---- saved and restored --------------------------------------------------------------------

use crate::props::p10::T3;

type Tm = TrLookAheadMatcher<W, V, Arc<V>, Sm, T3>;
type TAl = AltSequenceComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Tm, Tm>;
type TLk = LookAheadComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Tm, Tm, TAl, SMatchOutput>;
type TPw = PushWeightsComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Tm, Tm, TLk, SMatchOutput>;
type TPl = PushLabelsComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, Tm, Tm, TPw, SMatchOutput>;

fn restart(c: &mut Ctx) -> R {
    let (f1, f2) = sorted(c)?;
    let (kind, cache) = (c.below(6), c.below(3));
    c.note(|| format!("composition saved and restored, filter {} cache {}: {} and {}", kind, cache, RFst::from_fst(&*f1).map_or("?".into(), |m| m.show()), RFst::from_fst(&*f2).map_or("?".into(), |m| m.show())));
    macro_rules! go {
        ($m:ty, $b:ty, $c:ty) => {{
            type Lz = ComposeFst<W, V, V, Arc<V>, Arc<V>, $m, $m, $b, $c>;
            let filt = || -> R<$b> { Ok(<$b>::new(f1.clone(), f2.clone(), None, None)?) };
            let fresh = Lz::new_with_options(f1.clone(), f2.clone(), ComposeFstOpOptions::new(None, None, filt()?, None))?;
            let Some(ra) = RFst::from_any(&fresh, MAXST)? else { return Ok(()) };
            let mut lz = Lz::new_with_options(f1.clone(), f2.clone(), ComposeFstOpOptions::new(None, None, filt()?, None))?;
            let mut o = None;
            let rounds = c.range(1, 3);
            let mut partial = false;
            for _ in 0..rounds {
                let steps = c.below(14);
                for _ in 0..steps {
                    let ob = o.get_or_insert_with(|| Obs::new(lz.start()));
                    let x = c.src.below(1 << 30);
                    query(&lz, ob, x)?;
                    partial = true;
                }
                let (p1, p2) = (c.scratch.join("cache"), c.scratch.join("state"));
                lz.write(&p1, &p2)?;
                let ca = <$c>::read(&p1)?;
                let st = SerializableOpState::read(&p2)?;
                lz = Lz::new_with_options_and_cache(f1.clone(), f2.clone(), ComposeFstOpOptions::new(None, None, filt()?, Some(st)), ca)?;
            }
            let mut ob = o.unwrap_or_else(|| Obs::new(lz.start()));
            for _ in 0..c.below(20) {
                let x = c.src.below(1 << 30);
                query(&lz, &mut ob, x)?;
            }
            let Some(rb) = RFst::from_any(&lz, MAXST)? else {
                fail!("size after restart", "more than {} states where a fresh one has {}", MAXST, ra.n());
            };
            same("composition after restart", &ra, &rb)?;
            c.nontrivial = partial && ra.n() >= 3;
        }};
    }
    macro_rules! by_cache {
        ($m:ty, $b:ty) => {
            match cache {
                0 => go!($m, $b, SimpleVecCache<W>),
                1 => go!($m, $b, SimpleHashMapCache<W>),
                _ => go!($m, $b, Arc<SimpleVecCache<W>>),
            }
        };
    }
    match kind {
        0 => by_cache!(Sm, Seq),
        1 => by_cache!(Sm, Mat),
        2 => by_cache!(Sm, Tri),
        3 => by_cache!(Tm, TLk),
        4 => by_cache!(Tm, TPw),
        _ => by_cache!(Tm, TPl),
    }
    Ok(())
}

// ---- operations over lazy operands ---------------------------------------------------------

fn nested(c: &mut Ctx) -> R {
    let (f1, f2) = sorted(c)?;
    let (m3, f3) = gen_v(c, 2);
    let op = c.below(7);
    c.note(|| format!("operation {} over a lazy composition of {} and {}; other operand {}", op, RFst::from_fst(&*f1).map_or("?".into(), |m| m.show()), RFst::from_fst(&*f2).map_or("?".into(), |m| m.show()), m3.show()));
    type Lz = Cf<Seq, SimpleVecCache<W>>;
    let mk = || -> R<Lz> { Ok(Lz::new(f1.clone(), f2.clone())?) };
    let lz = mk()?;
    let st: V = mk()?.compute()?;
    if st.num_states() > 25 {
        return Ok(());
    }
    let (got, exp): (RFst<W>, RFst<W>) = match op {
        0 | 1 => {
            let r: V = rustfst::algorithms::fst_convert_from_ref(&lz);
            (RFst::from_fst(&r)?, RFst::from_fst(&st)?)
        }
        2 | 3 => {
            let m = RFst::from_fst(&st)?;
            if !m.trim().acyclic() || !m.acyclic() {
                return Ok(());
            }
            let f = |v: Vec<FstPath<W>>| {
                let mut v: Vec<String> = v.iter().map(|p| format!("{:?} {:?} {}", p.ilabels, p.olabels, p.weight)).collect();
                v.sort();
                v
            };
            let (x, y) = (f(lz.paths_iter().collect()), f(st.paths_iter().collect()));
            ensure!(x == y, "paths of a lazy machine", "paths_iter gives {:?}, on the computed machine {:?}", x, y);
            (m.clone(), m)
        }
        4 | 5 => {
            let list = vec![(7u32, Arc::new(lz))];
            let l = ReplaceFst::<W, Lz, Arc<Lz>>::new(list, 7, true)?;
            let Some(r) = RFst::from_any(&l, 200)? else { return Ok(()) };
            (r, RFst::from_fst(&st)?)
        }
        _ => {
            // the lazy side of the outer composition has unknown sortedness; the other side is searched
            let mut g = f3.clone();
            tr_sort(&mut g, ILabelCompare {});
            know_sorted(&mut g)?;
            let g = Arc::new(g);
            type M1 = GenericMatcher<W, Lz, Arc<Lz>>;
            type B2 = SequenceComposeFilterBuilder<W, Lz, V, Arc<Lz>, Arc<V>, M1, Gm>;
            let l = ComposeFst::<W, Lz, V, Arc<Lz>, Arc<V>, M1, Gm, B2>::new(Arc::new(lz), g.clone())?;
            let Some(r) = RFst::from_any(&l, 200)? else { return Ok(()) };
            let e: V = ComposeFst::<W, V, V, Arc<V>, Arc<V>, Gm, Gm, SeqG>::new(Arc::new(st.clone()), g)?.compute()?;
            (r, RFst::from_fst(&e)?)
        }
    };
    same_lang(&format!("operation {} over a lazy operand", op), &exp, &got, 4)?;
    c.nontrivial = st.num_states() >= 3;
    Ok(())
}

/// The caches by themselves: a history of insertions, clones, clearings and reloads against a plain map.
trait Cch: FstCache<TropicalWeight> {
    fn dup(&self) -> Option<Box<dyn Cch>>;
    fn wipe(&self) -> bool;
    fn reload(&self, p: &std::path::Path) -> anyhow::Result<Option<Box<dyn Cch>>>;
}
macro_rules! cch {
    ($t:ty) => {
        impl Cch for $t {
            fn dup(&self) -> Option<Box<dyn Cch>> { Some(Box::new(self.clone())) }
            fn wipe(&self) -> bool { self.clear(); true }
            fn reload(&self, p: &std::path::Path) -> anyhow::Result<Option<Box<dyn Cch>>> {
                self.write(p)?;
                Ok(Some(Box::new(<$t>::read(p)?)))
            }
        }
    };
}
cch!(SimpleVecCache<TropicalWeight>);
cch!(SimpleHashMapCache<TropicalWeight>);
macro_rules! cch_plain {
    ($t:ty) => {
        impl Cch for $t {
            fn dup(&self) -> Option<Box<dyn Cch>> { None }
            fn wipe(&self) -> bool { false }
            fn reload(&self, _: &std::path::Path) -> anyhow::Result<Option<Box<dyn Cch>>> { Ok(None) }
        }
    };
}
cch_plain!(FirstCache<TropicalWeight, SimpleVecCache<TropicalWeight>>);
cch_plain!(FirstCache<TropicalWeight, SimpleHashMapCache<TropicalWeight>>);

#[derive(Clone, Default)]
struct CModel {
    start: Option<Option<u32>>,
    trs: BTreeMap<u32, Vec<Tr<TropicalWeight>>>,
    fin: BTreeMap<u32, Option<TropicalWeight>>,
}

fn cache_agrees(what: &str, x: &dyn Cch, m: &CModel) -> R {
    ensure!(x.get_start().into_option() == m.start, format!("cache: start after {}", what), "{:?} instead of {:?}", x.get_start(), m.start);
    for s in 0..9u32 {
        let t = x.get_trs(s).into_option().map(|t| t.trs().to_vec());
        ensure!(t.as_ref() == m.trs.get(&s), format!("cache: transitions after {}", what), "state {}: {:?} instead of {:?}", s, t, m.trs.get(&s));
        let n = |f: &dyn Fn(&Tr<TropicalWeight>) -> bool| m.trs.get(&s).map(|v| v.iter().filter(|t| f(t)).count());
        ensure!(x.num_trs(s) == n(&|_| true) && x.num_input_epsilons(s) == n(&|t| t.ilabel == 0) && x.num_output_epsilons(s) == n(&|t| t.olabel == 0), format!("cache: counts after {}", what), "state {}", s);
        let f = x.get_final_weight(s).into_option();
        ensure!(f.as_ref() == m.fin.get(&s), format!("cache: final weight after {}", what), "state {}: {:?} instead of {:?}", s, f, m.fin.get(&s));
    }
    for s in 0..9u32 {
        let exact = x.get_trs(s).into_option().map_or(true, |t| t.trs().iter().zip(&m.trs[&s]).all(|(a, b)| a.weight.same(&b.weight)));
        let f = x.get_final_weight(s).into_option().flatten();
        let exact = exact && f.map_or(true, |a| m.fin[&s].as_ref().map_or(false, |b| a.same(b)));
        ensure!(exact, format!("cache: weights after {}", what), "state {}", s);
    }
    ensure!(x.compute_num_known_trs() == m.trs.values().map(|v| v.len()).sum::<usize>(), format!("cache: number of transitions after {}", what), "");
    Ok(())
}

fn cache_history(c: &mut Ctx) -> R {
    c.fine = true;
    let mut all: Vec<(Box<dyn Cch>, CModel)> = vec![(
        match c.below(5) {
            0 | 1 => Box::<SimpleVecCache<TropicalWeight>>::default() as Box<dyn Cch>,
            2 | 3 => Box::<SimpleHashMapCache<TropicalWeight>>::default(),
            _ if c.bool() => Box::<FirstCache<TropicalWeight, SimpleVecCache<TropicalWeight>>>::default(),
            _ => Box::<FirstCache<TropicalWeight, SimpleHashMapCache<TropicalWeight>>>::default(),
        },
        CModel::default(),
    )];
    let n = c.below(24);
    c.nontrivial = n >= 10;
    let mut log = String::new();
    for _ in 0..n {
        let i = c.below(all.len());
        let mut other = None;
        let (x, m) = &mut all[i];
        let what;
        match c.below(12) {
            0 | 1 => {
                let s = c.chance(3, 4).then(|| c.below(6) as u32);
                x.insert_start(s);
                m.start = Some(s);
                what = format!("start {:?}", s);
            }
            2..=5 => {
                let s = c.below(7) as u32;
                let v: Vec<Tr<TropicalWeight>> = (0..c.below(4)).map(|_| Tr::new(c.below(3) as u32, c.below(3) as u32, TropicalWeight::gen(c), c.below(9) as u32)).collect();
                what = format!("transitions of {}: {:?}", s, v);
                x.insert_trs(s, TrsVec(Arc::new(v.clone())));
                m.trs.insert(s, v);
            }
            6..=8 => {
                let s = c.below(7) as u32;
                let w = c.bool().then(|| TropicalWeight::gen(c));
                what = format!("final weight of {}: {:?}", s, w);
                x.insert_final_weight(s, w.clone());
                m.fin.insert(s, w);
            }
            9 => {
                what = "clear".to_string();
                if x.wipe() {
                    *m = CModel::default();
                }
            }
            10 => {
                what = "clone".to_string();
                other = x.dup().map(|y| (y, m.clone()));
            }
            _ => {
                what = "reload".to_string();
                let p = c.scratch.join("cache");
                other = x.reload(&p)?.map(|y| (y, m.clone()));
            }
        }
        log += &format!("{}: {}; ", i, what);
        let kind = what.split(' ').next().unwrap().to_string();
        if let Some(o) = other {
            if all.len() < 3 {
                all.push(o);
            } else {
                all[2] = o;
            }
        }
        for (x, m) in &all {
            cache_agrees(&kind, x.as_ref(), m).map_err(|mut e| { e.msg = format!("{} [history: {}]", e.msg, log); e })?;
            // every state something was said about is known
            let k = m.start.flatten().into_iter().chain(m.trs.values().flatten().map(|t| t.nextstate)).chain(m.fin.keys().copied()).map(|s| s as usize + 1).max().unwrap_or(0);
            ensure!(x.num_known_states() >= k, "cache: a state it mentions is not known", "{} states known, {} mentioned [history: {}]", x.num_known_states(), k, log);
        }
    }
    c.note(|| log.clone());
    Ok(())
}
