use crate::bprops::*;
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::algorithms::queues::*;
use rustfst::algorithms::tr_filters::*;
use rustfst::algorithms::{Queue, QueueType};
use rustfst::prelude::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;

pub fn prop() -> Prop {
    let rule = "at least 4 states dequeued, the queue emptied and refilled or cleared at least once";
    Prop {
        id: "C30",
        subs: vec![
            Sub { name: "fifo_lifo", rule, quick: 600_000, thorough: 6_000_000, f: |c| simple(c, 0) },
            Sub { name: "state_order", rule, quick: 600_000, thorough: 6_000_000, f: |c| simple(c, 1) },
            Sub { name: "top_order", rule, quick: 600_000, thorough: 6_000_000, f: |c| simple(c, 2) },
            Sub { name: "shortest_first", rule, quick: 600_000, thorough: 6_000_000, f: |c| simple(c, 3) },
            Sub { name: "scc", rule, quick: 600_000, thorough: 6_000_000, f: |c| simple(c, 4) },
            Sub { name: "auto", rule, quick: 600_000, thorough: 6_000_000, f: auto },
        ],
    }
}

/// which enqueued elements may come out next
type Next = Box<dyn Fn(&[StateId]) -> Vec<StateId>>;

struct Sut {
    q: Box<dyn Queue>,
    /// enqueuing an element already there has no effect
    set: bool,
    /// the caller never enqueues an element that is already there
    once: bool,
    next: Next,
    n: usize,
    name: String,
    weights: Option<Rc<RefCell<Vec<u32>>>>,
    ty: QueueType,
}

fn history(c: &mut Ctx, mut s: Sut) -> R {
    let n = c.range(1, 40);
    let mut model: Vec<StateId> = vec![];
    let mut log: Vec<String> = vec![];
    let (mut deq, mut empties, mut clears) = (0, 0, 0);
    let mut go = || -> R {
        ensure!(s.q.queue_type() == s.ty, format!("{}: wrong queue type", s.name), "unexpected queue_type");
        for _ in 0..n {
            match c.weighted(&[6, 5, 1, 1, 1]) {
                0 => {
                    let x = c.below(s.n) as StateId;
                    let there = model.contains(&x);
                    if there && s.once {
                        log.push(format!("update {}", x));
                        if let Some(w) = &s.weights {
                            let v = c.below(6) as u32;
                            w.borrow_mut()[x as usize] = v;
                        }
                        s.q.update(x);
                        continue;
                    }
                    log.push(format!("enqueue {}", x));
                    s.q.enqueue(x);
                    if !(s.set && there) {
                        model.push(x);
                    }
                }
                1 => {
                    let ok = (s.next)(&model);
                    let d = s.q.dequeue();
                    log.push(format!("dequeue -> {:?}", d));
                    match d {
                        None => ensure!(model.is_empty(), format!("{}: dequeue returned nothing from a non-empty queue", s.name), "holds {:?}", model),
                        Some(x) => {
                            ensure!(model.contains(&x), format!("{}: returned a state that is not in the queue", s.name), "{} returned, queue holds {:?}", x, model);
                            ensure!(ok.contains(&x), format!("{}: wrong order", s.name), "{} returned, expected one of {:?}", x, ok);
                            // remove the occurrence the discipline designates
                            let i = if s.name == "lifo" { model.iter().rposition(|y| *y == x) } else { model.iter().position(|y| *y == x) };
                            model.remove(i.unwrap());
                            deq += 1;
                            if model.is_empty() {
                                empties += 1;
                            }
                        }
                    }
                }
                2 => {
                    let ok = (s.next)(&model);
                    let h = s.q.head();
                    log.push(format!("head -> {:?}", h));
                    match h {
                        None => ensure!(model.is_empty(), format!("{}: head of a non-empty queue is nothing", s.name), "holds {:?}", model),
                        Some(x) => ensure!(ok.contains(&x), format!("{}: head is not the next state", s.name), "head {} but next is one of {:?}", x, ok),
                    }
                }
                3 => {
                    if !model.is_empty() {
                        let x = *c.pick(&model);
                        log.push(format!("update {}", x));
                        if let Some(w) = &s.weights {
                            let v = c.below(6) as u32;
                            w.borrow_mut()[x as usize] = v;
                        }
                        s.q.update(x);
                    }
                }
                _ => {
                    if c.chance(1, 3) {
                        log.push("clear".into());
                        s.q.clear();
                        model.clear();
                        clears += 1;
                    }
                }
            }
            ensure!(s.q.is_empty() == model.is_empty(), format!("{}: wrong is_empty", s.name), "is_empty {} but it holds {:?}", s.q.is_empty(), model);
        }
        // everything that went in comes out
        while !model.is_empty() {
            let ok = (s.next)(&model);
            let d = s.q.dequeue();
            log.push(format!("drain -> {:?}", d));
            let Some(x) = d else {
                fail!(format!("{}: state lost", s.name), "{:?} never returned", model);
            };
            ensure!(ok.contains(&x), format!("{}: wrong order", s.name), "{} returned, expected one of {:?}", x, ok);
            let i = if s.name == "lifo" { model.iter().rposition(|y| *y == x) } else { model.iter().position(|y| *y == x) };
            model.remove(i.unwrap());
        }
        ensure!(s.q.is_empty(), format!("{}: wrong is_empty", s.name), "not empty after draining");
        ensure!(s.q.dequeue().is_none(), format!("{}: state invented", s.name), "an empty queue returned a state");
        Ok(())
    };
    let r = go();
    c.note(|| format!("{}: {}", s.name, log.join(", ")));
    c.nontrivial = deq >= 4 && (empties > 0 || clears > 0);
    r
}

fn simple(c: &mut Ctx, kind: usize) -> R {
    let n = c.range(1, 8);
    let sut = match kind {
        0 => match c.below(3) {
            0 => Sut { q: Box::<FifoQueue>::default(), set: false, once: false, next: Box::new(|m| m.iter().take(1).cloned().collect()), n, name: "fifo".into(), weights: None, ty: QueueType::FifoQueue },
            1 => Sut { q: Box::<TrivialQueue>::default(), set: true, once: false, next: Box::new(|m| m.iter().take(1).cloned().collect()), n: 1, name: "trivial".into(), weights: None, ty: QueueType::TrivialQueue },
            _ => Sut { q: Box::<LifoQueue>::default(), set: false, once: false, next: Box::new(|m| m.iter().rev().take(1).cloned().collect()), n, name: "lifo".into(), weights: None, ty: QueueType::LifoQueue },
        },
        1 => Sut { q: Box::<StateOrderQueue>::default(), set: true, once: false, next: Box::new(|m| m.iter().min().cloned().into_iter().collect()), n, name: "state_order".into(), weights: None, ty: QueueType::StateOrderQueue },
        2 => {
            if c.bool() {
                let mut order: Vec<StateId> = (0..n as StateId).collect();
                for i in (1..n).rev() {
                    let j = c.below(i + 1);
                    order.swap(i, j);
                }
                c.note(|| format!("order {:?}", order));
                let o = order.clone();
                Sut { q: Box::new(TopOrderQueue::from_precomputed_order(order)), set: true, once: false, next: Box::new(move |m| m.iter().min_by_key(|s| o[**s as usize]).cloned().into_iter().collect()), n, name: "top_order".into(), weights: None, ty: QueueType::TopOrderQueue }
            } else {
                let k = Cfg { max_states: 7, max_out: 3, labels: 2, eps: 30, acyclic: true, degenerate: false, ..Default::default() };
                let m: RFst<TropicalWeight> = gen_rfst(c, &k);
                c.note(|| m.show());
                let f = m.vector();
                let eps = c.bool();
                let q = if eps { TopOrderQueue::new(&f, &EpsilonTrFilter {}) } else { TopOrderQueue::new(&f, &AnyTrFilter {}) };
                let mut e = m.clone();
                if eps {
                    for v in e.trs.iter_mut() {
                        v.retain(|t| t.il == 0 && t.ol == 0);
                    }
                }
                let r = reach_all(&e);
                Sut { q: Box::new(q), set: true, once: false, next: Box::new(move |m| sources(&r, m)), n: e.n(), name: "top_order".into(), weights: None, ty: QueueType::TopOrderQueue }
            }
        }
        3 => {
            let w: Vec<u32> = (0..n).map(|_| c.below(6) as u32).collect();
            c.note(|| format!("weights {:?}", w));
            let best = |w: &Vec<u32>, m: &[StateId]| {
                let b = m.iter().map(|s| w[*s as usize]).min();
                m.iter().filter(|s| Some(w[**s as usize]) == b).cloned().collect::<Vec<_>>()
            };
            if c.bool() {
                let q = NaturalShortestFirstQueue::new(w.iter().map(|x| TropicalWeight::new(*x as f32)).collect());
                Sut { q: Box::new(q), set: false, once: true, next: Box::new(move |m| best(&w, m)), n, name: "natural_shortest_first".into(), weights: None, ty: QueueType::ShortestFirstQueue }
            } else {
                // caller-supplied order over weights that change; the heap yields the greatest element
                let sh = Rc::new(RefCell::new(w));
                let s2 = sh.clone();
                let q = ShortestFirstQueue::new(move |a: &StateId, b: &StateId| -> Ordering {
                    let w = s2.borrow();
                    w[*b as usize].cmp(&w[*a as usize])
                });
                let s3 = sh.clone();
                Sut { q: Box::new(q), set: false, once: true, next: Box::new(move |m| best(&s3.borrow(), m)), n, name: "shortest_first".into(), weights: Some(sh), ty: QueueType::ShortestFirstQueue }
            }
        }
        _ => {
            let ns = c.range(1, 4);
            let n = n.max(ns);
            let sccs: Vec<StateId> = (0..n).map(|i| if i < ns { i as StateId } else { c.below(ns) as StateId }).collect();
            let mut qs: Vec<Box<dyn Queue>> = vec![];
            let mut disc = vec![];
            for i in 0..ns {
                let size = sccs.iter().filter(|s| **s == i as StateId).count();
                let k = if size == 1 { c.below(4) } else { 1 + c.below(3) };
                disc.push(k);
                qs.push(match k {
                    0 => Box::<TrivialQueue>::default(),
                    1 => Box::<FifoQueue>::default(),
                    2 => Box::<LifoQueue>::default(),
                    _ => Box::<StateOrderQueue>::default(),
                });
            }
            c.note(|| format!("components {:?} disciplines {:?}", sccs, disc));
            let sc = sccs.clone();
            Sut {
                q: Box::new(SccQueue::new(qs, sccs)),
                set: false,
                once: true,
                next: Box::new(move |m| {
                    let Some(f) = m.iter().map(|s| sc[*s as usize]).min() else { return vec![] };
                    let v: Vec<StateId> = m.iter().filter(|s| sc[**s as usize] == f).cloned().collect();
                    match disc[f as usize] {
                        0 | 1 => v.into_iter().take(1).collect(),
                        2 => v.into_iter().rev().take(1).collect(),
                        _ => v.into_iter().min().into_iter().collect(),
                    }
                }),
                n,
                name: "scc".into(),
                weights: None,
                ty: QueueType::SccQueue,
            }
        }
    };
    history(c, sut)
}

/// elements of m that no other element of m strictly precedes
fn sources(r: &[Vec<bool>], m: &[StateId]) -> Vec<StateId> {
    m.iter().filter(|s| !m.iter().any(|t| t != *s && r[*t as usize][**s as usize])).cloned().collect()
}

fn auto(c: &mut Ctx) -> R {
    if c.chance(1, 4) {
        auto_w::<LogWeight>(c)
    } else {
        auto_w::<TropicalWeight>(c)
    }
}

fn auto_w<W: TW>(c: &mut Ctx) -> R {
    let k = Cfg { max_states: 7, max_out: 3, labels: 2, eps: 30, acyclic: c.bool(), unweighted: c.chance(1, 4), degenerate: false, ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let f = realize(c, &m);
    let eps = c.bool();
    let dist: Option<Vec<W>> = if c.bool() { Some((0..m.n()).map(|_| W::gen(c)).collect()) } else { None };
    c.note(|| format!("{} epsilon filter {} distances {}", m.show(), eps, dist.is_some()));
    let q = if eps { AutoQueue::new(&f, dist.as_ref(), &EpsilonTrFilter {})? } else { AutoQueue::new(&f, dist.as_ref(), &AnyTrFilter {})? };
    let mut e = m.clone();
    if eps {
        for v in e.trs.iter_mut() {
            v.retain(|t| t.il == 0 && t.ol == 0);
        }
    }
    use rustfst::fst_properties::FstProperties as P;
    let topo = f.properties().intersects(P::ACYCLIC | P::TOP_SORTED);
    let r = reach_all(&e);
    let next: Next = if topo { Box::new(move |m| sources(&r, m)) } else { Box::new(|m| m.to_vec()) };
    history(c, Sut { q: Box::new(q), set: false, once: true, next, n: m.n(), name: "auto".into(), weights: None, ty: QueueType::AutoQueue })
}
