//! Random edit histories applied in parallel to a VectorFst and to the plain model.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use rustfst::fst_properties::FstProperties as P;
use rustfst::prelude::*;
use std::sync::Arc;

pub struct Hist<W: Semiring> {
    pub f: VectorFst<W>,
    pub m: RFst<W>,
    pub isym: Option<Arc<SymbolTable>>,
    pub osym: Option<Arc<SymbolTable>>,
    pub snaps: Vec<(VectorFst<W>, RFst<W>)>,
    pub held: Vec<(TrsVec<W>, Vec<RTr<W>>)>,
    pub log: Vec<String>,
    pub dels: usize,
}

fn tr<W: Semiring>(t: &RTr<W>) -> Tr<W> {
    Tr::new(t.il, t.ol, t.w.clone(), t.n as StateId)
}

impl<W: TW> Hist<W> {
    pub fn new(m: RFst<W>) -> Self {
        Hist { f: m.vector(), m, isym: None, osym: None, snaps: vec![], held: vec![], log: vec![], dels: 0 }
    }
    /// the state argument of a call; sometimes one that does not exist
    fn st(&mut self, c: &mut Ctx, bad: bool) -> (usize, bool) {
        let n = self.m.n();
        if n == 0 || (bad && c.chance(1, 15)) {
            (n + *c.pick(&[0usize, 1, 7, 1000, 4_000_000_000usize - n]), false)
        } else {
            (c.below(n), true)
        }
    }
    fn rtr(&self, c: &mut Ctx, k: &Cfg) -> RTr<W> {
        let il = gen_label(c, k);
        let ol = if k.acceptor || c.bool() { il } else { gen_label(c, k) };
        RTr { il, ol, w: gen_weight(c, k), n: c.below(self.m.n().max(1)) }
    }
    fn expect(&self, op: &str, ok: bool, r: Result<(), anyhow::Error>) -> R {
        if ok {
            ensure!(r.is_ok(), format!("{}: refused a valid call", op), "{} on an existing state returned an error: {:?}", op, r);
        } else {
            ensure!(r.is_err(), format!("{}: accepted a state that does not exist", op), "{} on a state that does not exist returned Ok", op);
        }
        Ok(())
    }
    /// `props_safe`: only calls that promise to keep the stored properties right
    pub fn step(&mut self, c: &mut Ctx, k: &Cfg, props_safe: bool) -> R {
        let op = c.weighted(&[6, 2, 3, 5, 14, 10, 2, 3, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2]);
        match op {
            0 => {
                self.log.push("add_state".into());
                let id = self.f.add_state();
                ensure!(id as usize == self.m.n(), "add_state: wrong id", "add_state returned {} on a machine with {} states", id, self.m.n());
                self.m.fin.push(None);
                self.m.trs.push(vec![]);
            }
            1 => {
                let n = c.below(4);
                self.log.push(format!("add_states({})", n));
                self.f.add_states(n);
                for _ in 0..n {
                    self.m.fin.push(None);
                    self.m.trs.push(vec![]);
                }
            }
            2 => {
                let (s, ok) = self.st(c, true);
                if ok && c.chance(1, 4) {
                    self.log.push(format!("set_start_unchecked({})", s));
                    unsafe { self.f.set_start_unchecked(s as StateId) };
                } else {
                    self.log.push(format!("set_start({})", s));
                    let r = self.f.set_start(s as StateId);
                    self.expect("set_start", ok, r)?;
                }
                if ok {
                    self.m.start = Some(s);
                }
            }
            3 => {
                let (s, ok) = self.st(c, true);
                let w: W = gen_weight(c, k);
                if ok && c.chance(1, 4) {
                    self.log.push(format!("set_final_unchecked({},{})", s, w.show()));
                    unsafe { self.f.set_final_unchecked(s as StateId, w.clone()) };
                } else {
                    self.log.push(format!("set_final({},{})", s, w.show()));
                    let r = self.f.set_final(s as StateId, w.clone());
                    self.expect("set_final", ok, r)?;
                }
                if ok {
                    self.m.fin[s] = Some(w);
                }
            }
            4 => {
                if self.m.n() == 0 {
                    let r = self.f.add_tr(0, Tr::new(1, 1, W::one(), 0));
                    return self.expect("add_tr", false, r);
                }
                let (s, ok) = self.st(c, true);
                let t = self.rtr(c, k);
                self.log.push(format!("add_tr({},{}:{}/{}->{})", s, t.il, t.ol, t.w.show(), t.n));
                match c.below(4) {
                    0 if ok => unsafe { self.f.add_tr_unchecked(s as StateId, tr(&t)) },
                    1 if ok => unsafe { self.f.emplace_tr_unchecked(s as StateId, t.il, t.ol, t.w.clone(), t.n as StateId) },
                    2 => {
                        let r = self.f.emplace_tr(s as StateId, t.il, t.ol, t.w.clone(), t.n as StateId);
                        self.expect("emplace_tr", ok, r)?
                    }
                    _ => {
                        let r = self.f.add_tr(s as StateId, tr(&t));
                        self.expect("add_tr", ok, r)?
                    }
                }
                if ok {
                    self.m.trs[s].push(t);
                }
            }
            5 => {
                let (s, ok) = self.st(c, true);
                if !ok {
                    self.log.push(format!("tr_iter_mut({})", s));
                    let e = self.f.tr_iter_mut(s as StateId).is_err();
                    ensure!(e, "tr_iter_mut: accepted a state that does not exist", "tr_iter_mut({})", s);
                    return Ok(());
                }
                let len = self.m.trs[s].len();
                let nedit = c.range(1, 3);
                let mut edits = vec![];
                for _ in 0..nedit {
                    let idx = if len == 0 || c.chance(1, 12) { len + c.below(2) } else { c.below(len) };
                    edits.push((idx, c.below(6), self.rtr(c, k), c.chance(1, 3)));
                }
                self.log.push(format!("tr_iter_mut({}) {:?}", s, edits.iter().map(|e| (e.0, e.1, e.2.il, e.2.ol, e.2.w.show(), e.2.n)).collect::<Vec<_>>()));
                let mut it = self.f.tr_iter_mut(s as StateId)?;
                ensure!(it.len() == len && it.is_empty() == (len == 0), "tr_iter_mut: wrong length", "len {} expected {}", it.len(), len);
                for (idx, kind, t, unck) in edits {
                    let inb = idx < len;
                    if inb {
                        let g = it.get(idx).unwrap();
                        let mm = &self.m.trs[s][idx];
                        ensure!(*g == tr(mm) && it[idx] == tr(mm), "tr_iter_mut: get differs", "get({}) gives {:?}", idx, g);
                    } else {
                        ensure!(it.get(idx).is_none(), "tr_iter_mut: get out of range", "get({})", idx);
                    }
                    let unck = unck && inb;
                    let r = match kind {
                        0 => if unck { unsafe { it.set_ilabel_unchecked(idx, t.il) }; Ok(()) } else { it.set_ilabel(idx, t.il) },
                        1 => if unck { unsafe { it.set_olabel_unchecked(idx, t.ol) }; Ok(()) } else { it.set_olabel(idx, t.ol) },
                        2 => if unck { unsafe { it.set_weight_unchecked(idx, t.w.clone()) }; Ok(()) } else { it.set_weight(idx, t.w.clone()) },
                        3 => if unck { unsafe { it.set_nextstate_unchecked(idx, t.n as StateId) }; Ok(()) } else { it.set_nextstate(idx, t.n as StateId) },
                        4 if inb => { unsafe { it.set_labels_unchecked(idx, t.il, t.ol) }; Ok(()) }
                        _ => if unck { unsafe { it.set_tr_unchecked(idx, tr(&t)) }; Ok(()) } else { it.set_tr(idx, tr(&t)) },
                    };
                    ensure!(r.is_ok() == inb, "tr_iter_mut: bounds", "editing transition {} of {} gave {:?}", idx, len, r);
                    if inb {
                        let mm = &mut self.m.trs[s][idx];
                        match kind {
                            0 => mm.il = t.il,
                            1 => mm.ol = t.ol,
                            2 => mm.w = t.w,
                            3 => mm.n = t.n,
                            4 => { mm.il = t.il; mm.ol = t.ol; }
                            _ => *mm = t,
                        }
                    }
                }
            }
            6 => {
                let (s, ok) = self.st(c, true);
                self.log.push(format!("del_state({})", s));
                let r = self.f.del_state(s as StateId);
                self.expect("del_state", ok, r)?;
                if ok {
                    self.model_del(&[s]);
                }
            }
            7 => {
                let n = self.m.n();
                let mut set = vec![];
                let mut ok = true;
                for s in 0..n {
                    if c.chance(1, 3) {
                        set.push(s);
                    }
                }
                if c.bool() {
                    set.reverse();
                }
                if c.chance(1, 12) {
                    set.push(n + c.below(3));
                    ok = false;
                }
                self.log.push(format!("del_states({:?})", set));
                let r = self.f.del_states(set.iter().map(|x| *x as StateId).collect::<Vec<_>>());
                self.expect("del_states", ok, r)?;
                if ok {
                    self.model_del(&set);
                }
            }
            8 => {
                self.log.push("del_all_states".into());
                self.f.del_all_states();
                self.m = RFst::new(0);
            }
            9 => {
                let (s, ok) = self.st(c, false);
                if ok {
                    let idx: Vec<usize> = (0..self.m.trs[s].len()).filter(|_| c.bool()).collect();
                    self.log.push(format!("del_trs_id_sorted_unchecked({},{:?})", s, idx));
                    unsafe { self.f.del_trs_id_sorted_unchecked(s as StateId, &idx) };
                    for i in idx.into_iter().rev() {
                        self.m.trs[s].remove(i);
                    }
                }
            }
            10 => {
                let (s, ok) = self.st(c, false);
                if ok && !props_safe {
                    let m = c.below(4);
                    let v: Vec<_> = (0..m).map(|_| self.rtr(c, k)).collect();
                    self.log.push(format!("set_trs_unchecked({}, {} trs)", s, m));
                    unsafe { self.f.set_trs_unchecked(s as StateId, v.iter().map(tr).collect()) };
                    self.m.trs[s] = v;
                }
            }
            11 => {
                let (s, ok) = self.st(c, true);
                self.log.push(format!("delete_final_weight({})", s));
                if ok && c.bool() {
                    unsafe { self.f.delete_final_weight_unchecked(s as StateId) };
                } else {
                    let r = self.f.delete_final_weight(s as StateId);
                    self.expect("delete_final_weight", ok, r)?;
                }
                if ok {
                    self.m.fin[s] = None;
                }
            }
            12 => {
                let (s, ok) = self.st(c, true);
                self.log.push(format!("delete_trs({})", s));
                let r = self.f.delete_trs(s as StateId);
                self.expect("delete_trs", ok, r)?;
                if ok {
                    self.m.trs[s].clear();
                }
            }
            13 => {
                let (s, ok) = self.st(c, true);
                self.log.push(format!("pop_trs({})", s));
                let r = if ok && c.bool() { Ok(unsafe { self.f.pop_trs_unchecked(s as StateId) }) } else { self.f.pop_trs(s as StateId) };
                match r {
                    Ok(v) => {
                        ensure!(ok, "pop_trs: accepted a state that does not exist", "pop_trs({})", s);
                        let e: Vec<_> = self.m.trs[s].iter().map(tr).collect();
                        ensure!(v == e, "pop_trs: wrong transitions", "pop_trs({}) returned {:?}, expected {:?}", s, v, e);
                        self.m.trs[s].clear();
                    }
                    Err(e) => ensure!(!ok, "pop_trs: refused a valid call", "{:?}", e),
                }
            }
            14 => {
                let (s, ok) = self.st(c, true);
                self.log.push(format!("take_final_weight({})", s));
                let r = if ok && c.bool() { Ok(unsafe { self.f.take_final_weight_unchecked(s as StateId) }) } else { self.f.take_final_weight(s as StateId) };
                match r {
                    Ok(v) => {
                        ensure!(ok, "take_final_weight: accepted a state that does not exist", "({})", s);
                        ensure!(v == self.m.fin[s], "take_final_weight: wrong weight", "({}) returned {:?}", s, v);
                        self.m.fin[s] = None;
                    }
                    Err(e) => ensure!(!ok, "take_final_weight: refused a valid call", "{:?}", e),
                }
            }
            15 => {
                let (s, ok) = self.st(c, false);
                if ok && !props_safe {
                    self.log.push(format!("sort_trs_unchecked({}) by nextstate", s));
                    self.f.sort_trs_unchecked(s as StateId, |a, b| a.nextstate.cmp(&b.nextstate));
                    self.m.trs[s].sort_by_key(|t| t.n);
                }
            }
            16 => {
                let (s, ok) = self.st(c, false);
                if ok && !props_safe {
                    self.log.push(format!("unique_trs_unchecked({})", s));
                    unsafe { self.f.unique_trs_unchecked(s as StateId) };
                    let mut v: Vec<RTr<W>> = vec![];
                    for t in &self.m.trs[s] {
                        if !v.contains(t) {
                            v.push(t.clone());
                        }
                    }
                    // the call may reorder; adopt its order if it is a permutation of the expected set
                    self.adopt(s, v, "unique_trs_unchecked")?;
                }
            }
            17 => {
                let (s, ok) = self.st(c, false);
                if ok && !props_safe {
                    self.log.push(format!("sum_trs_unchecked({})", s));
                    unsafe { self.f.sum_trs_unchecked(s as StateId) };
                    let mut v: Vec<RTr<W>> = vec![];
                    for t in &self.m.trs[s] {
                        if let Some(o) = v.iter_mut().find(|o| o.il == t.il && o.ol == t.ol && o.n == t.n) {
                            o.w.plus_assign(&t.w)?;
                        } else {
                            v.push(t.clone());
                        }
                    }
                    self.adopt(s, v, "sum_trs_unchecked")?;
                }
            }
            18 => {
                self.log.push("clone".into());
                if self.snaps.len() < 3 {
                    self.snaps.push((self.f.clone(), self.m.clone()));
                } else {
                    let i = c.below(3);
                    // continue from the clone: the old original becomes the snapshot
                    let (f, m) = self.snaps.swap_remove(i);
                    let old = (std::mem::replace(&mut self.f, f), std::mem::replace(&mut self.m, m));
                    self.snaps.push(old);
                    self.isym = self.f.input_symbols().cloned();
                    self.osym = self.f.output_symbols().cloned();
                }
            }
            19 => {
                let (s, ok) = self.st(c, false);
                if ok {
                    self.log.push(format!("hold get_trs({})", s));
                    if self.held.len() < 5 {
                        self.held.push((self.f.get_trs(s as StateId)?, self.m.trs[s].clone()));
                    }
                }
            }
            20 => {
                let t = { let k = c.below(3); Arc::new(gen_symt(c, k)) };
                match c.below(4) {
                    0 => { self.f.set_input_symbols(t.clone()); self.isym = Some(t); self.log.push("set_input_symbols".into()) }
                    1 => { self.f.set_output_symbols(t.clone()); self.osym = Some(t); self.log.push("set_output_symbols".into()) }
                    2 => { let g = self.f.take_input_symbols(); ensure!(g == self.isym, "take_input_symbols", "differs"); self.isym = None; }
                    _ => { let g = self.f.take_output_symbols(); ensure!(g == self.osym, "take_output_symbols", "differs"); self.osym = None; }
                }
            }
            21 => {
                self.log.push("allocation hints".into());
                self.f.reserve_states(c.below(10));
                let (s, ok) = self.st(c, true);
                let r = self.f.reserve_trs(s as StateId, c.below(10));
                self.expect("reserve_trs", ok, r)?;
                if c.bool() { self.f.shrink_to_fit(); }
                self.f.shrink_to_fit_states();
                let r = self.f.shrink_to_fit_trs(s as StateId);
                self.expect("shrink_to_fit_trs", ok, r)?;
                ensure!(self.f.states_capacity() >= self.m.n(), "states_capacity", "too small");
            }
            _ => {
                let all = P::all();
                let mask = if c.bool() { all } else { P::from_bits_truncate(all.bits() & (c.below(1 << 30) as u64 * 0x1_0003)) };
                self.log.push(format!("compute_and_update_properties({:#x})", mask.bits()));
                self.f.compute_and_update_properties(mask)?;
            }
        }
        Ok(())
    }
    fn adopt(&mut self, s: usize, exp: Vec<RTr<W>>, what: &str) -> R {
        let got: Vec<RTr<W>> = self.f.get_trs(s as StateId)?.trs().iter().map(|t| RTr { il: t.ilabel, ol: t.olabel, w: t.weight.clone(), n: t.nextstate as usize }).collect();
        let mut rest = exp.clone();
        for t in &got {
            match rest.iter().position(|x| x.il == t.il && x.ol == t.ol && x.n == t.n && x.w.close(&t.w)) {
                Some(i) => { rest.remove(i); }
                None => fail!(format!("{}: wrong transitions", what), "state {}: unexpected transition {:?}; expected set {:?}", s, t, exp),
            }
        }
        ensure!(rest.is_empty(), format!("{}: wrong transitions", what), "state {}: missing {:?}", s, rest);
        self.m.trs[s] = got;
        Ok(())
    }
    fn model_del(&mut self, set: &[usize]) {
        if !set.is_empty() {
            self.dels += 1;
        }
        let n = self.m.n();
        let mut map = vec![usize::MAX; n];
        let mut k = 0;
        for s in 0..n {
            if !set.contains(&s) {
                map[s] = k;
                k += 1;
            }
        }
        let mut r = RFst::new(k);
        for s in 0..n {
            if map[s] != usize::MAX {
                r.fin[map[s]] = self.m.fin[s].clone();
                r.trs[map[s]] = self.m.trs[s].iter().filter(|t| map[t.n] != usize::MAX).map(|t| RTr { n: map[t.n], ..t.clone() }).collect();
            }
        }
        r.start = self.m.start.and_then(|s| if map[s] == usize::MAX { None } else { Some(map[s]) });
        self.m = r;
    }
    pub fn show(&self) -> String {
        format!("<{}> {}", W::NAME, self.log.join(", "))
    }
}

/// Every read accessor of an expanded FST agrees with the model.
pub fn agrees<W: TW, F: ExpandedFst<W>>(what: &str, f: &F, m: &RFst<W>) -> R {
    let n = m.n();
    macro_rules! chk { ($c:expr, $a:expr, $($x:tt)*) => { ensure!($c, format!("{}: {} differs from the model", what, $a), $($x)*) } }
    chk!(f.num_states() == n, "num_states", "num_states {} expected {}", f.num_states(), n);
    chk!(f.start().map(|x| x as usize) == m.start, "start", "start {:?} expected {:?}", f.start(), m.start);
    chk!(f.states_iter().map(|x| x as usize).collect::<Vec<_>>() == (0..n).collect::<Vec<_>>(), "states_iter", "states_iter");
    chk!(f.states_range() == (0..n as StateId), "states_range", "states_range");
    for s in 0..n {
        let id = s as StateId;
        let exp: Vec<Tr<W>> = m.trs[s].iter().map(tr).collect();
        let got = f.get_trs(id)?;
        chk!(got.trs() == &exp[..], "transitions", "state {}: {:?} expected {:?}", s, got.trs(), exp);
        chk!(got.trs().iter().zip(&exp).all(|(a, b)| a.weight.same(&b.weight)), "transition weights (exactly)", "state {}: {:?} expected {:?}", s, got.trs(), exp);
        chk!(f.final_weight(id)?.as_ref().map_or(true, |a| m.fin[s].as_ref().map_or(true, |b| a.same(b))), "final weight (exactly)", "state {}: {:?} expected {:?}", s, f.final_weight(id)?, m.fin[s]);
        chk!(got.to_trs_vec().trs() == &exp[..], "to_trs_vec", "state {}: to_trs_vec {:?} expected {:?}", s, got.to_trs_vec().trs(), exp);
        chk!(got.shallow_clone().trs() == &exp[..], "shallow_clone", "state {}", s);
        chk!(unsafe { f.get_trs_unchecked(id) }.trs() == &exp[..], "get_trs_unchecked", "state {}", s);
        chk!(f.num_trs(id)? == exp.len(), "num_trs", "state {}: {} expected {}", s, f.num_trs(id)?, exp.len());
        chk!(unsafe { f.num_trs_unchecked(id) } == exp.len(), "num_trs_unchecked", "state {}", s);
        chk!(f.final_weight(id)? == m.fin[s], "final_weight", "state {}: {:?} expected {:?}", s, f.final_weight(id)?, m.fin[s]);
        chk!(unsafe { f.final_weight_unchecked(id) } == m.fin[s], "final_weight_unchecked", "state {}", s);
        let nz = m.fin[s].as_ref().map_or(false, |w| !w.is_zero());
        chk!(f.is_final(id)? == nz, "is_final", "state {}", s);
        if nz == m.fin[s].is_some() {
            chk!(unsafe { f.is_final_unchecked(id) } == nz, "is_final_unchecked", "state {}", s);
        }
        chk!(f.is_start(id) == (m.start == Some(s)), "is_start", "state {}", s);
        let ie = m.trs[s].iter().filter(|t| t.il == 0).count();
        let oe = m.trs[s].iter().filter(|t| t.ol == 0).count();
        chk!(f.num_input_epsilons(id)? == ie, "num_input_epsilons", "state {}: {} expected {}", s, f.num_input_epsilons(id)?, ie);
        chk!(f.num_output_epsilons(id)? == oe, "num_output_epsilons", "state {}: {} expected {}", s, f.num_output_epsilons(id)?, oe);
    }
    let fi: Vec<usize> = f.final_states_iter().map(|x| x as usize).collect();
    for s in 0..n {
        match &m.fin[s] {
            None => chk!(!fi.contains(&s), "final_states_iter", "lists {} which is not final", s),
            Some(w) if !w.is_zero() => chk!(fi.iter().filter(|x| **x == s).count() == 1, "final_states_iter", "lists {} not once", s),
            _ => {}
        }
    }
    chk!(fi.iter().all(|s| *s < n), "final_states_iter", "lists a state that does not exist");
    let mut cnt = 0;
    for d in f.fst_iter() {
        let s = d.state_id as usize;
        chk!(s == cnt && s < n, "fst_iter", "state order");
        let exp: Vec<Tr<W>> = m.trs[s].iter().map(tr).collect();
        chk!(d.trs.trs() == &exp[..] && d.num_trs == exp.len() && d.final_weight == m.fin[s], "fst_iter", "state {}", s);
        cnt += 1;
    }
    chk!(cnt == n, "fst_iter", "yields {} states", cnt);
    let mut cnt = 0;
    for d in f.clone().fst_into_iter() {
        let s = d.state_id as usize;
        chk!(s == cnt && s < n, "fst_into_iter", "state order");
        let exp: Vec<Tr<W>> = m.trs[s].iter().map(tr).collect();
        let got: Vec<Tr<W>> = d.trs.collect();
        chk!(got == exp && d.num_trs == exp.len() && d.final_weight == m.fin[s], "fst_into_iter", "state {}", s);
        cnt += 1;
    }
    chk!(cnt == n, "fst_into_iter", "yields {} states", cnt);
    for bad in [n, n + 1, n + 1000] {
        let id = bad as StateId;
        chk!(f.get_trs(id).is_err(), "get_trs(missing state)", "get_trs({}) is Ok", bad);
        chk!(f.final_weight(id).is_err(), "final_weight(missing state)", "final_weight({}) is Ok", bad);
        chk!(f.is_final(id).is_err(), "is_final(missing state)", "is_final({}) is Ok", bad);
        chk!(f.num_trs(id).is_err(), "num_trs(missing state)", "num_trs({}) is Ok", bad);
        chk!(f.num_input_epsilons(id).is_err(), "num_input_epsilons(missing state)", "({}) is Ok", bad);
        chk!(f.num_output_epsilons(id).is_err(), "num_output_epsilons(missing state)", "({}) is Ok", bad);
    }
    Ok(())
}
