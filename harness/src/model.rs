//! Reference model: a plain weighted automaton and its (bounded) weighted relation, computed by
//! brute force and independently of the library's algorithms (only the semiring operations and
//! the elementary accessors are shared; those have checks of their own).
use crate::ctx::*;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct RTr<W> {
    pub il: u32,
    pub ol: u32,
    pub w: W,
    pub n: usize,
}

#[derive(Clone, Debug)]
pub struct RFst<W> {
    pub start: Option<usize>,
    pub fin: Vec<Option<W>>,
    pub trs: Vec<Vec<RTr<W>>>,
}

pub type Str = Vec<u32>;
pub type Lang<W> = BTreeMap<(Str, Str), W>;

/// Weight types the checks are instantiated with.
pub trait TW: Semiring {
    const NAME: &'static str;
    /// a ⊕ a = a
    const IDEMP: bool;
    const COMM: bool = true;
    fn gen(c: &mut Ctx) -> Self;
    /// weights this small are not compared
    fn negligible(&self) -> bool {
        false
    }
    /// contributions this small are ignored when summing infinitely many paths
    fn prune(&self) -> bool {
        false
    }
    /// product, None when it leaves the range the type can represent
    fn mul(&self, o: &Self) -> Option<Self> {
        self.times(o).ok()
    }
    fn sum(&self, o: &Self) -> Option<Self> {
        self.plus(o).ok()
    }
    /// exactly zero (`is_zero` is approximate for some types)
    fn nil(&self) -> bool {
        self.is_zero()
    }
    fn close(&self, o: &Self) -> bool {
        self == o
    }
    /// equal without any tolerance
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn show(&self) -> String {
        format!("{:?}", self.value())
    }
    /// the weight times the (invertible) weight that `d` stands for, where there are such weights
    fn shift(&self, _d: f32) -> Self {
        self.clone()
    }
}

fn float(c: &mut Ctx) -> f32 {
    if c.fine {
        // never within the tolerance of zero or one, so that nothing is taken for them
        return match if c.wild { c.below(12) } else { 3 } {
            0 => (1 + c.below(50)) as f32 / 3.0,
            1 => (1 + c.below(50)) as f32 * 12345.679,
            2 => (1 + c.below(9)) as f32 * 1.0e37,
            _ => (1 + c.below(12)) as f32 / 4.0 + c.below(8) as f32 / 16384.0,
        };
    }
    c.below(17) as f32 / 4.0
}

impl TW for TropicalWeight {
    const NAME: &'static str = "tropical";
    const IDEMP: bool = true;
    fn gen(c: &mut Ctx) -> Self {
        TropicalWeight::new(float(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.value().to_bits() == o.value().to_bits()
    }
    fn close(&self, o: &Self) -> bool {
        // sums of the generated weights are exact
        self.value() == o.value()
    }
    fn shift(&self, d: f32) -> Self {
        TropicalWeight::new(self.value() + d)
    }
}
impl TW for LogWeight {
    const NAME: &'static str = "log";
    const IDEMP: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        LogWeight::new(float(c))
    }
    fn same(&self, o: &Self) -> bool {
        self.value().to_bits() == o.value().to_bits()
    }
    fn negligible(&self) -> bool {
        *self.value() > 14.0
    }
    fn prune(&self) -> bool {
        *self.value() > 30.0
    }
    fn nil(&self) -> bool {
        *self.value() == f32::INFINITY
    }
    fn close(&self, o: &Self) -> bool {
        let (a, b) = (*self.value(), *o.value());
        a == b || (a - b).abs() < 0.02
    }
}
impl TW for ProbabilityWeight {
    const NAME: &'static str = "probability";
    const IDEMP: bool = false;
    fn same(&self, o: &Self) -> bool {
        self.value().to_bits() == o.value().to_bits()
    }
    fn gen(c: &mut Ctx) -> Self {
        if c.fine {
            return ProbabilityWeight::new((1 + c.below(7)) as f32 / 8.0 + c.below(8) as f32 / 16384.0);
        }
        let k = c.below(8);
        ProbabilityWeight::new(if k == 0 { 1.0 } else { k as f32 / 8.0 })
    }
    fn negligible(&self) -> bool {
        *self.value() < 0.005
    }
    fn prune(&self) -> bool {
        *self.value() < 1e-12
    }
    fn nil(&self) -> bool {
        *self.value() == 0.0
    }
    fn close(&self, o: &Self) -> bool {
        let (a, b) = (*self.value(), *o.value());
        (a - b).abs() <= 0.01 * (1.0f32).max(a.abs())
    }
}
impl TW for IntegerWeight {
    const NAME: &'static str = "integer";
    const IDEMP: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        IntegerWeight::new(1 + c.below(3) as i32)
    }
    fn mul(&self, o: &Self) -> Option<Self> {
        self.value().checked_mul(*o.value()).filter(|x| *x < 1 << 30).map(IntegerWeight::new)
    }
    fn sum(&self, o: &Self) -> Option<Self> {
        self.value().checked_add(*o.value()).filter(|x| *x < 1 << 30).map(IntegerWeight::new)
    }
}
impl TW for BooleanWeight {
    const NAME: &'static str = "boolean";
    const IDEMP: bool = true;
    fn gen(_c: &mut Ctx) -> Self {
        BooleanWeight::one()
    }
}
pub type PairW = ProductWeight<TropicalWeight, TropicalWeight>;
impl TW for PairW {
    const NAME: &'static str = "product<tropical,tropical>";
    const IDEMP: bool = true;
    fn gen(c: &mut Ctx) -> Self {
        ProductWeight::new((TropicalWeight::gen(c), TropicalWeight::gen(c)))
    }
}
impl TW for StringWeightLeft {
    const NAME: &'static str = "string-left";
    const IDEMP: bool = true;
    const COMM: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        let n = if c.chance(1, 10) { c.below(9) } else { c.below(3) };
        let v: Vec<u32> = (0..n).map(|_| 1 + c.below(2) as u32).collect();
        v.into()
    }
}

impl<W: Semiring> RFst<W> {
    pub fn new(n: usize) -> Self {
        RFst {
            start: None,
            fin: vec![None; n],
            trs: vec![vec![]; n],
        }
    }
    pub fn n(&self) -> usize {
        self.trs.len()
    }
    pub fn ntr(&self) -> usize {
        self.trs.iter().map(|t| t.len()).sum()
    }
    pub fn from_fst<F: ExpandedFst<W>>(f: &F) -> R<Self> {
        let n = f.num_states();
        let mut r = RFst::new(n);
        r.start = f.start().map(|x| x as usize);
        for s in 0..n {
            r.fin[s] = f.final_weight(s as StateId)?;
            for t in f.get_trs(s as StateId)?.trs() {
                r.trs[s].push(RTr {
                    il: t.ilabel,
                    ol: t.olabel,
                    w: t.weight.clone(),
                    n: t.nextstate as usize,
                });
            }
        }
        r.validate()?;
        Ok(r)
    }
    /// Every start / next state must exist.
    pub fn validate(&self) -> R {
        let n = self.n();
        if let Some(s) = self.start {
            ensure!(s < n, "dangling-start", "start state {} of a machine with {} states", s, n);
        }
        for (s, v) in self.trs.iter().enumerate() {
            for t in v {
                ensure!(t.n < n, "dangling-transition", "state {} has a transition to {}, machine has {} states", s, t.n, n);
            }
        }
        Ok(())
    }
    /// Reads a (possibly lazy) machine from its start state, numbering states by discovery.
    pub fn from_any<F: Fst<W>>(f: &F, max: usize) -> R<Option<Self>> {
        let mut r = RFst::new(0);
        let Some(s0) = f.start() else {
            return Ok(Some(r));
        };
        let mut ids: BTreeMap<StateId, usize> = BTreeMap::new();
        let mut q = VecDeque::new();
        ids.insert(s0, 0);
        r.fin.push(None);
        r.trs.push(vec![]);
        r.start = Some(0);
        q.push_back(s0);
        while let Some(s) = q.pop_front() {
            let i = ids[&s];
            r.fin[i] = f.final_weight(s)?;
            let mut v = vec![];
            for t in f.get_trs(s)?.trs() {
                let k = ids.len();
                let j = *ids.entry(t.nextstate).or_insert(k);
                if j == k {
                    if k >= max {
                        return Ok(None);
                    }
                    r.fin.push(None);
                    r.trs.push(vec![]);
                    q.push_back(t.nextstate);
                }
                v.push(RTr {
                    il: t.ilabel,
                    ol: t.olabel,
                    w: t.weight.clone(),
                    n: j,
                });
            }
            r.trs[i] = v;
        }
        Ok(Some(r))
    }
    pub fn build<F: MutableFst<W> + AllocableFst<W>>(&self) -> F {
        let mut f = F::new();
        for _ in 0..self.n() {
            f.add_state();
        }
        if let Some(s) = self.start {
            f.set_start(s as StateId).unwrap();
        }
        for s in 0..self.n() {
            if let Some(w) = &self.fin[s] {
                f.set_final(s as StateId, w.clone()).unwrap();
            }
            for t in &self.trs[s] {
                f.add_tr(s as StateId, Tr::new(t.il, t.ol, t.w.clone(), t.n as StateId))
                    .unwrap();
            }
        }
        f
    }
    pub fn vector(&self) -> VectorFst<W> {
        self.build()
    }
    pub fn is_acyclic_by(&self, pred: impl Fn(&RTr<W>) -> bool) -> bool {
        let n = self.n();
        let mut indeg = vec![0; n];
        for v in &self.trs {
            for t in v {
                if pred(t) {
                    indeg[t.n] += 1;
                }
            }
        }
        let mut st: Vec<usize> = (0..n).filter(|s| indeg[*s] == 0).collect();
        let mut k = 0;
        while let Some(s) = st.pop() {
            k += 1;
            for t in &self.trs[s] {
                if pred(t) {
                    indeg[t.n] -= 1;
                    if indeg[t.n] == 0 {
                        st.push(t.n);
                    }
                }
            }
        }
        k == n
    }
    pub fn acyclic(&self) -> bool {
        self.is_acyclic_by(|_| true)
    }
    pub fn eps_acyclic(&self) -> bool {
        self.is_acyclic_by(|t| t.il == 0 && t.ol == 0)
    }
    pub fn labels(&self) -> (BTreeSet<u32>, BTreeSet<u32>) {
        let mut a = BTreeSet::new();
        let mut b = BTreeSet::new();
        for v in &self.trs {
            for t in v {
                a.insert(t.il);
                b.insert(t.ol);
            }
        }
        (a, b)
    }
}

impl<W: TW> RFst<W> {
    /// Drops transitions / final weights that are zero and everything not on a successful path.
    pub fn trim(&self) -> Self {
        let n = self.n();
        let nz = |w: &W| !w.nil();
        let mut acc = vec![false; n];
        let mut coacc = vec![false; n];
        if let Some(s) = self.start {
            let mut st = vec![s];
            acc[s] = true;
            while let Some(x) = st.pop() {
                for t in &self.trs[x] {
                    if nz(&t.w) && !acc[t.n] {
                        acc[t.n] = true;
                        st.push(t.n);
                    }
                }
            }
        }
        for s in 0..n {
            coacc[s] = self.fin[s].as_ref().map_or(false, nz);
        }
        loop {
            let mut ch = false;
            for s in 0..n {
                if !coacc[s] && self.trs[s].iter().any(|t| nz(&t.w) && coacc[t.n]) {
                    coacc[s] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut map = vec![usize::MAX; n];
        let mut k = 0;
        for s in 0..n {
            if acc[s] && coacc[s] {
                map[s] = k;
                k += 1;
            }
        }
        let mut r = RFst::new(k);
        for s in 0..n {
            if map[s] == usize::MAX {
                continue;
            }
            r.fin[map[s]] = self.fin[s].clone().filter(|w| nz(w));
            for t in &self.trs[s] {
                if nz(&t.w) && map[t.n] != usize::MAX {
                    r.trs[map[s]].push(RTr {
                        n: map[t.n],
                        ..t.clone()
                    });
                }
            }
        }
        r.start = self.start.filter(|s| map[*s] != usize::MAX).map(|s| map[s]);
        r
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "fst<{}>{{states {}, start {:?}", W::NAME, self.n(), self.start);
        for (i, t) in self.trs.iter().enumerate() {
            for t in t {
                let _ = write!(s, ", {}-({}:{}/{})->{}", i, t.il, t.ol, t.w.show(), t.n);
            }
            if let Some(w) = &self.fin[i] {
                let _ = write!(s, ", final {}/{}", i, w.show());
            }
        }
        s.push('}');
        s
    }
    /// Weighted relation restricted to pairs with |input| <= li and |output| <= lo.
    /// None when the computation would be too large or does not converge.
    pub fn lang(&self, li: usize, lo: usize) -> Option<Lang<W>> {
        let t = self.trim();
        t.lang_trimmed(li, lo, if t.n() > 19 { 4_000 } else { 60_000 })
    }
    /// The complete relation of an acyclic machine.
    pub fn full_lang(&self) -> Option<Lang<W>> {
        let t = self.trim();
        if !t.acyclic() {
            return None;
        }
        t.lang_trimmed(usize::MAX, usize::MAX, if t.n() > 19 { 4_000 } else { 60_000 })
    }
    fn lang_trimmed(&self, li: usize, lo: usize, cap: usize) -> Option<Lang<W>> {
        type K = (usize, Str, Str);
        let mut res: Lang<W> = BTreeMap::new();
        let Some(s0) = self.start else {
            return Some(res);
        };
        let mut total: BTreeMap<K, W> = BTreeMap::new();
        let mut delta: BTreeMap<K, W> = BTreeMap::new();
        delta.insert((s0, vec![], vec![]), W::one());
        if W::IDEMP {
            total = delta.clone();
        }
        let mut work = 0usize;
        let mut rounds = 0;
        while !delta.is_empty() {
            rounds += 1;
            if rounds > 2000 {
                return None;
            }
            let mut next: BTreeMap<K, W> = BTreeMap::new();
            for ((s, x, y), w) in &delta {
                if !W::IDEMP {
                    if let Some(f) = &self.fin[*s] {
                        let v = w.mul(f)?;
                        add(&mut res, (x.clone(), y.clone()), v)?;
                    }
                }
                for t in &self.trs[*s] {
                    if (t.il != 0 && x.len() >= li) || (t.ol != 0 && y.len() >= lo) {
                        continue;
                    }
                    work += 1;
                    if work > cap {
                        return None;
                    }
                    let mut x2 = x.clone();
                    if t.il != 0 {
                        x2.push(t.il);
                    }
                    let mut y2 = y.clone();
                    if t.ol != 0 {
                        y2.push(t.ol);
                    }
                    let v = w.mul(&t.w)?;
                    if v.nil() || v.prune() {
                        continue;
                    }
                    let k = (t.n, x2, y2);
                    match next.get_mut(&k) {
                        Some(o) => *o = o.sum(&v)?,
                        None => {
                            next.insert(k, v);
                        }
                    }
                }
            }
            if W::IDEMP {
                let mut d2 = BTreeMap::new();
                for (k, v) in next {
                    match total.get_mut(&k) {
                        None => {
                            total.insert(k.clone(), v.clone());
                            d2.insert(k, v);
                        }
                        Some(o) => {
                            let nv = o.sum(&v)?;
                            if !nv.same(o) {
                                *o = nv.clone();
                                d2.insert(k, nv);
                            }
                        }
                    }
                }
                delta = d2;
            } else {
                delta = next;
            }
        }
        if W::IDEMP {
            for ((s, x, y), w) in &total {
                if let Some(f) = &self.fin[*s] {
                    let v = w.mul(f)?;
                    add(&mut res, (x.clone(), y.clone()), v)?;
                }
            }
        }
        res.retain(|_, w| !w.nil());
        Some(res)
    }
    /// Union of the bounded relations started in every state.
    pub fn max_path_len(&self) -> Option<usize> {
        // longest path of an acyclic machine
        if !self.acyclic() {
            return None;
        }
        let n = self.n();
        let mut d = vec![0usize; n];
        for _ in 0..n {
            for s in 0..n {
                for t in &self.trs[s] {
                    d[s] = d[s].max(d[t.n] + 1);
                }
            }
        }
        d.into_iter().max()
    }
}

pub fn add<W: TW, K: Ord>(m: &mut BTreeMap<K, W>, k: K, v: W) -> Option<()> {
    match m.get_mut(&k) {
        Some(o) => *o = o.sum(&v)?,
        None => {
            m.insert(k, v);
        }
    }
    Some(())
}

pub fn diff_lang<W: TW>(exp: &Lang<W>, got: &Lang<W>) -> Option<String> {
    for (k, w) in exp {
        match got.get(k) {
            None => {
                if !w.negligible() {
                    return Some(format!("{:?} -> {:?}: expected weight {}, not accepted", k.0, k.1, w.show()));
                }
            }
            Some(g) => {
                if !w.close(g) && !(w.negligible() && g.negligible()) {
                    return Some(format!("{:?} -> {:?}: expected weight {}, got {}", k.0, k.1, w.show(), g.show()));
                }
            }
        }
    }
    for (k, w) in got {
        if !exp.contains_key(k) && !w.negligible() {
            return Some(format!("{:?} -> {:?}: accepted with weight {} but should not be", k.0, k.1, w.show()));
        }
    }
    None
}

pub fn check_lang<W: TW>(what: &str, exp: &Lang<W>, got: &Lang<W>) -> R {
    if let Some(d) = diff_lang(exp, got) {
        fail!(format!("{}: wrong weighted relation", what), "{}: {}", what, d);
    }
    Ok(())
}

/// Both machines realise the same weighted relation (up to the length bound).
/// Returns false when the bound was too expensive to evaluate.
pub fn same_lang<W: TW>(what: &str, a: &RFst<W>, b: &RFst<W>, l: usize) -> R<bool> {
    let (ta, tb) = (a.trim(), b.trim());
    let s = ta.n().max(tb.n()) > 19 && crate::big::sampled(what, &ta, &tb)?;
    let la = if ta.acyclic() && tb.acyclic() { (ta.full_lang(), tb.full_lang()) } else { (ta.lang(l, l), tb.lang(l, l)) };
    match la {
        (Some(x), Some(y)) => {
            check_lang(what, &x, &y)?;
            Ok(true)
        }
        _ => Ok(s),
    }
}

pub fn bfs_bound(n: usize) -> usize {
    n + 1
}

// ---- operations on bounded relations -------------------------------------------------------

pub fn lang_plus<W: TW>(a: &Lang<W>, b: &Lang<W>) -> Option<Lang<W>> {
    let mut r = a.clone();
    for (k, w) in b {
        add(&mut r, k.clone(), w.clone())?;
    }
    Some(r)
}

pub fn lang_times<W: TW>(a: &Lang<W>, b: &Lang<W>, li: usize, lo: usize) -> Option<Lang<W>> {
    let mut r = Lang::new();
    for ((x1, y1), w1) in a {
        for ((x2, y2), w2) in b {
            if x1.len() + x2.len() > li || y1.len() + y2.len() > lo {
                continue;
            }
            let mut x = x1.clone();
            x.extend(x2);
            let mut y = y1.clone();
            y.extend(y2);
            add(&mut r, (x, y), w1.mul(w2)?)?;
        }
    }
    r.retain(|_, w| !w.nil());
    Some(r)
}

/// one + a + aa + ...  (plus: a + aa + ...), bounded. None when it does not settle.
pub fn lang_star<W: TW>(a: &Lang<W>, li: usize, lo: usize, plus: bool) -> Option<Lang<W>> {
    let mut p: Lang<W> = Lang::new();
    p.insert((vec![], vec![]), W::one());
    let mut acc = if plus { Lang::new() } else { p.clone() };
    if W::NAME == "integer" && a.contains_key(&(vec![], vec![])) {
        return None;
    }
    for _ in 0..400 {
        p = lang_times(&p, a, li, lo)?;
        p.retain(|_, w| !w.prune());
        if p.is_empty() {
            return Some(acc);
        }
        if p.len() > 3000 {
            return None;
        }
        let next = lang_plus(&acc, &p)?;
        if W::IDEMP && next == acc && next.values().zip(acc.values()).all(|(a, b)| a.same(b)) {
            return Some(acc);
        }
        acc = next;
    }
    None
}

/// A VectorFst for the model, with a random amount of (true) stored property knowledge.
pub fn realize<W: TW>(c: &mut Ctx, m: &RFst<W>) -> VectorFst<W> {
    let mut f = m.vector();
    match c.below(4) {
        0 => {
            let _ = f.compute_and_update_properties_all();
        }
        1 => f.set_properties(rustfst::fst_properties::FstProperties::empty()),
        2 => {
            let bits = c.src.below(1 << 32) as u64;
            let mask = rustfst::fst_properties::FstProperties::from_bits_truncate((bits << 16) as _);
            let _ = f.compute_and_update_properties_all();
            let p = f.properties() & mask;
            f.set_properties(p);
        }
        _ => {}
    }
    f
}
