//! Algebraic laws of every weight type.
use crate::ctx::*;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        subs: vec![
            Sub { name: "exact", rule: "two different weights closer to each other than the tolerance", quick: 100_000, thorough: 2_000_000, f: exact },
            Sub { name: "laws", rule: "the three weights are not all zero or one", quick: 1_600_000, thorough: 12_000_000, f: laws },
            Sub { name: "division", rule: "divisor is neither zero nor one", quick: 800_000, thorough: 6_000_000, f: division },
            Sub { name: "closure", rule: "weight is neither zero nor one", quick: 400_000, thorough: 4_000_000, f: closure },
            Sub { name: "definitions", rule: "both weights differ from zero and one", quick: 800_000, thorough: 6_000_000, f: definitions },
            Sub { name: "quantize", rule: "quantisation changes the weight or the step exceeds it", quick: 400_000, thorough: 4_000_000, f: quantize },
            Sub { name: "serialize", rule: "weight is neither zero nor one", quick: 800_000, thorough: 6_000_000, f: serialize },
        ],
    }
}

/// a weight type with a generator and a strict comparison (rounding only)
trait LW: Semiring {
    const N: &'static str;
    fn g(c: &mut Ctx) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// equality up to choices the type's addition leaves open (ties)
    fn equiv(&self, o: &Self) -> bool {
        self.same(o)
    }
}

fn fclose(a: f32, b: f32, tol: f32) -> bool {
    a == b || (a - b).abs() <= tol * (1.0f32).max(a.abs()).max(b.abs())
}
fn grid(c: &mut Ctx) -> f32 {
    if c.fine && c.bool() {
        return (1 + c.below(400)) as f32 / *c.pick(&[3.0f32, 7.0, 1000.0, 16384.0]);
    }
    match c.below(8) {
        0 => 0.0,
        1 => f32::INFINITY,
        2 => -(c.below(64) as f32) / 8.0,
        3 => c.below(4000) as f32 / 1000.0,
        4 => 30.0 + if c.bool() { c.below(200) } else { c.below(1900) } as f32 / 4.0,
        _ => c.below(128) as f32 / 8.0,
    }
}
impl LW for TropicalWeight {
    const N: &'static str = "tropical";
    fn g(c: &mut Ctx) -> Self {
        grid(c).into()
    }
    fn same(&self, o: &Self) -> bool {
        fclose(*self.value(), *o.value(), 1e-4)
    }
}
impl LW for LogWeight {
    const N: &'static str = "log";
    fn g(c: &mut Ctx) -> Self {
        grid(c).into()
    }
    fn same(&self, o: &Self) -> bool {
        fclose(*self.value(), *o.value(), 1e-4)
    }
}
impl LW for ProbabilityWeight {
    const N: &'static str = "probability";
    fn g(c: &mut Ctx) -> Self {
        (match c.below(6) {
            0 => 0.0,
            1 => 1.0,
            2 => c.below(100) as f32 / 8.0,
            _ => c.below(1000) as f32 / 1000.0,
        })
        .into()
    }
    fn same(&self, o: &Self) -> bool {
        fclose(*self.value(), *o.value(), 1e-4)
    }
}
impl LW for IntegerWeight {
    const N: &'static str = "integer";
    fn g(c: &mut Ctx) -> Self {
        (match c.below(4) {
            0 => c.below(2) as i32,
            1 => -(c.below(40) as i32),
            _ => c.below(600) as i32,
        })
        .into()
    }
    fn same(&self, o: &Self) -> bool {
        self.value() == o.value()
    }
}
impl LW for BooleanWeight {
    const N: &'static str = "boolean";
    fn g(c: &mut Ctx) -> Self {
        c.bool().into()
    }
    fn same(&self, o: &Self) -> bool {
        self.value() == o.value()
    }
}
impl<A: LW, B: LW> LW for ProductWeight<A, B> {
    const N: &'static str = "product";
    fn g(c: &mut Ctx) -> Self {
        (A::g(c), B::g(c)).into()
    }
    fn same(&self, o: &Self) -> bool {
        self.value1().same(o.value1()) && self.value2().same(o.value2())
    }
}
fn labels(c: &mut Ctx) -> Vec<u32> {
    let n = if c.chance(1, 8) { c.below(14) } else { c.below(5) };
    let big = c.chance(1, 10);
    (0..n).map(|_| if big { *c.pick(&[1u32, 10, 65536, 0x7fff_fff0]) } else { 1 + c.below(3) as u32 }).collect()
}
macro_rules! strw { ($($t:ident $n:expr),*) => { $(
impl LW for $t {
    const N: &'static str = $n;
    fn g(c: &mut Ctx) -> Self { if c.chance(1, 8) { Self::zero() } else { labels(c).into() } }
    fn same(&self, o: &Self) -> bool { self.value() == o.value() }
} )* } }
strw!(StringWeightLeft "string-left", StringWeightRight "string-right", StringWeightRestrict "string-restrict");
fn nonzero<W: LW>(c: &mut Ctx) -> W {
    let w = W::g(c);
    if w.is_zero() {
        W::one()
    } else {
        w
    }
}
macro_rules! galw { ($($t:ident $n:expr),*) => { $(
impl<W: LW> LW for $t<W> {
    const N: &'static str = $n;
    fn g(c: &mut Ctx) -> Self { if c.chance(1, 8) { Self::zero() } else { (labels(c), nonzero::<W>(c)).into() } }
    fn same(&self, o: &Self) -> bool { self.value1().value() == o.value1().value() && self.value2().same(o.value2()) }
} )* } }
galw!(GallicWeightLeft "gallic-left", GallicWeightRight "gallic-right", GallicWeightRestrict "gallic-restrict");
impl<W: LW> LW for GallicWeightMin<W> {
    const N: &'static str = "gallic-min";
    fn g(c: &mut Ctx) -> Self {
        if c.chance(1, 8) { Self::zero() } else { (labels(c), nonzero::<W>(c)).into() }
    }
    fn same(&self, o: &Self) -> bool {
        self.value1().value() == o.value1().value() && self.value2().same(o.value2())
    }
    fn equiv(&self, o: &Self) -> bool {
        // on a tie either string may be kept
        self.value2().same(o.value2())
    }
}
impl<W: LW> LW for GallicWeight<W> {
    const N: &'static str = "gallic";
    fn g(c: &mut Ctx) -> Self {
        // a sum of single elements is the canonical way to obtain a set
        let n = c.below(4);
        let mut w = Self::zero();
        for _ in 0..n {
            let e: GallicWeightRestrict<W> = (labels(c), nonzero::<W>(c)).into();
            w.plus_assign(Self::new(vec![e])).unwrap();
        }
        w
    }
    fn same(&self, o: &Self) -> bool {
        self.value().len() == o.value().len() && self.value().iter().zip(o.value()).all(|(a, b)| a.same(b))
    }
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

macro_rules! law {
    ($W:ident, $c:expr, $name:expr, $($x:tt)*) => { ensure!($c, format!("{}: {}", $W::N, $name), $($x)*) };
}

fn laws(c: &mut Ctx) -> R {
    match c.below(16) {
        0 => l::<TropicalWeight>(c),
        1 => l::<LogWeight>(c),
        2 => l::<ProbabilityWeight>(c),
        3 => l::<IntegerWeight>(c),
        4 => l::<BooleanWeight>(c),
        5 => l::<ProductWeight<TropicalWeight, LogWeight>>(c),
        6 => l::<ProductWeight<StringWeightLeft, TropicalWeight>>(c),
        7 => l::<StringWeightLeft>(c),
        8 => l::<StringWeightRight>(c),
        9 => l::<StringWeightRestrict>(c),
        10 => l::<GallicWeightLeft<TropicalWeight>>(c),
        11 => l::<GallicWeightRight<LogWeight>>(c),
        12 => l::<GallicWeightRestrict<TropicalWeight>>(c),
        13 => l::<GallicWeightMin<TropicalWeight>>(c),
        14 => l::<GallicWeight<TropicalWeight>>(c),
        _ => l::<GallicWeight<LogWeight>>(c),
    }
}

fn l<W: LW>(c: &mut Ctx) -> R
where
    W::ReverseWeight: LW,
{
    let (a, b, d) = (W::g(c), if c.chance(1, 8) { None } else { Some(W::g(c)) }, W::g(c));
    let b = b.unwrap_or_else(|| a.clone());
    c.note(|| format!("{} a={:?} b={:?} c={:?}", W::N, a, b, d));
    let (z, o) = (W::zero(), W::one());
    let triv = |x: &W| x.is_zero() || x.is_one();
    c.nontrivial = !(triv(&a) && triv(&b) && triv(&d));
    law!(W, z.is_zero() && o.is_one() && !z.is_one() && !o.is_zero() && z != o, "identities", "zero/one predicates");
    law!(W, a == a && a.approx_equal(&a, 0.0), "reflexive", "{:?} is not equal to itself", a);
    law!(W, (a == b) == (b == a), "equality symmetric", "{:?} {:?}", a, b);
    law!(W, a.is_zero() == (a == z) && a.is_one() == (a == o), "is_zero/is_one", "{:?}", a);
    law!(W, a.partial_cmp(&a) == Some(std::cmp::Ordering::Equal), "order reflexive", "{:?}", a);
    let cl = a.clone();
    law!(W, h(&cl) == h(&a) && cl.same(&a), "clone", "{:?}", a);
    law!(W, W::new(a.value().clone()).same(&a) && W::new(a.clone().take_value()).same(&a), "value", "{:?}", a);
    let mut sv = b.clone();
    sv.set_value(a.value().clone());
    law!(W, sv.same(&a), "set_value", "{:?}", a);
    // multiplication
    let t = |x: &W, y: &W| x.times(y);
    let ab = t(&a, &b)?;
    let mut ab2 = a.clone();
    ab2.times_assign(&b)?;
    law!(W, ab.same(&ab2), "times_assign", "{:?} {:?}", ab, ab2);
    law!(W, t(&ab, &d)?.same(&t(&a, &t(&b, &d)?)?), "times associative", "({:?} x {:?}) x {:?}", a, b, d);
    law!(W, t(&a, &o)?.same(&a) && t(&o, &a)?.same(&a), "one neutral", "{:?}: a*1 = {:?}, 1*a = {:?}", a, t(&a, &o)?, t(&o, &a)?);
    law!(W, t(&a, &z)?.is_zero() && t(&z, &a)?.is_zero(), "zero annihilates", "{:?}: a*0 = {:?}, 0*a = {:?}", a, t(&a, &z)?, t(&z, &a)?);
    let p = W::properties();
    if p.contains(SemiringProperties::COMMUTATIVE) {
        law!(W, t(&b, &a)?.same(&ab), "times commutative", "{:?} {:?}", a, b);
    }
    // addition; the restricted strings refuse to add different strings
    law!(W, a.plus(&z)?.same(&a) && z.plus(&a)?.same(&a), "zero neutral", "{:?}: a+0 = {:?}, 0+a = {:?}", a, a.plus(&z)?, z.plus(&a)?);
    if p.contains(SemiringProperties::IDEMPOTENT) {
        law!(W, a.plus(&a)?.same(&a), "plus idempotent", "{:?} + itself = {:?}", a, a.plus(&a)?);
    }
    if let (Ok(s), Ok(s2)) = (a.plus(&b), b.plus(&a)) {
        law!(W, s.equiv(&s2), "plus commutative", "{:?} + {:?}: {:?} / {:?}", a, b, s, s2);
        let mut sa = a.clone();
        sa.plus_assign(&b)?;
        law!(W, sa.same(&s), "plus_assign", "{:?}", sa);
        if p.contains(SemiringProperties::PATH) {
            law!(W, s.same(&a) || s.same(&b), "path property", "{:?} + {:?} = {:?}", a, b, s);
        }
        if let (Ok(x), Ok(bd)) = (s.plus(&d), b.plus(&d)) {
            let y = a.plus(&bd)?;
            law!(W, x.equiv(&y), "plus associative", "({:?} + {:?}) + {:?}: {:?} / {:?}", a, b, d, x, y);
        }
        if p.contains(SemiringProperties::LEFT_SEMIRING) {
            let (x, y) = (t(&d, &s)?, t(&d, &a)?.plus(t(&d, &b)?)?);
            law!(W, x.equiv(&y), "left distributive", "{:?} x ({:?} + {:?}): {:?} / {:?}", d, a, b, x, y);
        }
        if p.contains(SemiringProperties::RIGHT_SEMIRING) {
            let (x, y) = (t(&s, &d)?, t(&a, &d)?.plus(t(&b, &d)?)?);
            law!(W, x.equiv(&y), "right distributive", "({:?} + {:?}) x {:?}: {:?} / {:?}", a, b, d, x, y);
        }
        let (ra, rb) = (a.reverse()?, b.reverse()?);
        let (x, y) = (s.reverse()?, ra.plus(&rb)?);
        law!(W, x.equiv(&y), "reverse of sum", "{:?} {:?}: {:?} / {:?}", a, b, x, y);
    } else {
        let refuse = a.plus(&b).is_err() && b.plus(&a).is_err();
        law!(W, refuse && !a.same(&b) && W::N.contains("restrict"), "plus total", "{:?} + {:?} refused", a, b);
    }
    // reversal
    let ra = a.reverse()?;
    let back: W = ra.reverse_back()?;
    law!(W, back.same(&a), "reverse involution", "{:?} -> {:?} -> {:?}", a, ra, back);
    let (x, y) = (ab.reverse()?, b.reverse()?.times(&ra)?);
    law!(W, x.same(&y), "reverse swaps times", "{:?} {:?}: {:?} / {:?}", a, b, x, y);
    Ok(())
}

fn division(c: &mut Ctx) -> R {
    use DivideType::*;
    match c.below(13) {
        0 => dv::<TropicalWeight>(c, &[DivideLeft, DivideRight, DivideAny]),
        1 => dv::<LogWeight>(c, &[DivideLeft, DivideRight, DivideAny]),
        2 => dv::<ProbabilityWeight>(c, &[DivideLeft, DivideRight, DivideAny]),
        3 => dv::<ProductWeight<TropicalWeight, LogWeight>>(c, &[DivideLeft, DivideRight, DivideAny]),
        4 => dv::<StringWeightLeft>(c, &[DivideLeft]),
        5 => dv::<StringWeightRight>(c, &[DivideRight]),
        6 => dv::<StringWeightRestrict>(c, &[DivideLeft, DivideRight]),
        7 => dv::<GallicWeightLeft<TropicalWeight>>(c, &[DivideLeft]),
        8 => dv::<GallicWeightRight<LogWeight>>(c, &[DivideRight]),
        9 => dv::<GallicWeightRestrict<TropicalWeight>>(c, &[DivideLeft, DivideRight]),
        10 => dv::<GallicWeightMin<TropicalWeight>>(c, &[DivideLeft]),
        11 => dv::<GallicWeight<TropicalWeight>>(c, &[DivideLeft, DivideRight]),
        _ => dv::<ProductWeight<StringWeightLeft, TropicalWeight>>(c, &[DivideLeft]),
    }
}

fn finite<W: LW>(c: &mut Ctx) -> W {
    // zero (also as a component) has no inverse
    for _ in 0..20 {
        let w = W::g(c);
        let s = format!("{:?}", w);
        if !w.is_zero() && !s.contains("inf") && !s.contains("Infinity") && !(W::N == "probability" && s.contains("(0.0)")) {
            return w;
        }
    }
    W::one()
}

fn dv<W: LW + WeaklyDivisibleSemiring>(c: &mut Ctx, sides: &[DivideType]) -> R {
    let mut a: W = finite(c);
    let b = W::g(c);
    let side = *c.pick(sides);
    if W::N == "gallic" {
        // only single-element divisors are defined
        for _ in 0..20 {
            if format!("{:?}", a).matches("GallicWeightRestrict").count() == 1 {
                break;
            }
            a = finite(c);
        }
        if format!("{:?}", a).matches("GallicWeightRestrict").count() != 1 {
            a = W::one();
        }
    }
    let sn = match side {
        DivideType::DivideLeft => "left",
        DivideType::DivideRight => "right",
        _ => "any",
    };
    c.note(|| format!("{} {} a={:?} b={:?}", W::N, sn, a, b));
    c.nontrivial = !a.is_one() && !b.is_zero();
    let (prod, rebuilt): (W, Box<dyn Fn(&W) -> anyhow::Result<W>>) = match side {
        DivideType::DivideRight => (b.times(&a)?, Box::new(|q: &W| q.times(&a))),
        _ => (a.times(&b)?, Box::new(|q: &W| a.times(q))),
    };
    let q = prod.divide(&a, side)?;
    law!(W, q.same(&b), format!("{} division inverts", sn), "({:?} x {:?}) / {:?} = {:?}", a, b, a, q);
    let mut q2 = prod.clone();
    q2.divide_assign(&a, side)?;
    law!(W, q2.same(&q), "divide_assign", "{:?} {:?}", q, q2);
    law!(W, rebuilt(&q)?.same(&prod), format!("{} division rebuilds", sn), "{:?}", q);
    // weak divisibility: x = (x + y) z
    if W::N != "gallic" && W::N != "probability" {
        if let Ok(s) = a.plus(&b) {
            let ok = !format!("{:?}", s).contains("inf");
            if !s.is_zero() && ok {
                let z = b.divide(&s, side)?;
                let x = match side {
                    DivideType::DivideRight => z.times(&s)?,
                    _ => s.times(&z)?,
                };
                // min-gallic keeps one string only; the quotient then refers to the kept one
                if !(W::N == "gallic-min") {
                    law!(W, x.same(&b), "weakly divisible", "x={:?} y={:?} x+y={:?} z={:?}", b, a, s, z);
                }
            }
        }
    }
    Ok(())
}

fn closure(c: &mut Ctx) -> R {
    fn cl<W: LW + StarSemiring>(c: &mut Ctx, a: W, exp: Option<W>) -> R {
        c.note(|| format!("{} a={:?}", W::N, a));
        c.nontrivial = !a.is_zero() && !a.is_one();
        let s = a.closure();
        let r = W::one().plus(a.times(&s)?)?;
        law!(W, r.same(&s), "closure fixed point", "{:?}* = {:?} but 1 + a a* = {:?}", a, s, r);
        let r = W::one().plus(s.times(&a)?)?;
        law!(W, r.same(&s), "closure fixed point", "{:?}* = {:?} but 1 + a* a = {:?}", a, s, r);
        if let Some(e) = exp {
            law!(W, s.same(&e), "closure value", "{:?}* = {:?}, expected {:?}", a, s, e);
        }
        Ok(())
    }
    match c.below(5) {
        // sums that converge
        0 => {
            let v = grid(c).abs();
            cl(c, TropicalWeight::new(v), Some(TropicalWeight::one()))
        }
        1 => {
            let v = grid(c).abs();
            let v = if v < 0.01 { 0.25 } else { v };
            let e = (1.0f64 - (-(v as f64)).exp()).ln();
            cl(c, LogWeight::new(v), Some(LogWeight::new(e as f32)))
        }
        2 => {
            let v = c.below(990) as f32 / 1000.0;
            cl(c, ProbabilityWeight::new(v), Some(ProbabilityWeight::new(1.0 / (1.0 - v))))
        }
        3 => cl(c, IntegerWeight::new(0), Some(IntegerWeight::new(1))),
        _ => {
            let b = c.bool();
            cl(c, BooleanWeight::new(b), Some(BooleanWeight::one()))
        }
    }
}

fn definitions(c: &mut Ctx) -> R {
    fn chk<W: LW>(c: &mut Ctx, a: W, b: W, sum: W, prod: W) -> R {
        c.note(|| format!("{} a={:?} b={:?}", W::N, a, b));
        c.nontrivial = !a.is_zero() && !b.is_zero() && !a.is_one() && !b.is_one();
        law!(W, a.plus(&b)?.same(&sum), "sum", "{:?} + {:?} = {:?}, expected {:?}", a, b, a.plus(&b)?, sum);
        law!(W, a.times(&b)?.same(&prod), "product", "{:?} x {:?} = {:?}, expected {:?}", a, b, a.times(&b)?, prod);
        Ok(())
    }
    match c.below(9) {
        0 => {
            let (a, b) = (grid(c), grid(c));
            chk::<TropicalWeight>(c, a.into(), b.into(), a.min(b).into(), (a + b).into())
        }
        1 => {
            let (a, b) = (grid(c), grid(c));
            let m = a.min(b) as f64;
            let s = if m.is_infinite() { m } else { m - ((m - a as f64).exp() + (m - b as f64).exp()).ln() };
            chk::<LogWeight>(c, a.into(), b.into(), (s as f32).into(), (a + b).into())
        }
        2 => {
            let (a, b) = (ProbabilityWeight::g(c), ProbabilityWeight::g(c));
            let (x, y) = (*a.value(), *b.value());
            chk::<ProbabilityWeight>(c, a, b, (x + y).into(), (x * y).into())
        }
        3 => {
            let (a, b) = (IntegerWeight::g(c), IntegerWeight::g(c));
            let (x, y) = (*a.value(), *b.value());
            chk::<IntegerWeight>(c, a, b, (x + y).into(), (x * y).into())
        }
        4 => {
            let (x, y) = (c.bool(), c.bool());
            chk::<BooleanWeight>(c, x.into(), y.into(), (x | y).into(), (x & y).into())
        }
        5 => {
            let (x, y) = (labels(c), labels(c));
            let s: Vec<u32> = x.iter().zip(&y).take_while(|p| p.0 == p.1).map(|p| *p.0).collect();
            let p = [x.clone(), y.clone()].concat();
            chk::<StringWeightLeft>(c, x.into(), y.into(), s.into(), p.into())
        }
        6 => {
            let (x, y) = (labels(c), labels(c));
            let mut s: Vec<u32> = x.iter().rev().zip(y.iter().rev()).take_while(|p| p.0 == p.1).map(|p| *p.0).collect();
            s.reverse();
            let p = [x.clone(), y.clone()].concat();
            chk::<StringWeightRight>(c, x.into(), y.into(), s.into(), p.into())
        }
        7 => {
            let (a, b) = (GallicWeightMin::<TropicalWeight>::g(c), GallicWeightMin::<TropicalWeight>::g(c));
            let s = a.plus(&b)?;
            c.note(|| format!("gallic-min a={:?} b={:?}", a, b));
            c.nontrivial = !a.is_zero() && !b.is_zero();
            let (x, y) = (*a.value2().value(), *b.value2().value());
            let e = if x < y { &a } else { &b };
            ensure!(s.value2().same(e.value2()), "gallic-min: sum weight", "{:?} + {:?} = {:?}", a, b, s);
            ensure!(x == y || s.same(e), "gallic-min: sum keeps the best", "{:?} + {:?} = {:?}", a, b, s);
            ensure!(s.same(&a) || s.same(&b), "gallic-min: sum picks one", "{:?} + {:?} = {:?}", a, b, s);
            Ok(())
        }
        _ => {
            // sets of strings with weights, as a map
            use std::collections::BTreeMap;
            type G = GallicWeight<TropicalWeight>;
            let (a, b) = (G::g(c), G::g(c));
            c.note(|| format!("gallic a={:?} b={:?}", a, b));
            c.nontrivial = a.value().len() > 1 && b.value().len() > 1;
            let m = |g: &G| -> R<BTreeMap<Vec<u32>, f32>> {
                let mut m = BTreeMap::new();
                for e in g.value() {
                    let k: Vec<u32> = e.value1().value().clone().iter().map(|v| v.unwrap_labels()[0]).collect();
                    ensure!(m.insert(k, *e.value2().value()).is_none(), "gallic: repeated string", "{:?}", g);
                }
                Ok(m)
            };
            let (ma, mb) = (m(&a)?, m(&b)?);
            let mut s = ma.clone();
            for (k, v) in &mb {
                s.entry(k.clone()).and_modify(|x| *x = x.min(*v)).or_insert(*v);
            }
            let mut p: BTreeMap<Vec<u32>, f32> = BTreeMap::new();
            for (k, v) in &ma {
                for (k2, v2) in &mb {
                    let kk = [k.clone(), k2.clone()].concat();
                    p.entry(kk).and_modify(|x| *x = x.min(v + v2)).or_insert(v + v2);
                }
            }
            let eq = |x: &BTreeMap<Vec<u32>, f32>, y: &BTreeMap<Vec<u32>, f32>| x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && fclose(*a.1, *b.1, 1e-4));
            let gs = m(&a.plus(&b)?)?;
            ensure!(eq(&gs, &s), "gallic: sum", "{:?} + {:?} = {:?}, expected {:?}", ma, mb, gs, s);
            let gp = m(&a.times(&b)?)?;
            ensure!(eq(&gp, &p), "gallic: product", "{:?} x {:?} = {:?}, expected {:?}", ma, mb, gp, p);
            Ok(())
        }
    }
}

fn quantize(c: &mut Ctx) -> R {
    let delta = *c.pick(&[1.0f32 / 1024.0, 0.1, 0.25, 0.5, 1.0, 3.0]);
    let v = grid(c) + if c.bool() { c.below(1000) as f32 / 3000.0 } else { 0.0 };
    c.note(|| format!("{} step {}", v, delta));
    fn q<W: WeightQuantize<Type = f32>>(v: f32, d: f32) -> R<f32> {
        let w = W::new(v).quantize(d)?;
        let mut w2 = W::new(v);
        w2.quantize_assign(d)?;
        ensure!(w.value() == w2.value(), "quantize_assign", "differs from quantize");
        Ok(*w.value())
    }
    let (t, l, p) = (q::<TropicalWeight>(v, delta)?, q::<LogWeight>(v, delta)?, q::<ProbabilityWeight>(v, delta)?);
    c.nontrivial = t != v || delta > v.abs();
    for (n, r) in [("tropical", t), ("log", l), ("probability", p)] {
        if v.is_infinite() {
            ensure!(r == v, format!("{}: quantize infinity", n), "{} -> {}", v, r);
            continue;
        }
        let eps = 1e-5 * v.abs().max(1.0);
        ensure!((r - v).abs() <= delta / 2.0 + eps, format!("{}: quantize moves too far", n), "{} with step {} -> {}", v, delta, r);
        let k = (r / delta).round() * delta;
        ensure!((k - r).abs() <= eps, format!("{}: quantize off the grid", n), "{} with step {} -> {}", v, delta, r);
        let r2 = match n {
            "tropical" => q::<TropicalWeight>(r, delta)?,
            "log" => q::<LogWeight>(r, delta)?,
            _ => q::<ProbabilityWeight>(r, delta)?,
        };
        ensure!((r2 - r).abs() <= eps, format!("{}: quantize idempotent", n), "{} -> {} -> {} (step {})", v, r, r2, delta);
    }
    // composite weights quantise their numeric parts only
    let ls = labels(c);
    let g: GallicWeightLeft<TropicalWeight> = (ls.clone(), TropicalWeight::new(v)).into();
    let gq = g.quantize(delta)?;
    ensure!(gq.value1() == g.value1() && *gq.value2().value() == t, "gallic-left: quantize", "{:?} -> {:?}", g, gq);
    let pr: ProductWeight<TropicalWeight, LogWeight> = (TropicalWeight::new(v), LogWeight::new(-v)).into();
    let pq = pr.quantize(delta)?;
    ensure!(*pq.value1().value() == t && *pq.value2().value() == q::<LogWeight>(-v, delta)?, "product: quantize", "{:?} -> {:?}", pr, pq);
    let mut u = GallicWeight::<TropicalWeight>::g(c);
    let before = u.clone();
    u.quantize_assign(delta)?;
    ensure!(u.value().len() == before.value().len(), "gallic: quantize changes the set", "{:?} -> {:?}", before, u);
    for (x, y) in before.value().iter().zip(u.value()) {
        let e = q::<TropicalWeight>(*x.value2().value(), delta)?;
        ensure!(x.value1() == y.value1() && fclose(e, *y.value2().value(), 1e-4), "gallic: quantize element", "{:?} -> {:?} (step {})", x, y, delta);
    }
    Ok(())
}

fn serialize(c: &mut Ctx) -> R {
    match c.below(14) {
        0 => sr::<TropicalWeight>(c),
        1 => sr::<LogWeight>(c),
        2 => sr::<ProbabilityWeight>(c),
        3 => sr::<IntegerWeight>(c),
        4 => sr::<ProductWeight<TropicalWeight, LogWeight>>(c),
        5 => sr::<ProductWeight<ProductWeight<TropicalWeight, IntegerWeight>, LogWeight>>(c),
        6 => sr::<StringWeightLeft>(c),
        7 => sr::<StringWeightRight>(c),
        8 => sr::<StringWeightRestrict>(c),
        9 => sr::<GallicWeightLeft<TropicalWeight>>(c),
        10 => sr::<GallicWeightRight<LogWeight>>(c),
        11 => sr::<GallicWeightRestrict<TropicalWeight>>(c),
        12 => sr::<GallicWeightMin<TropicalWeight>>(c),
        _ => sr::<GallicWeight<TropicalWeight>>(c),
    }
}

fn sr<W: LW + SerializableSemiring>(c: &mut Ctx) -> R {
    c.fine = true;
    let a = W::g(c);
    c.note(|| format!("{} {:?} printed {}", W::N, a, a));
    c.nontrivial = !a.is_zero() && !a.is_one();
    let txt = format!("{}", a);
    let mut wt = vec![];
    a.write_text(&mut wt)?;
    law!(W, wt == txt.as_bytes(), "write_text", "{:?}", String::from_utf8_lossy(&wt));
    match W::parse_text(&txt) {
        Ok((rest, b)) => law!(W, rest.is_empty() && a.same(&b) && format!("{:?}", a) == format!("{:?}", b), "text round trip", "{:?} printed as {:?} parses to {:?}, rest {:?}", a, txt, b, rest),
        Err(e) => fail!(format!("{}: text round trip", W::N), "{:?} printed as {:?} does not parse: {:?}", a, txt, e),
    }
    let mut bin = vec![];
    a.write_binary(&mut bin)?;
    bin.extend_from_slice(&[7, 7]);
    match W::parse_binary(&bin) {
        Ok((rest, b)) => law!(W, rest == [7, 7] && a.same(&b) && a == b && format!("{:?}", a) == format!("{:?}", b), "binary round trip", "{:?} reads back as {:?}, {} bytes left", a, b, rest.len()),
        Err(_) => fail!(format!("{}: binary round trip", W::N), "{:?} does not read back", a),
    }
    Ok(())
}

/// Tropical arithmetic is exact however close the weights are: addition picks the smaller, multiplication adds, division
/// subtracts; assigning and reference forms agree to the bit.
fn exact(c: &mut Ctx) -> R {
    type W = TropicalWeight;
    let base = c.below(64) as f32 / 4.0;
    let (x, y) = (base + c.below(16) as f32 / 16384.0, base + c.below(16) as f32 / 16384.0);
    let (a, b) = (W::new(x), W::new(y));
    c.note(|| format!("{} and {}", x, y));
    c.nontrivial = x != y;
    let is = |w: &W, v: f32| w.value().to_bits() == v.to_bits();
    law!(W, is(&a.plus(&b)?, x.min(y)) && is(&b.plus(&a)?, x.min(y)), "sum of close weights", "{:?}", a.plus(&b)?);
    law!(W, is(&a.times(&b)?, x + y), "product of close weights", "{:?}", a.times(&b)?);
    law!(W, is(&a.divide(&b, DivideType::DivideAny)?, x - y), "quotient of close weights", "{:?}", a.divide(&b, DivideType::DivideAny)?);
    let mut d = a.clone();
    d.plus_assign(&b)?;
    law!(W, is(&d, x.min(y)), "assigned sum of close weights", "{:?}", d);
    let mut d = a.clone();
    d.times_assign(&b)?;
    law!(W, is(&d, x + y), "assigned product of close weights", "{:?}", d);
    let mut d = a.clone();
    d.divide_assign(&b, DivideType::DivideLeft)?;
    law!(W, is(&d, x - y), "assigned quotient of close weights", "{:?}", d);
    let mut d = a.clone();
    d.set_value(y);
    law!(W, is(&d, y) && is(&a, x), "set value", "{:?}", d);
    law!(W, is(&a.reverse()?, x) && is(&W::reverse_back(&a)?, x), "reversal of close weights", "{:?}", a.reverse()?);
    Ok(())
}
