//! Save / load round trips.
use crate::bprops::*;
use crate::ctx::*;
use crate::gen::*;
use crate::hist::agrees;
use crate::model::*;
use rustfst::fst_impls::ConstFst;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        subs: vec![
            Sub { name: "binary", rule: "at least two states and two transitions", quick: 60_000, thorough: 1_500_000, f: binary },
            Sub { name: "text", rule: "at least two states and two transitions", quick: 60_000, thorough: 1_500_000, f: text },
            Sub { name: "fine_weights", rule: "at least two states and two transitions", quick: 60_000, thorough: 1_500_000, f: fine },
            Sub { name: "files", rule: "at least one transition", quick: 3_000, thorough: 60_000, f: files },
            Sub { name: "large", rule: "more than 1000 transitions", quick: 60, thorough: 1_500, f: large },
            Sub { name: "openfst", rule: "at least two states and two transitions", quick: 60_000, thorough: 1_500_000, f: openfst },
            Sub { name: "full_disk", rule: "the machine has at least one state", quick: 400, thorough: 4_000, f: full_disk },
            Sub { name: "large_machines", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(3) { 0 => binary(c), 1 => text(c), _ => openfst(c) }) },
        ],
    }
}

pub type ProdTL = ProductWeight<TropicalWeight, LogWeight>;
impl TW for ProdTL {
    const NAME: &'static str = "product<tropical,log>";
    const IDEMP: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        ProductWeight::new((TropicalWeight::gen(c), LogWeight::gen(c)))
    }
}
pub type GalL = GallicWeightLeft<TropicalWeight>;
impl TW for GalL {
    const NAME: &'static str = "gallic-left<tropical>";
    const IDEMP: bool = true;
    const COMM: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        GallicWeightLeft::new((StringWeightLeft::gen(c), TropicalWeight::gen(c)).into())
    }
}
pub type GalU = GallicWeight<TropicalWeight>;
impl TW for GalU {
    const NAME: &'static str = "gallic<tropical>";
    const IDEMP: bool = true;
    const COMM: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        let mut w = Self::zero();
        for _ in 0..1 + c.below(3) {
            let n = if c.chance(1, 10) { c.below(9) } else { c.below(3) };
            let v: Vec<u32> = (0..n).map(|_| 1 + c.below(2) as u32).collect();
            w.plus_assign(Self::new(vec![(v, TropicalWeight::gen(c)).into()])).unwrap();
        }
        w
    }
}
macro_rules! with_w {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        match $c.below(10) {
            0..=2 => $f::<TropicalWeight>($c $(, $a)*),
            3 => $f::<LogWeight>($c $(, $a)*),
            4 => $f::<ProbabilityWeight>($c $(, $a)*),
            5 => $f::<IntegerWeight>($c $(, $a)*),
            6 => $f::<ProdTL>($c $(, $a)*),
            7 => $f::<StringWeightLeft>($c $(, $a)*),
            8 => $f::<GalL>($c $(, $a)*),
            _ => $f::<GalU>($c $(, $a)*),
        }
    };
}

fn machine<W: TW>(c: &mut Ctx) -> (RFst<W>, VectorFst<W>) {
    let k = Cfg { max_states: 6, max_out: 4, labels: 5, eps: 20, big_labels: true, zeros: 4, ..Default::default() };
    let mut m: RFst<W> = gen_rfst(c, &k);
    // a zero final weight is the same as not being final
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.is_zero()) {
            *f = None;
        }
    }
    let mut f = m.vector();
    if c.chance(1, 3) {
        let n = c.below(6);
        let t = gen_symt(c, n);
        f.set_input_symbols(Arc::new(t));
    }
    if c.chance(1, 3) {
        let n = c.below(6);
        let t = if c.chance(1, 6) { SymbolTable::empty() } else { gen_symt(c, n) };
        f.set_output_symbols(Arc::new(t));
    }
    if (m.n() == 0 || m.start.is_some()) && c.bool() {
        let _ = f.compute_and_update_properties_all();
    }
    (m, f)
}

fn compare<W: TW, F: ExpandedFst<W>, G: ExpandedFst<W>>(what: &str, m: &RFst<W>, orig: &F, got: &G, props: bool) -> R {
    agrees(what, got, m)?;
    ensure!(got.input_symbols() == orig.input_symbols(), format!("{}: input symbols", what), "input symbol table differs after {}", what);
    ensure!(got.output_symbols() == orig.output_symbols(), format!("{}: output symbols", what), "output symbol table differs after {}", what);
    // see DESIGN: properties of machines with states but no start state are not claimed
    if props && (m.start.is_some() || m.n() == 0) {
        check_props(what, got.properties(), m)?;
    }
    Ok(())
}

fn binary(c: &mut Ctx) -> R {
    with_w!(c, bin_w)
}
fn bin_w<W: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let (m, f) = machine::<W>(c);
    c.note(|| m.show());
    c.nontrivial = m.n() >= 2 && m.ntr() >= 2;
    let mut buf = vec![];
    f.store(&mut buf)?;
    let g = VectorFst::<W>::load(&buf)?;
    compare("vector binary", &m, &f, &g, true)?;
    ensure!(g == f, "vector binary: not equal", "the loaded FST does not compare equal");
    ensure!(g.properties() == f.properties(), "vector binary: properties lost", "{:?} became {:?}", f.properties(), g.properties());
    let k: ConstFst<W> = f.clone().into();
    compare("const conversion", &m, &f, &k, true)?;
    let mut buf2 = vec![];
    k.store(&mut buf2)?;
    let k2 = ConstFst::<W>::load(&buf2)?;
    compare("const binary", &m, &f, &k2, true)?;
    ensure!(VectorFst::<W>::load(&buf2).is_err() && ConstFst::<W>::load(&buf).is_err(), "wrong representation accepted", "a vector file loads as const or the reverse");
    // truncated files are refused
    if !buf.is_empty() {
        let cut = c.below(buf.len());
        ensure!(VectorFst::<W>::load(&buf[..cut]).is_err(), "truncated vector file accepted", "first {} of {} bytes", cut, buf.len());
        let cut = c.below(buf2.len());
        ensure!(ConstFst::<W>::load(&buf2[..cut]).is_err(), "truncated const file accepted", "first {} of {} bytes", cut, buf2.len());
    }
    Ok(())
}

/// what the text format can express
/// Weights closer to each other than the library's tolerance are kept apart by every format.
fn fine(c: &mut Ctx) -> R {
    c.fine = true;
    c.wild = true;
    match c.below(6) {
        0 => bin_w::<LogWeight>(c),
        1 => bin_w::<ProbabilityWeight>(c),
        2 => text_w::<LogWeight>(c),
        3 => text_w::<TropicalWeight>(c),
        4 => openfst(c),
        _ => bin_w::<TropicalWeight>(c),
    }
}

fn textual<W: TW>(m: &RFst<W>) -> RFst<W> {
    let mut n = 0;
    for s in 0..m.n() {
        if m.fin[s].is_some() || m.start == Some(s) {
            n = n.max(s + 1);
        }
        if !m.trs[s].is_empty() {
            n = n.max(s + 1);
        }
        for t in &m.trs[s] {
            n = n.max(t.n + 1);
        }
    }
    let mut r = m.clone();
    r.fin.truncate(n);
    r.trs.truncate(n);
    r
}

fn text(c: &mut Ctx) -> R {
    with_w!(c, text_w)
}
fn text_w<W: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let (m, f) = machine::<W>(c);
    c.note(|| m.show());
    if m.start.is_none() && m.n() > 0 {
        // a machine without a start state has no textual form
        return Ok(());
    }
    c.nontrivial = m.n() >= 2 && m.ntr() >= 2;
    let e = textual(&m);
    let t = f.text()?;
    let t2 = ConstFst::<W>::from(f.clone()).text()?;
    ensure!(t == t2, "text of const differs from text of vector", "{:?} / {:?}", t, t2);
    let g = VectorFst::<W>::from_text_string(&t)?;
    agrees("text to vector", &g, &e)?;
    check_props("text to vector", g.properties(), &e)?;
    let k = ConstFst::<W>::from_text_string(&t)?;
    agrees("text to const", &k, &e)?;
    check_props("text to const", k.properties(), &e)?;
    let t3 = g.text()?;
    ensure!(t3 == t, "text not stable", "{:?} / {:?}", t, t3);
    Ok(())
}

fn files(c: &mut Ctx) -> R {
    with_w!(c, files_w)
}
fn files_w<W: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let (m, f) = machine::<W>(c);
    c.note(|| m.show());
    c.nontrivial = m.ntr() >= 1;
    let p = c.scratch.join("f.fst");
    // an older, longer file must be replaced entirely
    if c.bool() {
        std::fs::write(&p, vec![0x55u8; 20_000]).unwrap();
    }
    f.write(&p)?;
    let mut mem = vec![];
    f.store(&mut mem)?;
    ensure!(std::fs::read(&p).unwrap() == mem, "write and store differ", "file {} bytes, memory {}", std::fs::read(&p).unwrap().len(), mem.len());
    compare("vector file", &m, &f, &VectorFst::<W>::read(&p)?, true)?;
    let k: ConstFst<W> = f.clone().into();
    k.write(&p)?;
    compare("const file", &m, &f, &ConstFst::<W>::read(&p)?, true)?;
    compare("const file as vector", &m, &f, &VectorFst::<W>::read_from_const(&p)?, true)?;
    if m.start.is_some() || m.n() == 0 {
        f.write_text(&p)?;
        let t = std::fs::read_to_string(&p).unwrap();
        ensure!(t == f.text()?, "write_text and text differ", "{:?}", t);
        agrees("text file to vector", &VectorFst::<W>::read_text(&p)?, &textual(&m))?;
        k.write_text(&p)?;
        agrees("text file to const", &ConstFst::<W>::read_text(&p)?, &textual(&m))?;
    }
    Ok(())
}

fn large(c: &mut Ctx) -> R {
    let n = 200 + c.below(2000);
    let mut m: RFst<TropicalWeight> = RFst::new(n);
    m.start = Some(c.below(n));
    let d = 1 + c.below(8);
    for s in 0..n {
        for _ in 0..d {
            m.trs[s].push(RTr { il: c.below(100_000) as u32, ol: c.below(70_000) as u32, w: TW::gen(c), n: c.below(n) });
        }
        if c.chance(1, 10) {
            m.fin[s] = Some(TW::gen(c));
        }
    }
    c.note(|| format!("{} states, {} transitions", n, m.ntr()));
    c.nontrivial = m.ntr() > 1000;
    let f = m.vector();
    let k: ConstFst<TropicalWeight> = f.clone().into();
    let p = c.scratch.join("big.fst");
    f.write(&p)?;
    agrees("large vector file", &VectorFst::<TropicalWeight>::read(&p)?, &m)?;
    k.write(&p)?;
    agrees("large const file", &ConstFst::<TropicalWeight>::read(&p)?, &m)?;
    agrees("large const file as vector", &VectorFst::<TropicalWeight>::read_from_const(&p)?, &m)?;
    agrees("large text", &VectorFst::<TropicalWeight>::from_text_string(&f.text()?)?, &textual(&m))?;
    Ok(())
}

fn full_disk(c: &mut Ctx) -> R {
    let (m, f) = machine::<TropicalWeight>(c);
    c.note(|| m.show());
    c.nontrivial = m.n() > 0;
    if !std::path::Path::new("/dev/full").exists() {
        c.nontrivial = false;
        return Ok(());
    }
    let bad = |n: &str, r: anyhow::Result<()>| -> R {
        ensure!(r.is_err(), format!("{}: failed write reported as success", n), "{}: every write to the device failed, yet the call returned Ok", n);
        Ok(())
    };
    bad("vector write", f.write("/dev/full"))?;
    bad("const write", ConstFst::<TropicalWeight>::from(f.clone()).write("/dev/full"))?;
    if !f.text()?.is_empty() {
        bad("write_text", f.write_text("/dev/full"))?;
    }
    let t = gen_symt(c, 3);
    bad("symbol table write", t.write("/dev/full"))?;
    bad("symbol table write_text", t.write_text("/dev/full"))?;
    if f.start().is_some() {
        bad("draw", f.draw("/dev/full", &DrawingConfig::default()))?;
    }
    Ok(())
}

/// The OpenFst binary layout, written from its description and independent of the library.
mod layout {
    use super::*;
    pub struct Out(pub Vec<u8>);
    impl Out {
        pub fn i32(&mut self, v: i32) {
            self.0.extend(v.to_le_bytes())
        }
        pub fn i64(&mut self, v: i64) {
            self.0.extend(v.to_le_bytes())
        }
        pub fn str(&mut self, s: &str) {
            self.i32(s.len() as i32);
            self.0.extend(s.as_bytes())
        }
        pub fn symt(&mut self, t: &[String], avail: i64) {
            self.i32(2125658996);
            self.str("table name");
            self.i64(avail);
            self.i64(t.len() as i64);
            for (i, s) in t.iter().enumerate() {
                self.str(s);
                self.i64(i as i64)
            }
        }
        pub fn pad(&mut self) {
            while self.0.len() % 16 != 0 {
                self.0.push(0)
            }
        }
    }
    pub struct In<'a>(pub &'a [u8]);
    type P<T> = Option<T>;
    impl<'a> In<'a> {
        pub fn take(&mut self, n: usize) -> P<&'a [u8]> {
            if self.0.len() < n {
                return None;
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Some(a)
        }
        pub fn i32(&mut self) -> P<i32> {
            Some(i32::from_le_bytes(self.take(4)?.try_into().ok()?))
        }
        pub fn i64(&mut self) -> P<i64> {
            Some(i64::from_le_bytes(self.take(8)?.try_into().ok()?))
        }
        pub fn f32(&mut self) -> P<f32> {
            Some(f32::from_le_bytes(self.take(4)?.try_into().ok()?))
        }
        pub fn str(&mut self) -> P<String> {
            let n = self.i32()?;
            String::from_utf8(self.take(usize::try_from(n).ok()?)?.to_vec()).ok()
        }
        pub fn symt(&mut self) -> P<Vec<String>> {
            if self.i32()? != 2125658996 {
                return None;
            }
            self.str()?;
            self.i64()?;
            let n = self.i64()?;
            let mut v = vec![None; usize::try_from(n).ok()?.min(10_000)];
            for _ in 0..n {
                let s = self.str()?;
                *v.get_mut(usize::try_from(self.i64()?).ok()?)? = Some(s);
            }
            v.into_iter().collect()
        }
    }
    pub struct File {
        pub m: RFst<TropicalWeight>,
        pub isym: Option<Vec<String>>,
        pub osym: Option<Vec<String>>,
    }
    pub fn decode(data: &[u8], kind: &str, tr_type: &str) -> P<File> {
        let mut i = In(data);
        if i.i32()? != 2125659606 || i.str()? != kind || i.str()? != tr_type {
            return None;
        }
        let version = i.i32()?;
        if version != 2 {
            return None;
        }
        let flags = i.i32()?;
        i.i64()?;
        let start = i.i64()?;
        let n = usize::try_from(i.i64()?).ok()?;
        let narcs = usize::try_from(i.i64()?).ok()?;
        let isym = if flags & 1 != 0 { Some(i.symt()?) } else { None };
        let osym = if flags & 2 != 0 { Some(i.symt()?) } else { None };
        let mut m = RFst::new(n);
        m.start = if start == -1 { None } else { Some(usize::try_from(start).ok()?) };
        let fin = |w: f32| if w == f32::INFINITY { None } else { Some(TropicalWeight::new(w)) };
        let arc = |i: &mut In| -> P<RTr<TropicalWeight>> { Some(RTr { il: i.i32()? as u32, ol: i.i32()? as u32, w: TropicalWeight::new(i.f32()?), n: i.i32()? as usize }) };
        if kind == "vector" {
            for s in 0..n {
                m.fin[s] = fin(i.f32()?);
                for _ in 0..i.i64()? {
                    m.trs[s].push(arc(&mut i)?);
                }
            }
        } else {
            let mut idx = vec![];
            for s in 0..n {
                m.fin[s] = fin(i.f32()?);
                idx.push((i.i32()?, i.i32()?, i.i32()?, i.i32()?));
            }
            let arcs: P<Vec<_>> = (0..narcs).map(|_| arc(&mut i)).collect();
            let arcs = arcs?;
            for (s, (p, k, ie, oe)) in idx.into_iter().enumerate() {
                m.trs[s] = arcs.get(p as usize..p as usize + k as usize)?.to_vec();
                if m.trs[s].iter().filter(|t| t.il == 0).count() != ie as usize || m.trs[s].iter().filter(|t| t.ol == 0).count() != oe as usize {
                    return None;
                }
            }
        }
        if !i.0.is_empty() {
            return None;
        }
        Some(File { m, isym, osym })
    }
    pub fn encode(f: &File, kind: &str, tr_type: &str, aligned: bool, props: u64, avail: i64) -> Vec<u8> {
        let mut o = Out(vec![]);
        let m = &f.m;
        o.i32(2125659606);
        o.str(kind);
        o.str(tr_type);
        o.i32(if aligned { 1 } else { 2 });
        o.i32(f.isym.is_some() as i32 | (f.osym.is_some() as i32) << 1 | if aligned { 4 } else { 0 });
        o.i64(props as i64);
        o.i64(m.start.map_or(-1, |s| s as i64));
        o.i64(m.n() as i64);
        o.i64(m.ntr() as i64);
        for t in [&f.isym, &f.osym].into_iter().flatten() {
            o.symt(t, avail);
        }
        let fin = |s: usize| m.fin[s].as_ref().map_or(f32::INFINITY, |w| *w.value());
        let arc = |o: &mut Out, t: &RTr<TropicalWeight>| {
            o.i32(t.il as i32);
            o.i32(t.ol as i32);
            o.0.extend(t.w.value().to_le_bytes());
            o.i32(t.n as i32);
        };
        if kind == "vector" {
            for s in 0..m.n() {
                o.0.extend(fin(s).to_le_bytes());
                o.i64(m.trs[s].len() as i64);
                m.trs[s].iter().for_each(|t| arc(&mut o, t));
            }
        } else {
            // OpenFst pads before the states and before the arcs, whenever there are any
            if aligned && m.n() > 0 {
                o.pad();
            }
            let mut pos = 0;
            for s in 0..m.n() {
                o.0.extend(fin(s).to_le_bytes());
                o.i32(pos);
                o.i32(m.trs[s].len() as i32);
                o.i32(m.trs[s].iter().filter(|t| t.il == 0).count() as i32);
                o.i32(m.trs[s].iter().filter(|t| t.ol == 0).count() as i32);
                pos += m.trs[s].len() as i32;
            }
            if aligned && m.ntr() > 0 {
                o.pad();
            }
            for s in 0..m.n() {
                m.trs[s].iter().for_each(|t| arc(&mut o, t));
            }
        }
        o.0
    }
}

/// files laid out as OpenFst does, written and read by an independent implementation
fn openfst(c: &mut Ctx) -> R {
    let (m, f) = machine::<TropicalWeight>(c);
    c.note(|| m.show());
    c.nontrivial = m.n() >= 2 && m.ntr() >= 2;
    let list = |t: Option<&Arc<SymbolTable>>| t.map(|t| (0..t.len() as u32).map(|l| t.get_symbol(l).unwrap().to_string()).collect::<Vec<_>>());
    let file = layout::File { m: m.clone(), isym: list(f.input_symbols()), osym: list(f.output_symbols()) };
    let check = |what: &str, d: Option<layout::File>| -> R {
        let d = match d {
            Some(d) => d,
            None => fail!(format!("{}: not in the OpenFst layout", what), "{} cannot be read back by an independent OpenFst reader", what),
        };
        ensure!(d.m.show() == m.show(), format!("{}: contents differ", what), "{} holds {}", what, d.m.show());
        ensure!(d.isym == file.isym && d.osym == file.osym, format!("{}: symbols differ", what), "{:?} {:?}", d.isym, d.osym);
        Ok(())
    };
    let mut buf = vec![];
    f.store(&mut buf)?;
    check("written vector file", layout::decode(&buf, "vector", "standard"))?;
    let k: ConstFst<TropicalWeight> = f.clone().into();
    buf.clear();
    k.store(&mut buf)?;
    check("written const file", layout::decode(&buf, "const", "standard"))?;
    // what OpenFst would write
    let props = if c.bool() { f.properties().bits() } else { 0 };
    let avail = c.below(50) as i64;
    let b = layout::encode(&file, "vector", "standard", false, props | 3, avail);
    let g = VectorFst::<TropicalWeight>::load(&b)?;
    compare("OpenFst vector file", &m, &f, &g, true)?;
    for aligned in [false, true] {
        let b = layout::encode(&file, "const", "standard", aligned, props | 1, avail);
        let what = if aligned { "OpenFst aligned const file" } else { "OpenFst const file" };
        compare(what, &m, &f, &ConstFst::<TropicalWeight>::load(&b)?, true)?;
        let p = c.scratch.join("o.fst");
        if c.chance(1, 50) {
            std::fs::write(&p, &b).unwrap();
            compare(&format!("{} as vector", what), &m, &f, &VectorFst::<TropicalWeight>::read_from_const(&p)?, true)?;
        }
    }
    Ok(())
}
