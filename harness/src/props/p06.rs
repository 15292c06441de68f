//! Malformed input.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use rustfst::algorithms::lazy::{SerializableCache, SimpleHashMapCache, SimpleVecCache};
use rustfst::fst_impls::ConstFst;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        subs: vec![
            Sub { name: "binary_fst", rule: "a mutated valid file that differs from the original after the header", quick: 800_000, thorough: 20_000_000, f: binary_fst },
            Sub { name: "binary_const_as_vector", rule: "a mutated valid file", quick: 6_000, thorough: 200_000, f: const_as_vector },
            Sub { name: "text_fst", rule: "mutated text with at least two lines", quick: 800_000, thorough: 20_000_000, f: text_fst },
            Sub { name: "binary_symt", rule: "a mutated valid file", quick: 6_000, thorough: 200_000, f: binary_symt },
            Sub { name: "text_symt", rule: "mutated text with at least two lines", quick: 100_000, thorough: 4_000_000, f: text_symt },
            Sub { name: "header", rule: "a file that has to be refused, or a compatible one that has to be read back equal", quick: 150_000, thorough: 6_000_000, f: header },
            Sub { name: "symt_rows", rule: "at least two rows", quick: 20_000, thorough: 800_000, f: symt_rows },
            Sub { name: "lazy_state", rule: "a mutated valid file", quick: 6_000, thorough: 200_000, f: lazy_state },
        ],
    }
}

pub fn mutate_bytes(c: &mut Ctx, b: &mut Vec<u8>, what: &mut String) {
    let n = 1 + c.below(3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(c.below(256) as u8);
            continue;
        }
        let i = c.below(b.len());
        match c.below(8) {
            0 => {
                b[i] ^= 1 << c.below(8);
                what.push_str(&format!(" flip@{}", i));
            }
            1 => {
                b[i] = *c.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc3]);
                what.push_str(&format!(" set@{}", i));
            }
            2 | 3 => {
                let v: i32 = *c.pick(&[-1, 0, 1, 2, 3, 7, i32::MAX, i32::MIN, 1 << 20, 100_000]);
                for (k, x) in v.to_le_bytes().iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
                what.push_str(&format!(" i32({})@{}", v, i));
            }
            4 => {
                let v: i64 = *c.pick(&[-1, 0, 1, 5, i64::MAX, i64::MIN, 1 << 40, u32::MAX as i64]);
                for (k, x) in v.to_le_bytes().iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
                what.push_str(&format!(" i64({})@{}", v, i));
            }
            5 => {
                b.truncate(i);
                what.push_str(&format!(" truncate@{}", i));
            }
            6 => {
                let v = c.below(256) as u8;
                b.insert(i, v);
                what.push_str(&format!(" insert@{}", i));
            }
            _ => {
                b.remove(i);
                what.push_str(&format!(" remove@{}", i));
            }
        }
    }
}

/// everything a user of an accepted FST would touch
pub fn sound<W: Semiring, F: ExpandedFst<W>>(what: &str, f: &F) -> R {
    let n = f.num_states();
    if let Some(s) = f.start() {
        ensure!((s as usize) < n, format!("{}: accepted a start state that does not exist", what), "start {} of {} states", s, n);
    }
    let mut seen = 0;
    for s in f.states_iter() {
        seen += 1;
        let t = f.get_trs(s)?;
        ensure!(t.len() == f.num_trs(s)?, format!("{}: accepted inconsistent transition count", what), "state {}", s);
        for x in t.trs() {
            ensure!((x.nextstate as usize) < n, format!("{}: accepted a transition to a state that does not exist", what), "state {} -> {} of {}", s, x.nextstate, n);
        }
        ensure!(f.num_input_epsilons(s)? == t.trs().iter().filter(|x| x.ilabel == 0).count() && f.num_output_epsilons(s)? == t.trs().iter().filter(|x| x.olabel == 0).count(), format!("{}: accepted inconsistent epsilon counts", what), "state {}", s);
        f.final_weight(s)?;
    }
    ensure!(seen == n, format!("{}: state count", what), "{} / {}", seen, n);
    for d in f.fst_iter() {
        ensure!((d.state_id as usize) < n, format!("{}: fst_iter", what), "state {}", d.state_id);
    }
    Ok(())
}

fn machine<W: TW>(c: &mut Ctx) -> VectorFst<W> {
    let k = Cfg { max_states: 4, labels: 3, eps: 30, ..Default::default() };
    let m: RFst<W> = gen_rfst(c, &k);
    let mut f = m.vector();
    if c.chance(1, 3) {
        let n = c.below(4);
        let t = gen_symt(c, n);
        f.set_input_symbols(Arc::new(t));
    }
    if c.chance(1, 5) {
        let n = c.below(4);
        let t = gen_symt(c, n);
        f.set_output_symbols(Arc::new(t));
    }
    f
}

fn binary_fst(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => bf::<StringWeightLeft>(c),
        1 => bf::<crate::props::p05::GalU>(c),
        _ => bf::<TropicalWeight>(c),
    }
}
fn bf<W: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let f: VectorFst<W> = machine(c);
    let cst = c.bool();
    let mut b = vec![];
    if cst {
        ConstFst::<W>::from(f.clone()).store(&mut b)?;
    } else {
        f.store(&mut b)?;
    }
    let orig = b.clone();
    let mut what = String::new();
    mutate_bytes(c, &mut b, &mut what);
    c.note(|| format!("{} {} file of {} bytes,{}", W::NAME, if cst { "const" } else { "vector" }, orig.len(), what));
    c.nontrivial = b != orig && b.len() > 60 && b[..40] == orig[..40];
    if cst {
        if let Ok(g) = ConstFst::<W>::load(&b) {
            c.tag("accepted");
            sound("const", &g)?;
        }
    } else if let Ok(g) = VectorFst::<W>::load(&b) {
        c.tag("accepted");
        sound("vector", &g)?;
        let mut g = g;
        // a traversal of a machine that was accepted is safe
        connect(&mut g)?;
    }
    Ok(())
}

/// One well-understood flaw in an otherwise valid file: it has to be refused. The same file without
/// the flaw has to be read back equal.
fn header(c: &mut Ctx) -> R {
    match c.below(4) {
        0 => hd::<StringWeightLeft, LogWeight>(c),
        1 => hd::<LogWeight, TropicalWeight>(c),
        2 => hd::<ProbabilityWeight, StringWeightLeft>(c),
        _ => hd::<TropicalWeight, ProbabilityWeight>(c),
    }
}
fn hd<W: TW + SerializableSemiring, V: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let f: VectorFst<W> = machine(c);
    let cst = c.bool();
    let mut b = vec![];
    if cst {
        ConstFst::<W>::from(f.clone()).store(&mut b)?;
    } else {
        f.store(&mut b)?;
    }
    // magic number, kind (length, bytes), transition type (length, bytes), version, flags
    let int = |b: &[u8], p: usize| i32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let kind = 8..8 + int(&b, 4) as usize;
    let tr = kind.end + 4..kind.end + 4 + int(&b, kind.end) as usize;
    let (version, flags) = (tr.end, tr.end + 4);
    let load = |b: &[u8]| -> anyhow::Result<VectorFst<W>> {
        if cst {
            let g = ConstFst::<W>::load(b)?;
            let mut v = VectorFst::new();
            v.add_states(g.num_states());
            for s in g.states_iter() {
                for t in g.get_trs(s)?.trs() {
                    v.add_tr(s, t.clone())?;
                }
                if let Some(w) = g.final_weight(s)? {
                    v.set_final(s, w)?;
                }
            }
            if let Some(s) = g.start() {
                v.set_start(s)?;
            }
            if let Some(t) = g.input_symbols() {
                v.set_input_symbols(t.clone());
            }
            if let Some(t) = g.output_symbols() {
                v.set_output_symbols(t.clone());
            }
            Ok(v)
        } else {
            VectorFst::<W>::load(b)
        }
    };
    let k = if cst { "const" } else { "vector" };
    let mut what = String::new();
    let mut other_weight = false;
    let n = b.len();
    match c.below(9) {
        0 => {
            let i = c.below(4);
            b[i] ^= 1 << c.below(8);
            what.push_str("another magic number");
        }
        1 => {
            let i = kind.start + c.below(kind.len());
            b[i] = b[i].wrapping_add(1 + c.below(20) as u8) & 0x7f;
            if b[i] == 0 { b[i] = b'z'; }
            what.push_str("another kind of machine");
        }
        2 => {
            let i = tr.start + c.below(tr.len());
            b[i] = if b[i] == b'q' { b'r' } else { b'q' };
            what.push_str("another kind of transition");
        }
        3 => {
            let min: i32 = if cst { 1 } else { 2 };
            let v = if c.bool() { min - 1 } else { min - 1 - c.below(1000) as i32 };
            b[version..version + 4].copy_from_slice(&v.to_le_bytes());
            what = format!("version {}", v);
        }
        4 => {
            let bit = 3 + c.below(29);
            b[flags + bit / 8] ^= 1 << (bit % 8);
            what = format!("unknown flag bit {}", bit);
        }
        5 | 6 => {
            let m = if c.bool() { n - 1 - c.below(n.min(12)) } else { c.below(n) };
            b.truncate(m);
            what = format!("cut to {} of {} bytes", m, n);
        }
        7 => other_weight = true,
        _ => {}
    }
    c.note(|| format!("{} {} file of {} bytes: {} | {}", W::NAME, k, n, if other_weight { "read with another weight type" } else { &what }, RFst::from_fst(&f).unwrap().show()));
    c.nontrivial = true;
    if other_weight {
        let ok = if cst { ConstFst::<V>::load(&b).is_ok() } else { VectorFst::<V>::load(&b).is_ok() };
        ensure!(!ok, format!("{} file read with another weight type was accepted", k), "{} as {}", W::NAME, V::NAME);
        let ok = if cst { VectorFst::<W>::load(&b).is_ok() } else { ConstFst::<W>::load(&b).is_ok() };
        ensure!(!ok, format!("{} file accepted as another kind of machine", k), "");
        return Ok(());
    }
    match (what.is_empty(), load(&b)) {
        (true, Ok(g)) => {
            c.tag("intact");
            ensure!(g == f, format!("{} file: read back different", k), "{}", RFst::from_fst(&g).unwrap().show());
            let same = |a: Option<&Arc<SymbolTable>>, b: Option<&Arc<SymbolTable>>| a.map(|t| t.symbols().map(|s| s.to_string()).collect::<Vec<_>>()) == b.map(|t| t.symbols().map(|s| s.to_string()).collect::<Vec<_>>());
            ensure!(same(g.input_symbols(), f.input_symbols()) && same(g.output_symbols(), f.output_symbols()), format!("{} file: read back with other symbol tables", k), "");
        }
        (true, Err(e)) => fail!(format!("{} file: intact file refused", k), "{:?}", e),
        (false, Ok(g)) => fail!(format!("{} file: damaged file accepted", k), "{}: read as {}", what, RFst::from_fst(&g).unwrap().show()),
        (false, Err(_)) => c.tag("refused"),
    }
    Ok(())
}

/// Binary symbol tables with arbitrary rows, alone and inside an FST file: accepted exactly when the labels are 0, 1, 2, ...
/// (a repeated row being harmless), and then read as written.
fn symt_rows(c: &mut Ctx) -> R {
    let n = c.below(7);
    let mut rows: Vec<(String, i64)> = vec![];
    let mut next = 0i64;
    for _ in 0..n {
        if !rows.is_empty() && c.chance(1, 12) {
            let i = c.below(rows.len());
            let r = rows[i].clone();
            rows.push(r);
            continue;
        }
        let l = if c.chance(1, 8) {
            match c.below(5) { 0 => next + 1 + c.below(3) as i64, 1 => next - 1, 2 => -1, 3 => c.below(8) as i64, _ => u32::MAX as i64 }
        } else { next };
        let s = if !rows.is_empty() && c.chance(1, 12) { rows[c.below(rows.len())].0.clone() } else { format!("s{}", rows.len()) };
        rows.push((s, l));
        next += 1;
    }
    let mut exp: Option<Vec<String>> = Some(vec![]);
    for (s, l) in &rows {
        exp = exp.and_then(|mut e| match e.iter().position(|x| x == s) {
            Some(i) => (i as i64 == *l).then_some(e),
            None => { if e.len() as i64 == *l { e.push(s.clone()); Some(e) } else { None } }
        });
    }
    let mut b = vec![];
    b.extend(2_125_658_996i32.to_le_bytes());
    b.extend(4i32.to_le_bytes());
    b.extend(b"name");
    b.extend((rows.len() as i64).to_le_bytes());
    b.extend((rows.len() as i64).to_le_bytes());
    for (s, l) in &rows {
        b.extend((s.len() as i32).to_le_bytes());
        b.extend(s.as_bytes());
        b.extend(l.to_le_bytes());
    }
    let cut = c.chance(1, 10);
    if cut {
        let m = c.below(b.len());
        b.truncate(m);
        exp = None;
    }
    c.note(|| format!("rows {:?}{}", rows, if cut { " cut" } else { "" }));
    c.nontrivial = rows.len() >= 2;
    let got: anyhow::Result<Vec<String>> = if c.chance(1, 3) {
        // inside the header of an empty machine, as input or output table
        let inp = c.bool();
        let mut f: VectorFst<TropicalWeight> = VectorFst::new();
        if inp { f.set_input_symbols(Arc::new(SymbolTable::empty())); } else { f.set_output_symbols(Arc::new(SymbolTable::empty())); }
        let mut whole = vec![];
        f.store(&mut whole)?;
        // the empty table is the last thing in the file of a machine without states
        let mut e = vec![];
        let p = c.scratch.join("e");
        SymbolTable::empty().write(&p)?;
        e.extend(std::fs::read(&p).unwrap());
        ensure!(whole.ends_with(&e), "symbol table inside a machine file: laid out differently", "");
        whole.truncate(whole.len() - e.len());
        whole.extend(&b);
        c.tag("in a machine");
        VectorFst::<TropicalWeight>::load(&whole).map(|g| (if inp { g.input_symbols() } else { g.output_symbols() }).unwrap().symbols().map(|s| s.to_string()).collect())
    } else {
        let p = c.scratch.join("s");
        std::fs::write(&p, &b).unwrap();
        SymbolTable::read(&p).map(|t| t.symbols().map(|s| s.to_string()).collect())
    };
    match (exp, got) {
        (None, Ok(t)) => fail!("symbol table: malformed table accepted", "read as {:?}", t),
        (Some(_), Err(e)) => fail!("symbol table: well-formed table refused", "{:?}", e),
        (Some(e), Ok(t)) => ensure!(t == e, "symbol table: read as a different table", "{:?} instead of {:?}", t, e),
        _ => c.tag("refused"),
    }
    Ok(())
}

fn const_as_vector(c: &mut Ctx) -> R {
    let f: VectorFst<TropicalWeight> = machine(c);
    let mut b = vec![];
    ConstFst::from(f).store(&mut b)?;
    let mut what = String::new();
    mutate_bytes(c, &mut b, &mut what);
    c.note(|| format!("const file of {} bytes,{}", b.len(), what));
    c.nontrivial = true;
    let p = c.scratch.join("x");
    std::fs::write(&p, &b).unwrap();
    if let Ok(g) = VectorFst::<TropicalWeight>::read_from_const(&p) {
        sound("const as vector", &g)?;
    }
    Ok(())
}

fn mutate_text(c: &mut Ctx, s: &str) -> String {
    let mut ch: Vec<char> = s.chars().collect();
    let toks = ["\t", "\n", " ", "0", "7", "-", "x", "é", "\r", "\n\n", "1\t2\t3\t4\n", "5\t1.5\n", "Infinity", "inf", "nan", "4294967295", "99999999999", "1e", ".", "#", "\t\t", "3", "_", ","];
    let n = c.below(4);
    for _ in 0..n {
        let i = c.below(ch.len() + 1);
        match c.below(4) {
            0 => {
                let t = *c.pick(&toks);
                let t: Vec<char> = t.chars().collect();
                ch.splice(i..i, t);
            }
            1 => {
                if i < ch.len() {
                    ch.remove(i);
                }
            }
            2 => ch.truncate(i),
            _ => {
                if i < ch.len() {
                    let t = *c.pick(&toks);
                    let t: Vec<char> = t.chars().collect();
                    ch.splice(i..i + 1, t);
                }
            }
        }
    }
    ch.into_iter().collect()
}

fn digits(s: &str) -> Option<u32> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

const WS: &[char] = &[' ', '\t', '\r', '\n'];

enum Row<W> {
    T(usize, RTr<W>),
    F(usize, W),
    Dead(usize),
}

/// line by line reading of the documented format; None = malformed
fn read_rows<W: SerializableSemiring>(t: &str) -> Option<Vec<Row<W>>> {
    let wt = |s: &str| match W::parse_text(s) {
        Ok(("", w)) => Some(w),
        _ => None,
    };
    let mut v = vec![];
    // white space after the last row is harmless
    let t = t.trim_end_matches(WS);
    for l in t.split('\n') {
        if t.is_empty() {
            break;
        }
        let f: Vec<&str> = l.split('\t').collect();
        v.push(match f.len() {
            1 => Row::F(digits(f[0])? as usize, W::one()),
            2 if f[1] == "Infinity" => Row::Dead(digits(f[0])? as usize),
            2 => Row::F(digits(f[0])? as usize, wt(f[1])?),
            4 | 5 => Row::T(digits(f[0])? as usize, RTr { n: digits(f[1])? as usize, il: digits(f[2])?, ol: digits(f[3])?, w: if f.len() == 5 { wt(f[4])? } else { W::one() } }),
            _ => return None,
        });
    }
    Some(v)
}

fn text_fst(c: &mut Ctx) -> R {
    match c.below(3) {
        0 => tf::<IntegerWeight>(c),
        _ => tf::<TropicalWeight>(c),
    }
}
fn tf<W: TW + SerializableSemiring>(c: &mut Ctx) -> R {
    let f: VectorFst<W> = machine(c);
    let t0 = f.text()?;
    let t = mutate_text(c, &t0);
    c.note(|| format!("{:?}", t));
    // state numbers are taken literally: machines with millions of states are legitimate but slow
    if t.split(|x: char| !x.is_ascii_digit()).any(|x| x.len() > 4 && x.parse::<u64>().map_or(false, |v| v > 100_000 && v <= u32::MAX as u64)) {
        c.tag("skipped: huge state number");
        return Ok(());
    }
    c.nontrivial = t != t0 && t.lines().count() >= 2;
    let v = VectorFst::<W>::from_text_string(&t);
    let k = ConstFst::<W>::from_text_string(&t);
    ensure!(v.is_ok() == k.is_ok(), "text: vector and const disagree on acceptance", "vector {:?} const {:?}", v.is_ok(), k.is_ok());
    if let Ok(v) = &v {
        sound("text vector", v)?;
        sound("text const", k.as_ref().unwrap())?;
    }
    if t.trim_end_matches(WS).contains("\n\n") || t.starts_with(WS) {
        // blank lines: not covered by the format
        return Ok(());
    }
    match (read_rows::<W>(&t), v) {
        (None, Ok(v)) => fail!("text: malformed text accepted", "{:?} was read as {}", t, RFst::from_fst(&v)?.show()),
        (Some(_), Err(e)) => fail!("text: well-formed text refused", "{:?}: {:?}", t, e),
        (Some(rows), Ok(v)) => {
            let g = RFst::from_fst(&v)?;
            let mut n = 0;
            for r in &rows {
                n = n.max(match r {
                    Row::T(s, t) => s.max(&t.n) + 1,
                    Row::F(s, _) => s + 1,
                    Row::Dead(s) => if n == 0 { s + 1 } else { 0 },
                });
            }
            let mut e: RFst<W> = RFst::new(n);
            for r in &rows {
                let s = match r {
                    Row::T(s, t) => { e.trs[*s].push(t.clone()); s }
                    Row::F(s, w) => { e.fin[*s] = Some(w.clone()); s }
                    Row::Dead(s) => s,
                };
                if e.start.is_none() {
                    e.start = Some(*s);
                }
            }
            let nan = |w: &W| w != w;
            let has_nan = e.fin.iter().flatten().any(nan) || e.trs.iter().flatten().any(|t| nan(&t.w));
            ensure!(has_nan || (g.start == e.start && g.fin == e.fin && g.trs == e.trs), "text: read as a different machine", "{:?} was read as {}", t, g.show());
        }
        _ => {}
    }
    Ok(())
}

fn symt_ok(what: &str, t: &SymbolTable) -> R {
    for (i, (l, s)) in t.iter().enumerate() {
        ensure!(l as usize == i && t.get_label(s) == Some(l) && t.get_symbol(l) == Some(s), format!("{}: accepted an inconsistent table", what), "label {} symbol {:?}", l, s);
    }
    ensure!(t.iter().count() == t.len(), format!("{}: accepted an inconsistent table", what), "len");
    Ok(())
}

fn binary_symt(c: &mut Ctx) -> R {
    let n = c.below(6);
    let t = gen_symt(c, n);
    let p = c.scratch.join("s");
    t.write(&p)?;
    let mut b = std::fs::read(&p).unwrap();
    let mut what = String::new();
    mutate_bytes(c, &mut b, &mut what);
    c.note(|| format!("symbol table file of {} bytes,{}", b.len(), what));
    c.nontrivial = true;
    std::fs::write(&p, &b).unwrap();
    if let Ok(t) = SymbolTable::read(&p) {
        c.tag("accepted");
        symt_ok("binary symbol table", &t)?;
    }
    Ok(())
}

fn text_symt(c: &mut Ctx) -> R {
    let n = c.below(6);
    let mut t = SymbolTable::new();
    for i in 0..n {
        t.add_symbol(format!("s{}", i));
    }
    let t0 = t.text()?;
    let s = mutate_text(c, &t0);
    c.note(|| format!("{:?}", s));
    c.nontrivial = s != t0 && s.lines().count() >= 2;
    let r = SymbolTable::from_text_string(&s);
    if let Ok(t) = &r {
        symt_ok("text symbol table", t)?;
    }
    let body = s.trim_end_matches(WS);
    if body.contains("\n\n") || body.starts_with(WS) {
        return Ok(());
    }
    let mut rows: Option<Vec<(String, u32)>> = Some(vec![]);
    if !body.is_empty() {
        for l in body.split('\n') {
            let row = l.find(|x| x == ' ' || x == '\t').and_then(|i| digits(l[i..].trim_start_matches(|x| x == ' ' || x == '\t')).map(|d| (l[..i].to_string(), d)));
            rows = match (rows, row) {
                (Some(mut v), Some(r)) => { v.push(r); Some(v) }
                _ => None,
            };
        }
    }
    // labels must be 0, 1, 2, ... and symbols distinct, a repeated identical line being harmless
    let mut exp: Option<Vec<String>> = Some(vec![]);
    if let Some(v) = &rows {
        for (sy, l) in v {
            exp = exp.and_then(|mut e| match e.iter().position(|x| x == sy) {
                Some(i) => (i as u32 == *l).then_some(e),
                None => { if e.len() as u32 == *l { e.push(sy.clone()); Some(e) } else { None } }
            });
        }
    } else {
        exp = None;
    }
    match (exp, r) {
        (None, Ok(t)) => fail!("symbol table text: malformed text accepted", "{:?} read as {:?}", s, t.iter().collect::<Vec<_>>()),
        (Some(_), Err(e)) => fail!("symbol table text: well-formed text refused", "{:?}: {:?}", s, e),
        (Some(e), Ok(t)) => ensure!(t.symbols().map(|x| x.to_string()).collect::<Vec<_>>() == e, "symbol table text: read as a different table", "{:?} read as {:?}", s, t.iter().collect::<Vec<_>>()),
        _ => {}
    }
    Ok(())
}

fn lazy_state(c: &mut Ctx) -> R {
    use rustfst::algorithms::compose::ComposeFst;
    use rustfst::algorithms::lazy::FstCache;
    let k = Cfg { max_states: 3, labels: 2, ..Default::default() };
    let m: RFst<TropicalWeight> = gen_rfst(c, &k);
    let p = c.scratch.join("cache");
    let vec = c.bool();
    let fill = |put: &mut dyn FnMut(usize)| {
        for s in 0..m.n() {
            put(s)
        }
    };
    let trs = |s: usize| TrsVec(Arc::new(m.trs[s].iter().map(|t| Tr::new(t.il, t.ol, t.w, t.n as StateId)).collect::<Vec<_>>()));
    if vec {
        let ca = SimpleVecCache::<TropicalWeight>::default();
        ca.insert_start(m.start.map(|s| s as StateId));
        fill(&mut |s| {
            ca.insert_trs(s as StateId, trs(s));
            ca.insert_final_weight(s as StateId, m.fin[s]);
        });
        ca.write(&p)?;
    } else {
        let ca = SimpleHashMapCache::<TropicalWeight>::default();
        ca.insert_start(m.start.map(|s| s as StateId));
        fill(&mut |s| {
            ca.insert_trs(s as StateId, trs(s));
            ca.insert_final_weight(s as StateId, m.fin[s]);
        });
        ca.write(&p)?;
    }
    let mut b = std::fs::read(&p).unwrap();
    let mut what = String::new();
    mutate_bytes(c, &mut b, &mut what);
    c.note(|| format!("{} cache of {} bytes,{}", if vec { "vector" } else { "hash map" }, b.len(), what));
    c.nontrivial = true;
    std::fs::write(&p, &b).unwrap();
    if vec {
        if let Ok(x) = SimpleVecCache::<TropicalWeight>::read(&p) {
            x.get_start();
            for s in 0..x.len_trs() { x.get_trs(s as StateId); }
            for s in 0..x.len_final_weights() { x.get_final_weight(s as StateId); }
        }
    } else if let Ok(x) = SimpleHashMapCache::<TropicalWeight>::read(&p) {
        x.get_start();
        for s in 0..10 { x.get_trs(s); x.get_final_weight(s); }
    }
    Ok(())
}
