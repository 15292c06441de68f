//! Symbol tables.
use crate::ctx::*;
use rustfst::prelude::*;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        subs: vec![
            Sub { name: "history", rule: "at least 5 operations, at least one re-insertion or merge", quick: 400_000, thorough: 6_000_000, f: history },
            Sub { name: "round_trip", rule: "table with at least two symbols besides epsilon", quick: 30_000, thorough: 300_000, f: round_trip },
            Sub { name: "equality", rule: "tables of different content", quick: 100_000, thorough: 1_000_000, f: equality },
        ],
    }
}

fn sym(c: &mut Ctx, plain: bool) -> String {
    let pool = ["a", "b", "c", "aa", "ab", "<eps>", "é", "日本語", "0", "1", "-1", "<s>", "#phi", "A", "\u{1F600}", "a\u{301}", "_"];
    let odd = ["x y", "", "t\tt", "n\nn", " ", "\r", "\0"];
    match c.below(10) {
        0 if !plain => c.pick(&odd).to_string(),
        1 | 2 => format!("w{}", c.below(12)),
        3 => { let n = 1 + c.below(300); "z".repeat(n) }
        _ => c.pick(&pool).to_string(),
    }
}

#[derive(Clone)]
struct M(Vec<String>, HashMap<String, u32>);
impl M {
    fn new(eps: bool) -> M {
        let mut m = M(vec![], HashMap::new());
        if eps {
            m.add("<eps>");
        }
        m
    }
    fn add(&mut self, s: &str) -> (u32, bool) {
        if let Some(l) = self.1.get(s) {
            return (*l, false);
        }
        let l = self.0.len() as u32;
        self.0.push(s.to_string());
        self.1.insert(s.to_string(), l);
        (l, true)
    }
}

fn agree<H: std::hash::BuildHasher>(t: &SymbolTable<H>, m: &M, probe: &[String]) -> R {
    ensure!(t.len() == m.0.len() && t.is_empty() == m.0.is_empty(), "len", "{} expected {}", t.len(), m.0.len());
    let it: Vec<(u32, String)> = t.iter().map(|(l, s)| (l, s.to_string())).collect();
    ensure!(it == m.0.iter().enumerate().map(|(i, s)| (i as u32, s.clone())).collect::<Vec<_>>(), "iter", "{:?} expected {:?}", it, m.0);
    ensure!(t.labels().collect::<Vec<_>>() == (0..m.0.len() as u32).collect::<Vec<_>>(), "labels", "labels");
    ensure!(t.symbols().collect::<Vec<_>>() == m.0.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "symbols", "symbols");
    for (i, s) in m.0.iter().enumerate() {
        ensure!(t.get_symbol(i as u32) == Some(s.as_str()) && t.contains_label(i as u32), "get_symbol", "label {}: {:?} expected {:?}", i, t.get_symbol(i as u32), s);
        ensure!(t.get_label(s) == Some(i as u32) && t.contains_symbol(s), "get_label", "symbol {:?}: {:?} expected {}", s, t.get_label(s), i);
    }
    for l in [m.0.len() as u32, m.0.len() as u32 + 1, u32::MAX] {
        ensure!(t.get_symbol(l).is_none() && !t.contains_label(l), "get_symbol of unused label", "label {} -> {:?}", l, t.get_symbol(l));
    }
    for p in probe {
        ensure!(t.get_label(p) == m.1.get(p).copied() && t.contains_symbol(p) == m.1.contains_key(p), "get_label", "symbol {:?}: {:?} expected {:?}", p, t.get_label(p), m.1.get(p));
    }
    Ok(())
}

fn history(c: &mut Ctx) -> R {
    let eps = !c.chance(1, 5);
    let mut t = if eps { SymbolTable::new() } else { SymbolTable::empty() };
    let mut m = M::new(eps);
    let mut log = vec![];
    let n = c.range(1, 30);
    let mut snaps: Vec<(SymbolTable, M)> = vec![];
    let mut again = false;
    let mut res = Ok(());
    for _ in 0..n {
        let mut step = || -> R {
            match c.below(10) {
                0..=5 => {
                    let s = sym(c, false);
                    log.push(format!("add {:?}", s));
                    let l = t.add_symbol(s.clone());
                    let (e, new) = m.add(&s);
                    again |= !new;
                    ensure!(l == e, "add_symbol", "add_symbol({:?}) returned {} expected {}", s, l, e);
                }
                6 => {
                    let k = c.below(4);
                    let v: Vec<String> = (0..k).map(|_| sym(c, false)).collect();
                    log.push(format!("add_symbols {:?}", v));
                    t.add_symbols(v.iter().map(|s| s.as_str()));
                    for s in &v {
                        m.add(s);
                    }
                }
                7 => {
                    let mut o = if c.chance(1, 4) { SymbolTable::empty() } else { SymbolTable::new() };
                    for _ in 0..c.below(5) {
                        o.add_symbol(sym(c, false));
                    }
                    log.push(format!("add_table {:?}", o.symbols().collect::<Vec<_>>()));
                    again = true;
                    t.add_table(&o);
                    for s in o.symbols() {
                        m.add(s);
                    }
                }
                8 => {
                    log.push("clone".into());
                    t.reserve(c.below(20));
                    if snaps.len() < 3 {
                        snaps.push((t.clone(), m.clone()));
                    }
                }
                _ => {
                    log.push("replace by clone".into());
                    t = t.clone();
                }
            }
            let p: Vec<String> = (0..3).map(|_| sym(c, false)).collect();
            agree(&t, &m, &p)
        };
        res = step();
        if res.is_err() {
            break;
        }
    }
    c.note(|| log.join(", "));
    res?;
    for (t, m) in &snaps {
        agree(t, m, &[])?;
    }
    c.nontrivial = n >= 5 && again;
    Ok(())
}

fn table(c: &mut Ctx, plain: bool) -> (SymbolTable, M) {
    let eps = !c.chance(1, 6);
    let mut t = if eps { SymbolTable::new() } else { SymbolTable::empty() };
    let mut m = M::new(eps);
    for _ in 0..c.below(12) {
        let s = sym(c, plain);
        t.add_symbol(s.clone());
        m.add(&s);
    }
    (t, m)
}

fn round_trip(c: &mut Ctx) -> R {
    let p = c.scratch.join("t");
    if c.bool() {
        std::fs::write(&p, vec![b'x'; 9000]).unwrap();
    }
    let (t, m) = table(c, false);
    c.note(|| format!("{:?}", m.0));
    c.nontrivial = m.0.len() >= 3;
    t.write(&p)?;
    let b = SymbolTable::read(&p)?;
    agree(&b, &m, &[])?;
    ensure!(b == t, "binary round trip not equal", "{:?}", m.0);
    // text cannot express symbols with white space
    let (t, m) = table(c, true);
    c.note(|| format!("text {:?}", m.0));
    t.write_text(&p)?;
    let b = SymbolTable::read_text(&p)?;
    agree(&b, &m, &[])?;
    let s = t.text()?;
    ensure!(s == std::fs::read_to_string(&p).unwrap() && s == format!("{}", t), "text forms differ", "{:?}", s);
    let b = SymbolTable::from_text_string(&s)?;
    agree(&b, &m, &[])?;
    ensure!(b == t, "text round trip not equal", "{:?}", m.0);
    let b = SymbolTable::from_text_string(s.trim_end_matches('\n'))?;
    agree(&b, &m, &[])?;
    Ok(())
}

fn equality(c: &mut Ctx) -> R {
    let (a, ma) = table(c, false);
    let (b, mb) = if c.chance(1, 3) {
        // the same table built in a different way
        let mut t = SymbolTable::empty();
        t.reserve(5);
        t.add_table(&a);
        (t, ma.clone())
    } else {
        table(c, false)
    };
    c.note(|| format!("{:?} / {:?}", ma.0, mb.0));
    c.nontrivial = ma.0 != mb.0;
    ensure!((a == b) == (ma.0 == mb.0) && (b == a) == (ma.0 == mb.0), "equality", "{:?} == {:?} is {}", ma.0, mb.0, a == b);
    let mut h = SymbolTable::with_hasher(std::collections::hash_map::RandomState::new());
    let mut mh = M::new(true);
    h.add_table(&a);
    for s in &ma.0 {
        mh.add(s);
    }
    agree(&h, &mh, &[])
}
