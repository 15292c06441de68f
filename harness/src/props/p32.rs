//! C32: drawings, parsed back with a small DOT reader.
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use rustfst::fst_traits::{CoreFst, SerializableFst};
use rustfst::prelude::*;
use rustfst::DrawingConfig;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        subs: vec![
            Sub { name: "vector", rule: "the machine has a start state and 2 or more transitions", quick: 240_000, thorough: 4_000_000, f: |c| go(c, false) },
            Sub { name: "const", rule: "the machine has a start state and 2 or more transitions", quick: 80_000, thorough: 1_000_000, f: |c| go(c, true) },
            Sub { name: "large", rule: crate::big::RULE, quick: 8_000, thorough: 80_000, f: |c| crate::big::large(c, |c| match c.below(2) { 0 => go(c, false), _ => go(c, true) }) },
        ],
    }
}

#[derive(Debug, Default, PartialEq, Clone)]
struct Dot {
    graph: BTreeMap<String, String>,
    nodes: Vec<(String, BTreeMap<String, String>)>,
    edges: Vec<(String, String, BTreeMap<String, String>)>,
}

#[derive(Debug, PartialEq, Clone)]
enum Tok {
    Id(String),
    P(char),
    Arrow,
}

/// the part of the DOT grammar a drawing needs; a quoted string keeps its DOT escapes resolved
fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < ch.len() {
        let x = ch[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match ch.get(i) {
                    None => return Err("a string is not closed".into()),
                    Some('"') => break,
                    Some('\\') => {
                        match ch.get(i + 1) {
                            Some('"') => t.push('"'),
                            Some('\\') => t.push('\\'),
                            x => return Err(format!("escape {:?}", x)),
                        }
                        i += 2;
                    }
                    Some(x) => {
                        t.push(*x);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(Tok::Id(t));
        } else if x == '-' && ch.get(i + 1) == Some(&'>') {
            out.push(Tok::Arrow);
            i += 2;
        } else if "{}[]=,;".contains(x) {
            out.push(Tok::P(x));
            i += 1;
        } else if x.is_alphanumeric() || x == '_' || x == '.' || x == '-' {
            let mut t = String::new();
            while i < ch.len() && (ch[i].is_alphanumeric() || "_.-".contains(ch[i])) && !(ch[i] == '-' && ch.get(i + 1) == Some(&'>')) {
                t.push(ch[i]);
                i += 1;
            }
            out.push(Tok::Id(t));
        } else {
            return Err(format!("unexpected {:?}", x));
        }
    }
    Ok(out)
}

fn parse(s: &str) -> Result<Dot, String> {
    let t = tokens(s)?;
    let mut i = 0;
    let mut d = Dot::default();
    macro_rules! id {
        () => {
            match t.get(i) {
                Some(Tok::Id(x)) => {
                    i += 1;
                    x.clone()
                }
                x => return Err(format!("{:?} instead of a name at {}", x, i)),
            }
        };
    }
    macro_rules! p {
        ($c:expr) => {
            if t.get(i) != Some(&Tok::P($c)) {
                return Err(format!("{:?} instead of {:?} at {}", t.get(i), $c, i));
            } else {
                i += 1;
            }
        };
    }
    if id!() != "digraph" {
        return Err("not a digraph".into());
    }
    let _ = id!();
    p!('{');
    while t.get(i) != Some(&Tok::P('}')) {
        let a = id!();
        match t.get(i) {
            Some(Tok::P('=')) => {
                i += 1;
                let v = id!();
                if d.graph.insert(a.clone(), v).is_some() {
                    return Err(format!("{} given twice", a));
                }
            }
            x => {
                let to = if x == Some(&Tok::Arrow) {
                    i += 1;
                    Some(id!())
                } else {
                    None
                };
                let mut at = BTreeMap::new();
                p!('[');
                while t.get(i) != Some(&Tok::P(']')) {
                    let k = id!();
                    p!('=');
                    let v = id!();
                    at.insert(k, v);
                    if t.get(i) == Some(&Tok::P(',')) {
                        i += 1;
                    }
                }
                i += 1;
                match to {
                    Some(b) => d.edges.push((a, b, at)),
                    None => d.nodes.push((a, at)),
                }
            }
        }
        if t.get(i) == Some(&Tok::P(';')) {
            i += 1;
        }
    }
    if i + 1 != t.len() {
        return Err("text after the graph".into());
    }
    Ok(d)
}

const SYMS: &[&str] = &["a", "b", "é", "日本", "x y", ":", "/", "->", "{", "}", "[", "]", ";", "\"", "\\", "\\n", "a\"b", "q\\", "=", "1"];

fn table(c: &mut Ctx) -> SymbolTable {
    let mut s = SymbolTable::new();
    for _ in 0..*c.pick(&[0usize, 2, 4, 4, 4, 5]) {
        s.add_symbol(*c.pick(SYMS));
    }
    s
}

fn go(c: &mut Ctx, constant: bool) -> R {
    match c.below(3) {
        0 => draw::<LogWeight>(c, constant),
        1 => draw::<ProbabilityWeight>(c, constant),
        _ => draw::<TropicalWeight>(c, constant),
    }
}

fn draw<W: TW + SerializableSemiring>(c: &mut Ctx, constant: bool) -> R {
    let k = Cfg { max_states: 5, max_out: 3, labels: 4, zeros: 3, ..Default::default() };
    let r = gen_rfst::<W>(c, &k);
    let mut f = r.vector();
    let ti = if c.bool() { None } else { Some(table(c)) };
    let to = if c.bool() { None } else { Some(table(c)) };
    if let Some(t) = &ti {
        f.set_input_symbols(Arc::new(t.clone()));
    }
    if let Some(t) = &to {
        f.set_output_symbols(Arc::new(t.clone()));
    }
    let cfg = DrawingConfig {
        vertical: c.bool(),
        size: if c.bool() { Some((8.5, *c.pick(&[11.0f32, 0.25]))) } else { None },
        title: c.pick(&["", "t", "été", "a;b", "say \"x\""]).to_string(),
        portrait: c.bool(),
        ranksep: if c.bool() { Some(0.5) } else { None },
        nodesep: if c.bool() { Some(0.25) } else { None },
        fontsize: *c.pick(&[14u32, 7]),
        acceptor: c.bool(),
        show_weight_one: c.bool(),
        print_weight: c.bool(),
    };
    c.note(|| format!("{} with {:?} / {:?}, {:?}", r.show(), ti.as_ref().map(|t| t.symbols().map(|s| s.to_string()).collect::<Vec<_>>()), to.as_ref().map(|t| t.symbols().map(|s| s.to_string()).collect::<Vec<_>>()), cfg));
    let path = c.scratch.join("d.dot");
    let _ = std::fs::remove_file(&path);
    let res = if constant {
        let k: ConstFst<W> = f.clone().into();
        k.draw(&path, &cfg)
    } else {
        f.draw(&path, &cfg)
    };
    let start = match f.start() {
        Some(s) => s,
        None => return Ok(()),
    };
    c.nontrivial = r.ntr() >= 2;
    let name = |t: &Option<SymbolTable>, l: Label| match t {
        None => Some(l.to_string()),
        Some(t) => t.get_symbol(l).map(|s| s.to_string()),
    };
    // what the drawing has to say
    let m = |kv: &[(&str, String)]| kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<BTreeMap<_, _>>();
    let weight = |w: &W| if cfg.print_weight && (cfg.show_weight_one || !w.is_one()) { format!("/{}", w) } else { String::new() };
    let mut want = Dot::default();
    let mut missing = false;
    for s in f.states_iter() {
        let fw = f.final_weight(s)?;
        want.nodes.push((
            s.to_string(),
            m(&[
                ("label", format!("{}{}", s, fw.as_ref().map(weight).unwrap_or_default())),
                ("shape", if fw.is_some() { "doublecircle" } else { "circle" }.to_string()),
                ("style", if s == start { "bold" } else { "solid" }.to_string()),
                ("fontsize", cfg.fontsize.to_string()),
            ]),
        ));
        for t in f.get_trs(s)?.trs() {
            let (i, o) = match (name(&ti, t.ilabel), name(&to, t.olabel)) {
                (Some(i), Some(o)) => (i, o),
                _ => {
                    missing = true;
                    continue;
                }
            };
            let l = if cfg.acceptor { i } else { format!("{}:{}", i, o) };
            want.edges.push((s.to_string(), t.nextstate.to_string(), m(&[("label", l + &weight(&t.weight)), ("fontsize", cfg.fontsize.to_string())])));
        }
    }
    if missing {
        ensure!(res.is_err(), "missing-symbol", "a label without symbol was drawn");
        return Ok(());
    }
    if let Err(e) = res {
        fail!("draw-error", "{:?}", e);
    }
    let text = std::fs::read_to_string(&path).map_err(|e| Fail::new("io", e.to_string()))?;
    let mut got = match parse(&text) {
        Ok(d) => d,
        Err(e) => fail!("not-dot", "the drawing is not a DOT graph: {}\n{}", e, text),
    };
    want.graph = m(&[
        ("rankdir", if cfg.vertical { "BT" } else { "LR" }.to_string()),
        ("label", cfg.title.clone()),
        ("center", "1".to_string()),
        ("orientation", if cfg.portrait { "Portrait" } else { "Landscape" }.to_string()),
    ]);
    if let Some((w, h)) = cfg.size {
        want.graph.insert("size".into(), format!("{},{}", w, h));
    }
    if let Some(x) = cfg.ranksep {
        want.graph.insert("ranksep".into(), x.to_string());
    }
    if let Some(x) = cfg.nodesep {
        want.graph.insert("nodesep".into(), x.to_string());
    }
    for d in [&mut got, &mut want] {
        d.nodes.sort();
        d.edges.sort();
    }
    ensure!(got.graph == want.graph, "graph", "{:?} instead of {:?}", got.graph, want.graph);
    ensure!(got.nodes == want.nodes, "nodes", "{:?} instead of {:?}", got.nodes, want.nodes);
    ensure!(got.edges == want.edges, "edges", "{:?} instead of {:?}", got.edges, want.edges);
    Ok(())
}
