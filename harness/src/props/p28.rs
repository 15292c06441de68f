//! C28: the Python package (and through it the C interface) against the core library, operation by
//! operation over histories of machines and symbol tables.
use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use anyhow::{anyhow, Result};
use rustfst::algorithms::compose::{compose, compose_with_config, ComposeConfig, ComposeFilterEnum, MatcherConfig, SigmaMatcherConfig};
use rustfst::algorithms::compose::matchers::MatcherRewriteMode;
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::randgen::*;
use rustfst::algorithms::replace::replace;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::tr_compares::*;
use rustfst::algorithms::union::union;
use rustfst::algorithms::*;
use rustfst::fst_traits::{CoreFst, ExpandedFst, SerializableFst};
use rustfst::prelude::*;
use rustfst::utils::{acceptor, transducer};
use rustfst::DrawingConfig;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

type T = TropicalWeight;
type V = VectorFst<T>;
type K = ConstFst<T>;

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        subs: vec![
            Sub { name: "algorithms", rule: "at least one operation succeeded on a machine with 2 or more transitions", quick: 25_000, thorough: 500_000, f: algorithms },
            Sub { name: "machines", rule: "at least 3 operations on machines succeeded", quick: 15_000, thorough: 300_000, f: machines },
            Sub { name: "tables", rule: "at least 3 operations on tables succeeded", quick: 10_000, thorough: 150_000, f: tables },
        ],
    }
}

// ---------------------------------------------------------------- the interpreter

struct Py {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
    static HOME: RefCell<bool> = const { RefCell::new(false) };
}

fn copy_dir(from: &std::path::Path, to: &std::path::Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let n = e.file_name();
        if n == "dylib" || n == "__pycache__" {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            copy_dir(&e.path(), &to.join(n));
        } else {
            std::fs::copy(e.path(), to.join(n)).unwrap();
        }
    }
}

fn python() -> &'static str {
    for p in ["/usr/bin/python3", "/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python"] {
        if std::path::Path::new(p).exists() {
            return p;
        }
    }
    "python3"
}

fn spawn(c: &Ctx) -> Py {
    let home = c.scratch.join("py");
    HOME.with(|h| {
        if !*h.borrow() {
            let _ = std::fs::remove_dir_all(&home);
            copy_dir(std::path::Path::new("/repo/rustfst-python/rustfst"), &home.join("rustfst"));
            std::fs::create_dir_all(home.join("rustfst/dylib")).unwrap();
            let so = std::env::current_exe().unwrap().parent().unwrap().join("deps/librustfst_ffi.so");
            std::os::unix::fs::symlink(so, home.join("rustfst/dylib/dylib.so")).unwrap();
            std::fs::write(home.join("driver.py"), include_str!("../../py/driver.py")).unwrap();
            *h.borrow_mut() = true;
        }
    });
    let mut child = Command::new(python())
        .arg("driver.py")
        .current_dir(&home)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONPATH", &home)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Py { child, inp, out }
}

/// None: the interpreter died
fn ask(c: &Ctx, req: &Value) -> Option<Value> {
    PY.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(spawn(c));
        }
        let py = p.as_mut().unwrap();
        let mut line = String::new();
        let sent = writeln!(py.inp, "{}", req).and_then(|_| py.inp.flush()).is_ok();
        if sent && py.out.read_line(&mut line).is_ok() && line.ends_with('\n') {
            return Some(serde_json::from_str(&line).unwrap());
        }
        let mut dead = p.take().unwrap();
        let _ = dead.child.kill();
        let _ = dead.child.wait();
        None
    })
}

// ---------------------------------------------------------------- the model

#[derive(Clone)]
enum M {
    V(V),
    K(K),
}

#[derive(Default)]
struct St {
    f: BTreeMap<usize, M>,
    s: BTreeMap<usize, Arc<SymbolTable>>,
    /// tables that are or were shared with a machine
    shared: BTreeSet<usize>,
    next: usize,
    snext: usize,
    done: usize,
    tables: usize,
    big: bool,
    log: Vec<String>,
}

fn b(w: &T) -> Value {
    json!(w.value().to_bits())
}

fn fb(x: f32) -> Value {
    json!(x.to_bits())
}

fn dtr(t: &Tr<T>) -> Value {
    json!([t.ilabel, t.olabel, b(&t.weight), t.nextstate])
}

fn dsym(s: &SymbolTable) -> Value {
    json!((0..s.len()).map(|i| json!([i, s.get_symbol(i as Label)])).collect::<Vec<_>>())
}

fn dump_any<F: ExpandedFst<T>>(f: &F) -> Value {
    let st: Vec<Value> = (0..f.num_states() as StateId)
        .map(|s| {
            let w = f.final_weight(s).unwrap();
            let trs: Vec<Value> = f.get_trs(s).unwrap().trs().iter().map(dtr).collect();
            json!([w.as_ref().map(b), w.is_some(), f.start() == Some(s), trs.len(), trs])
        })
        .collect();
    json!({"n": f.num_states(), "start": f.start(), "st": st,
           "is": f.input_symbols().map(|s| dsym(s)), "os": f.output_symbols().map(|s| dsym(s))})
}

impl M {
    fn dump(&self) -> Value {
        match self {
            M::V(v) => dump_any(v),
            M::K(k) => dump_any(k),
        }
    }
    fn vec(&self) -> Result<&V> {
        match self {
            M::V(v) => Ok(v),
            _ => Err(anyhow!("not a vector fst")),
        }
    }
    fn vec_mut(&mut self) -> Result<&mut V> {
        match self {
            M::V(v) => Ok(v),
            _ => Err(anyhow!("not a vector fst")),
        }
    }
    fn n(&self) -> usize {
        match self {
            M::V(v) => v.num_states(),
            M::K(k) => k.num_states(),
        }
    }
}

fn hex(x: &[u8]) -> String {
    x.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn bytes(v: &V) -> Vec<u8> {
    let mut o = vec![];
    v.store(&mut o).unwrap();
    o
}

/// Runs one operation on both sides and compares. Returns whether it succeeded.
///   fs/ss  the objects looked at afterwards, hashy: the result may legitimately be numbered differently
fn op(
    c: &mut Ctx,
    st: &mut St,
    name: &'static str,
    args: Value,
    fs: &[usize],
    ss: &[usize],
    hashy: bool,
    model: impl FnOnce(&mut St) -> Result<Value>,
) -> R<bool> {
    let line = format!("{}{}", name, args);
    st.log.push(line.clone());
    let res = ask(c, &json!({"op": name, "a": args, "f": fs, "s": ss, "b": hashy}));
    let res = match res {
        Some(r) => r,
        None => fail!("crash", "the interpreter died in {}", line),
    };
    if let Some(x) = res.get("x") {
        fail!(format!("exception-{}", name), "{} raised {}", line, x);
    }
    let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| model(st)));
    let want = match want {
        Err(_) => {
            ensure!(res.get("e").is_some(), format!("result-{}", name), "{} returned {} where the library panics", line, res);
            c.tag("panic");
            st.f.clear();
            st.s.clear();
            return Ok(false);
        }
        Ok(w) => w,
    };
    let ok = want.is_ok();
    match &want {
        Ok(w) => {
            ensure!(res.get("e").is_none(), format!("result-{}", name), "{} raised {} but the library succeeds", line, res["e"]);
            ensure!(res["r"] == *w, format!("result-{}", name), "{} returned {} but the library {}", line, res["r"], w);
        }
        Err(e) => {
            ensure!(res.get("e").is_some(), format!("result-{}", name), "{} returned {} but the library fails: {:?}", line, res["r"], e);
            c.tag(Box::leak(format!("error-{}", name).into_boxed_str()));
        }
    }
    for i in fs {
        let m = match st.f.get(i) {
            Some(m) => m.clone(),
            None => {
                ensure!(res["F"].get(i.to_string()).is_none(), "object", "{} made an object the library does not", line);
                continue;
            }
        };
        let got = &res["F"][i.to_string()];
        let exp = m.dump();
        if *got == exp {
            continue;
        }
        let same = hashy && {
            // the same machine up to the numbering that hashing decides
            let by = unhex(res["b"][i.to_string()].as_str().unwrap_or(""));
            let g = match V::load(&by) {
                Ok(g) => g,
                Err(e) => fail!("object", "{}: bytes of F{} cannot be read: {:?}", line, i, e),
            };
            let (a, bb) = (RFst::from_fst(m.vec().unwrap())?, RFst::from_fst(&g)?);
            let eq = a.n() == bb.n() && a.ntr() == bb.ntr() && got["is"] == exp["is"] && got["os"] == exp["os"] && dump_any(&g) == *got;
            if eq {
                same_lang(&line, &a, &bb, 4)?;
                st.f.insert(*i, M::V(g));
            }
            eq
        };
        ensure!(same, format!("object-{}", name), "after {} F{} is\n{}\nbut in the library\n{}", line, i, got, exp);
    }
    for i in ss {
        if let Some(s) = st.s.get(i) {
            let got = &res["S"][i.to_string()];
            let exp = dsym(s);
            ensure!(*got == exp, format!("table-{}", name), "after {} S{} is\n{}\nbut in the library\n{}", line, i, got, exp);
        }
    }
    if ok {
        st.done += 1;
        for i in fs {
            if let Some(M::V(v)) = st.f.get(i) {
                if v.states_iter().map(|s| v.num_trs(s).unwrap()).sum::<usize>() >= 2 {
                    st.big = true;
                }
            }
        }
    }
    Ok(ok)
}

// ---------------------------------------------------------------- generation

const SYMS: &[&str] = &["a", "b", "c", "dd", "é", "<x>", "日本", "a_b", "x.y", "1"];

fn gen_syms(c: &mut Ctx) -> Vec<&'static str> {
    let n = *c.pick(&[0usize, 1, 2, 3, 4, 4, 6, 8]);
    let off = c.below(3);
    (0..n).map(|i| if c.chance(1, 6) { *c.pick(SYMS) } else { SYMS[(i + off) % SYMS.len()] }).collect()
}

fn from_symbols(l: &[&str]) -> SymbolTable {
    let mut s = SymbolTable::new();
    for x in l {
        s.add_symbol(*x);
    }
    s
}

fn add_table(c: &mut Ctx, st: &mut St) -> R<usize> {
    let l = gen_syms(c);
    let id = st.snext;
    st.snext += 1;
    op(c, st, "sfrom", json!([id, l]), &[], &[id], false, |st| {
        st.s.insert(id, Arc::new(from_symbols(&l)));
        Ok(Value::Null)
    })?;
    Ok(id)
}

fn add_machine(c: &mut Ctx, st: &mut St) -> R<usize> {
    let k = Cfg {
        max_states: 4,
        max_out: 3,
        labels: 3,
        eps: *c.pick(&[0usize, 20, 40]),
        acyclic: c.chance(5, 6),
        acceptor: c.chance(1, 3),
        unweighted: c.chance(1, 4),
        degenerate: c.chance(1, 8),
        ..Default::default()
    };
    let m: RFst<T> = match c.below(6) {
        0 => det_rfst(c, &k),
        1 => path_union(c, true),
        _ => gen_rfst(c, &k),
    };
    let mut v = realize(c, &m);
    v.take_input_symbols();
    v.take_output_symbols();
    let by = bytes(&v);
    let id = st.next;
    st.next += 1;
    let shown = m.show();
    op(c, st, "frombytes", json!([id, hex(&by)]), &[id], &[], false, |st| {
        st.f.insert(id, M::V(V::load(&by)?));
        Ok(Value::Null)
    })?;
    *st.log.last_mut().unwrap() = format!("F{} = {}", id, shown);
    Ok(id)
}

fn start(c: &mut Ctx) -> R<St> {
    let mut st = St::default();
    if ask(c, &json!({"op": "reset"})).is_none() {
        // died of old age between cases: never the fault of this one
        ask(c, &json!({"op": "reset"}));
    }
    Ok(st_init(&mut st))
}

fn st_init(st: &mut St) -> St {
    std::mem::take(st)
}

fn some_vec(c: &mut Ctx, st: &St) -> Option<usize> {
    let v: Vec<usize> = st.f.iter().filter(|(_, m)| matches!(m, M::V(_)) && m.n() <= 40).map(|(i, _)| *i).collect();
    if v.is_empty() {
        None
    } else {
        Some(*c.pick(&v))
    }
}

fn some_tab(c: &mut Ctx, st: &St) -> Option<usize> {
    let v: Vec<usize> = st.s.keys().copied().collect();
    if v.is_empty() {
        None
    } else {
        Some(*c.pick(&v))
    }
}

fn acyclic(st: &St, f: usize) -> bool {
    match &st.f[&f] {
        M::V(v) => RFst::from_fst(v).map(|r| r.acyclic()).unwrap_or(false),
        _ => false,
    }
}

fn state(c: &mut Ctx, st: &St, f: usize) -> usize {
    let n = st.f[&f].n();
    if n == 0 || c.chance(1, 12) {
        n + c.below(3)
    } else {
        c.below(n)
    }
}

fn gtr(c: &mut Ctx, st: &St, f: usize) -> Tr<T> {
    let n = st.f[&f].n().max(1);
    let k = Cfg::default();
    Tr::new(gen_label(c, &k), gen_label(c, &k), gen_weight::<T>(c, &k), c.below(n) as StateId)
}

fn fin(c: &mut Ctx, st: &mut St) -> R {
    // everything still alive is what it should be
    if st.f.is_empty() && st.s.is_empty() {
        return Ok(());
    }
    let fs: Vec<usize> = st.f.keys().copied().collect();
    let ss: Vec<usize> = st.s.keys().copied().collect();
    op(c, st, "weights", json!([]), &fs, &ss, false, |_| Ok(json!([b(&T::one()), b(&T::zero())])))?;
    Ok(())
}

fn run(c: &mut Ctx, f: impl FnOnce(&mut Ctx, &mut St) -> R) -> R {
    let mut st = start(c)?;
    let r = f(c, &mut st).and_then(|_| fin(c, &mut st));
    let log = st.log.join("\n");
    c.note(|| log);
    if st.big && st.done > 3 || st.tables >= 3 {
        c.nontrivial = true;
    }
    r
}

fn attach(c: &mut Ctx, st: &mut St, f: usize) -> R {
    let s = if c.chance(1, 5) { None } else { some_tab(c, st) };
    let o = c.bool();
    attach_one(c, st, f, s, o)
}

fn attach_one(c: &mut Ctx, st: &mut St, f: usize, s: Option<usize>, o: bool) -> R {
    let name = if o { "symo" } else { "symi" };
    let ss: Vec<usize> = s.into_iter().collect();
    op(c, st, name, json!([f, s]), &[f], &ss, false, |st| {
        let t = s.map(|s| st.s[&s].clone());
        if let Some(s) = s {
            st.shared.insert(s);
        }
        macro_rules! go {
            ($x:expr) => {
                match (t, o) {
                    (Some(t), true) => $x.set_output_symbols(t),
                    (Some(t), false) => $x.set_input_symbols(t),
                    (None, true) => {
                        $x.take_output_symbols();
                    }
                    (None, false) => {
                        $x.take_input_symbols();
                    }
                }
            };
        }
        match st.f.get_mut(&f).unwrap() {
            M::V(v) => go!(v),
            M::K(v) => go!(v),
        }
        Ok(Value::Null)
    })?;
    Ok(())
}

// ---------------------------------------------------------------- algorithms

fn algorithms(c: &mut Ctx) -> R {
    run(c, |c, st| {
        if c.chance(1, 3) {
            add_table(c, st)?;
            add_table(c, st)?;
        }
        for _ in 0..1 + c.below(3) {
            let f = add_machine(c, st)?;
            if !st.s.is_empty() && c.chance(1, 2) {
                attach(c, st, f)?;
            }
        }
        for _ in 0..1 + c.below(5) {
            algo(c, st)?;
        }
        Ok(())
    })
}

fn new_id(st: &mut St) -> usize {
    st.next += 1;
    st.next - 1
}

fn gen_matcher(c: &mut Ctx) -> (Value, MatcherConfig) {
    if c.chance(3, 4) {
        return (Value::Null, MatcherConfig { sigma_matcher_config: None });
    }
    let label = *c.pick(&[3u32, 2, 7]);
    let (mi, mode) = *c.pick(&[
        (0, MatcherRewriteMode::MatcherRewriteAuto),
        (1, MatcherRewriteMode::MatcherRewriteAlways),
        (2, MatcherRewriteMode::MatcherRewriteNever),
    ]);
    let allowed: Option<Vec<Label>> = match c.below(3) {
        0 => None,
        1 => Some(vec![1]),
        _ => Some(vec![2, 1]),
    };
    (
        json!([label, mi, allowed]),
        MatcherConfig { sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: label, rewrite_mode: mode, sigma_allowed_matches: allowed }) },
    )
}

fn algo(c: &mut Ctx, st: &mut St) -> R {
    let f = match some_vec(c, st) {
        Some(f) => f,
        None => return Ok(()),
    };
    let g = some_vec(c, st).unwrap();
    let acy = acyclic(st, f);
    let how = c.below(2);
    let v = |st: &St, f: usize| st.f[&f].vec().cloned();
    match c.below(20) {
        0 | 1 => {
            let h = new_id(st);
            let how = c.below(3);
            if c.chance(2, 3) {
                // make it composable
                op(c, st, "trsort", json!([f, false, how % 2]), &[f], &[], false, |st| {
                    tr_sort(st.f.get_mut(&f).unwrap().vec_mut()?, OLabelCompare {});
                    Ok(Value::Null)
                })?;
                if c.bool() {
                    op(c, st, "trsort", json!([g, true, how % 2]), &[g], &[], false, |st| {
                        tr_sort(st.f.get_mut(&g).unwrap().vec_mut()?, ILabelCompare {});
                        Ok(Value::Null)
                    })?;
                }
            }
            if c.chance(1, 3) {
                op(c, st, "compose", json!([h, f, g, null, how]), &[f, g, h], &[], true, |st| {
                    let r = compose::<T, V, V, _, _, _>(v(st, f)?, v(st, g)?)?;
                    st.f.insert(h, M::V(r));
                    Ok(Value::Null)
                })?;
                return Ok(());
            }
            let filters = [
                ComposeFilterEnum::AutoFilter,
                ComposeFilterEnum::NullFilter,
                ComposeFilterEnum::TrivialFilter,
                ComposeFilterEnum::SequenceFilter,
                ComposeFilterEnum::AltSequenceFilter,
                ComposeFilterEnum::MatchFilter,
                ComposeFilterEnum::NoMatchFilter,
            ];
            let fi = c.below(7);
            let con = c.chance(2, 3);
            let (j1, m1) = gen_matcher(c);
            let (j2, m2) = gen_matcher(c);
            let defaults = c.bool();
            let how = how % 2;
            op(c, st, "compose", json!([h, f, g, [fi, con, j1, j2, defaults], how]), &[f, g, h], &[], true, |st| {
                let cfg = ComposeConfig { compose_filter: filters[fi], connect: con, matcher1_config: m1, matcher2_config: m2 };
                let r = compose_with_config::<T, V, V, _, _, _>(v(st, f)?, v(st, g)?, cfg)?;
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        2 => {
            if f == g {
                return Ok(());
            }
            op(c, st, "concat", json!([f, g, how]), &[f, g], &[], false, |st| {
                let o = v(st, g)?;
                concat(st.f.get_mut(&f).unwrap().vec_mut()?, &o)?;
                Ok(Value::Null)
            })?;
        }
        3 => {
            if f == g {
                return Ok(());
            }
            op(c, st, "union", json!([f, g, how]), &[f, g], &[], false, |st| {
                let o = v(st, g)?;
                union(st.f.get_mut(&f).unwrap().vec_mut()?, &o)?;
                Ok(Value::Null)
            })?;
        }
        4 => {
            let h = new_id(st);
            let (name, is_or) = if c.bool() { ("or", true) } else { ("add", false) };
            op(c, st, name, json!([h, f, g]), &[f, g, h], &[], false, |st| {
                let mut x = v(st, f)?;
                let o = v(st, g)?;
                if is_or {
                    union(&mut x, &o)?;
                } else {
                    concat(&mut x, &o)?;
                }
                st.f.insert(h, M::V(x));
                Ok(Value::Null)
            })?;
        }
        5 => {
            let h = new_id(st);
            let n = c.below(4);
            let l: Vec<usize> = (0..n).map(|_| some_vec(c, st).unwrap()).collect();
            let is_or = c.bool();
            let mut fs = l.clone();
            fs.push(h);
            op(c, st, if is_or { "union_list" } else { "concat_list" }, json!([h, l]), &fs, &[], false, |st| {
                if l.is_empty() {
                    return Err(anyhow!("nothing to combine"));
                }
                let mut x = v(st, l[0])?;
                for g in &l[1..] {
                    let o = v(st, *g)?;
                    if is_or {
                        union(&mut x, &o)?;
                    } else {
                        concat(&mut x, &o)?;
                    }
                }
                st.f.insert(h, M::V(x));
                Ok(Value::Null)
            })?;
        }
        6 => {
            let h = new_id(st);
            op(c, st, "lazyconcat", json!([h, f, g]), &[f, g, h], &[], true, |st| {
                let r: V = ConcatFst::<T, V>::new(v(st, f)?, v(st, g)?)?.compute()?;
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        7 => {
            op(c, st, "connect", json!([f, how]), &[f], &[], false, |st| {
                connect(st.f.get_mut(&f).unwrap().vec_mut()?)?;
                Ok(Value::Null)
            })?;
        }
        8 => {
            if !acy {
                return Ok(());
            }
            let h = new_id(st);
            let (di, ty) = *c.pick(&[
                (0, DeterminizeType::DeterminizeFunctional),
                (1, DeterminizeType::DeterminizeNonFunctional),
                (2, DeterminizeType::DeterminizeDisambiguate),
            ]);
            let d = *c.pick(&[None, Some(1e-3f32), Some(0.75)]);
            let cfg = c.chance(2, 3);
            let j = if cfg { json!([di, d.map(fb)]) } else { Value::Null };
            op(c, st, "det", json!([h, f, j, how]), &[f, h], &[], true, |st| {
                let x = v(st, f)?;
                let r = if cfg {
                    let mut k = DeterminizeConfig::default().with_det_type(ty);
                    if let Some(d) = d {
                        k = k.with_delta(d);
                    }
                    determinize_with_config(&x, k)?
                } else {
                    determinize(&x)?
                };
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        9 => {
            op(c, st, "iso", json!([f, g, how]), &[f, g], &[], false, |st| Ok(json!(isomorphic(&v(st, f)?, &v(st, g)?)?)))?;
        }
        10 => {
            if !acy {
                return Ok(());
            }
            let nd = c.bool();
            let d = *c.pick(&[None, Some(1e-6f32), Some(0.75)]);
            let cfg = c.chance(2, 3);
            let j = if cfg { json!([d.map(fb), nd]) } else { Value::Null };
            op(c, st, "min", json!([f, j, how]), &[f], &[], true, |st| {
                let x = st.f.get_mut(&f).unwrap().vec_mut()?;
                if cfg {
                    let mut k = MinimizeConfig::default().with_allow_nondet(nd);
                    if let Some(d) = d {
                        k = k.with_delta(d);
                    }
                    minimize_with_config(x, k)?;
                } else {
                    minimize(x)?;
                }
                Ok(Value::Null)
            })?;
        }
        11 => {
            op(c, st, "opt", json!([f, how]), &[f], &[], true, |st| {
                optimize(st.f.get_mut(&f).unwrap().vec_mut()?)?;
                Ok(Value::Null)
            })?;
        }
        12 => {
            if !acy {
                return Ok(());
            }
            op(c, st, "optlog", json!([f, how]), &[f], &[], true, |st| {
                let x = v(st, f)?;
                let mut l: VectorFst<LogWeight> = weight_convert(&x, &mut weight_converters::SimpleWeightConverter {})?;
                optimize(&mut l)?;
                let r: V = weight_convert(&l, &mut weight_converters::SimpleWeightConverter {})?;
                st.f.insert(f, M::V(r));
                Ok(Value::Null)
            })?;
        }
        13 => {
            let t = c.below(2);
            let how = c.below(3);
            op(c, st, "project", json!([f, t, how]), &[f], &[], false, |st| {
                project(st.f.get_mut(&f).unwrap().vec_mut()?, if t == 0 { ProjectType::ProjectInput } else { ProjectType::ProjectOutput });
                Ok(Value::Null)
            })?;
        }
        14 => {
            let h = new_id(st);
            let n = 1 + c.below(4);
            let seed = c.below(1000);
            let ml = if acy && c.bool() { None } else { Some(c.below(6)) };
            let (w, r) = (c.bool(), c.bool());
            op(c, st, "randgen", json!([h, f, n, seed, ml, w, r]), &[f, h], &[], false, |st| {
                let k = RandGenConfig::new(UniformTrSelector::from_seed(seed as u64))
                    .with_npath(n)
                    .with_weighted(w)
                    .with_max_length(ml.unwrap_or(2147483647))
                    .with_remove_total_weight(r);
                let x: V = randgen_with_config(&v(st, f)?, k)?;
                st.f.insert(h, M::V(x));
                Ok(Value::Null)
            })?;
        }
        15 => {
            let h = new_id(st);
            let mut pairs = vec![(100u32, f)];
            for l in 1..4u32 {
                if c.chance(1, 3) {
                    pairs.push((l, some_vec(c, st).unwrap()));
                }
            }
            // no rule may lead back to itself
            let mut refs: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
            for (l, f) in &pairs {
                let r = RFst::from_fst(st.f[f].vec().unwrap())?;
                refs.insert(*l, r.labels().1.into_iter().filter(|x| pairs.iter().any(|(l, _)| l == x)).collect());
            }
            for _ in 0..5 {
                for l in refs.keys().copied().collect::<Vec<_>>() {
                    let more: BTreeSet<u32> = refs[&l].iter().flat_map(|x| refs[x].iter().copied()).collect();
                    refs.get_mut(&l).unwrap().extend(more);
                }
            }
            if refs.iter().any(|(l, r)| r.contains(l)) {
                return Ok(());
            }
            let eps = c.bool();
            let root = if c.chance(1, 12) { 99u32 } else { 100 };
            let mut fs: Vec<usize> = pairs.iter().map(|p| p.1).collect();
            fs.push(h);
            op(c, st, "replace", json!([h, root, pairs, eps, how]), &fs, &[], true, |st| {
                let mut l: Vec<(Label, V)> = Vec::new();
                for (k, f) in &pairs {
                    l.push((*k, v(st, *f)?));
                }
                let r = replace::<T, V, V, V>(l, root, eps)?;
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        16 => {
            let h = new_id(st);
            op(c, st, "reverse", json!([h, f, how]), &[f, h], &[], false, |st| {
                let r: V = reverse(&v(st, f)?)?;
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        17 => {
            op(c, st, "rmeps", json!([f, how]), &[f], &[], false, |st| {
                rm_epsilon(st.f.get_mut(&f).unwrap().vec_mut()?)?;
                Ok(Value::Null)
            })?;
        }
        18 => {
            let h = new_id(st);
            let n = *c.pick(&[1usize, 2, 3, 6]);
            let u = acy && c.bool();
            let d = *c.pick(&[None, Some(1e-6f32), Some(0.5)]);
            let cfg = c.chance(2, 3);
            let j = if cfg { json!([n, u, d.map(fb)]) } else { Value::Null };
            op(c, st, "sp", json!([h, f, j, how]), &[f, h], &[], true, |st| {
                let x = v(st, f)?;
                let r: V = if cfg {
                    let mut k = ShortestPathConfig::default().with_nshortest(n).with_unique(u);
                    if let Some(d) = d {
                        k = k.with_delta(d);
                    }
                    shortest_path_with_config(&x, k)?
                } else {
                    shortest_path(&x)?
                };
                st.f.insert(h, M::V(r));
                Ok(Value::Null)
            })?;
        }
        _ => match c.below(3) {
            0 => {
                op(c, st, "topsort", json!([f, how]), &[f], &[], false, |st| {
                    top_sort(st.f.get_mut(&f).unwrap().vec_mut()?)?;
                    Ok(Value::Null)
                })?;
            }
            1 => {
                let i = c.bool();
                op(c, st, "trsort", json!([f, i, how]), &[f], &[], false, |st| {
                    let x = st.f.get_mut(&f).unwrap().vec_mut()?;
                    if i {
                        tr_sort(x, ILabelCompare {});
                    } else {
                        tr_sort(x, OLabelCompare {});
                    }
                    Ok(Value::Null)
                })?;
            }
            _ => {
                op(c, st, "trunique", json!([f, how]), &[f], &[], false, |st| {
                    tr_unique(st.f.get_mut(&f).unwrap().vec_mut()?);
                    Ok(Value::Null)
                })?;
            }
        },
    }
    Ok(())
}

fn null() -> Value {
    Value::Null
}

// ---------------------------------------------------------------- machines

fn machines(c: &mut Ctx) -> R {
    run(c, |c, st| {
        for _ in 0..2 {
            add_table(c, st)?;
        }
        let n = *c.pick(&[0usize, 1, 1, 1, 2, 2]);
        for _ in 0..n {
            add_machine(c, st)?;
        }
        for _ in 0..3 + c.below(12) {
            machine_op(c, st)?;
        }
        Ok(())
    })
}

fn any_fst(c: &mut Ctx, st: &St) -> Option<usize> {
    let v: Vec<usize> = st.f.keys().copied().collect();
    if v.is_empty() {
        None
    } else {
        Some(*c.pick(&v))
    }
}

fn or_error<A>(r: Result<A>, f: impl FnOnce(A) -> Value) -> Value {
    match r {
        Ok(a) => f(a),
        Err(_) => json!("error"),
    }
}

fn query<F: ExpandedFst<T>>(f: &F, s: StateId) -> Value {
    json!([
        or_error(f.final_weight(s), |w| json!(w.as_ref().map(b))),
        or_error(f.is_final(s), |x| json!(x)),
        json!(f.is_start(s)),
        or_error(f.num_trs(s), |x| json!(x)),
        or_error(f.get_trs(s), |x| json!(x.trs().iter().map(dtr).collect::<Vec<_>>())),
        json!(f.start()),
    ])
}

fn draw_model<F: ExpandedFst<T> + SerializableFst<T>>(f: &F, path: &std::path::Path, cfg: &DrawingConfig) -> Result<Value> {
    f.draw(path, cfg)?;
    Ok(json!(std::fs::read_to_string(path)?))
}

fn machine_op(c: &mut Ctx, st: &mut St) -> R {
    if some_vec(c, st).is_none() || c.chance(1, 14) {
        let f = new_id(st);
        op(c, st, "new", json!([f]), &[f], &[], false, |st| {
            st.f.insert(f, M::V(V::new()));
            Ok(Value::Null)
        })?;
        return Ok(());
    }
    let f = some_vec(c, st).unwrap();
    if st.f[&f].n() == 0 && c.chance(2, 3) {
        op(c, st, "add_state", json!([f]), &[f], &[], false, |st| Ok(json!(st.f.get_mut(&f).unwrap().vec_mut()?.add_state())))?;
        return Ok(());
    }
    let a = any_fst(c, st).unwrap();
    let dir = c.scratch.clone();
    let path = |n: &str| dir.join(n).to_str().unwrap().to_string();
    match c.below(24) {
        0 | 1 => {
            op(c, st, "add_state", json!([f]), &[f], &[], false, |st| Ok(json!(st.f.get_mut(&f).unwrap().vec_mut()?.add_state())))?;
        }
        2..=4 => {
            let s = state(c, st, f);
            let t = gtr(c, st, f);
            op(c, st, "add_tr", json!([f, s, dtr(&t)]), &[f], &[], false, |st| {
                st.f.get_mut(&f).unwrap().vec_mut()?.add_tr(s as StateId, t)?;
                Ok(Value::Null)
            })?;
        }
        5 => {
            let s = state(c, st, f);
            op(c, st, "set_start", json!([f, s]), &[f], &[], false, |st| {
                st.f.get_mut(&f).unwrap().vec_mut()?.set_start(s as StateId)?;
                Ok(Value::Null)
            })?;
        }
        6 => {
            let s = state(c, st, f);
            let w = if c.chance(1, 3) { None } else { Some(gen_weight::<T>(c, &Cfg::default())) };
            op(c, st, "set_final", json!([f, s, w.as_ref().map(b)]), &[f], &[], false, |st| {
                st.f.get_mut(&f).unwrap().vec_mut()?.set_final(s as StateId, w.unwrap_or_else(T::one))?;
                Ok(Value::Null)
            })?;
        }
        7 => {
            let s = state(c, st, f);
            op(c, st, "unset_final", json!([f, s]), &[f], &[], false, |st| {
                st.f.get_mut(&f).unwrap().vec_mut()?.delete_final_weight(s as StateId)?;
                Ok(Value::Null)
            })?;
        }
        8 => {
            if c.chance(3, 4) {
                return Ok(());
            }
            op(c, st, "delete_states", json!([f]), &[f], &[], false, |st| {
                st.f.get_mut(&f).unwrap().vec_mut()?.del_all_states();
                Ok(Value::Null)
            })?;
        }
        9 => {
            let s = state(c, st, a);
            op(c, st, "query", json!([a, s]), &[a], &[], false, |st| {
                Ok(match &st.f[&a] {
                    M::V(v) => query(v, s as StateId),
                    M::K(v) => query(v, s as StateId),
                })
            })?;
        }
        10 => {
            let s = state(c, st, a);
            let k = c.below(4);
            op(c, st, "walk", json!([a, s, k]), &[a], &[], false, |st| {
                let t: Vec<Value> = match &st.f[&a] {
                    M::V(v) => v.get_trs(s as StateId)?.trs().iter().map(dtr).collect(),
                    M::K(v) => v.get_trs(s as StateId)?.trs().iter().map(dtr).collect(),
                };
                Ok(json!([t[..k.min(t.len())], t, true, true, [t, t, true]]))
            })?;
        }
        11 | 12 => {
            let s = state(c, st, f);
            let mut steps = Vec::new();
            let mut prog: Vec<(u8, Option<Tr<T>>)> = Vec::new();
            for _ in 0..1 + c.below(6) {
                match c.below(6) {
                    0 | 1 => {
                        steps.push(json!(["v"]));
                        prog.push((0, None));
                    }
                    2 | 3 => {
                        steps.push(json!(["n"]));
                        prog.push((1, None));
                    }
                    4 if c.chance(1, 3) => {
                        steps.push(json!(["r"]));
                        prog.push((2, None));
                    }
                    _ => {
                        let t = gtr(c, st, f);
                        steps.push(json!(["s", dtr(&t)]));
                        prog.push((3, Some(t)));
                    }
                }
            }
            // judged up to the end of the list: what follows it is unspecified
            let len = match st.f[&f].vec().unwrap().num_trs(s as StateId) {
                Ok(n) => n,
                Err(_) => 0,
            };
            let mut i = 0usize;
            let mut keep = 0;
            for (k, _) in &prog {
                match k {
                    1 => i += 1,
                    2 => i = 0,
                    _ => {}
                }
                if i > len {
                    break;
                }
                keep += 1;
            }
            prog.truncate(keep);
            steps.truncate(keep);
            op(c, st, "mut", json!([f, s, steps]), &[f], &[], false, |st| {
                let x = st.f.get_mut(&f).unwrap().vec_mut()?;
                let mut it = x.tr_iter_mut(s as StateId)?;
                let mut out = Vec::new();
                let mut i = 0;
                for (k, t) in prog {
                    match k {
                        0 => out.push(json!([i == it.len(), it.get(i).map(dtr)])),
                        1 => i += 1,
                        2 => i = 0,
                        _ => out.push(or_error(it.set_tr(i, t.unwrap()), |_| Value::Null)),
                    }
                }
                Ok(json!(out))
            })?;
        }
        13 => {
            let g = any_fst(c, st).unwrap();
            op(c, st, "eq", json!([a, g]), &[a, g], &[], false, |st| {
                let e = match (&st.f[&a], &st.f[&g]) {
                    (M::V(x), M::V(y)) => x == y,
                    (M::K(x), M::K(y)) => x == y,
                    _ => return Err(anyhow!("different kinds of machines")),
                };
                Ok(json!([e, e]))
            })?;
        }
        14 => {
            let h = new_id(st);
            op(c, st, "copy", json!([h, a]), &[a, h], &[], false, |st| {
                let x = st.f[&a].clone();
                st.f.insert(h, x);
                Ok(Value::Null)
            })?;
        }
        15 | 16 => attach(c, st, a)?,
        17 => {
            let ss: Vec<usize> = st.s.keys().copied().collect();
            if ss.is_empty() {
                return Ok(());
            }
            if c.chance(2, 3) {
                for o in [false, true] {
                    let t = some_tab(c, st);
                    attach_one(c, st, f, t, o)?;
                }
            }
            let oi = if c.bool() { None } else { Some(*c.pick(&ss)) };
            let oo = if c.bool() { None } else { Some(*c.pick(&ss)) };
            let (ni, no) = (*c.pick(&ss), *c.pick(&ss));
            let (ai, ao) = (c.bool(), c.bool());
            op(c, st, "relabel", json!([f, oi, ni, ai, oo, no, ao]), &[f], &ss, false, |st| {
                let g = |i: Option<usize>| i.map(|i| st.s[&i].clone());
                let (xi, xo) = (g(oi), g(oo));
                let (yi, yo) = (st.s[&ni].clone(), st.s[&no].clone());
                st.shared.insert(ni);
                st.shared.insert(no);
                st.f.get_mut(&f).unwrap().vec_mut()?.relabel_tables(xi.as_ref(), &yi, ai, xo.as_ref(), &yo, ao)?;
                Ok(Value::Null)
            })?;
        }
        18 => {
            let si = if c.chance(2, 3) { None } else { some_tab(c, st) };
            let so = if c.chance(2, 3) { None } else { some_tab(c, st) };
            let cfg = DrawingConfig {
                vertical: c.bool(),
                size: if c.bool() { Some((8.5, *c.pick(&[11.0f32, 0.0]))) } else { None },
                title: c.pick(&["", "t", "été"]).to_string(),
                portrait: c.bool(),
                ranksep: if c.bool() { Some(0.5) } else { None },
                nodesep: if c.bool() { Some(0.25) } else { None },
                fontsize: *c.pick(&[14u32, 7]),
                acceptor: c.bool(),
                show_weight_one: c.bool(),
                print_weight: c.bool(),
            };
            // a size is only complete with both measures
            let (w, h) = match cfg.size {
                Some((w, h)) => (Some(w), Some(h)),
                None => match c.below(3) {
                    0 => (None, None),
                    1 => (Some(3.0f32), None),
                    _ => (None, Some(3.0f32)),
                },
            };
            let j = json!([cfg.acceptor, cfg.title, w, h, cfg.portrait, cfg.vertical, cfg.ranksep, cfg.nodesep, cfg.fontsize, cfg.show_weight_one, cfg.print_weight]);
            let mut ss = vec![];
            ss.extend(si);
            ss.extend(so);
            let p = path("a.dot");
            let mine = dir.join("b.dot");
            op(c, st, "draw", json!([a, p, si, so, j]), &[a], &ss, false, |st| {
                let mut m = st.f[&a].clone();
                macro_rules! go {
                    ($x:expr) => {{
                        if let Some(s) = si {
                            $x.set_input_symbols(st.s[&s].clone());
                        }
                        if let Some(s) = so {
                            $x.set_output_symbols(st.s[&s].clone());
                        }
                        draw_model($x, &mine, &cfg)
                    }};
                }
                match &mut m {
                    M::V(x) => go!(x),
                    M::K(x) => go!(x),
                }
            })?;
        }
        19 => {
            // write here, read there, and the other way round
            let p = if c.chance(1, 10) { path("nodir/x.fst") } else { path("x.fst") };
            let p2 = p.clone();
            let ok = op(c, st, "write", json!([a, p]), &[a], &[], false, |st| {
                match &st.f[&a] {
                    M::V(x) => x.write(format!("{}.m", p2))?,
                    M::K(x) => x.write(format!("{}.m", p2))?,
                }
                Ok(Value::Null)
            })?;
            if ok {
                let (x, y) = (std::fs::read(&p).unwrap(), std::fs::read(format!("{}.m", p)).unwrap());
                ensure!(x == y, "file", "write F{} wrote other bytes than the library", a);
                let h = new_id(st);
                let is_k = matches!(st.f[&a], M::K(_));
                let name = if c.chance(1, 8) != is_k { "cread" } else { "read" };
                op(c, st, name, json!([h, p]), &[h], &[], false, |st| {
                    let m = if name == "read" { M::V(V::read(&p)?) } else { M::K(K::read(&p)?) };
                    st.f.insert(h, m);
                    Ok(Value::Null)
                })?;
            }
        }
        20 => {
            let h = new_id(st);
            let p = path("k.fst");
            let k: K = st.f[&f].vec().unwrap().clone().into();
            k.write(&p).unwrap();
            op(c, st, "cread", json!([h, p]), &[h], &[], false, |st| {
                st.f.insert(h, M::K(K::read(&p)?));
                Ok(Value::Null)
            })?;
        }
        21 => {
            let ok = op(c, st, "tobytes", json!([f]), &[f], &[], false, |st| Ok(json!(hex(&bytes(st.f[&f].vec()?)))))?;
            if ok && c.bool() {
                let mut by = bytes(st.f[&f].vec().unwrap());
                match c.below(3) {
                    0 => {
                        let n = c.below(by.len());
                        by.truncate(n);
                    }
                    1 => {
                        let i = c.below(20.min(by.len()));
                        by[i] ^= 1 << c.below(8);
                    }
                    _ => {}
                }
                let h = new_id(st);
                op(c, st, "frombytes", json!([h, hex(&by)]), &[h], &[], false, |st| {
                    st.f.insert(h, M::V(V::load(&by)?));
                    Ok(Value::Null)
                })?;
            }
        }
        22 => {
            op(c, st, "str", json!([a]), &[a], &[], false, |st| {
                Ok(json!(match &st.f[&a] {
                    M::V(x) => format!("{}", x),
                    M::K(x) => format!("{}", x),
                }))
            })?;
        }
        _ => {
            if !acyclic(st, f) {
                return Ok(());
            }
            if c.chance(3, 4) {
                for o in [false, true] {
                    let t = some_tab(c, st);
                    attach_one(c, st, f, t, o)?;
                }
            }
            op(c, st, "paths", json!([f, 12]), &[f], &[], false, |st| {
                let x = st.f[&f].vec()?;
                let mut it = x.string_paths_iter()?;
                let mut out = Vec::new();
                while out.len() < 12 {
                    match it.next() {
                        None => {
                            out.push(json!("done"));
                            break;
                        }
                        Some(p) => out.push(json!([or_error(p.istring(), |s| json!(s)), or_error(p.ostring(), |s| json!(s)), b(p.weight())])),
                    }
                }
                Ok(json!(out))
            })?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tables, transitions

fn tables(c: &mut Ctx) -> R {
    run(c, |c, st| {
        add_table(c, st)?;
        if c.chance(1, 3) {
            add_machine(c, st)?;
        }
        for _ in 0..3 + c.below(10) {
            if table_op(c, st)? {
                st.tables += 1;
            }
        }
        Ok(())
    })
}

fn words(c: &mut Ctx, st: &St, s: usize) -> String {
    let n = 1 + c.below(4);
    let t = st.s[&s].clone();
    (0..n)
        .map(|_| {
            if c.chance(1, 12) {
                c.pick(SYMS).to_string()
            } else {
                t.get_symbol(c.below(t.len().max(1)) as Label).unwrap_or("a").to_string()
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// adding to a table that machines share may be refused; otherwise it must do what the library does
fn add_op(c: &mut Ctx, st: &mut St, name: &'static str, args: Value, s: usize, ss: &[usize], f: impl FnOnce(&mut SymbolTable) -> Value) -> R<bool> {
    if !st.shared.contains(&s) {
        return op(c, st, name, args, &[], ss, false, |st| Ok(f(Arc::make_mut(st.s.get_mut(&s).unwrap()))));
    }
    let line = format!("{}{}", name, args);
    st.log.push(line.clone());
    let fs: Vec<usize> = st.f.keys().copied().collect();
    let res = match ask(c, &json!({"op": name, "a": args, "f": fs, "s": ss, "b": false})) {
        Some(r) => r,
        None => fail!("crash", "the interpreter died in {}", line),
    };
    ensure!(res.get("x").is_none(), format!("exception-{}", name), "{} raised {}", line, res["x"]);
    if res.get("e").is_none() {
        let w = f(Arc::make_mut(st.s.get_mut(&s).unwrap()));
        ensure!(res["r"] == w, format!("result-{}", name), "{} returned {} but the library {}", line, res["r"], w);
    }
    for i in fs {
        let got = &res["F"][i.to_string()];
        let exp = st.f[&i].dump();
        ensure!(*got == exp, format!("object-{}", name), "after {} F{} is\n{}\nbut in the library\n{}", line, i, got, exp);
    }
    for i in ss {
        let got = &res["S"][i.to_string()];
        let exp = dsym(&st.s[i]);
        ensure!(*got == exp, format!("table-{}", name), "after {} S{} is\n{}\nbut in the library\n{}", line, i, got, exp);
    }
    Ok(true)
}

fn table_op(c: &mut Ctx, st: &mut St) -> R<bool> {
    if st.s.is_empty() || c.chance(1, 10) {
        let id = st.snext;
        if c.bool() {
            add_table(c, st)?;
            return Ok(true);
        }
        st.snext += 1;
        return op(c, st, "snew", json!([id]), &[], &[id], false, |st| {
            st.s.insert(id, Arc::new(SymbolTable::new()));
            Ok(Value::Null)
        });
    }
    let s = some_tab(c, st).unwrap();
    let t = some_tab(c, st).unwrap();
    let dir = c.scratch.clone();
    match c.below(15) {
        0..=2 => {
            let x = *c.pick(SYMS);
            add_op(c, st, "sadd", json!([s, x]), s, &[s], |t| json!(t.add_symbol(x)))
        }
        3 => {
            if s == t {
                return Ok(false);
            }
            let other = st.s[&t].clone();
            add_op(c, st, "saddt", json!([s, t]), s, &[s, t], |x| {
                x.add_table(&other);
                Value::Null
            })
        }
        4 => {
            let n = st.snext;
            st.snext += 1;
            op(c, st, "scopy", json!([n, s]), &[], &[s, n], false, |st| {
                let x = SymbolTable::clone(&st.s[&s]);
                st.s.insert(n, Arc::new(x));
                Ok(Value::Null)
            })
        }
        5 => {
            let k = c.below(st.s[&s].len() + 2);
            op(c, st, "sfind", json!([s, k]), &[], &[s], false, |st| Ok(json!(st.s[&s].get_symbol(k as Label).ok_or_else(|| anyhow!("none"))?)))
        }
        6 => {
            let x = if c.chance(1, 6) { "<eps>" } else { *c.pick(SYMS) };
            op(c, st, "sfind", json!([s, x]), &[], &[s], false, |st| Ok(json!(st.s[&s].get_label(x).ok_or_else(|| anyhow!("none"))?)))
        }
        7 => {
            let k = c.below(st.s[&s].len() + 2);
            let x = *c.pick(SYMS);
            op(c, st, "smember", json!([s, k]), &[], &[s], false, |st| Ok(json!(st.s[&s].contains_label(k as Label))))?;
            op(c, st, "smember", json!([s, x]), &[], &[s], false, |st| Ok(json!(st.s[&s].contains_symbol(x))))
        }
        8 => op(c, st, "snum", json!([s]), &[], &[s], false, |st| Ok(json!(st.s[&s].len()))),
        9 => op(c, st, "seq", json!([s, t]), &[], &[s, t], false, |st| {
            let e = st.s[&s] == st.s[&t];
            Ok(json!([e, e]))
        }),
        10 => {
            let bin = c.bool();
            let p = dir.join("t.sym").to_str().unwrap().to_string();
            let q = format!("{}.m", p);
            let ok = op(c, st, "swrite", json!([s, p, bin]), &[], &[s], false, |st| {
                if bin {
                    st.s[&s].write(&q)?;
                } else {
                    st.s[&s].write_text(&q)?;
                }
                Ok(Value::Null)
            })?;
            if !ok {
                return Ok(false);
            }
            let (x, y) = (std::fs::read(&p).unwrap(), std::fs::read(&q).unwrap());
            if bin {
                ensure!(x.len() == y.len(), "file", "swrite wrote other bytes than the library");
            } else {
                ensure!(x == y, "file", "swrite wrote other text than the library");
            }
            let rb = if c.chance(1, 8) { !bin } else { bin };
            let missing = c.chance(1, 12);
            let p = if missing { format!("{}.none", p) } else { p };
            let n = st.snext;
            st.snext += 1;
            op(c, st, "sread", json!([n, p, rb]), &[], &[n], false, |st| {
                let x = if rb { SymbolTable::read(&p)? } else { SymbolTable::read_text(&p)? };
                st.s.insert(n, Arc::new(x));
                Ok(Value::Null)
            })
        }
        11 => {
            let h = new_id(st);
            let w = if c.bool() { None } else { Some(gen_weight::<T>(c, &Cfg::default())) };
            if c.below(6) == 0 {
                return op(c, st, "epsmachine", json!([h, w.as_ref().map(b)]), &[h], &[], false, |st| {
                    let mut r: V = rustfst::utils::epsilon_machine()?;
                    if let Some(w) = w {
                        r.set_final(0, w)?;
                    }
                    st.f.insert(h, M::V(r));
                    Ok(Value::Null)
                });
            }
            let x = words(c, st, s);
            if c.bool() {
                op(c, st, "acceptor", json!([h, x, s, w.as_ref().map(b)]), &[h], &[s], false, |st| {
                    let l = labels(&st.s[&s], &x)?;
                    let r: V = acceptor(&l, w.unwrap_or_else(T::one));
                    st.f.insert(h, M::V(r));
                    Ok(Value::Null)
                })
            } else {
                let y = words(c, st, t);
                op(c, st, "transducer", json!([h, x, y, s, t, w.as_ref().map(b)]), &[h], &[s, t], false, |st| {
                    let l = labels(&st.s[&s], &x)?;
                    let m = labels(&st.s[&t], &y)?;
                    let r: V = transducer(&l, &m, w.unwrap_or_else(T::one));
                    st.f.insert(h, M::V(r));
                    Ok(Value::Null)
                })
            }
        }
        12 => {
            if let Some(f) = some_vec(c, st) {
                if c.bool() {
                    attach(c, st, f)?;
                }
                let o = c.bool();
                let v = st.f[&f].vec().unwrap().clone();
                let tab = if o { v.output_symbols().cloned() } else { v.input_symbols().cloned() };
                if let Some(tab) = tab {
                    let n = st.snext;
                    st.snext += 1;
                    return op(c, st, "sof", json!([n, f, o]), &[f], &[n], false, |st| {
                        st.s.insert(n, tab);
                        st.shared.insert(n);
                        // a table that was seen through another object is shared, too
                        let all: Vec<usize> = st.s.keys().copied().collect();
                        st.shared.extend(all);
                        Ok(Value::Null)
                    });
                }
            }
            Ok(false)
        }
        13 => {
            let k = Cfg { big_labels: true, ..Default::default() };
            let mk = |c: &mut Ctx| Tr::new(gen_label(c, &k), gen_label(c, &k), gen_weight::<T>(c, &k), c.below(5) as StateId);
            let mut steps = Vec::new();
            let mut cur: TrsVec<T> = TrsVec::default();
            let mut exp: Vec<Value> = Vec::new();
            for _ in 0..1 + c.below(7) {
                match c.below(7) {
                    0..=2 => {
                        let x = mk(c);
                        steps.push(json!(["push", dtr(&x)]));
                        cur.push(x);
                    }
                    3 => {
                        let i = c.below(cur.trs().len() + 1);
                        steps.push(json!(["remove", i]));
                        if i < cur.trs().len() {
                            exp.push(dtr(&cur.remove(i)));
                        } else {
                            exp.push(json!("error"));
                        }
                    }
                    4 => {
                        steps.push(json!(["len"]));
                        exp.push(json!(cur.trs().len()));
                    }
                    5 => {
                        steps.push(json!(["repr"]));
                        exp.push(json!(format!("{:?}", cur)));
                    }
                    _ => {
                        let x = if c.bool() { Some(mk(c)) } else { None };
                        steps.push(json!(["clone", x.as_ref().map(dtr)]));
                        exp.push(json!(format!("{:?}", cur)));
                        if let Some(x) = x {
                            let mut u = TrsVec(Arc::new(cur.trs().to_vec()));
                            u.push(x);
                            exp.push(json!(format!("{:?}", u)));
                            exp.push(json!(format!("{:?}", cur)));
                        }
                    }
                }
            }
            op(c, st, "trs", json!([steps]), &[], &[], false, |_| Ok(json!(exp)))
        }
        _ => {
            let k = Cfg { big_labels: true, zeros: 10, ..Default::default() };
            let mut t = Tr::new(gen_label(c, &k), gen_label(c, &k), gen_weight::<T>(c, &k), c.below(5) as StateId);
            let first = dtr(&t);
            let mut sets = Vec::new();
            for _ in 0..c.below(4) {
                let x = *c.pick(&[0u32, 1, 70_000, u32::MAX - 1]);
                match c.below(4) {
                    0 => {
                        t.ilabel = x;
                        sets.push(json!(["ilabel", x]));
                    }
                    1 => {
                        t.olabel = x;
                        sets.push(json!(["olabel", x]));
                    }
                    2 => {
                        t.weight = gen_weight(c, &k);
                        sets.push(json!(["weight", b(&t.weight)]));
                    }
                    _ => {
                        t.nextstate = x;
                        sets.push(json!(["next_state", x]));
                    }
                }
            }
            op(c, st, "tr", json!([first, sets]), &[], &[], false, |_| Ok(json!([dtr(&t), true])))
        }
    }
}

fn labels(s: &SymbolTable, x: &str) -> Result<Vec<Label>> {
    x.split(' ').map(|w| s.get_label(w).ok_or_else(|| anyhow!("unknown symbol"))).collect()
}
