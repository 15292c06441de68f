//! C29: the command-line tool against library calls on the same files.
use crate::ctx::*;
use crate::detgen::*;
use crate::gen::*;
use crate::model::*;
use crate::*;
use anyhow::Result;
use rustfst::algorithms::compose::compose;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::tr_compares::*;
use rustfst::algorithms::*;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

type T = TropicalWeight;
type V = VectorFst<T>;

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        subs: vec![
            Sub { name: "commands", rule: "the command succeeded on a machine with at least 2 transitions", quick: 6_000, thorough: 150_000, f: commands },
            Sub { name: "failures", rule: "the input or the output location was unusable", quick: 2_500, thorough: 60_000, f: failures },
        ],
    }
}

/// What a command should produce.
enum Cmp {
    /// the same machine, state by state
    Exact,
    /// the same relation with the same number of states and transitions
    Size,
    /// the same relation
    Lang,
}

struct Cmd {
    args: Vec<String>,
    binary: bool,
    cmp: Cmp,
    /// machines the command can be asked about without running forever
    acyclic: bool,
    lib: Box<dyn Fn(V, Option<V>) -> Result<V>>,
}

fn cmd(args: &[&str], cmp: Cmp, lib: impl Fn(V, Option<V>) -> Result<V> + 'static) -> Cmd {
    Cmd { args: args.iter().map(|s| s.to_string()).collect(), binary: false, cmp, acyclic: false, lib: Box::new(lib) }
}

fn gen_cmd(c: &mut Ctx) -> Cmd {
    match c.below(14) {
        0 => {
            let nd = c.bool();
            let mut k = cmd(&["minimize"], Cmp::Size, move |mut f, _| {
                minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(nd))?;
                Ok(f)
            });
            if nd {
                k.args.push("--allow-nondet".into());
            }
            k.acyclic = true;
            k
        }
        1 => {
            let (n, t) = *c.pick(&[
                ("", DeterminizeType::DeterminizeFunctional),
                ("functional", DeterminizeType::DeterminizeFunctional),
                ("nonfunctional", DeterminizeType::DeterminizeNonFunctional),
                ("disambiguate", DeterminizeType::DeterminizeDisambiguate),
            ]);
            let mut k = cmd(&["determinize"], Cmp::Size, move |f, _| determinize_with_config(&f, DeterminizeConfig::default().with_det_type(t)));
            if !n.is_empty() {
                opt(c, &mut k, "--det_type", n);
            }
            k.acyclic = true;
            k
        }
        2 => cmd(&["connect"], Cmp::Exact, |mut f, _| {
            connect(&mut f)?;
            Ok(f)
        }),
        3 => {
            let name = *c.pick(&["tr_sort", "arcsort"]);
            let o = c.bool();
            let mut k = cmd(&[name], Cmp::Exact, move |mut f, _| {
                if o {
                    tr_sort(&mut f, OLabelCompare {});
                } else {
                    tr_sort(&mut f, ILabelCompare {});
                }
                Ok(f)
            });
            if o {
                opt(c, &mut k, "--sort_type", "olabel");
            } else if c.bool() {
                opt(c, &mut k, "--sort_type", "ilabel");
            }
            k
        }
        4 => {
            let o = c.bool();
            let mut k = cmd(&["project"], Cmp::Exact, move |mut f, _| {
                project(&mut f, if o { ProjectType::ProjectOutput } else { ProjectType::ProjectInput });
                Ok(f)
            });
            if o {
                k.args.push("--project-output".into());
            }
            k
        }
        5 => cmd(&["invert"], Cmp::Exact, |mut f, _| {
            invert(&mut f);
            Ok(f)
        }),
        6 => {
            let mut k = cmd(&["topsort"], Cmp::Exact, |mut f, _| {
                top_sort(&mut f)?;
                Ok(f)
            });
            k.acyclic = c.chance(3, 4);
            k
        }
        7 => cmd(&["optimize"], Cmp::Size, |mut f, _| {
            optimize(&mut f)?;
            Ok(f)
        }),
        8 => cmd(&["reverse"], Cmp::Exact, |f, _| reverse(&f)),
        9 => gen_map(c),
        10 => {
            let n = *c.pick(&[1usize, 1, 2, 3, 7]);
            let u = c.chance(1, 3);
            let mut k = cmd(&["shortestpath"], Cmp::Size, move |f, _| {
                shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n).with_unique(u))
            });
            if n > 1 || c.bool() {
                opt(c, &mut k, "--nshortest", &n.to_string());
            }
            if u {
                k.args.push("--unique".into());
                k.acyclic = true;
            }
            k
        }
        11 => cmd(&["rmfinalepsilon"], Cmp::Exact, |mut f, _| {
            rm_final_epsilon(&mut f)?;
            Ok(f)
        }),
        12 => {
            let f = [c.bool(), c.bool(), c.bool(), c.bool(), c.bool()];
            let names = ["--to_final", "--push_weights", "--push_labels", "--remove_total_weight", "--remove_common_affix"];
            let bits = [
                PushType::empty(),
                PushType::PUSH_WEIGHTS,
                PushType::PUSH_LABELS,
                PushType::REMOVE_TOTAL_WEIGHT,
                PushType::REMOVE_COMMON_AFFIX,
            ];
            let mut t = PushType::empty();
            for i in 1..5 {
                if f[i] {
                    t |= bits[i];
                }
            }
            let rt = f[0];
            let mut k = cmd(&["push"], Cmp::Exact, move |m, _| {
                push(&m, if rt { ReweightType::ReweightToFinal } else { ReweightType::ReweightToInitial }, t)
            });
            let mut order: Vec<usize> = (0..5).filter(|i| f[*i]).collect();
            if c.bool() {
                order.reverse();
            }
            k.args.extend(order.into_iter().map(|i| names[i].to_string()));
            k
        }
        _ => {
            let la = c.chance(1, 3);
            let mut k = cmd(&["compose"], if la { Cmp::Lang } else { Cmp::Size }, move |a, b| {
                let mut b = b.unwrap();
                if la {
                    tr_sort(&mut b, ILabelCompare {});
                }
                compose::<T, V, V, _, _, _>(a, b)
            });
            if la {
                opt(c, &mut k, "--compose_type", "lookahead");
            } else if c.bool() {
                opt(c, &mut k, "--compose_type", "default");
            }
            k.binary = true;
            k
        }
    }
}

/// an option as one argument or as two
fn opt(c: &mut Ctx, k: &mut Cmd, name: &str, v: &str) {
    if c.bool() {
        k.args.push(format!("{}={}", name, v));
    } else {
        k.args.push(name.to_string());
        k.args.push(v.to_string());
    }
}

fn gen_map(c: &mut Ctx) -> Cmd {
    let ty = *c.pick(&[
        "", "identity", "tr_sum", "arc_sum", "tr_unique", "arc_unique", "input_epsilon", "output_epsilon", "invert", "plus", "times", "quantize", "rmweight",
    ]);
    let ws = *c.pick(&["0.5", "1", "2.25", "0", "7"]);
    let w = T::new(ws.parse().unwrap());
    let mut k = cmd(&["map"], Cmp::Exact, move |mut f, _| {
        match ty {
            "tr_sum" | "arc_sum" => tr_sum(&mut f),
            "tr_unique" | "arc_unique" => tr_unique(&mut f),
            "input_epsilon" => tr_map(&mut f, &tr_mappers::InputEpsilonMapper {})?,
            "output_epsilon" => tr_map(&mut f, &tr_mappers::OutputEpsilonMapper {})?,
            "invert" => tr_map(&mut f, &tr_mappers::InvertWeightMapper {})?,
            "plus" => tr_map(&mut f, &tr_mappers::PlusMapper::from_weight(w))?,
            "times" => tr_map(&mut f, &tr_mappers::TimesMapper::from_weight(w))?,
            "quantize" => tr_map(&mut f, &tr_mappers::QuantizeMapper::default())?,
            "rmweight" => tr_map(&mut f, &tr_mappers::RmWeightMapper {})?,
            _ => tr_map(&mut f, &tr_mappers::IdentityTrMapper {})?,
        }
        Ok(f)
    });
    if !ty.is_empty() {
        opt(c, &mut k, "--map_type", ty);
    }
    if ty == "plus" || ty == "times" || c.chance(1, 8) {
        opt(c, &mut k, "--weight", ws);
    }
    k
}

fn bin() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rustfst-cli")
}

struct Ran {
    code: Option<i32>,
    out: String,
}

fn run(dir: &Path, args: &[String]) -> R<Ran> {
    let o = Command::new(bin())
        .args(args)
        .current_dir(dir)
        .env("RUST_LOG", "error")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) => Ok(Ran {
            code: o.status.code(),
            out: format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
        }),
        Err(e) => panic!("cannot run {:?}: {}", bin(), e),
    }
}

fn gen_fst(c: &mut Ctx, acyclic: bool, acceptor: bool) -> V {
    let k = Cfg {
        max_states: 5,
        max_out: 3,
        labels: 3,
        eps: *c.pick(&[0usize, 20, 40]),
        acyclic: acyclic || c.chance(1, 3),
        acceptor,
        unweighted: c.chance(1, 5),
        degenerate: c.chance(1, 8),
        ..Default::default()
    };
    let m: RFst<T> = match c.below(6) {
        0 => det_rfst(c, &k),
        1 if !acceptor => path_union(c, true),
        _ => gen_rfst(c, &k),
    };
    let mut f = realize(c, &m);
    if c.chance(1, 3) {
        f.set_input_symbols(Arc::new(gen_symt(c, 4)));
    }
    if c.chance(1, 4) {
        f.set_output_symbols(Arc::new(gen_symt(c, 4)));
    }
    f
}

fn fresh(c: &Ctx) -> PathBuf {
    let d = c.scratch.join("cli");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn quiet<A>(f: impl FnOnce() -> A) -> Option<A> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn commands(c: &mut Ctx) -> R {
    let dir = fresh(c);
    let k = gen_cmd(c);
    let acc = c.chance(1, 3);
    let mut a = gen_fst(c, k.acyclic, acc);
    let mut b = if k.binary { Some(gen_fst(c, k.acyclic, false)) } else { None };
    if let Some(b) = &mut b {
        // sorted machines most of the time, and no tables that refuse to meet
        if c.chance(3, 4) {
            tr_sort(&mut a, OLabelCompare {});
        }
        if c.chance(1, 2) {
            tr_sort(b, ILabelCompare {});
        }
        if c.chance(7, 8) {
            a.take_output_symbols();
            b.take_input_symbols();
        }
    }
    let pa = dir.join("a.fst");
    a.write(&pa).unwrap();
    if let Some(b) = &b {
        b.write(dir.join("b.fst")).unwrap();
    }
    let bytes_a = std::fs::read(&pa).unwrap();
    let bytes_b = b.as_ref().map(|_| std::fs::read(dir.join("b.fst")).unwrap());

    let in_place = c.chance(1, 10);
    let prev = c.chance(1, 3);
    let out = if in_place { "a.fst" } else { "out.fst" };
    let mut prior = None;
    if in_place {
        prior = Some(bytes_a.clone());
    } else if prev {
        let junk = vec![7u8; c.below(3000)];
        std::fs::write(dir.join("out.fst"), &junk).unwrap();
        prior = Some(junk);
    }
    let mut files = vec!["a.fst".to_string()];
    if b.is_some() {
        files.push("b.fst".into());
    }
    files.push(out.into());
    let mut args = k.args.clone();
    let bench = !in_place && c.chance(1, 12);
    let mut md = false;
    if bench {
        args.push("--bench".into());
        args.push(format!("--n_iters={}", 1 + c.below(2)));
        args.push(format!("--n_warm_ups={}", c.below(2)));
        if c.bool() {
            args.push("--export-markdown=rep.md".into());
            md = true;
        }
    }
    if c.bool() {
        let at = 1;
        for (i, f) in files.into_iter().enumerate() {
            args.insert(at + i, f);
        }
    } else {
        args.extend(files);
    }
    let sa = RFst::from_fst(&a)?.show();
    let sb = match &b {
        Some(b) => RFst::from_fst(b)?.show(),
        None => String::new(),
    };
    let line = args.join(" ");
    c.note(|| format!("rustfst-cli {}\na.fst:\n{}b.fst:\n{}", line, sa, sb));

    // The library, on the files.
    let want: Option<V> = quiet(|| -> Result<V> {
        let x = V::read(&pa)?;
        let y = match &b {
            Some(_) => Some(V::read(dir.join("b.fst"))?),
            None => None,
        };
        (k.lib)(x, y)
    })
    .and_then(|r| r.ok());

    let r = run(&dir, &args)?;
    ensure!(r.code.is_some(), "killed", "the program was killed by a signal: {}", line);
    let ok = r.code == Some(0);
    ensure!(
        ok == want.is_some(),
        "status",
        "`{}` exited with {:?} but the library call {}: {}",
        line,
        r.code,
        if want.is_some() { "succeeds" } else { "fails" },
        r.out.chars().take(300).collect::<String>()
    );
    if !in_place {
        ensure!(std::fs::read(&pa).unwrap() == bytes_a, "input-changed", "`{}` changed a.fst", line);
    }
    if let Some(bb) = bytes_b {
        ensure!(std::fs::read(dir.join("b.fst")).unwrap() == bb, "input-changed", "`{}` changed b.fst", line);
    }
    if !bench {
        ensure!(!r.out.contains("Bench"), "bench", "`{}` ran a benchmark: {}", line, r.out.chars().take(200).collect::<String>());
    }
    let outp = dir.join(out);
    let want = match want {
        None => {
            c.tag("refused");
            let now = std::fs::read(&outp).ok();
            ensure!(now == prior, "output-on-failure", "`{}` failed and still wrote {}", line, out);
            return Ok(());
        }
        Some(w) => w,
    };
    if bench {
        c.tag("bench");
        ensure!(r.out.contains("Bench results"), "bench", "`{}` printed no results", line);
        ensure!(md == dir.join("rep.md").exists(), "bench", "report of `{}`", line);
    }
    for e in std::fs::read_dir(&dir).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        ensure!(["a.fst", "b.fst", "out.fst", "rep.md"].contains(&n.as_str()), "stray-file", "`{}` wrote {}", line, n);
    }
    let got = match V::read(&outp) {
        Ok(g) => g,
        Err(e) => fail!("output", "output of `{}` cannot be read: {:?}", line, e),
    };
    compare(&line, &k.cmp, &want, &got)?;
    c.tag(tagname(&k.args[0]));
    if a.states_iter().map(|s| a.num_trs(s).unwrap()).sum::<usize>() >= 2 {
        c.nontrivial = true;
    }
    Ok(())
}

fn tagname(s: &str) -> &'static str {
    for t in [
        "minimize", "determinize", "connect", "tr_sort", "arcsort", "project", "invert", "topsort", "optimize", "reverse", "map", "shortestpath",
        "rmfinalepsilon", "push", "compose",
    ] {
        if t == s {
            return t;
        }
    }
    "?"
}

fn compare(line: &str, cmp: &Cmp, want: &V, got: &V) -> R {
    let (w, g) = (RFst::from_fst(want)?, RFst::from_fst(got)?);
    let exact = w.start == g.start && w.fin == g.fin && w.trs == g.trs;
    match cmp {
        Cmp::Exact => ensure!(exact, "output", "`{}` wrote\n{}the library gives\n{}", line, g.show(), w.show()),
        Cmp::Size if exact => {}
        Cmp::Size => {
            ensure!(w.n() == g.n() && w.ntr() == g.ntr(), "output", "`{}` wrote\n{}the library gives\n{}", line, g.show(), w.show());
            same_lang(&format!("`{}`", line), &w, &g, 4)?;
        }
        Cmp::Lang => {
            same_lang(&format!("`{}`", line), &w, &g, 4)?;
            return Ok(());
        }
    }
    let st = |t: Option<&Arc<SymbolTable>>| t.map(|t| t.iter().map(|(l, s)| (l, s.to_string())).collect::<Vec<_>>());
    ensure!(
        st(want.input_symbols()) == st(got.input_symbols()) && st(want.output_symbols()) == st(got.output_symbols()),
        "symbols",
        "`{}`: symbol tables differ from the library's",
        line
    );
    Ok(())
}

/// Unusable inputs and outputs.
fn failures(c: &mut Ctx) -> R {
    let dir = fresh(c);
    let k = gen_cmd(c);
    let a = gen_fst(c, true, false);
    let mut good = Vec::new();
    a.store(&mut good).unwrap();
    let pa = dir.join("a.fst");
    std::fs::write(&pa, &good).unwrap();
    let pb = dir.join("b.fst");
    std::fs::write(&pb, &good).unwrap();
    // which of the inputs is the bad one
    let bad = if k.binary && c.bool() { pb.clone() } else { pa.clone() };
    let mut out = "out.fst".to_string();
    let mut extra: Vec<String> = vec![];
    let mut drop_out = false;
    let kind = c.below(10);
    let what = match kind {
        0 => {
            std::fs::remove_file(&bad).unwrap();
            "missing input"
        }
        1 => {
            let n = c.below(good.len());
            std::fs::write(&bad, &good[..n]).unwrap();
            "truncated input"
        }
        2 => {
            let f: ConstFst<T> = a.clone().into();
            f.write(&bad).unwrap();
            "const input"
        }
        3 => {
            std::fs::write(&bad, a.text().unwrap()).unwrap();
            "text input"
        }
        4 => {
            let mut g = good.clone();
            let i = c.below(20.min(g.len()));
            g[i] ^= 1 << c.below(8);
            std::fs::write(&bad, g).unwrap();
            "damaged header"
        }
        5 => {
            std::fs::remove_file(&bad).unwrap();
            std::fs::create_dir(&bad).unwrap();
            "directory input"
        }
        6 => {
            out = "nodir/out.fst".into();
            "missing output directory"
        }
        7 => {
            extra.push((*c.pick(&["--no-such-flag", "--n_iterations=3"])).to_string());
            "unknown option"
        }
        8 => {
            out = "/dev/full".into();
            "full disk"
        }
        _ => {
            drop_out = true;
            "missing argument"
        }
    };
    let mut args = k.args.clone();
    args.extend(extra);
    args.push("a.fst".into());
    if k.binary {
        args.push("b.fst".into());
    }
    if !drop_out {
        args.push(out.clone());
    }
    let line = args.join(" ");
    let sa = RFst::from_fst(&a)?.show();
    c.note(|| format!("rustfst-cli {} ({})\na.fst was:\n{}", line, what, sa));
    // a damaged file may still be readable: then the command is an ordinary one
    if kind < 6 {
        let readable = quiet(|| V::read(&bad).is_ok()).unwrap_or(false);
        if readable {
            c.tag("still-readable");
            return Ok(());
        }
    }
    let before: Vec<_> = snapshot(&dir);
    let r = run(&dir, &args)?;
    ensure!(r.code.is_some(), "killed", "the program was killed by a signal: {} ({})", line, what);
    ensure!(r.code != Some(0), "status", "`{}` exited with success although: {}", line, what);
    let after = snapshot(&dir);
    ensure!(before == after, "output-on-failure", "`{}` failed ({}) and changed files: {:?} -> {:?}", line, what, names(&before), names(&after));
    c.nontrivial = true;
    Ok(())
}

fn snapshot(d: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<_> = std::fs::read_dir(d)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            (e.file_name().into_string().unwrap(), std::fs::read(e.path()).ok())
        })
        .collect();
    v.sort();
    v
}

fn names(v: &[(String, Option<Vec<u8>>)]) -> Vec<&str> {
    v.iter().map(|x| x.0.as_str()).collect()
}
