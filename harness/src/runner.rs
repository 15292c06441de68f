use crate::ctx::*;
use crate::source::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const CASE_LIMIT_S: u64 = 40;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

thread_local! {
    static PANIC_MSG: RefCell<Option<(String,String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some((m, loc)));
    }));
}

/// Runs `f`, turning a panic into Err((message, location)).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// digits do not take part in a failure's signature
pub fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut d = false;
    for ch in s.chars() {
        if ch.is_ascii_digit() {
            if !d {
                o.push('#');
            }
            d = true;
        } else {
            o.push(ch);
            d = false;
        }
    }
    o
}

pub struct CaseOut {
    pub res: R,
    pub nontrivial: bool,
    pub rec: Vec<u64>,
    pub desc: String,
    pub tags: BTreeMap<&'static str, u64>,
}

pub fn run_case(sub: &Sub, src: Source, describe: bool, scratch: &Path, thorough: bool) -> CaseOut {
    let mut ctx = Ctx {
        src,
        nontrivial: false,
        describe,
        desc: String::new(),
        tags: BTreeMap::new(),
        scratch: scratch.to_path_buf(),
        thorough,
        big: false,
        made_big: false,
        fine: false,
        wild: false,
    };
    let r = no_panic(|| (sub.f)(&mut ctx));
    let res = match r {
        Ok(r) => r,
        Err((m, loc)) => {
            if loc.contains("harness/src") || loc.starts_with("src/") {
                Err(Fail::new(
                    "harness-panic",
                    format!("panic inside the harness at {}: {}", loc, m),
                ))
            } else {
                Err(Fail {
                    sig: format!("panic: {}", norm(&first_line(&m))),
                    msg: format!("the library panicked at {}: {}", loc, m),
                })
            }
        }
    };
    CaseOut {
        res,
        nontrivial: ctx.nontrivial,
        rec: std::mem::take(&mut ctx.src.rec),
        desc: ctx.desc,
        tags: ctx.tags,
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: usize) -> u64 {
    let mut s = hash_str(seed.wrapping_mul(0x9E3779B97F4A7C15), prop);
    s = hash_str(s, sub);
    s = s.wrapping_add((idx as u64).wrapping_mul(0xD1B54A32D192ED03));
    splitmix(&mut s)
}

fn shrink(mut best: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, limit: Duration, max_tries: usize) -> Vec<u64> {
    // `fails` returns the choices actually consumed if the candidate still fails the same way
    let t0 = Instant::now();
    let mut tries = 0;
    macro_rules! try_c {
        ($c:expr) => {{
            if t0.elapsed() > limit || tries >= max_tries {
                return best;
            }
            tries += 1;
            let c: Vec<u64> = $c;
            match fails(&c) {
                Some(used) => {
                    let used = if used.len() <= c.len() { used } else { c };
                    let better = used.len() < best.len() || (used.len() == best.len() && used < best);
                    if better { best = used; true } else { false }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        let mut size = best.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_c!(c) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_c!(c) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if try_c!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if i >= best.len() {
                            break;
                        }
                    }
                    if i < best.len() && best[i] > 0 && best[i] < 64 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        try_c!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

#[derive(Clone, Default)]
pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|k| Known {
            property: k["property"].as_str().unwrap().into(),
            sub: k["sub"].as_str().unwrap().into(),
            sig: k["signature"].as_str().unwrap().into(),
            what: k["what"].as_str().unwrap().into(),
        })
        .collect()
}

fn setup_limits(gb: u64) {
    unsafe {
        let r = libc::rlimit {
            rlim_cur: gb << 30,
            rlim_max: gb << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

unsafe fn map_shared(path: &Path) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .unwrap();
    f.set_len(4096).unwrap();
    let p = libc::mmap(
        std::ptr::null_mut(),
        4096,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

fn replay_path(prop: &str, sub: &str, idx: usize) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}-{}.json", prop, sub, idx))
}

/// Worker process: runs its share of the cases, prints one JSON line per event.
pub fn worker(prop: &Prop, seed: u64, thorough: bool, k: usize, n: usize, shm: &Path, scratch: &Path, deadline_s: u64, only: Option<String>) -> i32 {
    install_hook();
    setup_limits(6);
    let shm = unsafe { map_shared(shm) };
    let _ = std::fs::create_dir_all(scratch);
    let mut known: Vec<Known> = load_known().into_iter().filter(|x| x.property == prop.id).collect();
    let t0 = Instant::now();
    // watchdog
    let started = Arc::new(AtomicU64::new(0));
    let st2 = started.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let s = st2.load(Ordering::Relaxed);
        if s != 0 {
            let now = t0.elapsed().as_secs() + 1;
            if now > s + CASE_LIMIT_S {
                println!("{}", json!({"ev":"hang"}));
                std::io::stdout().flush().ok();
                unsafe { libc::_exit(77) }
            }
        }
    });
    let scratch = scratch.to_path_buf();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut knownhits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut persub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut rc = 0;
    let mut truncated = false;
    'subs: for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(o) = &only {
            if o != sub.name {
                continue;
            }
        }
        let total = if thorough { sub.thorough } else { sub.quick };
        let mut nsample = 0;
        let mut idx = k;
        let (mut se, mut sn) = (0u64, 0u64);
        while idx < total {
            if t0.elapsed().as_secs() > deadline_s {
                truncated = true;
                break;
            }
            unsafe {
                std::ptr::write_volatile(shm, si as u64);
                std::ptr::write_volatile(shm.add(1), idx as u64);
                std::ptr::write_volatile(shm.add(2), 1);
            }
            started.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
            let cs = case_seed(seed, prop.id, sub.name, idx);
            let describe = nsample < 2 && k < 2 && se % 7 == 3;
            let out = run_case(sub, Source::from_seed(cs), describe, &scratch, thorough);
            started.store(0, Ordering::Relaxed);
            evals += 1;
            se += 1;
            for (t, c) in &out.tags {
                *tags.entry(format!("{}:{}", sub.name, t)).or_insert(0) += c;
            }
            match out.res {
                Ok(()) => {
                    if out.nontrivial {
                        let mut h = hash_str(si as u64, sub.name);
                        for c in &out.rec {
                            h = (h ^ c).wrapping_mul(0x100000001b3).rotate_left(17);
                        }
                        if seen.insert(h) {
                            sn += 1;
                        }
                        if describe {
                            nsample += 1;
                            let d: String = out.desc.chars().take(1200).collect();
                            samples.push(json!(format!("[{} #{}] {}", sub.name, idx, d)));
                        }
                    }
                }
                Err(f) => {
                    let kn = known
                        .iter()
                        .position(|x| (x.sub == sub.name || x.sub == "*") && f.sig == x.sig);
                    if let Some(ki) = kn {
                        *knownhits.entry(ki).or_insert(0) += 1;
                    } else {
                        // shrink, keeping failures that are not known findings
                        let sig = f.sig.clone();
                        started.store(0, Ordering::Relaxed);
                        let best = shrink(
                            out.rec.clone(),
                            |c| {
                                started.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                                let o = run_case(sub, Source::from_choices(c.to_vec()), false, &scratch, thorough);
                                started.store(0, Ordering::Relaxed);
                                match o.res {
                                    Err(g) if g.sig == sig => Some(o.rec),
                                    _ => None,
                                }
                            },
                            Duration::from_secs(20),
                            4000,
                        );
                        let o = run_case(sub, Source::from_choices(best.clone()), true, &scratch, thorough);
                        let (o, best) = if o.res.is_err() {
                            (o, best)
                        } else {
                            (
                                run_case(sub, Source::from_choices(out.rec.clone()), true, &scratch, thorough),
                                out.rec.clone(),
                            )
                        };
                        let ff = match o.res {
                            Err(g) => g,
                            Ok(()) => f.clone(),
                        };
                        let p = replay_path(prop.id, sub.name, idx);
                        let v = json!({"property":prop.id,"sub":sub.name,"seed":seed,"case":idx,"choices":best,"signature":ff.sig,"message":ff.msg,"input":o.desc});
                        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
                        println!("{}", json!({"ev":"fail","sub":sub.name,"idx":idx,"sig":ff.sig,"msg":ff.msg,"input":o.desc,"path":p}));
                        std::io::stdout().flush().ok();
                        rc = 1;
                        if std::env::var_os("VH_ALL").is_some() {
                            // development aid: list every signature
                            known.push(Known { sub: sub.name.to_string(), sig: sig.clone(), ..Default::default() });
                        } else {
                            persub.insert(sub.name.into(), (se, sn));
                            break 'subs;
                        }
                    }
                }
            }
            idx += n;
        }
        persub.insert(sub.name.into(), (se, sn));
    }
    unsafe { std::ptr::write_volatile(shm.add(2), 0) };
    let kh: Vec<Value> = knownhits.iter().map(|(i, c)| json!([i, c])).collect();
    println!(
        "{}",
        json!({"ev":"done","evals":evals,"distinct":seen.len(),"samples":samples,"known":kh,"subs":persub.iter().map(|(a,b)|json!([a,b.0,b.1])).collect::<Vec<_>>(),"tags":tags,"truncated":truncated})
    );
    std::io::stdout().flush().ok();
    rc
}

/// Runs one case in a subprocess; returns (status, choices traced)
fn sub_case(exe: &Path, prop: &str, sub: &str, arg: &[&str], stdin: Option<&[u64]>, trace: &Path, limit: Duration) -> (String, Vec<u64>) {
    let _ = std::fs::remove_file(trace);
    let mut c = Command::new(exe);
    c.arg("runcase").arg(prop).arg(sub).args(arg).arg("--trace").arg(trace);
    c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
    let Ok(mut ch) = c.spawn() else {
        return ("spawn".into(), vec![]);
    };
    if let Some(s) = stdin {
        let t: Vec<String> = s.iter().map(|x| x.to_string()).collect();
        let _ = ch.stdin.take().unwrap().write_all(t.join(" ").as_bytes());
    } else {
        drop(ch.stdin.take());
    }
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                break if s.signal().is_some() {
                    "crash".to_string()
                } else if s.code() == Some(0) {
                    "ok".into()
                } else {
                    "fail".into()
                };
            }
            _ => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break "hang".into();
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    };
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(trace) {
        let _ = f.read_to_end(&mut b);
    }
    let ch: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    (st, ch)
}

pub fn check(prop: &Prop, seed: u64, thorough: bool, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16);
    let tier = if thorough { "thorough" } else { "quick" };
    let scratch = verif_dir().join("scratch").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let deadline: u64 = if thorough { 3000 } else { 480 };
    let mut kids = vec![];
    for k in 0..n {
        let shm = scratch.join(format!("shm{}", k));
        let mut c = Command::new(&exe);
        c.arg("worker")
            .arg(prop.id)
            .arg(seed.to_string())
            .arg(tier)
            .arg(k.to_string())
            .arg(n.to_string())
            .arg(&shm)
            .arg(scratch.join(format!("w{}", k)))
            .arg(deadline.to_string());
        if let Some(o) = &only {
            c.arg(o);
        }
        c.stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
        let mut ch = c.spawn().unwrap();
        let out = ch.stdout.take().unwrap();
        kids.push((k, ch, out, shm));
    }
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<Value>)>();
    let mut procs = vec![];
    for (k, ch, out, shm) in kids {
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if let Ok(v) = serde_json::from_str::<Value>(&l) {
                    let _ = tx.send((k, Some(v)));
                }
            }
            let _ = tx.send((k, None));
        });
        procs.push((ch, shm));
    }
    drop(tx);
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut persub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<u64, u64> = BTreeMap::new();
    let mut failures: Vec<Value> = vec![];
    let mut done = vec![false; n];
    let mut ended = 0;
    let mut truncated = false;
    let mut hang: Option<usize> = None;
    let mut first_fail: Option<Instant> = None;
    while ended < n {
        let m = rx.recv_timeout(Duration::from_millis(500));
        if let Some(t) = first_fail {
            if t.elapsed() > Duration::from_secs(15) {
                for (p, _) in procs.iter_mut() {
                    let _ = p.kill();
                }
            }
        }
        let Ok((k, v)) = m else { continue };
        match v {
            None => {
                ended += 1;
                if !done[k] {
                    let _ = procs[k].0.wait();
                    let killed_by_us = first_fail.is_some();
                    if !killed_by_us {
                        let shm = unsafe { map_shared(&procs[k].1) };
                        let (si, idx, act) = unsafe { (*shm, *shm.add(1), *shm.add(2)) };
                        if act == 1 {
                            let sub = &prop.subs[si as usize];
                            let kind = if hang == Some(k) { "hang" } else { "crash" };
                            let cs = case_seed(seed, prop.id, sub.name, idx as usize);
                            let trace = scratch.join("trace");
                            let lim = Duration::from_secs(if kind == "hang" { 10 } else { 30 });
                            let (st, tr) = sub_case(&exe, prop.id, sub.name, &["--seed", &cs.to_string()], None, &trace, lim);
                            let mut choices = tr;
                            if st == kind {
                                let tmax = if kind == "hang" { 3 } else { 20 };
                                choices = shrink(
                                    choices,
                                    |c| {
                                        let (s2, t2) = sub_case(&exe, prop.id, sub.name, &["--choices"], Some(c), &trace, Duration::from_secs(tmax));
                                        if s2 == kind {
                                            Some(t2)
                                        } else {
                                            None
                                        }
                                    },
                                    Duration::from_secs(60),
                                    400,
                                );
                            }
                            let p = replay_path(prop.id, sub.name, idx as usize);
                            let v = json!({"property":prop.id,"sub":sub.name,"seed":seed,"case":idx,"case_seed":cs.to_string(),"choices":choices,"signature":kind,"message":format!("the library did not return: {} (reproduced alone: {})", kind, st)});
                            std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).ok();
                            failures.push(json!({"sub":sub.name,"idx":idx,"sig":kind,"msg":v["message"],"path":p}));
                            first_fail.get_or_insert(Instant::now());
                        } else {
                            eprintln!("worker {} ended without a result", k);
                            failures.push(json!({"sub":"-","idx":0,"sig":"worker","msg":"worker ended without result","path":"-"}));
                            first_fail.get_or_insert(Instant::now());
                        }
                    }
                }
            }
            Some(v) => match v["ev"].as_str().unwrap_or("") {
                "hang" => hang = Some(k),
                "fail" => {
                    failures.push(v);
                    first_fail.get_or_insert(Instant::now());
                }
                "done" => {
                    done[k] = true;
                    evals += v["evals"].as_u64().unwrap();
                    distinct += v["distinct"].as_u64().unwrap();
                    truncated |= v["truncated"].as_bool().unwrap();
                    for s in v["samples"].as_array().unwrap() {
                        samples.push(s.clone());
                    }
                    for s in v["subs"].as_array().unwrap() {
                        let e = persub.entry(s[0].as_str().unwrap().into()).or_insert((0, 0));
                        e.0 += s[1].as_u64().unwrap();
                        e.1 += s[2].as_u64().unwrap();
                    }
                    for (t, c) in v["tags"].as_object().unwrap() {
                        *tags.entry(t.clone()).or_insert(0) += c.as_u64().unwrap();
                    }
                    for s in v["known"].as_array().unwrap() {
                        *known_hits.entry(s[0].as_u64().unwrap()).or_insert(0) += s[1].as_u64().unwrap();
                    }
                }
                _ => {}
            },
        }
    }
    for (p, _) in procs.iter_mut() {
        let _ = p.kill();
        let _ = p.wait();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let known: Vec<Known> = load_known().into_iter().filter(|x| x.property == prop.id).collect();
    for kf in known.iter() {
        println!("KNOWN-FINDING: property={} {}", prop.id, kf.what);
    }
    let mut rules: Vec<String> = vec![];
    for s in &prop.subs {
        rules.push(format!("{}: {}", s.name, s.rule));
    }
    samples.sort_by_key(|s| s.as_str().map(|x| x.to_string()).unwrap_or_default());
    let mut kept: Vec<Value> = vec![];
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    for s in samples {
        let key = s.as_str().unwrap_or("").split(' ').next().unwrap_or("").to_string();
        let e = per.entry(key).or_insert(0);
        if *e < 2 {
            *e += 1;
            kept.push(s);
        }
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": format!("two cases are distinct when their generator choice sequences differ; a case counts as non-trivial per sub-check: {}", rules.join(" | ")),
            "samples": kept,
            "per_subcheck": persub.iter().map(|(a,b)| json!({"subcheck":a,"evaluations":b.0,"distinct_nontrivial":b.1})).collect::<Vec<_>>(),
            "tags": tags,
            "known_finding_hits": known_hits.values().sum::<u64>(),
            "truncated_by_deadline": truncated,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "assumptions": ["random search over bounded inputs: absence of a violation is evidence, not proof"],
        "violations": failures.iter().map(|f| json!({"subcheck":f["sub"],"case":f["idx"],"signature":f["sig"],"message":f["msg"],"replay":f["path"]})).collect::<Vec<_>>(),
    });
    let evp = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evp);
    std::fs::write(evp.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s{}", prop.id, tier, evals, distinct, t0.elapsed().as_secs_f64(), if truncated { " (deadline reached)" } else { "" });
    for (s, (e, d)) in &persub {
        println!("  {:<28} {:>8} cases {:>8} non-trivial", s, e, d);
    }
    if !failures.is_empty() {
        for f in &failures {
            println!("FAILED {} [{}]: {}", f["sub"].as_str().unwrap_or(""), f["sig"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or(""));
            if let Some(i) = f["input"].as_str() {
                println!("  input: {}", i.chars().take(3000).collect::<String>());
            }
        }
        for f in &failures {
            println!("VIOLATION property={} replay={}", prop.id, f["path"].as_str().unwrap_or("-"));
        }
        return 1;
    }
    0
}
