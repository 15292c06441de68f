#![allow(clippy::all)]
#[macro_use]
mod ctx;
mod big;
mod bprops;
mod detgen;
mod gen;
mod hist;
mod model;
mod mat;
mod props;
mod runner;
mod source;
use ctx::*;
use std::io::Read;
use std::path::PathBuf;

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let prop = find(&a[2]);
            let mut tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut only = None;
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--tier" => { tier = a[i + 1].clone(); i += 1; }
                    "--seed" => { seed = a[i + 1].parse().unwrap(); i += 1; }
                    "--sub" => { only = Some(a[i + 1].clone()); i += 1; }
                    _ => {}
                }
                i += 1;
            }
            runner::check(&prop, seed, tier == "thorough", only)
        }
        "worker" => {
            let prop = find(&a[2]);
            runner::worker(
                &prop,
                a[3].parse().unwrap(),
                a[4] == "thorough",
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                &PathBuf::from(&a[7]),
                &PathBuf::from(&a[8]),
                a[9].parse().unwrap(),
                a.get(10).cloned(),
            )
        }
        "runcase" => {
            let prop = find(&a[2]);
            let sub = prop.subs.iter().find(|s| s.name == a[3]).expect("sub");
            runner::install_hook();
            let mut src = None;
            let mut trace = None;
            let mut i = 4;
            while i < a.len() {
                match a[i].as_str() {
                    "--seed" => { src = Some(source::Source::from_seed(a[i + 1].parse().unwrap())); i += 1; }
                    "--choices" => {
                        let mut s = String::new();
                        std::io::stdin().read_to_string(&mut s).unwrap();
                        src = Some(source::Source::from_choices(s.split_whitespace().map(|x| x.parse().unwrap()).collect()));
                    }
                    "--trace" => { trace = Some(std::fs::File::create(&a[i + 1]).unwrap()); i += 1; }
                    _ => {}
                }
                i += 1;
            }
            let mut src = src.unwrap();
            src.trace = trace;
            let sc = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
            std::fs::create_dir_all(&sc).ok();
            let o = runner::run_case(sub, src, true, &sc, false);
            let _ = std::fs::remove_dir_all(&sc);
            println!("{:?}\n{}", o.res, o.desc);
            if o.res.is_ok() { 0 } else { 1 }
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let prop = find(v["property"].as_str().unwrap());
            let sub = prop.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).expect("sub");
            runner::install_hook();
            let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let sc = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
            std::fs::create_dir_all(&sc).ok();
            let o = runner::run_case(sub, source::Source::from_choices(ch), true, &sc, false);
            let _ = std::fs::remove_dir_all(&sc);
            println!("input: {}", o.desc);
            match o.res {
                Ok(()) => { println!("held"); 0 }
                Err(f) => { println!("VIOLATION property={} replay={}\n[{}] {}", prop.id, a[2], f.sig, f.msg); 1 }
            }
        }
        "list" => {
            for p in props::all() {
                for s in &p.subs { println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough); }
            }
            0
        }
        _ => { eprintln!("usage: check|replay|list"); 2 }
    };
    std::process::exit(code);
}
