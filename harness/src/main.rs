#![allow(dead_code)]
mod adapt;
mod alloc;
mod custom;
mod entry;
mod eval;
mod gen;
mod iregexp;
mod model;
mod p_acc;
mod p_conf;
mod p_conc;
mod p_entry;
mod p_fn;
mod p_eval;
mod p_hist;
mod p_list;
mod p_mem;
mod p_parse;
mod p_robust;
mod p_sing;
mod p_tok;
mod rng;
mod run;
mod sweep;
mod util;

use std::collections::BTreeSet;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn props(id: &str) -> Option<run::Prop> {
    p_eval::prop(id).or_else(|| p_parse::prop(id)).or_else(|| p_robust::prop(id)).or_else(|| p_sing::prop(id)).or_else(|| p_tok::prop(id)).or_else(|| p_entry::prop(id)).or_else(|| p_hist::prop(id)).or_else(|| p_conc::prop(id)).or_else(|| p_mem::prop(id)).or_else(|| p_fn::prop(id)).or_else(|| p_list::prop(id)).or_else(|| p_acc::prop(id)).or_else(|| p_conf::prop(id))
}

fn main() {
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { run::Tier::Thorough } else { run::Tier::Quick };
    let pair = |s: &str| -> (usize, u64) {
        let (x, y) = s.split_once(':').unwrap();
        (x.parse().unwrap(), y.parse().unwrap())
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].clone();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            run::check(|| props(&id).expect("unknown property"), seed, tier(&t), |cov| match id.as_str() {
                "C16" if std::env::var("VH_NOSAN").is_err() => p_conc::tsan(cov, seed, tier(&t)),
                "C13" | "C14" if std::env::var("VH_NOSAN").is_err() => {
                    let mut v = p_mem::asan(cov, seed, tier(&t));
                    v.extend(p_robust::plain(cov, &id, seed, tier(&t)));
                    v
                }
                "C20" if std::env::var("VH_NOSAN").is_err() => p_mem::asan(cov, seed, tier(&t)),
                _ => vec![],
            })
        }
        Some("worker") => {
            let skip: BTreeSet<(usize, u64)> = a[8].split(',').filter(|s| !s.is_empty()).map(pair).collect();
            run::worker(
                props(&a[2]).unwrap(),
                a[3].parse().unwrap(),
                tier(&a[4]),
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                a[7].clone().into(),
                skip,
                pair(&a[9]),
            )
        }
        Some("one") => run::one(props(&a[2]).unwrap(), a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap(), a[6].parse().unwrap()),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p = props(v["property"].as_str().unwrap()).unwrap();
            let si = p.stages.iter().position(|s| s.name == v["stage"].as_str().unwrap()).expect("stage");
            run::one(p, v["seed"].as_u64().unwrap(), tier(v["tier"].as_str().unwrap()), si, v["index"].as_u64().unwrap())
        }
        Some("fresh") => {
            let st: &'static str = Box::leak(a[2].clone().into_boxed_str());
            p_hist::fresh(st, a[3].parse().unwrap(), a[4].parse().unwrap())
        }
        // build what the sanitizer stages need
        Some("presan") => {
            let h: Vec<_> = ["thread", "address"].into_iter().map(|k| std::thread::spawn(move || p_conc::sanitized(k))).collect();
            if let Err(e) = p_robust::build_plain() {
                eprintln!("unoptimised build failed: {e}");
            }
            for h in h {
                if let Err(e) = h.join().unwrap() {
                    eprintln!("sanitizer build failed: {e}");
                }
            }
            0
        }
        // (ended together with the worker that waits for them, lest a deadlocked one stays behind)
        Some("threads" | "pressure") if unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) } != 0 => 3,
        Some("threads") => p_conc::program(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("pressure") => p_conc::pressure_program(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("range") => p_mem::range(props(&a[2]).unwrap(), a[3].parse().unwrap(), tier(&a[4]), a[5].parse().unwrap(), a[6].parse().unwrap()),
        Some("tokens") => {
            for t in jsonpath_rfc9535::lexer::tokenize(&a[2]) {
                println!("{t:?} {:?}", a[2].get(t.span.0..t.span.1));
            }
            println!("{:?}", jsonpath_rfc9535::Query::standard(&a[2]));
            0
        }
        _ => {
            eprintln!("usage: vh check|one|replay ...");
            2
        }
    };
    std::process::exit(code);
}
