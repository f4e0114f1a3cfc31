//! vh run <property> --tier quick|thorough --profile NAME --seed N --out FILE
//! vh replay FILE
//! vh selftest
mod conv;
extern crate alloc;
#[path = "../../probe/src/exec.rs"]
mod exec;
#[path = "../../probe/src/low.rs"]
mod low;
mod gen;
mod guided;
mod lowops;
mod ops;
mod props;
mod refm;
mod run;
mod selftest;
mod watch;

#[global_allocator]
static ALLOC: watch::Watching = watch::Watching;

use serde_json::{json, Value};
use std::process::exit;

fn die(msg: &str) -> ! {
    eprintln!("vh: {}", msg);
    exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if guided::available() {
        // instrumented frames are larger
        std::env::set_var("RUST_MIN_STACK", "67108864");
    }
    run::install_panic_hook();
    run::install_watchdog();
    match args.first().map(|s| s.as_str()) {
        Some("run") if args.len() >= 2 => cmd_run(&args[1], &args[2..]),
        Some("replay") if args.len() == 2 => cmd_replay(&args[1]),
        Some("vectors") if args.len() == 3 => cmd_vectors(&args[1], &args[2]),
        Some("selftest") => selftest::main(),
        _ => die("usage: vh run ID [--tier T] [--profile P] [--seed N] [--out F] | replay FILE | selftest"),
    }
}

fn cmd_run(id: &str, rest: &[String]) {
    let mut cfg = run::Cfg {
        seed: 1,
        thorough: false,
        profile: "checked".into(),
        scale: 1.0,
        find: None,
        journal: std::env::var("VH_JOURNAL").ok(),
    };
    let mut out = None;
    let mut only: Option<String> = None;
    let mut guided: Option<f64> = None;
    let mut it = rest.iter();
    while let Some(a) = it.next() {
        let v = it.next().unwrap_or_else(|| die("option without value"));
        match a.as_str() {
            "--tier" => cfg.thorough = v == "thorough",
            "--profile" => cfg.profile = v.clone(),
            "--seed" => cfg.seed = v.parse().unwrap_or_else(|_| die("seed")),
            "--scale" => cfg.scale = v.parse().unwrap_or_else(|_| die("scale")),
            "--find" => cfg.find = Some(v.parse().unwrap_or_else(|_| die("find"))),
            "--guided" => guided = Some(v.parse().unwrap_or_else(|_| die("guided"))),
            "--out" => out = Some(v.clone()),
            "--group" => only = Some(v.clone()),
            _ => die("unknown option"),
        }
    }
    let (rule, groups) = props::groups(id).unwrap_or_else(|| die("unknown property"));
    let mut rep = run::Report::default();
    if guided.is_some() && !guided::available() {
        die("not an instrumented build");
    }
    let parts = groups.iter().filter(|g| g.can_be_guided()).count().max(1);
    for g in &groups {
        if only.as_deref().map_or(false, |o| o != g.name()) {
            continue;
        }
        let t = std::time::Instant::now();
        if let Some(s) = guided {
            let share = if only.is_some() { s } else { s / parts as f64 };
            match g.guided(id, &cfg, std::time::Duration::from_secs_f64(share)) {
                Some(r) => rep.merge(r),
                None => continue,
            }
        } else {
            rep.merge(g.explore(id, &cfg));
        }
        if std::env::var_os("VH_TIME").is_some() {
            eprintln!("{} {} {:.2}s", id, g.name(), t.elapsed().as_secs_f64());
        }
        if rep.violation.is_some() {
            break;
        }
    }
    let mut j = json!({
        "property": id,
        "profile": cfg.profile,
        "rule": rule,
        "evaluations": rep.evaluations,
        "distinct_nontrivial": rep.hashes.len(),
        "groups": rep.groups,
        "labels": rep.labels,
        "samples": rep.samples,
        "violation": Value::Null,
        "found": rep.found,
        "places_reached": rep.edges.len(),
    });
    if let Some((group, case, why)) = &rep.violation {
        j["violation"] = json!({
            "property": id, "profile": cfg.profile, "group": group,
            "case": case, "reason": why,
        });
    }
    if let Some(f) = &out {
        let mut h: Vec<u64> = rep.hashes.iter().copied().collect();
        h.sort_unstable();
        let bytes: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
        let tr: Vec<u8> = rep.trace.iter().flat_map(|x| x.to_le_bytes()).collect();
        if std::fs::write(format!("{}.hashes", f), bytes).is_err()
            || std::fs::write(format!("{}.trace", f), tr).is_err()
            || std::fs::write(f, serde_json::to_vec_pretty(&j).unwrap()).is_err()
        {
            die("cannot write the report");
        }
    } else {
        println!("{}", serde_json::to_string_pretty(&j).unwrap());
    }
    exit(if rep.violation.is_some() { 1 } else { 0 })
}

/// operations with the reference model's answers, for the probe
fn cmd_vectors(seed: &str, count: &str) {
    use proptest::test_runner::{RngAlgorithm, TestRng};
    use sha2::Digest;
    let n: u64 = count.parse().unwrap_or_else(|_| die("count"));
    let mut key = [0u8; 32];
    key.copy_from_slice(&sha2::Sha256::digest(format!("vectors {}", seed).as_bytes()));
    let mut r = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
    let rg = run::Rg::new(&mut r);
    let mut out = String::new();
    let mut pool = ops::Pool::new(&rg);
    for i in 0..n {
        if i % 32 == 31 {
            pool = ops::Pool::new(&rg);
        }
        if i % 5 >= 3 {
            let (line, want) = lowops::line(&rg);
            out.push_str(&format!("{}\t{}\n", line, want));
            continue;
        }
        let op = ops::op(&rg, &pool);
        if op.valid() {
            out.push_str(&op.line());
            out.push('\t');
            out.push_str(&op.want());
            out.push('\n');
        }
    }
    for b in props::der::long_lengths() {
        for op in [ops::Op::Der(b.clone()), ops::Op::Lax(b)] {
            out.push_str(&format!("{}\t{}\n", op.line(), op.want()));
        }
    }
    print!("{}", out);
}

fn cmd_replay(file: &str) {
    let v: Value = std::fs::read(file)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_else(|| die("cannot read the replay file"));
    let id = v["property"].as_str().unwrap_or_else(|| die("no property"));
    let group = v["group"].as_str().unwrap_or_else(|| die("no group"));
    let (_, groups) = props::groups(id).unwrap_or_else(|| die("unknown property"));
    let g = groups
        .iter()
        .find(|g| g.name() == group)
        .unwrap_or_else(|| die("unknown group"));
    match g.replay(&v["case"]) {
        Err(e) => die(&format!("bad case: {}", e)),
        Ok((res, trace)) => {
            if let Some(t) = trace {
                println!("TRACE {}", t);
            }
            match res {
                Ok(()) => println!("PASS"),
                Err(e) => {
                    println!("FAIL {}", e);
                    exit(1)
                }
            }
        }
    }
}
