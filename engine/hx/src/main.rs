#![feature(never_type)]
#![feature(decl_macro)]
#![feature(try_blocks)]
#![feature(freeze)]
#![recursion_limit = "256"]
#![allow(dead_code, unused_imports, incomplete_features)]

extern crate minirust_rs;
extern crate self as miniutil;
pub use minirust_rs::libspecr;

pub use minirust_rs::libspecr::hidden::*;
pub use minirust_rs::libspecr::prelude::*;
pub use minirust_rs::libspecr::*;

pub use minirust_rs::lang::*;
pub use minirust_rs::mem::*;
pub use minirust_rs::prelude::NdResult;
pub use minirust_rs::prelude::*;

pub use std::format;
pub use std::marker::Freeze;
pub use std::result::Result;
pub use std::string::String;

pub mod build;
#[allow(warnings)]
#[macro_use]
pub mod cli;
#[allow(warnings)]
pub mod json;
#[allow(warnings)]
pub mod minirun;
pub mod stdshim;
pub mod kit;
pub mod mock_write;
#[allow(warnings)]
pub mod pretty;
#[allow(warnings)]
pub mod run;
pub mod props;
pub mod rust;

pub type DefaultTarget = x86_64;
pub type BasicMem = BasicMemory<DefaultTarget>;
pub type TreeBorrowMem = TreeBorrowsMemory<DefaultTarget>;

use kit::*;
use serde_json::{Value as J, json};
use std::io::Write as _;
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
}

fn main() {
    // Big stack: the interpreter recurses, and so does the symbolic engine.
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    if std::env::var("VX_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in props::cases(&args[2], arg(&args, "--tier").as_deref() == Some("thorough")) {
                println!("{}", c.name);
            }
        }
        Some("rust-sources") => {
            let dir = arg(&args, "--out").unwrap();
            for s in props::all(&args[2], arg(&args, "--tier").as_deref() == Some("thorough")).rust {
                let f = format!("{dir}/{}.rs", s.file);
                if std::fs::read_to_string(&f).ok().as_ref() != Some(&s.text) {
                    std::fs::write(&f, &s.text).unwrap();
                }
                println!("{}", s.file);
            }
        }
        #[cfg(feature = "sym")]
        Some("run") => cmd_run(&args),
        #[cfg(not(feature = "sym"))]
        Some("replay") => cmd_replay(&args),
        _ => {
            eprintln!("usage: hx list PROP | run PROP --out FILE | replay FILE..");
            std::process::exit(2)
        }
    }
}

#[cfg(feature = "sym")]
fn cmd_run(args: &[String]) {
    let start = Instant::now();
    let prop = &args[2];
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let budget = arg(args, "--budget").map_or(3600, |s| s.parse::<u64>().unwrap());
    let only = arg(args, "--only");
    let claim = arg(args, "--claim");
    let mut out: Box<dyn std::io::Write> = match arg(args, "--out") {
        Some(f) => Box::new(std::fs::File::create(f).unwrap()),
        None => Box::new(std::io::stdout()),
    };
    vx::set_solver(
        arg(args, "--timeout").map_or(20_000, |s| s.parse().unwrap()),
        arg(args, "--cross").map_or(0, |s| s.parse().unwrap()),
    );
    for (i, c) in props::cases(prop, thorough).into_iter().enumerate() {
        if only.as_ref().is_some_and(|o| !c.name.contains(o.as_str())) {
            continue;
        }
        if let Some(d) = &claim {
            let p = format!("{d}/{i}");
            if std::fs::OpenOptions::new().write(true).create_new(true).open(p).is_err() {
                continue;
            }
        }
        let left = budget.saturating_sub(start.elapsed().as_secs());
        if left == 0 {
            let j = json!({"case": c.name, "skipped": true});
            writeln!(out, "{j}").unwrap();
            continue;
        }
        kit::reset_counters();
        let lim = vx::Limits {
            max_paths: c.max_paths,
            max_time: Duration::from_secs(left.min(c.max_secs)),
            max_violations: 2,
        };
        let s0 = vx::solver_stats();
        let st = vx::explore(lim, &mut || {
            vx::restart_pins(true);
            c.go()
        });
        let s1 = vx::solver_stats();
        let viol: Vec<J> = st
            .violations
            .iter()
            .map(|v| {
                json!({"label": v.label, "detail": v.detail, "vars": vars(&v.vars), "notes": v.choices})
            })
            .collect();
        let traces: Vec<J> =
            st.traces.iter().map(|(v, n)| json!({"vars": vars(v), "notes": n})).collect();
        let (runs, steps) = kit::counters();
        let j = json!({
            "case": c.name, "paths": st.paths, "killed": st.killed, "decisions": st.decisions,
            "forks": st.forks, "checks": st.checks, "checks_trivial": st.checks_trivial,
            "unknowns": st.unknowns, "max_depth": st.max_depth,
            "reached": st.reached, "violations": viol, "inconclusive": st.inconclusive,
            "wall": st.wall.as_secs_f64(), "samples": st.samples, "traces": traces,
            "runs": runs, "steps": steps, "expect": c.expect,
            "queries": s1.queries - s0.queries, "sat": s1.sat - s0.sat, "unsat": s1.unsat - s0.unsat,
            "solver_time": (s1.time - s0.time).as_secs_f64(), "cache_hits": s1.cache_hits - s0.cache_hits,
            "cross_checked": s1.cross_checked - s0.cross_checked,
            "max_query": s1.max_query.as_secs_f64(),
        });
        writeln!(out, "{j}").unwrap();
        out.flush().unwrap();
    }
    let sites = minirust_rs::lang::COV_SITES + minirust_rs::mem::COV_SITES + minirust_rs::prelude::COV_SITES;
    let j = json!({"coverage": vx::coverage(), "sites": sites});
    writeln!(out, "{j}").unwrap();
}

#[cfg(feature = "sym")]
fn vars(v: &[(String, num_bigint::BigInt)]) -> J {
    v.iter().map(|(n, x)| json!([n, x.to_string()])).collect()
}

/// Input: files with lines `{"prop":.., "case":.., "vars":[[name,"value"],..]}`; output: one line each.
#[cfg(not(feature = "sym"))]
fn cmd_replay(args: &[String]) {
    for f in &args[2..] {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let j: J = serde_json::from_str(line).unwrap();
            let case = j["case"].as_str().unwrap();
            let vars = j["vars"]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| (v[0].as_str().unwrap().to_string(), v[1].as_str().unwrap().parse().unwrap()))
                .collect();
            let deep = j["tier"] == "thorough";
            let cs = [deep, !deep].into_iter().flat_map(|t| props::cases(j["prop"].as_str().unwrap(), t));
            let Some(c) = cs.into_iter().find(|c| c.name == case) else {
                println!("{}", json!({"case": case, "mismatch": "no such case"}));
                continue;
            };
            minirust_rs::libspecr::hidden::clear();
            let r = vx::replay(vars, &mut || c.go());
            println!(
                "{}",
                json!({"case": case, "failed": r.failed, "passed": r.passed.len(), "notes": r.notes, "mismatch": r.mismatch})
            );
        }
    }
}
