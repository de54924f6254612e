//! vfengine: symbolic execution of LLVM IR with z3 as the deciding solver.
//!
//!   vfengine MODULE.ll --out LOG [--jobs N] [--time SECONDS] [--tier 0|1] [--rlimit N]
//!            [--path-limit N] [--seed N] [--samples N] --entry NAME...

#![allow(dead_code)]

mod exec;
mod expr;
mod ll;
mod native;
mod selftest;
mod solver;
mod sys;

use std::sync::atomic::Ordering::Relaxed;

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let mut args = std::env::args().skip(1);
    let mut file = String::new();
    let mut entries = vec![];
    let mut out = String::from("/dev/stdout");
    let mut jobs = 8;
    let mut time = 300u64;
    let mut cfg = exec::Cfg {
        tier: 0,
        rlimit: 30_000_000,
        path_limit: 400_000_000,
        deadline: std::time::Instant::now(),
        start: std::time::Instant::now(),
        grace_ms: None,
        seed: 1,
        samples: 12,
        max_paths: 0,
    };
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("argument value");
        match a.as_str() {
            "--entry" => entries.push(val()),
            "--out" => out = val(),
            "--jobs" => jobs = val().parse().unwrap(),
            "--time" => time = val().parse().unwrap(),
            "--tier" => cfg.tier = val().parse().unwrap(),
            "--rlimit" => cfg.rlimit = val().parse().unwrap(),
            "--path-limit" => cfg.path_limit = val().parse().unwrap(),
            "--selftest" => {
                let n: u64 = val().parse().unwrap();
                std::process::exit((selftest::run(n, cfg.seed) + selftest::linear(n, cfg.seed) > 0) as i32);
            }
            "--grace" => cfg.grace_ms = Some(val().parse::<u64>().unwrap() * 1000),
            "--seed" => cfg.seed = val().parse().unwrap(),
            "--samples" => cfg.samples = val().parse().unwrap(),
            f => file = f.to_string(),
        }
    }
    let t0 = std::time::Instant::now();
    cfg.deadline = t0 + std::time::Duration::from_secs(time);
    let text = std::fs::read_to_string(&file).expect("module");
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = ll::load(text);
    let s = sys::Sys::new(jobs, &out);
    let mut ex = exec::Exec::new(m, s, cfg);
    let load_s = t0.elapsed().as_secs_f64();
    // one child per entry
    for (i, e) in entries.iter().enumerate() {
        if ex.sys.split() {
            ex.entry = e.clone();
            ex.entry_idx = i;
            let r = ex.run_entry(e);
            ex.finish(r);
        }
    }
    let bad = ex.sys.wait_all();
    let sh = ex.sys.sh;
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let mut per = String::from("[");
    for (i, e) in entries.iter().enumerate().take(31) {
        if i > 0 {
            per.push(',');
        }
        per.push_str(&format!("{{\"entry\":{},\"paths\":{},\"incomplete\":{}}}", exec::jstr(e), g(&sh.reach[i * 4]), g(&sh.reach[i * 4 + 1])));
    }
    per.push(']');
    let fns: Vec<String> = ex.func_names().iter().map(|s| exec::jstr(s)).collect();
    ex.sys.log(&format!(
        "{{\"kind\":\"summary\",\"crashed\":{},\"errors\":{},\"paths_ok\":{},\"paths_assume\":{},\"paths_panic_ok\":{},\"paths_violation\":{},\"paths_incomplete\":{},\"incomplete_checks\":{},\"forks\":{},\"queries\":{},\"q_unsat\":{},\"q_sat\":{},\"q_unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"lira\":{},\"fpa\":{},\"checks_total\":{},\"checks_const\":{},\"checks_solver\":{},\"branches_dom\":{},\"branches_forked_or_decided\":{},\"instrs\":{},\"violations\":{},\"max_vars\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"entries\":{},\"functions\":[{}]}}",
        bad, g(&sh.errors), g(&sh.paths_ok), g(&sh.paths_assume), g(&sh.paths_panic_ok), g(&sh.paths_violation), g(&sh.paths_incomplete), g(&sh.incomplete), g(&sh.forks), g(&sh.queries), g(&sh.q_unsat), g(&sh.q_sat), g(&sh.q_unknown), g(&sh.q_time_ns) as f64 / 1e9, g(&sh.q_max_ns) as f64 / 1e9, g(&sh.lira), g(&sh.fpa), g(&sh.checks_total), g(&sh.checks_const), g(&sh.checks_solver), g(&sh.branches_dom), g(&sh.branches_solver), g(&sh.instrs), g(&sh.violations), g(&sh.max_vars), load_s, t0.elapsed().as_secs_f64(), per, fns.join(",")
    ));
}
