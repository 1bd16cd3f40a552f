mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::collections::HashMap;
use std::sync::atomic::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < a.len() {
        let k = a[i].trim_start_matches("--").to_string();
        opt.insert(k, a.get(i + 1).cloned().unwrap_or_default());
        i += 2;
    }
    let file = opt.get("ir").expect("--ir file.ll");
    let t0 = Instant::now();
    let src = std::fs::read(file).expect("read ir");
    let m = match ir::Module::parse(src) {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    let parse = t0.elapsed().as_secs_f64();
    if let Some(f) = opt.get("lower-all") {
        let _ = f;
        for i in 0..m.funcs.len() {
            if m.funcs[i].body.is_some() {
                match m.code(i as u32) {
                    Err(e) => println!("{}", e),
                    Ok(c) => {
                        for b in &c.blocks {
                            for x in &b.insts {
                                if let ir::Inst::Unsupported(s) = x {
                                    println!("{}: {}", m.funcs[i].name, s);
                                }
                            }
                        }
                    }
                }
            }
        }
        return;
    }
    let g = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let threads = g("threads", 8) as usize;
    let entries: Vec<String> = opt.get("entry").expect("--entry").split(',').map(|s| s.to_string()).collect();
    let params: Vec<u64> = opt.get("params").map(|p| p.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut outs = vec![];
    for ename in &entries {
        let Some(&entry) = m.fidx.get(ename) else {
            eprintln!("no entry {}", ename);
            std::process::exit(3);
        };
        let sh = exec::Shared {
            m,
            entry,
            queue: Mutex::new(vec![vec![]]),
            idle: AtomicUsize::new(0),
            threads,
            stop: AtomicBool::new(false),
            deadline: Instant::now() + Duration::from_secs(g("time", 600)),
            max_inst: g("max-inst", 200_000_000),
            params: params.clone(),
            timeout_ms: g("solver-timeout", 60_000) as u32,
            alloc_enum: g("alloc-enum", 64) as u64,
            verbose: opt.contains_key("verbose"),
            stop_on_violation: g("keep-going", 0) == 0,
            res: Mutex::new(Default::default()),
            paths: AtomicU64::new(0),
            dump: opt.get("dump").map(|d| (d.into(), g("dump-every", 100))),
            max_paths: g("max-paths", 0),
        };
        let t1 = Instant::now();
        std::thread::scope(|s| {
            for _ in 0..threads {
                let sh = &sh;
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::Exec::new(sh).worker()));
                    if r.is_err() {
                        sh.res.lock().unwrap_or_else(|e| e.into_inner()).engine_errors.insert("engine panic".into(), 1);
                        sh.stop.store(true, Ordering::SeqCst);
                    }
                }).unwrap();
            }
        });
        let wall = t1.elapsed().as_secs_f64();
        let r = sh.res.into_inner().unwrap_or_else(|e| e.into_inner());
        let mut fs: Vec<&str> = r.funcs.iter().map(|f| m.funcs[*f as usize].name.as_str()).collect();
        fs.sort();
        let mut ee: Vec<_> = r.engine_errors.iter().collect();
        ee.sort_by(|a, b| b.1.cmp(a.1));
        let mut sites: Vec<_> = r.fork_sites.iter().collect();
        sites.sort_by(|a, b| b.1.cmp(a.1));
        if opt.contains_key("verbose") {
            for (s, n) in sites.iter().take(25) {
                eprintln!("fork {} {}", n, s);
            }
        }
        let vs: Vec<String> = r.violations.iter().map(|(m, v, log)| {
            format!("{{\"msg\":{},\"values\":[{}],\"log\":[{}]}}", js(m), v.iter().map(|(n, b, x)| format!("[{},{},\"{}\"]", js(n), b, x)).collect::<Vec<_>>().join(","), log.iter().map(|l| js(l)).collect::<Vec<_>>().join(","))
        }).collect();
        let jv = |v: &Vec<(String, u32, u128)>| format!("[{}]", v.iter().map(|(n, b, x)| format!("[{},{},\"{}\"]", js(n), b, x)).collect::<Vec<_>>().join(","));
        let mut sm = r.samples.iter().collect::<Vec<_>>();
        sm.sort_by_key(|v| std::cmp::Reverse(v.len()));
        let step = (sm.len() / g("samples", 12) as usize).max(1);
        let smp: Vec<String> = sm.iter().step_by(step).take(g("samples", 12) as usize).map(|v| jv(v)).collect();
        let mut cov: Vec<_> = r.covers.iter().collect();
        cov.sort();
        outs.push(format!(
            "{{\"entry\":{},\"complete\":{},\"timed_out\":{},\"done\":{},\"pruned\":{},\"limit\":{},\"violations\":[{}],\"violation_counts\":{{{}}},\"engine_errors\":[{}],\"covers\":{{{}}},\"insts\":{},\"max_path_insts\":{},\"forks\":{},\"checks\":{},\"checks_symbolic\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"order_conflicts\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_vars\":{},\"dumped\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"representatives\":{},\"samples\":[{}],\"functions\":[{}]}}",
            js(ename),
            !r.timed_out && r.engine_errors.is_empty() && r.unknown == 0,
            r.timed_out,
            r.done,
            r.pruned,
            r.limit,
            vs.join(","),
            r.vio_msgs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            ee.iter().take(12).map(|(k, v)| format!("[{},{}]", js(k), v)).collect::<Vec<_>>().join(","),
            cov.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
            r.insts, r.max_icount, r.forks, r.checks, r.checks_symbolic, r.queries, r.sat, r.unsat, r.unknown, r.cached, r.order, r.solver_time, r.max_query, r.max_vars, r.dumped, wall, parse,
            r.representatives,
            smp.join(","),
            fs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
        ));
    }
    let out = format!("[{}]\n", outs.join(",\n"));
    match opt.get("out") {
        Some(o) => std::fs::write(o, out).unwrap(),
        None => println!("{}", out),
    }
}
