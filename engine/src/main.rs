//! symx: symbolic execution of LLVM IR produced by rustc, with z3 deciding every branch,
//! assumption and assertion.
mod exec;
mod expr;
mod ll;
mod mem;
mod solver;

use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(","))
}

struct Job {
    entry: String,
    args: Vec<u64>,
}

fn violated(g: &Global_) -> bool {
    g.viol_total.load(Relaxed) > 0 && g.viol.lock().unwrap().keys().any(|k| matches!(k.0.as_str(), "check" | "panic" | "abort"))
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut jobs: Vec<Job> = vec![];
    let mut threads = 8usize;
    let mut time = 600.0f64;
    let mut jobtime = 1e6f64;
    let mut grace = 0f64;
    let mut out = String::new();
    let mut max_steps = 200_000_000u64;
    let mut max_depth = 4000usize;
    let mut qtimeout = 30_000u32;
    let mut sample_every = 997u64;
    let mut sample_max = 400usize;
    let mut dump_every = 0u64;
    let mut dump_max = 40usize;
    let mut replay: Option<Vec<u64>> = None;
    let mut verbose = false;
    let mut list = false;
    let mut i = 1;
    while i < av.len() {
        let k = av[i].clone();
        let mut v = || {
            i += 1;
            av[i].clone()
        };
        match k.as_str() {
            "--ll" => ll = v(),
            "--job" => {
                let t = v();
                let mut p = t.split(':');
                let entry = p.next().unwrap().to_string();
                jobs.push(Job { entry, args: p.map(|x| x.parse().unwrap()).collect() });
            }
            "--threads" => threads = v().parse().unwrap(),
            "--jobtime" => jobtime = v().parse().unwrap(),
            "--grace" => grace = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--out" => out = v(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-depth" => max_depth = v().parse().unwrap(),
            "--qtimeout" => qtimeout = v().parse().unwrap(),
            "--sample-every" => sample_every = v().parse().unwrap(),
            "--sample-max" => sample_max = v().parse().unwrap(),
            "--dump-every" => dump_every = v().parse().unwrap(),
            "--dump-max" => dump_max = v().parse().unwrap(),
            "--replay" => replay = Some(v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--verbose" => verbose = true,
            "--list" => list = true,
            _ => {
                eprintln!("unknown argument {}", k);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let module: &'static ll::Module = Box::leak(Box::new(ll::parse_module(&text)));
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    if list {
        for f in &module.funcs {
            println!("{}", f.name);
        }
        for e in &module.exts {
            println!("ext {} {:?}", e, ext_of(e));
        }
        return;
    }
    if verbose {
        eprintln!("parsed {} functions, {} globals in {:.2}s", module.funcs.len(), module.globals.len(), parse_s);
    }
    let base = initial_mem(module);
    let exts: Vec<Ext> = module.exts.iter().map(|n| ext_of(n)).collect();
    let mut results = vec![];
    let mut all_deadline = t0 + Duration::from_secs_f64(time);
    // once something was found there is no need to explore everything else
    let mut found = false;
    if replay.is_some() {
        threads = 1;
    }
    for job in &jobs {
        let jt = Instant::now();
        let mut deadline = all_deadline.min(jt + Duration::from_secs_f64(jobtime));
        let fix = match module.fname.get(&job.entry) {
            Some(f) => *f,
            None => {
                results.push(format!("{{\"entry\":{},\"args\":{},\"missing\":true}}", esc(&job.entry), nums(&job.args)));
                continue;
            }
        };
        let g = Global_ {
            m: module,
            exts: exts.clone(),
            base: base.clone(),
            sh: solver::Shared::new(qtimeout, dump_every, dump_max),
            lim: Limits { max_steps, max_depth, max_bytes: 1 << 26 },
            queue: Mutex::new(vec![]),
            cv: Condvar::new(),
            waiting: AtomicUsize::new(0),
            qlen: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            done: AtomicBool::new(false),
            nthreads: threads,
            paths: AtomicU64::new(0),
            killed: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            forks: AtomicU64::new(0),
            checks: AtomicU64::new(0),
            checks_proved: AtomicU64::new(0),
            maxsteps_path: AtomicU64::new(0),
            viol: Mutex::new(HashMap::new()),
            viol_total: AtomicU64::new(0),
            errors: Mutex::new(HashMap::new()),
            covers: Mutex::new(HashMap::new()),
            funcs: (0..module.funcs.len()).map(|_| AtomicBool::new(false)).collect(),
            samples: Mutex::new(vec![]),
            sample_every,
            sample_max,
            keep_per_kind: 3,
            replay: replay.clone(),
            verbose,
        };
        let st = new_state(&g, fix, job.args.clone());
        g.queue.lock().unwrap().push(st);
        g.qlen.store(1, SeqCst);
        let left = AtomicU64::new(0);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..threads {
                let g = &g;
                let left = &left;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            let mut w = Worker::new(g);
                            loop {
                                if g.stop.load(Relaxed) {
                                    left.fetch_add(w.local.len() as u64, Relaxed);
                                    return;
                                }
                                if let Some(s) = w.local.pop() {
                                    // share the oldest pending states with idle workers
                                    if w.local.len() > 0 && g.waiting.load(Relaxed) > 0 && g.qlen.load(Relaxed) < g.nthreads {
                                        let k = (w.local.len() + 1) / 2;
                                        let give: Vec<_> = w.local.drain(..k).collect();
                                        let mut q = g.queue.lock().unwrap();
                                        q.extend(give);
                                        g.qlen.store(q.len(), Relaxed);
                                        drop(q);
                                        g.cv.notify_all();
                                    }
                                    w.run(s);
                                    continue;
                                }
                                let mut q = g.queue.lock().unwrap();
                                g.waiting.fetch_add(1, SeqCst);
                                let got = loop {
                                    if g.stop.load(Relaxed) || g.done.load(Relaxed) {
                                        break None;
                                    }
                                    if let Some(s) = q.pop() {
                                        g.qlen.store(q.len(), Relaxed);
                                        break Some(s);
                                    }
                                    if g.waiting.load(SeqCst) == g.nthreads {
                                        g.done.store(true, SeqCst);
                                        g.cv.notify_all();
                                        break None;
                                    }
                                    q = g.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                };
                                drop(q);
                                match got {
                                    Some(s) => {
                                        g.waiting.fetch_sub(1, SeqCst);
                                        w.run(s);
                                    }
                                    None => {
                                        if g.done.load(Relaxed) {
                                            return;
                                        }
                                        g.waiting.fetch_sub(1, SeqCst);
                                    }
                                }
                            }
                        })
                        .unwrap(),
                );
            }
            let mut last = Instant::now();
            loop {
                if g.done.load(Relaxed) || hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                if Instant::now() > deadline {
                    g.stop.store(true, SeqCst);
                    g.cv.notify_all();
                    break;
                }
                if !found && grace > 0.0 && violated(&g) {
                    found = true;
                    all_deadline = all_deadline.min(Instant::now() + Duration::from_secs_f64(grace));
                    deadline = deadline.min(all_deadline);
                }
                if verbose && last.elapsed().as_secs() >= 5 {
                    last = Instant::now();
                    eprintln!(
                        "  {} t={:.0}s paths={} killed={} forks={} queries={} cached={} viol={} solver={:.1}s steps={}M",
                        job.entry,
                        jt.elapsed().as_secs_f64(),
                        g.paths.load(Relaxed),
                        g.killed.load(Relaxed),
                        g.forks.load(Relaxed),
                        g.sh.queries.load(Relaxed),
                        g.sh.cached.load(Relaxed),
                        g.viol_total.load(Relaxed),
                        g.sh.solver_ns.load(Relaxed) as f64 / 1e9,
                        g.steps.load(Relaxed) / 1_000_000
                    );
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            for h in hs {
                if h.join().is_err() {
                    g.errors.lock().unwrap().entry("engine thread failed".into()).or_insert((0, vec![])).0 += 1;
                }
            }
        });
        if !found && grace > 0.0 && violated(&g) {
            found = true;
            all_deadline = all_deadline.min(Instant::now() + Duration::from_secs_f64(grace));
        }
        let complete = g.done.load(Relaxed) && !g.stop.load(Relaxed);
        let mut o = String::from("{");
        o.push_str(&format!("\"entry\":{},\"args\":{},\"complete\":{},", esc(&job.entry), nums(&job.args), complete));
        o.push_str(&format!("\"seconds\":{:.3},", jt.elapsed().as_secs_f64()));
        for (k, v) in [
            ("paths", &g.paths),
            ("killed", &g.killed),
            ("steps", &g.steps),
            ("forks", &g.forks),
            ("checks", &g.checks),
            ("checks_proved", &g.checks_proved),
            ("max_steps_path", &g.maxsteps_path),
            ("queries", &g.sh.queries),
            ("q_sat", &g.sh.q_sat),
            ("q_unsat", &g.sh.q_unsat),
            ("q_unknown", &g.sh.q_unknown),
            ("q_retried", &g.sh.q_retried),
            ("cached", &g.sh.cached),
            ("by_model", &g.sh.by_model),
            ("violations_total", &g.viol_total),
        ] {
            o.push_str(&format!("\"{}\":{},", k, v.load(Relaxed)));
        }
        o.push_str(&format!("\"solver_s\":{:.3},", g.sh.solver_ns.load(Relaxed) as f64 / 1e9));
        o.push_str(&format!("\"solver_max_s\":{:.3},", g.sh.max_ns.load(Relaxed) as f64 / 1e9));
        let v = g.viol.lock().unwrap();
        let mut vs: Vec<_> = v.values().flatten().collect();
        vs.sort_by(|a, b| (&a.kind, a.code, &a.loc, a.inputs.len(), &a.inputs).cmp(&(&b.kind, b.code, &b.loc, b.inputs.len(), &b.inputs)));
        o.push_str(&format!(
            "\"violations\":[{}],",
            vs.iter()
                .map(|x| format!(
                    "{{\"kind\":{},\"code\":{},\"loc\":{},\"count\":{},\"inputs\":{}}}",
                    esc(&x.kind),
                    x.code,
                    esc(&x.loc),
                    x.count,
                    nums(&x.inputs)
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"errors\":[{}],",
            g.errors
                .lock()
                .unwrap()
                .iter()
                .map(|(k, (n, inp))| format!("{{\"what\":{},\"count\":{},\"inputs\":{}}}", esc(k), n, nums(inp)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        let cv = g.covers.lock().unwrap();
        let mut cs: Vec<_> = cv.iter().collect();
        cs.sort();
        o.push_str(&format!("\"covers\":{{{}}},", cs.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(
            "\"functions\":[{}],",
            g.funcs
                .iter()
                .enumerate()
                .filter(|(_, b)| b.load(Relaxed))
                .map(|(i, _)| esc(&module.funcs[i].name))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"samples\":[{}],",
            g.samples
                .lock()
                .unwrap()
                .iter()
                .map(|s| format!("{{\"inputs\":{},\"log\":\"{:016x}\",\"nlog\":{},\"outcome\":{}}}", nums(&s.inputs), s.log, s.nlog, esc(&s.outcome)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"dumps\":[{}]}}",
            g.sh.dump.lock().unwrap().iter().map(|(q, a)| format!("{{\"q\":{},\"sat\":{}}}", esc(q), a)).collect::<Vec<_>>().join(",")
        ));
        results.push(o);
        if verbose {
            eprintln!(
                "{} {:?}: complete={} paths={} killed={} viol={} queries={} solver={:.1}s {:.1}s",
                job.entry,
                job.args,
                complete,
                g.paths.load(Relaxed),
                g.killed.load(Relaxed),
                g.viol_total.load(Relaxed),
                g.sh.queries.load(Relaxed),
                g.sh.solver_ns.load(Relaxed) as f64 / 1e9,
                jt.elapsed().as_secs_f64()
            );
        }
    }
    let r = format!("{{\"z3\":{},\"jobs\":[{}]}}\n", esc(&solver::z3_version()), results.join(",\n"));
    if out.is_empty() {
        print!("{}", r);
    } else {
        std::fs::write(&out, r).expect("write out");
    }
}
