mod exec;
mod ir;
mod solver;
mod term;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Rep {
    paths: u64, done: u64, infeasible: u64, panics: u64, limit: Vec<String>, engine: Vec<String>, inconclusive: BTreeMap<String, u64>,
    instrs: u64, branches: u64, covers: BTreeSet<String>, asserts: BTreeMap<String, (u64, u64)>, fns: BTreeSet<u32>,
    viol: BTreeMap<String, (Violation, u64)>, samples: Vec<(Vec<u8>, Vec<u64>, String)>, queries: u64, hits: u64, sat: u64, unsat: u64, unknown: u64, stime: Duration, smax: Duration,
    panic_kinds: BTreeMap<String, u64>,
}
struct Q { jobs: Vec<Job>, active: usize, stop: Option<String> }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn ls(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let flag = |k: &str| a.iter().any(|x| x == k);
    let ll = a.get(1).cloned().unwrap_or_default();
    let threads: usize = get("--threads", "8").parse().unwrap();
    let out = get("--out", "");
    let max_samples: usize = get("--samples", "200").parse().unwrap();
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("symex: {e}"); std::process::exit(2) } };
    let load = t0.elapsed();
    if flag("--list") { for f in &m.fns { if f.is_def && f.name.starts_with("h_") { println!("{}", f.name); } } return; }
    if flag("--parse-all") {
        for i in 0..m.fns.len() { if m.fns[i].is_def { match m.func(i as u32) { Ok(f) => for b in &f.blocks { for x in &b.insts { if let ir::K::Unsupported(s) = &x.k { println!("{}: {}", m.fns[i].name, s); } } }, Err(e) => println!("{e}") } } }
        return;
    }
    let hk = hooks(&m);
    let cfg0 = Cfg { max_instr: get("--max-instr", "20000000").parse().unwrap(), panic_ok: flag("--panic-ok"), alloc_limit: get("--alloc-limit", "16777216").parse().unwrap(), assume_no_panic_in: vec![], trace_forks: std::env::var("SYMEX_FORKS").is_ok(), share: exec::Share { idle: Default::default(), give: Box::new(|_| ()) } };
    let entries: Vec<String> = a.iter().enumerate().filter(|(i, _)| *i > 0 && a[i - 1] == "--entry").map(|(_, x)| x.clone()).collect();
    let mut all = vec![];
    let mut bad = false;
    for spec in &entries {
        // entry[:panic-ok][:time=N]
        let mut it = spec.split(':');
        let entry = it.next().unwrap().to_string();
        let mut time: u64 = get("--time", "300").parse().unwrap();
        let q = Arc::new((Mutex::new(Q { jobs: vec![Job::root()], active: 0, stop: None }), Condvar::new()));
        let idle = Arc::new(AtomicUsize::new(0));
        let share = exec::Share { idle: idle.clone(), give: { let q = q.clone(); Box::new(move |j| { q.0.lock().unwrap().jobs.push(j); q.1.notify_one(); }) } };
        let mut cfg = Cfg { max_instr: cfg0.max_instr, panic_ok: cfg0.panic_ok, alloc_limit: cfg0.alloc_limit, assume_no_panic_in: vec![], trace_forks: std::env::var("SYMEX_FORKS").is_ok(), share };
        for o in it { if o == "panic-ok" { cfg.panic_ok = true; } else if let Some(n) = o.strip_prefix("time=") { time = n.parse().unwrap(); } }
        let Some(&ix) = m.fn_ix.get(&entry) else { eprintln!("symex: no entry {entry}"); std::process::exit(2) };
        let t1 = Instant::now();
        let cache = Arc::new(solver::Cache::default());
        let rep = Mutex::new(Rep::default());
        let (qs, idle) = (&q, &idle);
        let deadline = t1 + Duration::from_secs(time);
        let maxp: u64 = get("--max-paths", "5000000").parse().unwrap();
        std::thread::scope(|s| {
            for _ in 0..threads {
                let (cache, rep, q, cv, m, hk, cfg) = (cache.clone(), &rep, &qs.0, &qs.1, &m, &hk, &cfg);
                let zb = get("--solver", "z3-new");
                let to: u64 = get("--query-timeout", "30000").parse().unwrap();
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                    let mut sv = solver::Solver::new(&zb, to, cache);
                    loop {
                        let job = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if g.stop.is_some() { break None; }
                                if let Some(j) = g.jobs.pop() { g.active += 1; break Some(j); }
                                if g.active == 0 { cv.notify_all(); break None; }
                                idle.fetch_add(1, Ordering::Relaxed);
                                g = cv.wait(g).unwrap();
                                idle.fetch_sub(1, Ordering::Relaxed);
                            }
                        };
                        let Some(job) = job else { break };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Exec::new(m, &mut sv, cfg, hk, &job).run(ix)));
                        let mut newjobs = vec![];
                        let mut rp = rep.lock().unwrap();
                        match r {
                            Err(_) => rp.engine.push("engine panicked".into()),
                            Ok(p) => {
                                let base = Arc::new(p.decisions);
                                for (len, flip, model) in p.siblings { newjobs.push(Job { base: base.clone(), len, flip: Some(flip), model }); }
                                rp.paths += 1;
                                rp.instrs += p.instrs; rp.branches += p.branches;
                                let mut endk = "ok".to_string();
                                match p.end {
                                    End::Done => rp.done += 1,
                                    End::Infeasible => { rp.infeasible += 1; endk = "infeasible".into() }
                                    End::Panic { what, at, .. } => { rp.panics += 1; endk = "panic".into(); *rp.panic_kinds.entry(format!("{what} at {at}")).or_default() += 1; }
                                    End::Ub { .. } => { endk = "ub".into() }
                                    End::Limit(s) => { if rp.limit.len() < 20 { rp.limit.push(s); } endk = "limit".into() }
                                    End::Engine(s, st) => { let t = format!("{s} in {}", st.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")); if rp.engine.len() < 20 && !rp.engine.contains(&t) { rp.engine.push(t); } endk = "engine".into() }
                                }
                                for c in p.covers { rp.covers.insert(c); }
                                for (k, (x, y)) in p.asserts { let e = rp.asserts.entry(k).or_default(); e.0 += x; e.1 += y; }
                                rp.fns.extend(p.fns);
                                for e in p.inconclusive { *rp.inconclusive.entry(e).or_default() += 1; }
                                let had = !p.violations.is_empty();
                                for v in p.violations { let k = format!("{}|{}", v.kind, v.id); rp.viol.entry(k).or_insert((v, 0)).1 += 1; }
                                if !had && (endk == "ok" || endk == "panic") {
                                    let n = rp.paths;
                                    let s = (p.input, p.observed, endk);
                                    if rp.samples.len() < max_samples { rp.samples.push(s); } else {
                                        // deterministic-ish reservoir
                                        let h = n.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
                                        let k = (h % n) as usize;
                                        if k < max_samples { rp.samples[k] = s; }
                                    }
                                }
                            }
                        }
                        let np = rp.paths;
                        drop(rp);
                        let mut g = q.lock().unwrap();
                        g.jobs.extend(newjobs);
                        g.active -= 1;
                        if Instant::now() > deadline && (!g.jobs.is_empty() || g.active > 0) { g.stop = Some(format!("time limit of {time} s with {} states queued", g.jobs.len())); }
                        if np > maxp { g.stop = Some("path limit".into()); }
                        cv.notify_all();
                    }
                    let mut rp = rep.lock().unwrap();
                    rp.queries += sv.queries; rp.hits += sv.hits; rp.sat += sv.sat; rp.unsat += sv.unsat; rp.unknown += sv.unknown; rp.stime += sv.time; rp.smax = rp.smax.max(sv.max);
                }).unwrap();
            }
        });
        let r = rep.into_inner().unwrap();
        let stop = q.0.lock().unwrap().stop.take();
        let complete = stop.is_none() && r.limit.is_empty() && r.engine.is_empty() && r.inconclusive.is_empty();
        if !complete || !r.viol.is_empty() { bad = true; }
        let wall = t1.elapsed().as_secs_f64();
        eprintln!("{entry}: paths {} (ok {}, infeasible {}, panic {}) instrs {} branches {} queries {} (hits {}) solver {:.1}s max {:.2}s wall {:.1}s asserts {} viol {} complete {}{}", r.paths, r.done, r.infeasible, r.panics, r.instrs, r.branches, r.queries, r.hits, r.stime.as_secs_f64(), r.smax.as_secs_f64(), wall, r.asserts.values().map(|x| x.0).sum::<u64>(), r.viol.len(), complete, stop.as_ref().map(|s| format!(" [{s}]")).unwrap_or_default());
        for e in &r.engine { eprintln!("  engine: {e}"); }
        for e in &r.limit { eprintln!("  limit: {e}"); }
        for (e, n) in &r.inconclusive { eprintln!("  inconclusive: {e} x{n}"); }
        for (v, n) in r.viol.values() { eprintln!("  VIOL {} {} x{n} input={}\n    {}", v.kind, v.id, hex(&v.input), v.stack.join("\n    ")); }
        for (k, n) in &r.panic_kinds { eprintln!("  panic {k} x{n}"); }
        let mut names: Vec<String> = r.fns.iter().map(|&i| { let f = &m.fns[i as usize]; if f.demangled.is_empty() { f.name.clone() } else { f.demangled.clone() } }).collect();
        names.sort();
        let mut o = String::new();
        let _ = write!(o, "{{\"entry\":{},\"complete\":{},\"stop\":{},\"paths\":{},\"ok\":{},\"infeasible\":{},\"panics\":{},\"instrs\":{},\"branches\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},", js(&entry), complete, js(stop.as_deref().unwrap_or("")), r.paths, r.done, r.infeasible, r.panics, r.instrs, r.branches, r.queries, r.hits, r.sat, r.unsat, r.unknown, r.stime.as_secs_f64(), r.smax.as_secs_f64(), wall);
        let _ = write!(o, "\"engine\":{},\"limit\":{},\"inconclusive\":{},", ls(r.engine.iter().map(|x| js(x))), ls(r.limit.iter().map(|x| js(x))), ls(r.inconclusive.keys().map(|x| js(x))));
        let _ = write!(o, "\"covers\":{},", ls(r.covers.iter().map(|x| js(x))));
        let _ = write!(o, "\"asserts\":{{{}}},", r.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
        let _ = write!(o, "\"panic_kinds\":{{{}}},", r.panic_kinds.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, "\"functions\":{},", ls(names.iter().map(|x| js(x))));
        let _ = write!(o, "\"violations\":{},", ls(r.viol.values().map(|(v, n)| format!("{{\"kind\":{},\"id\":{},\"count\":{n},\"input\":{},\"stack\":{}}}", js(&v.kind), js(&v.id), js(&hex(&v.input)), ls(v.stack.iter().map(|x| js(x)))))));
        let _ = write!(o, "\"samples\":{}}}", ls(r.samples.iter().map(|(i, ob, e)| format!("{{\"input\":{},\"observed\":{},\"end\":{}}}", js(&hex(i)), ls(ob.iter().map(|x| x.to_string())), js(e)))));
        all.push(o);
    }
    let txt = format!("{{\"load_s\":{:.3},\"total_s\":{:.3},\"entries\":[\n{}\n]}}\n", load.as_secs_f64(), t0.elapsed().as_secs_f64(), all.join(",\n"));
    if out.is_empty() { } else { std::fs::write(&out, txt).unwrap(); }
    std::process::exit(if bad { 1 } else { 0 });
}
