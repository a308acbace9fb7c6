//! SMT solver processes (z3, one per worker) and the shared query cache.
use crate::term::{Logic, Store, T};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown(String) }

#[derive(Default)]
pub struct Cache { m: Mutex<HashMap<u128, Res>> }

pub struct Solver {
    bin: String,
    p: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub timeout_ms: u64,
    cache: Arc<Cache>,
    pub queries: u64,
    pub hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub max: Duration,
    pub slow_log: Option<String>,
}

fn key(s: &str) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    let mut b = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut a);
    (s.len(), s, 0x5bd1e995u32).hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64, cache: Arc<Cache>) -> Self {
        Solver { bin: bin.into(), p: None, timeout_ms, cache, queries: 0, hits: 0, sat: 0, unsat: 0, unknown: 0, time: Duration::ZERO, max: Duration::ZERO, slow_log: std::env::var("SYMEX_SLOW").ok() }
    }
    fn start(&mut self) -> Result<(), String> {
        if self.p.is_some() { return Ok(()); }
        let mut c = Command::new(&self.bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {e}", self.bin))?;
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.p = Some((c, i, o));
        Ok(())
    }
    fn kill(&mut self) { if let Some((mut c, _, _)) = self.p.take() { let _ = c.kill(); let _ = c.wait(); } }

    /// Is the conjunction of `asserts` satisfiable?
    pub fn check(&mut self, st: &Store, asserts: &[T]) -> Res {
        let mut vars = vec![];
        let (body, logic) = st.smt(asserts, &mut vars);
        let k = key(&body);
        if let Some(r) = self.cache.m.lock().unwrap().get(&k) { self.hits += 1; return r.clone(); }
        let t0 = Instant::now();
        let mut r = self.ask(&body, logic, &vars);
        if let Res::Unknown(ref e) = r { if e.starts_with("io") { self.kill(); r = self.ask(&body, logic, &vars); } }
        let dt = t0.elapsed();
        self.queries += 1;
        self.time += dt;
        if dt > self.max { self.max = dt; }
        if dt > Duration::from_millis(1500) { if let Some(d) = &self.slow_log { let _ = std::fs::write(format!("{d}/q{:x}_{}ms.smt2", k as u64, dt.as_millis()), format!("{body}(check-sat)\n")); } }
        match r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown(_) => self.unknown += 1 }
        if !matches!(r, Res::Unknown(_)) { self.cache.m.lock().unwrap().insert(k, r.clone()); }
        r
    }
    fn ask(&mut self, body: &str, logic: Logic, vars: &[u32]) -> Res {
        if logic == Logic::Div {
            // short z3 attempt, then as linear integer arithmetic, then z3 again
            let full = self.timeout_ms;
            self.timeout_ms = full.min(300);
            let r = self.ask_z3(body, logic, vars);
            self.timeout_ms = full;
            if matches!(r, Res::Sat(_) | Res::Unsat) { return r; }
            let r = self.ask_int(body, vars);
            if matches!(r, Res::Sat(_) | Res::Unsat) { return r; }
        }
        self.ask_z3(body, logic, vars)
    }
    /// cvc5, bit vectors as integers.
    fn ask_int(&mut self, body: &str, vars: &[u32]) -> Res {
        let run = || -> Result<Res, String> {
            let e = |x: std::io::Error| x.to_string();
            let limit = format!("--tlimit={}", self.timeout_ms);
            let mut c = Command::new("cvc5").args(["--lang=smt2", "--solve-bv-as-int=sum", "--produce-models", &limit]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(e)?;
            let mut q = format!("(set-logic ALL)\n{body}(check-sat)\n");
            if !vars.is_empty() { q.push_str("(get-value ("); for v in vars { q.push_str(&format!("v{v} ")); } q.push_str("))\n"); }
            let mut i = c.stdin.take().unwrap();
            let w = std::thread::spawn(move || { let _ = i.write_all(q.as_bytes()); });
            let out = c.wait_with_output().map_err(e)?;
            let _ = w.join();
            let txt = String::from_utf8_lossy(&out.stdout).to_string();
            match txt.lines().next().unwrap_or("") {
                "unsat" => Ok(Res::Unsat),
                "sat" => Ok(Res::Sat(model(&txt[3..])?)),
                _ => Ok(Res::Unknown("timeout".into())),
            }
        };
        run().unwrap_or_else(Res::Unknown)
    }
    fn ask_z3(&mut self, body: &str, logic: Logic, vars: &[u32]) -> Res {
        if let Err(e) = self.start() { return Res::Unknown(e); }
        match self.ask_io(body, logic, vars) { Ok(r) => r, Err(e) => { self.kill(); Res::Unknown(format!("io: {e}")) } }
    }
    fn ask_io(&mut self, body: &str, logic: Logic, vars: &[u32]) -> Result<Res, String> {
        let to = self.timeout_ms;
        let (_, i, o) = self.p.as_mut().unwrap();
        let e = |x: std::io::Error| x.to_string();
        let logic = if logic == Logic::Fp { "QF_BVFP" } else { "QF_BV" };
        i.write_all(format!("(reset)\n(set-option :timeout {to})\n(set-logic {logic})\n").as_bytes()).map_err(e)?;
        i.write_all(body.as_bytes()).map_err(e)?;
        i.write_all(b"(check-sat)\n").map_err(e)?;
        i.flush().map_err(e)?;
        let mut l = String::new();
        if o.read_line(&mut l).map_err(e)? == 0 { return Err("solver ended".into()); }
        match l.trim() {
            "unsat" => return Ok(Res::Unsat),
            "sat" => {}
            "unknown" | "timeout" => { return Ok(Res::Unknown("timeout".into())); }
            x => { let m = format!("solver said {x}"); self.kill(); return Ok(Res::Unknown(m)); }
        }
        if vars.is_empty() { return Ok(Res::Sat(vec![])); }
        let mut q = String::from("(get-value (");
        for v in vars { q.push_str(&format!("v{v} ")); }
        q.push_str("))\n");
        i.write_all(q.as_bytes()).map_err(e)?;
        i.flush().map_err(e)?;
        let mut txt = String::new();
        let mut depth = 0i64;
        loop {
            let mut l = String::new();
            if o.read_line(&mut l).map_err(e)? == 0 { return Err("solver ended".into()); }
            if l.contains("error") { return Err(l); }
            for c in l.bytes() { if c == b'(' { depth += 1 } else if c == b')' { depth -= 1 } }
            txt.push_str(&l);
            if depth <= 0 { break; }
        }
        Ok(Res::Sat(model(&txt)?))
    }
}
/// The values of a `get-value` answer.
fn model(txt: &str) -> Result<Vec<(u32, u128)>, String> {
    let mut m = vec![];
    let tok: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
    let mut j = 0;
    while j + 1 < tok.len() {
        let v: u32 = tok[j].strip_prefix('v').and_then(|x| x.parse().ok()).ok_or(format!("model {}", tok[j]))?;
        let x = tok[j + 1];
        let val = if let Some(h) = x.strip_prefix("#x") { u128::from_str_radix(h, 16) } else if let Some(b) = x.strip_prefix("#b") { u128::from_str_radix(b, 2) } else { return Err(format!("model value {x}")); };
        m.push((v, val.map_err(|e| e.to_string())?));
        j += 2;
    }
    Ok(m)
}
impl Drop for Solver { fn drop(&mut self) { self.kill(); } }
