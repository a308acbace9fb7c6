//! Path-forking symbolic executor over LLVM IR. A path is re-executed from the
//! entry under a prefix of decisions; every decision taken on a symbolic value
//! beyond the prefix asks the solver whether the other outcome is feasible and,
//! if so, queues it.
use crate::ir::*;
use crate::solver::{Res, Solver};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec { Br(bool), Implied(bool), Val(u128, bool), Sw(u32) }

#[derive(Clone)]
pub struct Job { pub base: Arc<Vec<Dec>>, pub len: usize, pub flip: Option<Dec>, pub model: Vec<u128> }
impl Job {
    pub fn root() -> Self { Job { base: Arc::new(vec![]), len: 0, flip: None, model: vec![] } }
    fn total(&self) -> usize { self.len + self.flip.is_some() as usize }
    fn get(&self, i: usize) -> Dec { if i < self.len { self.base[i] } else { self.flip.unwrap() } }
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Infeasible,
    Panic { what: String, at: String, stack: Vec<String> },
    Ub { what: String, stack: Vec<String> },
    Limit(String),
    Engine(String, Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: String, pub input: Vec<u8>, pub stack: Vec<String> }

pub struct PathOut {
    pub end: End,
    pub siblings: Vec<(usize, Dec, Vec<u128>)>,
    pub decisions: Vec<Dec>,
    pub violations: Vec<Violation>,
    pub covers: BTreeSet<String>,
    pub asserts: BTreeMap<String, (u64, u64)>, // id -> (checked, decided by the solver)
    pub inconclusive: Vec<String>,
    pub instrs: u64,
    pub branches: u64,
    pub fns: BTreeSet<u32>,
    pub input: Vec<u8>,
    pub observed: Vec<u64>,
}

struct Obj { data: Vec<u8>, sym: Vec<T>, freed: bool, kind: u8 /*0 heap 1 stack 2 global*/, constant: bool }

struct Frame { f: Arc<Func>, ix: u32, loc: Vec<V>, blk: u32, ip: usize, allocas: Vec<u64>, dst: u32, cont: Option<u32> }

pub struct Cfg { pub max_instr: u64, pub panic_ok: bool, pub alloc_limit: u64, pub assume_no_panic_in: Vec<String>, pub trace_forks: bool, pub share: Share }
/// Takes work for idle workers while a path is still running.
pub struct Share { pub idle: Arc<std::sync::atomic::AtomicUsize>, pub give: Box<dyn Fn(Job) + Send + Sync> }

const HEAP0: u64 = 0x10_0000;

pub struct Exec<'a> {
    m: &'a Module,
    pub st: Store,
    sv: &'a mut Solver,
    cfg: &'a Cfg,
    hooks: &'a Hooks,
    job: &'a Job,
    pos: usize,
    model: Vec<u128>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    pc: Vec<T>,
    pc_root: Vec<u32>,       // one var of each constraint
    uf: Vec<u32>,
    vcache: HashMap<T, Arc<Vec<u32>>>,
    bind: HashMap<T, u128>,
    heap: Vec<Obj>,
    glob: HashMap<u64, Obj>,
    frames: Vec<Frame>,
    out: PathOut,
    inputs: Vec<(T, u32)>,
    observed: Vec<V>,
    fmt_template: Option<[u8; 24]>,
    fmt_real: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook { None, HashOne, FormatInner, FmtWrite, Panic, SymBytes, SymVar, SymAssume, SymAssert, SymCover, SymObserve, SymConc, SymFmtReal, SymEmptyString, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Strlen, GetRandom, Write, Nop, Abort, Intrinsic, MemSearch, Open, Statx, Zero }
pub struct Hooks { pub h: Vec<Hook> }

pub fn hooks(m: &Module) -> Hooks {
    let panic_pfx = ["core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::slice::index::slice_", "core::slice::copy_from_slice_impl::len_mismatch_fail", "core::str::slice_error_fail", "core::slice::index::fail", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "alloc::raw_vec::capacity_overflow", "std::rt::begin_panic", "std::panicking::", "core::cell::panic_already", "std::alloc::rust_oom", "std::alloc::handle_alloc_error", "rust_panic", "std::process::abort"];
    let h = m.fns.iter().map(|f| {
        let n = f.name.as_str();
        match n {
            "sym_bytes" => return Hook::SymBytes, "sym_var" => return Hook::SymVar, "sym_assume" => return Hook::SymAssume,
            "sym_assert" => return Hook::SymAssert, "sym_cover" => return Hook::SymCover, "sym_observe" => return Hook::SymObserve,
            "sym_concretize" => return Hook::SymConc, "sym_fmt_real" => return Hook::SymFmtReal, "sym_empty_string" => return Hook::SymEmptyString,
            "malloc" => return Hook::Malloc, "calloc" => return Hook::Calloc, "realloc" => return Hook::Realloc, "free" => return Hook::Free,
            "posix_memalign" => return Hook::PosixMemalign, "bcmp" | "memcmp" => return Hook::Memcmp, "strlen" => return Hook::Strlen,
            "getrandom" => return Hook::GetRandom, "write" => return Hook::Write, "abort" => return Hook::Abort, "memchr" => return Hook::MemSearch,
            // every file is empty
            "open64" | "open" => return Hook::Open, "statx" => return Hook::Statx, "read" | "lseek64" | "lseek" | "close" => return Hook::Zero,
            _ => {}
        }
        if n.starts_with("llvm.") { return Hook::Intrinsic; }
        if n.contains("rust_no_alloc_shim_is_unstable") { return Hook::Nop; }
        if n.contains("BuildHasher8hash_one") { return Hook::HashOne; }
        let d = f.demangled.trim_start_matches('<');
        if d.starts_with("alloc::fmt::format::format_inner") { return Hook::FormatInner; }
        if n.ends_with("4core3fmt5write") { return Hook::FmtWrite; }
        if panic_pfx.iter().any(|p| d.starts_with(p)) { return Hook::Panic; }
        if d.is_empty() && (n.contains("9panicking") || n.contains("handle_alloc_error")) { return Hook::Panic; }
        Hook::None
    }).collect();
    Hooks { h }
}

type X<A> = Result<A, End>;

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, sv: &'a mut Solver, cfg: &'a Cfg, hooks: &'a Hooks, job: &'a Job) -> Self {
        Exec { m, st: Store::new(), sv, cfg, hooks, job, pos: 0, model: job.model.clone(), memo: vec![], epoch: 1, pc: vec![], pc_root: vec![], uf: vec![], vcache: HashMap::new(), bind: HashMap::new(), heap: vec![], glob: HashMap::new(), frames: vec![],
            out: PathOut { end: End::Done, siblings: vec![], decisions: vec![], violations: vec![], covers: Default::default(), asserts: Default::default(), inconclusive: vec![], instrs: 0, branches: 0, fns: Default::default(), input: vec![], observed: vec![] },
            inputs: vec![], observed: vec![], fmt_template: None, fmt_real: false }
    }
    pub fn run(mut self, entry: u32) -> PathOut {
        let end = match self.exec(entry) { Ok(()) => End::Done, Err(e) => e };
        if std::env::var("SYMEX_TRACE").is_ok() { eprintln!("path end {:?} decisions {:?}", end, self.out.decisions); }
        match &end {
            End::Panic { what, at, stack } if !self.cfg.panic_ok => {
                let input = self.input_bytes(&self.model.clone());
                self.out.violations.push(Violation { kind: "panic".into(), id: format!("panic:{what} at {at}"), input, stack: stack.clone() });
            }
            End::Ub { what, stack } => {
                let input = self.input_bytes(&self.model.clone());
                self.out.violations.push(Violation { kind: "memory".into(), id: format!("memory:{what}"), input, stack: stack.clone() });
            }
            _ => {}
        }
        self.out.input = self.input_bytes(&self.model.clone());
        let obs = std::mem::take(&mut self.observed);
        for v in obs { let x = match v { V::C(c) => c, V::S(t) => self.eval(t), _ => 0 }; self.out.observed.push(x as u64); }
        self.out.end = end;
        self.out
    }
    fn input_bytes(&self, model: &[u128]) -> Vec<u8> {
        let mut o = vec![];
        for &(t, n) in &self.inputs {
            let v = if let Node::Var(v) = self.st.nodes[t as usize] { model.get(v as usize).copied().unwrap_or(0) } else { 0 };
            o.extend_from_slice(&v.to_le_bytes()[..n as usize]);
        }
        o
    }
    fn stack(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| { let e = &self.m.fns[f.ix as usize]; if e.demangled.is_empty() { e.name.clone() } else { e.demangled.clone() } }).collect()
    }
    fn engine<A>(&self, s: impl Into<String>) -> X<A> { Err(End::Engine(s.into(), self.stack())) }
    fn ub<A>(&self, s: impl Into<String>) -> X<A> { Err(End::Ub { what: s.into(), stack: self.stack() }) }

    // ---- terms
    fn eval(&mut self, t: T) -> u128 { self.st.eval(t, &self.model, &mut self.memo, self.epoch) }
    fn t(&mut self, v: &V, w: u32) -> T { match v { V::C(c) => self.st.c(*c, w), V::S(t) => { debug_assert_eq!(self.st.width(*t), w); *t } V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, t: T) -> V { match self.st.cval(t) { Some(c) => V::C(c), None => match self.bind.get(&t) { Some(c) => V::C(*c), None => V::S(t) } } }

    // ---- path condition
    fn find(&mut self, mut x: u32) -> u32 {
        while self.uf.len() <= x as usize { let n = self.uf.len() as u32; self.uf.push(n); }
        while self.uf[x as usize] != x { let p = self.uf[x as usize]; let g = self.uf[p as usize]; self.uf[x as usize] = g; x = g; }
        x
    }
    fn vars_of(&mut self, t: T) -> Arc<Vec<u32>> {
        if let Some(v) = self.vcache.get(&t) { return v.clone(); }
        let mut s = BTreeSet::new();
        self.st.vars(t, &mut s);
        let a = Arc::new(s.into_iter().collect::<Vec<_>>());
        self.vcache.insert(t, a.clone());
        a
    }
    fn slice(&mut self, c: T) -> Vec<T> {
        let vs = self.vars_of(c);
        let roots: BTreeSet<u32> = vs.iter().map(|&v| self.find(v)).collect();
        let mut o = vec![];
        for i in 0..self.pc.len() {
            let r = self.pc_root[i];
            if r == u32::MAX { continue; }
            let r = self.find(r);
            if roots.contains(&r) { o.push(self.pc[i]); }
        }
        o.push(c);
        o
    }
    fn query(&mut self, c: T) -> Res {
        if let Some(x) = self.st.cval(c) { return if x == 1 { Res::Sat(vec![]) } else { Res::Unsat }; }
        let s = self.slice(c);
        self.sv.check(&self.st, &s)
    }
    fn merged(&self, m: &[(u32, u128)]) -> Vec<u128> {
        let mut r = self.model.clone();
        for &(v, x) in m { if r.len() <= v as usize { r.resize(v as usize + 1, 0); } r[v as usize] = x; }
        r
    }
    fn do_bind(&mut self, t: T, v: u128) {
        if self.st.cval(t).is_some() { return; }
        self.bind.insert(t, v);
        match self.st.nodes[t as usize].clone() {
            Node::ZExt(x) | Node::SExt(x) => { let m = mask(self.st.width(x)); self.do_bind(x, v & m) }
            Node::Concat(a, b) => { let wb = self.st.width(b); let wa = self.st.width(a); self.do_bind(a, (v >> wb) & mask(wa)); self.do_bind(b, v & mask(wb)); }
            Node::Not(x) => { let m = mask(self.st.width(x)); self.do_bind(x, !v & m) }
            _ => {}
        }
    }
    fn assume(&mut self, c: T) {
        if self.st.cval(c).is_some() || self.bind.get(&c) == Some(&1) { return; }
        match self.st.nodes[c as usize].clone() {
            Node::Bin(BinOp::And, a, b) => { self.bind.insert(c, 1); self.assume(a); self.assume(b); return; }
            Node::Not(x) => {
                if let Node::Bin(BinOp::Or, a, b) = self.st.nodes[x as usize].clone() {
                    self.bind.insert(x, 0);
                    let na = self.st.not(a); let nb = self.st.not(b);
                    self.assume(na); self.assume(nb);
                    return;
                }
            }
            _ => {}
        }
        if self.bind.get(&c) == Some(&1) { return; }
        self.do_bind(c, 1);
        if let Node::Cmp(Cmp::Eq, a, b) = self.st.nodes[c as usize].clone() {
            if let Some(k) = self.st.cval(b) { self.do_bind(a, k); }
        }
        let vs = self.vars_of(c);
        let r0 = vs.first().copied().unwrap_or(u32::MAX);
        for w in vs.windows(2) { let (a, b) = (self.find(w[0]), self.find(w[1])); if a != b { self.uf[a as usize] = b; } }
        self.pc.push(c);
        self.pc_root.push(r0);
    }
    fn known(&self, c: T) -> Option<bool> {
        if let Some(x) = self.st.cval(c) { return Some(x == 1); }
        if let Some(x) = self.bind.get(&c) { return Some(*x == 1); }
        if let Node::Not(x) = self.st.nodes[c as usize] { if let Some(v) = self.bind.get(&x) { return Some(*v == 0); } }
        None
    }
    fn in_prefix(&self) -> bool { self.pos < self.job.total() }
    fn next_dec(&mut self) -> Dec { let d = self.job.get(self.pos); self.pos += 1; d }
    fn push(&mut self, d: Dec) { self.out.decisions.push(d); }
    /// Records a sibling to explore later.
    fn fork(&mut self, d: Dec, model: Vec<u128>) {
        if self.cfg.trace_forks { eprintln!("fork {} {:?}", self.stack().iter().take(3).cloned().collect::<Vec<_>>().join(" < "), d); }
        let len = self.out.decisions.len();
        if self.cfg.share.idle.load(std::sync::atomic::Ordering::Relaxed) > 0 {
            (self.cfg.share.give)(Job { base: Arc::new(self.out.decisions.clone()), len, flip: Some(d), model });
        } else {
            self.out.siblings.push((len, d, model));
        }
    }

    fn branch(&mut self, c: T) -> X<bool> {
        if let Some(b) = self.known(c) { return Ok(b); }
        let nc = self.st.not(c);
        if self.in_prefix() {
            let d = self.next_dec();
            self.push(d);
            return match d {
                Dec::Br(b) => { self.assume(if b { c } else { nc }); Ok(b) }
                Dec::Implied(b) => { self.bind.insert(c, b as u128); Ok(b) }
                _ => self.engine(format!("replay mismatch {d:?}")),
            };
        }
        self.out.branches += 1;
        let b = self.eval(c) == 1;
        let (take, other) = if b { (c, nc) } else { (nc, c) };
        match self.query(other) {
            Res::Sat(m) => {
                let md = self.merged(&m);
                self.fork(Dec::Br(!b), md);
                self.push(Dec::Br(b));
                self.assume(take);
            }
            Res::Unsat => { self.push(Dec::Implied(b)); self.bind.insert(c, b as u128); }
            Res::Unknown(e) => { self.out.inconclusive.push(format!("branch: {e}")); self.push(Dec::Br(b)); self.assume(take); }
        }
        Ok(b)
    }
    /// Forks over every feasible value of `t`.
    fn concretize(&mut self, t: T) -> X<u128> {
        if let Some(c) = self.st.cval(t) { return Ok(c); }
        if let Some(c) = self.bind.get(&t) { return Ok(*c); }
        let w = self.st.width(t);
        loop {
            if self.in_prefix() {
                let d = self.next_dec();
                self.push(d);
                let Dec::Val(v, eq) = d else { return self.engine(format!("replay mismatch {d:?}")) };
                let k = self.st.c(v, w); let e = self.st.cmp(Cmp::Eq, t, k);
                if eq { self.assume(e); self.do_bind(t, v); return Ok(v); }
                let n = self.st.not(e); self.assume(n);
                continue;
            }
            self.out.branches += 1;
            let v = self.eval(t);
            let k = self.st.c(v, w); let e = self.st.cmp(Cmp::Eq, t, k); let n = self.st.not(e);
            match self.query(n) {
                Res::Sat(m) => { let md = self.merged(&m); self.fork(Dec::Val(v, false), md); }
                Res::Unsat => {}
                Res::Unknown(x) => self.out.inconclusive.push(format!("value: {x}")),
            }
            self.push(Dec::Val(v, true));
            self.assume(e);
            self.do_bind(t, v);
            return Ok(v);
        }
    }
    fn conc_v(&mut self, v: &V, w: u32) -> X<u128> { match v { V::C(c) => Ok(*c), V::S(_) => { let t = self.t(v, w); self.concretize(t) } V::A(_) => self.engine("aggregate as scalar") } }

    /// An upper bound (from a small ladder) on `t`, or a fork on exceeding the limit.
    fn upper(&mut self, t: T) -> X<Option<u64>> {
        let w = self.st.width(t);
        if self.st.umax(t) <= 4096 { return Ok(Some(self.st.umax(t) as u64)); }
        let mut lad = vec![64u64, 4096, 1 << 17];
        lad.push(self.cfg.alloc_limit);
        let n = lad.len();
        for (i, l) in lad.into_iter().enumerate() {
            let k = self.st.c(l as u128, w);
            let gt = self.st.cmp(Cmp::Ult, k, t);
            if i + 1 == n { return Ok(if self.branch(gt)? { None } else { Some(l) }); }
            // a pure feasibility probe, recorded as an implied decision for replay
            if let Some(false) = self.known(gt) { return Ok(Some(l)); }
            if self.in_prefix() {
                let d = self.next_dec(); self.push(d);
                match d { Dec::Sw(0) => { self.bind.insert(gt, 0); return Ok(Some(l)); } Dec::Sw(_) => continue, _ => return self.engine("replay mismatch (alloc)") }
            }
            match self.query(gt) {
                Res::Unsat => { self.push(Dec::Sw(0)); self.bind.insert(gt, 0); return Ok(Some(l)); }
                _ => { self.push(Dec::Sw(1)); }
            }
        }
        unreachable!()
    }

    // ---- memory
    fn alloc(&mut self, size: u64, kind: u8) -> u64 {
        let id = HEAP0 + self.heap.len() as u64;
        self.heap.push(Obj { data: vec![0; size as usize], sym: vec![], freed: false, kind, constant: false });
        id << 32
    }
    fn obj(&mut self, id: u64, write: bool) -> X<&mut Obj> {
        if id >= HEAP0 {
            let ix = (id - HEAP0) as usize;
            if ix >= self.heap.len() { return self.ub(format!("access to unknown address {:#x}", id << 32)); }
            if self.heap[ix].freed { return self.ub("use after free"); }
            return Ok(&mut self.heap[ix]);
        }
        if id == 0 || id as usize > self.m.globals.len() { return self.ub(format!("access through invalid pointer (id {id})")); }
        if write && self.m.globals[id as usize - 1].constant { return self.ub("write to a constant"); }
        let m = self.m;
        Ok(self.glob.entry(id).or_insert_with(|| { let g = &m.globals[id as usize - 1]; Obj { data: g.data.clone(), sym: vec![], freed: false, kind: 2, constant: g.constant } }))
    }
    fn range(&mut self, a: u64, n: u64, write: bool) -> X<(u64, usize)> {
        let (id, off) = (a >> 32, a & 0xffff_ffff);
        let len = if id >= HEAP0 || write || self.glob.contains_key(&id) { self.obj(id, write)?.data.len() as u64 } else if id >= 1 && (id as usize) <= self.m.globals.len() { self.m.globals[id as usize - 1].data.len() as u64 } else { return self.ub(format!("access through invalid pointer {a:#x}")) };
        if off + n > len { return self.ub(format!("out-of-bounds access: offset {off} size {n} object {len}")); }
        Ok((id, off as usize))
    }
    fn read_int(&mut self, a: u64, n: u64) -> X<V> {
        if n == 0 { return Ok(V::C(0)); }
        let (id, off) = self.range(a, n, false)?;
        let n = n as usize;
        let m = self.m;
        let (data, sym): (&[u8], &[T]) = if id >= HEAP0 { let o = &self.heap[(id - HEAP0) as usize]; (&o.data, &o.sym) } else if let Some(o) = self.glob.get(&id) { (&o.data, &o.sym) } else { (&m.globals[id as usize - 1].data, &[]) };
        let anysym = !sym.is_empty() && sym[off..off + n].iter().any(|&t| t != 0);
        if !anysym {
            let mut x = 0u128;
            for i in (0..n).rev() { x = (x << 8) | data[off + i] as u128; }
            return Ok(V::C(x));
        }
        let parts: Vec<(T, u8)> = (0..n).map(|i| (sym[off + i], data[off + i])).collect();
        let mut acc: Option<T> = None;
        for &(t, b) in parts.iter() {
            let mut bt = if t != 0 { t } else { self.st.c(b as u128, 8) };
            if let Some(c) = self.bind.get(&bt) { let c = *c; bt = self.st.c(c, 8); }
            acc = Some(match acc { None => bt, Some(lo) => self.st.concat(bt, lo) });
        }
        let t = acc.unwrap();
        Ok(self.v(t))
    }
    fn write_int(&mut self, a: u64, n: u64, v: &V) -> X<()> {
        if n == 0 { return Ok(()); }
        let (id, off) = self.range(a, n, true)?;
        let n = n as usize;
        match v {
            V::C(c) => {
                let o = self.obj(id, true)?;
                for i in 0..n { o.data[off + i] = (c >> (8 * i)) as u8; }
                if !o.sym.is_empty() { for i in 0..n { o.sym[off + i] = 0; } }
            }
            V::S(t) => {
                let bytes: Vec<T> = (0..n as u32).map(|i| self.st.extract(8 * i + 7, 8 * i, *t)).collect();
                let cs: Vec<Option<u128>> = bytes.iter().map(|&b| self.st.cval(b)).collect();
                let o = self.obj(id, true)?;
                if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                for i in 0..n { match cs[i] { Some(c) => { o.data[off + i] = c as u8; o.sym[off + i] = 0; } None => o.sym[off + i] = bytes[i] } }
            }
            V::A(_) => return self.engine("aggregate store"),
        }
        Ok(())
    }
    fn load(&mut self, ty: &Ty, a: u64) -> X<V> {
        match ty {
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let v = self.read_int(a, ty.store())?;
                let w = (ty.store() * 8) as u32;
                let x = self.t(&v, w);
                let b = t.bits() as u32;
                Ok(V::A(Arc::new((0..*n as u32).map(|i| { let e = self.st.extract((i + 1) * b - 1, i * b, x); self.v(e) }).collect())))
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let mut r = vec![];
                for i in 0..ty.nfields() { let f = ty.field(i); r.push(self.load(&f, a + ty.field_off(i))?); }
                Ok(V::A(Arc::new(r)))
            }
            _ => {
                let v = self.read_int(a, ty.store())?;
                let w = ty.width(); let sw = ty.store() as u32 * 8;
                if w == sw { return Ok(v); }
                Ok(match v { V::C(c) => V::C(c & mask(w)), V::S(t) => { let e = self.st.extract(w - 1, 0, t); self.v(e) } x => x })
            }
        }
    }
    fn store(&mut self, ty: &Ty, a: u64, v: &V) -> X<()> {
        match ty {
            Ty::Vec(_, t) if t.bits() % 8 != 0 => {
                let x = self.pack_bits(v, t.bits() as u32)?;
                let w = self.st.width(x); let sw = ty.store() as u32 * 8;
                let x = self.st.zext(x, sw.max(w));
                let v = self.v(x);
                self.write_int(a, ty.store(), &v)
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let V::A(e) = v else { return self.engine("scalar for aggregate store") };
                let e = e.clone();
                for i in 0..ty.nfields() { let f = ty.field(i); self.store(&f, a + ty.field_off(i), &e[i])?; }
                Ok(())
            }
            _ => {
                let w = ty.width(); let sw = ty.store() as u32 * 8;
                if w == sw { return self.write_int(a, ty.store(), v); }
                match v { V::S(t) => { let z = self.st.zext(*t, sw); let v = self.v(z); self.write_int(a, ty.store(), &v) } _ => self.write_int(a, ty.store(), v) }
            }
        }
    }
    fn pack_bits(&mut self, v: &V, b: u32) -> X<T> {
        let V::A(e) = v else { return self.engine("pack") };
        let mut acc: Option<T> = None;
        for x in e.clone().iter() { let t = self.t(x, b); acc = Some(match acc { None => t, Some(lo) => self.st.concat(t, lo) }); }
        Ok(acc.unwrap())
    }
    /// Resolves an address; symbolic ones that may read a table are handled by `load_at`.
    fn addr(&mut self, v: &V) -> X<u64> { Ok(self.conc_v(v, 64)? as u64) }

    /// Has the term at most four values? (A decision, so that it is taken again on replay.)
    fn few(&mut self, t: T) -> X<bool> {
        if self.in_prefix() {
            let d = self.next_dec();
            self.push(d);
            return match d { Dec::Implied(b) => Ok(b), _ => self.engine(format!("replay mismatch {d:?}")) };
        }
        let w = self.st.width(t);
        let mut v = self.eval(t);
        let mut others = self.st.c(1, 1);
        let mut few = false;
        for _ in 0..4 {
            let k = self.st.c(v, w); let e = self.st.cmp(Cmp::Eq, t, k); let n = self.st.not(e);
            others = self.st.bin(BinOp::And, others, n);
            match self.query(others) {
                Res::Unsat => { few = true; break }
                Res::Sat(m) => { let m = self.merged(&m); v = self.st.eval(t, &m, &mut Vec::new(), 1); }
                Res::Unknown(_) => break,
            }
        }
        self.push(Dec::Implied(few));
        Ok(few)
    }
    fn load_at(&mut self, ty: &Ty, p: &V) -> X<V> {
        let t = match p { V::C(c) => return self.load(ty, *c as u64), V::S(t) => *t, _ => return self.engine("addr") };
        if let Some(c) = self.bind.get(&t) { let c = *c as u64; return self.load(ty, c); }
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        let hi = self.st.extract(63, 32, t);
        if let (true, Some(id)) = (scalar, self.st.cval(hi)) {
            let idx = self.st.extract(31, 0, t);
            let n = ty.store();
            let len = { let id = id as u64; if id >= HEAP0 || self.glob.contains_key(&id) { self.obj(id, false)?.data.len() as u64 } else if id >= 1 && id as usize <= self.m.globals.len() { self.m.globals[id as usize - 1].data.len() as u64 } else { 0 } };
            if len >= n && len <= 8192 {
                let k = self.st.c((len - n) as u128, 32);
                let inb = self.st.cmp(Cmp::Ule, idx, k);
                if !self.branch(inb)? { return self.ub(format!("out-of-bounds table access, object of {len} bytes")); }
                let lo = self.st.umin(idx) as u64; let hi = (self.st.umax(idx) as u64).min(len - n);
                let kz = { let mut s = 0; while s < 6 { let e = self.st.extract(s, s, idx); if self.st.cval(e) == Some(0) { s += 1; } else { break; } } s };
                let base_off = if kz > 0 { 0 } else { // constant low part: idx = x*stride + c
                    0 };
                let step = 1u64 << kz;
                let start = if base_off == 0 { lo.div_ceil(step) * step } else { base_off };
                let cnt = if hi >= start { (hi - start) / step + 1 } else { 0 };
                if cnt >= 1 && cnt <= 1100 && !(cnt > 256 && self.few(t)?) {
                    let w = ty.width();
                    let base = (id as u64) << 32;
                    // group equal values
                    let mut vals: Vec<(u64, V)> = vec![];
                    let mut o = start;
                    while o <= hi { vals.push((o, self.load(ty, base + o)?)); o += step; }
                    let mut uniq: Vec<(V, Vec<u64>)> = vec![];
                    let mut ixm: HashMap<u128, usize> = HashMap::new();
                    for (o, v) in vals {
                        let key = match &v { V::C(c) => *c, V::S(t) => (1u128 << 127) | *t as u128, _ => unreachable!() };
                        match ixm.get(&key) { Some(&i) => uniq[i].1.push(o), None => { ixm.insert(key, uniq.len()); uniq.push((v, vec![o])); } }
                    }
                    uniq.sort_by_key(|u| u.1.len());
                    let last = uniq.pop().unwrap();
                    let mut acc = self.t(&last.0, w);
                    for (v, os) in uniq {
                        let mut c = self.st.c(0, 1);
                        for o in os { let k = self.st.c(o as u128, 32); let e = self.st.cmp(Cmp::Eq, idx, k); c = self.st.bin(BinOp::Or, c, e); }
                        let x = self.t(&v, w);
                        acc = self.st.ite(c, x, acc);
                    }
                    return Ok(self.v(acc));
                }
            }
        }
        let a = self.concretize(t)? as u64;
        self.load(ty, a)
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s { return Ok(()); }
        let (si, so) = self.range(s, n, false)?;
        let (di, do_) = self.range(d, n, true)?;
        let n = n as usize;
        let m = self.m;
        let (data, sym): (Vec<u8>, Vec<T>) = {
            let (da, sy): (&[u8], &[T]) = if si >= HEAP0 { let o = &self.heap[(si - HEAP0) as usize]; (&o.data, &o.sym) } else if let Some(o) = self.glob.get(&si) { (&o.data, &o.sym) } else { (&m.globals[si as usize - 1].data, &[]) };
            (da[so..so + n].to_vec(), if sy.is_empty() { vec![] } else { sy[so..so + n].to_vec() })
        };
        let o = self.obj(di, true)?;
        o.data[do_..do_ + n].copy_from_slice(&data);
        if sym.iter().any(|&t| t != 0) {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[do_..do_ + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() { for x in &mut o.sym[do_..do_ + n] { *x = 0; } }
        Ok(())
    }
    fn read_bytes(&mut self, a: u64, n: u64) -> X<Vec<T>> {
        let mut r = vec![];
        for i in 0..n { let v = self.read_int(a + i, 1)?; r.push(self.t(&v, 8)); }
        Ok(r)
    }
    fn read_str(&mut self, a: u64, n: u64) -> X<String> {
        let mut r = vec![];
        for i in 0..n { if let V::C(c) = self.read_int(a + i, 1)? { r.push(c as u8); } }
        Ok(String::from_utf8_lossy(&r).into_owned())
    }

    // ---- interpretation
    fn op(&mut self, o: &Op) -> V {
        match o {
            Op::C(v) => v.clone(),
            Op::L(l) => {
                let v = &self.frames.last().unwrap().loc[*l as usize];
                if let V::S(t) = v { if !self.bind.is_empty() { if let Some(c) = self.bind.get(t) { return V::C(*c); } } }
                v.clone()
            }
        }
    }
    fn set(&mut self, l: u32, v: V) { if l != NODST { let f = self.frames.last_mut().unwrap(); f.loc[l as usize] = v; } }
    fn jump(&mut self, b: u32) {
        let fr = self.frames.last().unwrap();
        let f = fr.f.clone();
        let prev = fr.blk;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = inc.iter().find(|(p, _)| *p == prev).map(|(_, o)| o).expect("phi");
                vals.push((*d, self.op(o)));
            }
            for (d, v) in vals { self.set(d, v); }
        }
        let fr = self.frames.last_mut().unwrap();
        fr.blk = b; fr.ip = 0;
    }
    fn enter(&mut self, ix: u32, args: Vec<V>, dst: u32, cont: Option<u32>) -> X<()> {
        let f = match self.m.func(ix) { Ok(f) => f, Err(e) => return self.engine(e) };
        if self.frames.len() > 400 { return Err(End::Limit("call depth".into())); }
        self.out.fns.insert(ix);
        let mut loc = vec![V::C(0); f.nlocals as usize];
        for (p, a) in f.params.iter().zip(args) { loc[*p as usize] = a; }
        self.frames.push(Frame { f, ix, loc, blk: 0, ip: 0, allocas: vec![], dst, cont });
        Ok(())
    }
    fn exec(&mut self, entry: u32) -> X<()> {
        self.enter(entry, vec![], NODST, None)?;
        loop {
            self.out.instrs += 1;
            if self.out.instrs > self.cfg.max_instr { return Err(End::Limit("instructions".into())); }
            let fr = self.frames.last_mut().unwrap();
            let f = fr.f.clone();
            let blk = &f.blocks[fr.blk as usize];
            let Some(i) = blk.insts.get(fr.ip) else { return self.engine(format!("fell off block {}", blk.name)) };
            fr.ip += 1;
            if let K::Ret(v) = &i.k {
                let v = match v { Some(o) => Some(self.op(o)), None => None };
                let fr = self.frames.pop().unwrap();
                for a in fr.allocas { let o = &mut self.heap[((a >> 32) - HEAP0) as usize]; o.freed = true; o.data = vec![]; o.sym = vec![]; }
                if self.frames.is_empty() { return Ok(()); }
                if let Some(v) = v { self.set(fr.dst, v); }
                if let Some(b) = fr.cont { self.jump(b); }
                continue;
            }
            self.step(i)?;
        }
    }
    fn map2(&mut self, a: V, b: V, w: u32, g: &mut dyn FnMut(&mut Self, V, V, u32) -> X<V>) -> X<V> {
        match (&a, &b) {
            (V::A(x), V::A(y)) => { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(self.map2(p.clone(), q.clone(), w, g)?); } Ok(V::A(Arc::new(r))) }
            _ => g(self, a, b, w),
        }
    }
    fn map1(&mut self, a: V, g: &mut dyn FnMut(&mut Self, V) -> X<V>) -> X<V> {
        match &a { V::A(x) => { let mut r = vec![]; for p in x.iter() { r.push(self.map1(p.clone(), g)?); } Ok(V::A(Arc::new(r))) } _ => g(self, a) }
    }
    fn binop(&mut self, o: BinOp, w: u32, a: V, b: V) -> X<V> {
        if let (V::C(x), V::C(y)) = (&a, &b) {
            return match bin_concrete(o, w, *x, *y) { Some(r) => Ok(V::C(r)), None => self.ub("division by zero") };
        }
        let (x, y) = (self.t(&a, w), self.t(&b, w));
        let r = self.st.bin(o, x, y);
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        let (c, sw, neg) = match p { Pred::Eq => (Cmp::Eq, false, false), Pred::Ne => (Cmp::Eq, false, true), Pred::Ult => (Cmp::Ult, false, false), Pred::Ule => (Cmp::Ule, false, false), Pred::Ugt => (Cmp::Ult, true, false), Pred::Uge => (Cmp::Ule, true, false), Pred::Slt => (Cmp::Slt, false, false), Pred::Sle => (Cmp::Sle, false, false), Pred::Sgt => (Cmp::Slt, true, false), Pred::Sge => (Cmp::Sle, true, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (&a, &b) { return V::C((cmp_concrete(c, w, *x, *y) ^ neg) as u128); }
        let (x, y) = (self.t(&a, w), self.t(&b, w));
        let mut r = self.st.cmp(c, x, y);
        if neg { r = self.st.not(r); }
        self.v(r)
    }
    fn fcmp(&mut self, p: &str, w: u32, a: V, b: V) -> X<V> {
        let (x, y) = (self.t(&a, w), self.t(&b, w));
        let s = &mut self.st;
        let r = match p {
            "oeq" => s.fcmp(FCmp::Oeq, x, y),
            "olt" => s.fcmp(FCmp::Olt, x, y),
            "ole" => s.fcmp(FCmp::Ole, x, y),
            "ogt" => s.fcmp(FCmp::Olt, y, x),
            "oge" => s.fcmp(FCmp::Ole, y, x),
            "uno" => s.fcmp(FCmp::Uno, x, y),
            "ord" => { let r = s.fcmp(FCmp::Uno, x, y); s.not(r) }
            "une" => { let r = s.fcmp(FCmp::Oeq, x, y); s.not(r) }
            "ult" => { let r = s.fcmp(FCmp::Ole, y, x); s.not(r) }
            "ule" => { let r = s.fcmp(FCmp::Olt, y, x); s.not(r) }
            "ugt" => { let r = s.fcmp(FCmp::Ole, x, y); s.not(r) }
            "uge" => { let r = s.fcmp(FCmp::Olt, x, y); s.not(r) }
            "ueq" => { let u = s.fcmp(FCmp::Uno, x, y); let e = s.fcmp(FCmp::Oeq, x, y); s.bin(BinOp::Or, u, e) }
            "one" => { let u = s.fcmp(FCmp::Uno, x, y); let e = s.fcmp(FCmp::Oeq, x, y); let q = s.bin(BinOp::Or, u, e); s.not(q) }
            "true" => s.c(1, 1),
            "false" => s.c(0, 1),
            _ => return self.engine(format!("fcmp {p}")),
        };
        Ok(self.v(r))
    }
    fn select(&mut self, c: &V, a: V, b: V, w: u32) -> X<V> {
        match c {
            V::C(x) => Ok(if *x & 1 == 1 { a } else { b }),
            V::A(cs) => {
                let (V::A(x), V::A(y)) = (&a, &b) else { return self.engine("vector select") };
                let mut r = vec![];
                for i in 0..cs.len() { r.push(self.select(&cs[i].clone(), x[i].clone(), y[i].clone(), w)?); }
                Ok(V::A(Arc::new(r)))
            }
            V::S(t) => {
                match (&a, &b) {
                    (V::A(_), _) | (_, V::A(_)) => { let t = *t; Ok(if self.branch(t)? { a } else { b }) }
                    _ => { let (x, y) = (self.t(&a, w), self.t(&b, w)); let r = self.st.ite(*t, x, y); Ok(self.v(r)) }
                }
            }
        }
    }
    fn step(&mut self, i: &Inst) -> X<()> {
        match &i.k {
            K::Bin(o, w, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let o = *o;
                let r = if let (V::C(_), V::C(_)) = (&a, &b) { self.binop(o, *w, a, b)? } else { self.map2(a, b, *w, &mut |s, a, b, w| s.binop(o, w, a, b))? };
                self.set(i.dst, r);
            }
            K::FBin(o, w, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let o = *o;
                let r = self.map2(a, b, *w, &mut |s, a, b, w| { let (x, y) = (s.t(&a, w), s.t(&b, w)); let r = s.st.fbin(o, x, y); Ok(s.v(r)) })?;
                self.set(i.dst, r);
            }
            K::FNeg(w, a) => {
                let a = self.op(a); let w = *w;
                let r = self.map1(a, &mut |s, a| { let x = s.t(&a, w); let r = s.st.fun(FUn::Neg, x); Ok(s.v(r)) })?;
                self.set(i.dst, r);
            }
            K::Icmp(p, w, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let p = *p;
                let r = if matches!((&a, &b), (V::A(_), V::A(_))) { self.map2(a, b, *w, &mut |s, a, b, w| Ok(s.icmp(p, w, a, b)))? } else { self.icmp(p, *w, a, b) };
                self.set(i.dst, r);
            }
            K::Fcmp(p, w, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let r = self.map2(a, b, *w, &mut |s, a, b, w| s.fcmp(p, w, a, b))?;
                self.set(i.dst, r);
            }
            K::Cast(c, f, t, a) => {
                let a = self.op(a);
                let (c, f, t) = (*c, *f, *t);
                let r = self.map1(a, &mut |s, a| s.cast(c, f, t, a))?;
                self.set(i.dst, r);
            }
            K::Bitcast(t1, t2, a) => {
                let a = self.op(a);
                let r = self.bitcast(t1, t2, a)?;
                self.set(i.dst, r);
            }
            K::Select(c, a, b) => {
                let (c, a, b) = (self.op(c), self.op(a), self.op(b));
                let w = i.ty.width();
                let r = self.select(&c, a, b, w)?;
                self.set(i.dst, r);
            }
            K::Load(t, p) => { let p = self.op(p); let r = self.load_at(t, &p)?; self.set(i.dst, r); }
            K::Store(t, v, p) => { let (v, p) = (self.op(v), self.op(p)); let a = self.addr(&p)?; self.store(t, a, &v)?; }
            K::Alloca(sz, n) => {
                let n = self.op(n);
                let n = self.conc_v(&n, 64)? as u64;
                let a = self.alloc(sz * n, 1);
                self.frames.last_mut().unwrap().allocas.push(a);
                self.set(i.dst, V::C(a as u128));
            }
            K::Gep(b, off, ix) => {
                let base = self.op(b);
                if ix.is_empty() {
                    let r = self.binop(BinOp::Add, 64, base, V::C(*off as u64 as u128))?;
                    self.set(i.dst, r);
                } else {
                    let mut acc = match &base { V::C(c) => V::C((*c as u64).wrapping_add(*off as u64) as u128), _ => self.binop(BinOp::Add, 64, base, V::C(*off as u64 as u128))? };
                    for (o, w, sc) in ix {
                        let v = self.op(o);
                        let x = match v { V::C(c) => V::C((sext(c, *w) as i64).wrapping_mul(*sc) as u64 as u128), V::S(t) => { let e = if *w < 64 { self.st.sext_to(t, 64) } else if *w > 64 { self.st.extract(63, 0, t) } else { t }; let k = self.st.c(*sc as u64 as u128, 64); let m = self.st.bin(BinOp::Mul, e, k); self.v(m) } _ => return self.engine("vector gep") };
                        acc = self.binop(BinOp::Add, 64, acc, x)?;
                    }
                    self.set(i.dst, acc);
                }
            }
            K::ExtractVal(a, ix) => { let mut v = self.op(a); for k in ix { let V::A(e) = v else { return self.engine("extractvalue") }; v = e[*k as usize].clone(); } self.set(i.dst, v); }
            K::InsertVal(a, b, ix) => { let v = self.op(a); let e = self.op(b); let r = self.insert(v, e, ix)?; self.set(i.dst, r); }
            K::ExtractEl(a, b) => { let a = self.op(a); let b = self.op(b); let k = self.conc_v(&b, 64)? as usize; let V::A(e) = a else { return self.engine("extractelement") }; self.set(i.dst, e[k].clone()); }
            K::InsertEl(a, e, b) => { let a = self.op(a); let e = self.op(e); let b = self.op(b); let k = self.conc_v(&b, 64)? as usize; let V::A(x) = a else { return self.engine("insertelement") }; let mut x = (*x).clone(); x[k] = e; self.set(i.dst, V::A(Arc::new(x))); }
            K::Shuffle(a, b, mk) => {
                let (V::A(x), V::A(y)) = (self.op(a), self.op(b)) else { return self.engine("shuffle") };
                let r = mk.iter().map(|&k| if k < 0 { x[0].clone() } else if (k as usize) < x.len() { x[k as usize].clone() } else { y[k as usize - x.len()].clone() }).collect();
                self.set(i.dst, V::A(Arc::new(r)));
            }
            K::Freeze(a) => { let v = self.op(a); self.set(i.dst, v); }
            K::Fence => {}
            K::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (self.op(p), self.op(c), self.op(n));
                let a = self.addr(&p)?;
                let old = self.load(t, a)?;
                let eq = self.icmp(Pred::Eq, t.width(), old.clone(), c);
                let eqt = self.t(&eq, 1);
                let b = self.branch(eqt)?;
                if b { self.store(t, a, &n)?; }
                self.set(i.dst, V::A(Arc::new(vec![old, V::C(b as u128)])));
            }
            K::AtomicRmw(o, t, p, v) => {
                let (p, v) = (self.op(p), self.op(v));
                let a = self.addr(&p)?;
                let old = self.load(t, a)?;
                let w = t.width();
                let new = match o {
                    Rmw::Xchg => v, Rmw::Add => self.binop(BinOp::Add, w, old.clone(), v)?, Rmw::Sub => self.binop(BinOp::Sub, w, old.clone(), v)?, Rmw::And => self.binop(BinOp::And, w, old.clone(), v)?, Rmw::Or => self.binop(BinOp::Or, w, old.clone(), v)?, Rmw::Xor => self.binop(BinOp::Xor, w, old.clone(), v)?,
                    _ => return self.engine("atomicrmw"),
                };
                self.store(t, a, &new)?;
                self.set(i.dst, old);
            }
            K::Br(b) => self.jump(*b),
            K::CondBr(c, t, f) => {
                let c = self.op(c);
                let b = match c { V::C(x) => x & 1 == 1, V::S(t) => self.branch(t)?, _ => return self.engine("br") };
                self.jump(if b { *t } else { *f });
            }
            K::Switch(w, v, d, cs) => {
                let v = self.op(v);
                match v {
                    V::C(x) => { let b = cs.iter().find(|(c, _)| *c == x).map(|(_, b)| *b).unwrap_or(*d); self.jump(b); }
                    V::S(t) => { let b = self.switch(t, *w, *d, cs)?; self.jump(b); }
                    _ => return self.engine("switch"),
                }
            }
            K::Unreachable => return self.ub("reached unreachable code"),
            K::Landingpad => return self.engine("landingpad"),
            K::Call(c, args, rt, normal) => self.call(c, args, rt, *normal, i.dst)?,
            K::Unsupported(s) => return self.engine(format!("unsupported: {s}")),
            K::Ret(_) => unreachable!(),
        }
        Ok(())
    }
    fn insert(&self, v: V, e: V, ix: &[u32]) -> X<V> {
        if ix.is_empty() { return Ok(e); }
        let V::A(x) = v else { return self.engine("insertvalue") };
        let mut x = (*x).clone();
        let k = ix[0] as usize;
        x[k] = self.insert(x[k].clone(), e, &ix[1..])?;
        Ok(V::A(Arc::new(x)))
    }
    fn switch(&mut self, t: T, w: u32, d: u32, cs: &[(u128, u32)]) -> X<u32> {
        let mut targets: Vec<(u32, T)> = vec![];
        let mut none = self.st.c(1, 1);
        for (c, b) in cs {
            let k = self.st.c(*c, w);
            let e = self.st.cmp(Cmp::Eq, t, k);
            let ne = self.st.not(e);
            if *b == d { continue; }
            none = self.st.bin(BinOp::And, none, ne);
            match targets.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = self.st.bin(BinOp::Or, x.1, e), None => targets.push((*b, e)) }
        }
        targets.push((d, none));
        targets.retain(|x| self.st.cval(x.1) != Some(0));
        for x in &targets { if self.known(x.1) == Some(true) { return Ok(x.0); } }
        let w0 = targets.clone();
        let targets: Vec<(u32, T)> = w0.into_iter().filter(|x| self.known(x.1) != Some(false)).collect();
        if targets.len() == 1 { return Ok(targets[0].0); }
        if self.in_prefix() {
            let dd = self.next_dec();
            self.push(dd);
            let Dec::Sw(b) = dd else { return self.engine(format!("replay mismatch {dd:?}")) };
            let Some(c) = targets.iter().find(|x| x.0 == b).map(|x| x.1) else { return self.engine("replay mismatch (switch)") };
            self.assume(c);
            self.single_case(t, w, b, d, cs);
            return Ok(b);
        }
        self.out.branches += 1;
        let mut taken = None;
        for (b, c) in &targets {
            if taken.is_none() && self.eval(*c) == 1 { taken = Some((*b, *c)); continue; }
            match self.query(*c) {
                Res::Sat(m) => { let md = self.merged(&m); self.fork(Dec::Sw(*b), md); }
                Res::Unsat => {}
                Res::Unknown(e) => self.out.inconclusive.push(format!("switch: {e}")),
            }
        }
        let Some((b, c)) = taken else { return self.engine("switch: no target") };
        self.push(Dec::Sw(b));
        self.assume(c);
        self.single_case(t, w, b, d, cs);
        Ok(b)
    }
    fn single_case(&mut self, t: T, _w: u32, b: u32, d: u32, cs: &[(u128, u32)]) {
        if b == d { return; }
        let mut it = cs.iter().filter(|x| x.1 == b);
        if let (Some(x), None) = (it.next(), it.next()) { let v = x.0; self.do_bind(t, v); }
    }
    fn cast(&mut self, c: Cast, f: u32, t: u32, a: V) -> X<V> {
        if let V::C(x) = a {
            match c { Cast::Trunc => return Ok(V::C(x & mask(t))), Cast::ZExt | Cast::Same => return Ok(V::C(x)), Cast::SExt => return Ok(V::C(sext(x, f) as u128 & mask(t))), _ => {} }
        }
        let x = self.t(&a, f);
        let s = &mut self.st;
        let r = match c {
            Cast::Trunc => s.extract(t - 1, 0, x), Cast::ZExt => s.zext(x, t), Cast::SExt => s.sext_to(x, t), Cast::Same => x,
            Cast::FpTrunc | Cast::FpExt => s.ftof(x, t),
            Cast::FpToUi => s.ftoi(false, x, t), Cast::FpToSi => s.ftoi(true, x, t),
            Cast::UiToFp => s.itof(false, x, t), Cast::SiToFp => s.itof(true, x, t),
        };
        Ok(self.v(r))
    }
    fn bitcast(&mut self, t1: &Ty, t2: &Ty, a: V) -> X<V> {
        let x = match t1 { Ty::Vec(_, e) => { let b = e.bits() as u32; self.pack_bits(&a, b)? } _ => { let w = t1.width(); self.t(&a, w) } };
        match t2 {
            Ty::Vec(n, e) => { let b = e.bits() as u32; Ok(V::A(Arc::new((0..*n as u32).map(|i| { let e = self.st.extract((i + 1) * b - 1, i * b, x); self.v(e) }).collect()))) }
            _ => Ok(self.v(x)),
        }
    }

    // ---- calls
    fn call(&mut self, c: &Callee, args: &[(Ty, Op)], rt: &Ty, normal: Option<u32>, dst: u32) -> X<()> {
        let ix = match c {
            Callee::F(ix) => *ix,
            Callee::Ptr(o) => { let v = self.op(o); let a = self.addr(&v)?; match addr_fn(a) { Some(ix) if (ix as usize) < self.m.fns.len() => ix, _ => return self.ub(format!("call through {a:#x}")) } }
            Callee::Cpuid => { // a processor without extensions: the portable code of crates is executed
                self.set(dst, V::A(Arc::new(vec![V::C(0); 4])));
                if let Some(b) = normal { self.jump(b); }
                return Ok(());
            }
            Callee::Asm => { // black_box style barriers only
                if dst != NODST { return self.engine("inline asm with a result"); }
                if let Some(b) = normal { self.jump(b); }
                return Ok(());
            }
        };
        let hk = self.hooks.h[ix as usize];
        let av: Vec<V> = args.iter().map(|(_, o)| self.op(o)).collect();
        if hk == Hook::None || (matches!(hk, Hook::FormatInner | Hook::FmtWrite) && self.fmt_real) {
            if !self.m.fns[ix as usize].is_def { return self.engine(format!("call of external {}", self.m.fns[ix as usize].name)); }
            return self.enter(ix, av, dst, normal);
        }
        if hk == Hook::Panic {
            let what = { let f = &self.m.fns[ix as usize]; if f.demangled.is_empty() { f.name.clone() } else { f.demangled.clone() } };
            let mut at = String::new();
            for v in av.iter().rev() { if let V::C(a) = v { if let Some(s) = self.location(*a as u64) { at = s; break; } } }
            let stack = self.stack();
            return Err(End::Panic { what, at, stack });
        }
        let r = self.builtin(hk, ix, &av, args, rt)?;
        if let Some(v) = r { self.set(dst, v); }
        if let Some(b) = normal { self.jump(b); }
        Ok(())
    }
    fn location(&mut self, a: u64) -> Option<String> {
        let id = a >> 32;
        if id == 0 || id as usize > self.m.globals.len() { return None; }
        let g = &self.m.globals[id as usize - 1];
        if !g.constant || g.data.len() != 24 || a & 0xffff_ffff != 0 { return None; }
        let p = u64::from_le_bytes(g.data[0..8].try_into().unwrap());
        let n = u64::from_le_bytes(g.data[8..16].try_into().unwrap());
        let line = u32::from_le_bytes(g.data[16..20].try_into().unwrap());
        if n > 300 || p >> 32 == 0 || (p >> 32) as usize > self.m.globals.len() { return None; }
        let s = self.read_str(p, n.saturating_sub(0)).ok()?;
        if !s.ends_with(".rs") && !s.contains(".rs") { return None; }
        let s = s.trim_end_matches('\0').to_string();
        Some(format!("{s}:{line}"))
    }
    fn ptr_arg(&mut self, v: &V) -> X<u64> { self.addr(v) }
    fn builtin(&mut self, h: Hook, ix: u32, a: &[V], args: &[(Ty, Op)], rt: &Ty) -> X<Option<V>> {
        Ok(match h {
            Hook::Nop => None,
            Hook::HashOne => Some(V::C(0)),
            Hook::FormatInner => {
                let Some(t) = self.fmt_template else { return self.engine("no String template") };
                let d = self.ptr_arg(&a[0])?;
                for k in 0..24 { self.write_int(d + k, 1, &V::C(t[k as usize] as u128))?; }
                None
            }
            Hook::FmtWrite => Some(V::C(0)),
            Hook::SymFmtReal => { self.fmt_real = true; None }
            Hook::SymEmptyString => {
                let d = self.ptr_arg(&a[0])?;
                let mut t = [0u8; 24];
                for k in 0..24 { if let V::C(c) = self.read_int(d + k, 1)? { t[k as usize] = c as u8; } }
                self.fmt_template = Some(t);
                None
            }
            Hook::SymBytes => {
                let p = self.ptr_arg(&a[0])?; let n = self.conc_v(&a[1], 64)? as u64;
                for k in 0..n { let t = self.st.var(8); self.inputs.push((t, 1)); self.write_int(p + k, 1, &V::S(t))?; }
                None
            }
            Hook::SymVar => {
                let n = self.conc_v(&a[0], 32)? as u32;
                let t = self.st.var(8 * n);
                self.inputs.push((t, n));
                let z = self.st.zext(t, 64);
                Some(V::S(z))
            }
            Hook::SymAssume => {
                let c = self.t(&a[0], 1);
                match self.known(c) { Some(true) => return Ok(None), Some(false) => return Err(End::Infeasible), None => {} }
                if self.in_prefix() { self.assume(c); return Ok(None); }
                if self.eval(c) == 1 { self.assume(c); return Ok(None); }
                match self.query(c) {
                    Res::Sat(m) => { self.model = self.merged(&m); self.epoch += 1; self.assume(c); }
                    Res::Unsat => return Err(End::Infeasible),
                    Res::Unknown(e) => { self.out.inconclusive.push(format!("assume: {e}")); return Err(End::Infeasible); }
                }
                None
            }
            Hook::SymAssert => {
                let c = self.t(&a[0], 1);
                let p = self.ptr_arg(&a[1])?; let n = self.conc_v(&a[2], 64)? as u64;
                if self.in_prefix() { // the parent checked this one; here it holds by assumption
                    if self.known(c) != Some(false) { self.assume(c); }
                    return Ok(None);
                }
                let id = self.read_str(p, n)?;
                let e = self.out.asserts.entry(id.clone()).or_default();
                e.0 += 1;
                match self.known(c) {
                    Some(true) => {}
                    Some(false) => {
                        let input = self.input_bytes(&self.model.clone());
                        let stack = self.stack();
                        self.out.violations.push(Violation { kind: "assert".into(), id, input, stack });
                        return Err(End::Infeasible);
                    }
                    None => {
                        self.out.asserts.get_mut(&id).unwrap().1 += 1;
                        let nc = self.st.not(c);
                        // under the current model?
                        let bad = if self.eval(c) == 0 { Some(self.model.clone()) } else {
                            match self.query(nc) { Res::Sat(m) => Some(self.merged(&m)), Res::Unsat => None, Res::Unknown(e) => { self.out.inconclusive.push(format!("assert {id}: {e}")); None } }
                        };
                        if let Some(md) = bad {
                            let input = self.input_bytes(&md);
                            let stack = self.stack();
                            self.out.violations.push(Violation { kind: "assert".into(), id, input, stack });
                            if self.eval(c) == 0 {
                                match self.query(c) { Res::Sat(m) => { self.model = self.merged(&m); self.epoch += 1; } _ => return Err(End::Infeasible) }
                            }
                            self.assume(c);
                        } else { self.assume(c); }
                    }
                }
                None
            }
            Hook::SymCover => { let p = self.ptr_arg(&a[0])?; let n = self.conc_v(&a[1], 64)? as u64; let s = self.read_str(p, n)?; self.out.covers.insert(s); None }
            Hook::SymObserve => { self.observed.push(a[0].clone()); None }
            Hook::SymConc => Some(V::C(self.conc_v(&a[0], 64)?)),
            Hook::Malloc => { match self.size_arg(&a[0])? { Some(n) => Some(V::C(self.alloc(n, 0) as u128)), None => Some(V::C(0)) } }
            Hook::Calloc => {
                let x = self.binop(BinOp::Mul, 64, a[0].clone(), a[1].clone())?;
                match self.size_arg(&x)? { Some(n) => Some(V::C(self.alloc(n, 0) as u128)), None => Some(V::C(0)) }
            }
            Hook::Realloc => {
                let p = self.ptr_arg(&a[0])?;
                match self.size_arg(&a[1])? {
                    None => Some(V::C(0)),
                    Some(n) => {
                        let q = self.alloc(n, 0);
                        let old = self.obj(p >> 32, false)?.data.len() as u64;
                        self.copy(q, p, old.min(n))?;
                        let o = self.obj(p >> 32, true)?; o.freed = true; o.data = vec![]; o.sym = vec![];
                        Some(V::C(q as u128))
                    }
                }
            }
            Hook::Free => {
                let p = self.ptr_arg(&a[0])?;
                if p != 0 { let o = self.obj(p >> 32, true)?; if o.kind != 0 { return self.ub("free of a non-heap object"); } o.freed = true; o.data = vec![]; o.sym = vec![]; }
                None
            }
            Hook::PosixMemalign => {
                let d = self.ptr_arg(&a[0])?;
                match self.size_arg(&a[2])? { Some(n) => { let q = self.alloc(n, 0); self.write_int(d, 8, &V::C(q as u128))?; Some(V::C(0)) } None => Some(V::C(12)) }
            }
            Hook::Memcmp => {
                let n = self.conc_v(&a[2], 64)? as u64;
                if n == 0 { return Ok(Some(V::C(0))); }
                let p = self.ptr_arg(&a[0])?; let q = self.ptr_arg(&a[1])?;
                let x = self.read_bytes(p, n)?; let y = self.read_bytes(q, n)?;
                if self.m.fns[ix as usize].name == "bcmp" {
                    let mut ne = self.st.c(0, 1);
                    for k in 0..n as usize { let e = self.st.cmp(Cmp::Eq, x[k], y[k]); let d = self.st.not(e); ne = self.st.bin(BinOp::Or, ne, d); }
                    let r = self.st.zext(ne, 32);
                    Some(self.v(r))
                } else {
                    let mut r = self.st.c(0, 32);
                    for k in (0..n as usize).rev() {
                        let e = self.st.cmp(Cmp::Eq, x[k], y[k]);
                        let l = self.st.cmp(Cmp::Ult, x[k], y[k]);
                        let m1 = self.st.c(u128::MAX, 32); let p1 = self.st.c(1, 32);
                        let d = self.st.ite(l, m1, p1);
                        r = self.st.ite(e, r, d);
                    }
                    Some(self.v(r))
                }
            }
            Hook::MemSearch => {
                let p = self.ptr_arg(&a[0])?; let c = self.conc_v(&a[1], 32)? & 255; let n = self.conc_v(&a[2], 64)? as u64;
                let mut r = 0;
                for k in 0..n { let v = self.read_int(p + k, 1)?; let e = self.icmp(Pred::Eq, 8, v, V::C(c)); let t = self.t(&e, 1); if self.branch(t)? { r = p + k; break; } }
                Some(V::C(r as u128))
            }
            Hook::Strlen => { let p = self.ptr_arg(&a[0])?; let mut n = 0; while self.read_int(p + n, 1).map(|v| !matches!(v, V::C(0)))? { n += 1; } Some(V::C(n as u128)) }
            Hook::GetRandom => { let p = self.ptr_arg(&a[0])?; let n = self.conc_v(&a[1], 64)? as u64; for k in 0..n { self.write_int(p + k, 1, &V::C(0))?; } Some(V::C(n as u128)) }
            Hook::Write => Some(a[2].clone()),
            Hook::Open => Some(V::C(1000)),
            Hook::Statx => { let p = self.ptr_arg(&a[4])?; for k in 0..32 { self.write_int(p + 8 * k, 8, &V::C(0))?; } Some(V::C(0)) }
            Hook::Zero => Some(V::C(0)),
            Hook::Abort => { let stack = self.stack(); return Err(End::Panic { what: "abort".into(), at: String::new(), stack }); }
            Hook::Intrinsic => { let name = self.m.fns[ix as usize].name.clone(); return self.intrinsic(&name, a, args, rt); }
            Hook::Panic | Hook::None => unreachable!(),
        })
    }
    fn size_arg(&mut self, v: &V) -> X<Option<u64>> {
        match v {
            V::C(c) => Ok(if *c as u64 > self.cfg.alloc_limit { None } else { Some(*c as u64) }),
            V::S(t) => { let t = *t; self.upper(t) }
            _ => self.engine("size"),
        }
    }
    fn intrinsic(&mut self, name: &str, a: &[V], args: &[(Ty, Op)], rt: &Ty) -> X<Option<V>> {
        let n = &name[5..];
        let w = args.first().map(|x| x.0.width()).unwrap_or(0);
        let pre = |p: &str| n.starts_with(p);
        if pre("lifetime.") || pre("dbg.") || pre("experimental.noalias") || pre("assume") || pre("prefetch") || pre("donothing") { return Ok(None); }
        if pre("memcpy") || pre("memmove") {
            let len = self.conc_v(&a[2], args[2].0.width())? as u64;
            if len == 0 { return Ok(None); }
            let d = self.ptr_arg(&a[0])?; let s = self.ptr_arg(&a[1])?;
            self.copy(d, s, len)?;
            return Ok(None);
        }
        if pre("memset") {
            let len = self.conc_v(&a[2], args[2].0.width())? as u64;
            if len == 0 { return Ok(None); }
            let d = self.ptr_arg(&a[0])?;
            if let V::C(c) = &a[1] {
                let (id, off) = self.range(d, len, true)?;
                let o = self.obj(id, true)?;
                for x in &mut o.data[off..off + len as usize] { *x = *c as u8; }
                if !o.sym.is_empty() { for x in &mut o.sym[off..off + len as usize] { *x = 0; } }
            } else { for k in 0..len { self.write_int(d + k, 1, &a[1])?; } }
            return Ok(None);
        }
        if pre("threadlocal.address") || pre("launder.") || pre("strip.invariant") || pre("expect.") || pre("ssa.copy") { return Ok(Some(a[0].clone())); }
        if pre("ptrmask") { return Ok(Some(self.binop(BinOp::And, 64, a[0].clone(), a[1].clone())?)); }
        if pre("is.constant") { return Ok(Some(V::C(0))); }
        if pre("trap") || pre("ubsantrap") { return self.ub("trap"); }
        if pre("x86.sse2.pmovmskb.128") {
            let V::A(e) = a[0].clone() else { return self.engine("pmovmskb") };
            let mut acc: Option<T> = None;
            for x in e.iter() { let t = self.t(x, 8); let b = self.st.extract(7, 7, t); acc = Some(match acc { None => b, Some(lo) => self.st.concat(b, lo) }); }
            let z = self.st.zext(acc.unwrap(), 32);
            return Ok(Some(self.v(z)));
        }
        // with.overflow
        for (p, signed, k) in [("uadd.with.overflow", false, 0), ("sadd.with.overflow", true, 0), ("usub.with.overflow", false, 1), ("ssub.with.overflow", true, 1), ("umul.with.overflow", false, 2), ("smul.with.overflow", true, 2)] {
            if pre(p) {
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let (r, o) = self.ovf(signed, k, x, y)?;
                return Ok(Some(V::A(Arc::new(vec![self.v(r), self.v(o)]))));
            }
        }
        for (p, signed, k) in [("uadd.sat", false, 0), ("sadd.sat", true, 0), ("usub.sat", false, 1), ("ssub.sat", true, 1)] {
            if pre(p) {
                let r = self.map2(a[0].clone(), a[1].clone(), w, &mut |s, p, q, w| {
                    let (x, y) = (s.t(&p, w), s.t(&q, w));
                    let (r, o) = s.ovf(signed, k, x, y)?;
                    let sat = if !signed { if k == 0 { s.st.c(mask(w), w) } else { s.st.c(0, w) } } else {
                        let mx = s.st.c(mask(w - 1), w); let mn = s.st.c(1u128 << (w - 1), w);
                        let neg = s.st.extract(w - 1, w - 1, x);
                        s.st.ite(neg, mn, mx)
                    };
                    let z = s.st.ite(o, sat, r);
                    Ok(s.v(z))
                })?;
                return Ok(Some(r));
            }
        }
        for (p, c, sw) in [("umin", Cmp::Ult, false), ("umax", Cmp::Ult, true), ("smin", Cmp::Slt, false), ("smax", Cmp::Slt, true)] {
            if pre(p) {
                let r = self.map2(a[0].clone(), a[1].clone(), w, &mut |s, p, q, w| {
                    let (x, y) = (s.t(&p, w), s.t(&q, w));
                    let l = s.st.cmp(c, x, y);
                    let z = if sw { s.st.ite(l, y, x) } else { s.st.ite(l, x, y) };
                    Ok(s.v(z))
                })?;
                return Ok(Some(r));
            }
        }
        for (p, c) in [("ucmp", Cmp::Ult), ("scmp", Cmp::Slt)] {
            if pre(p) {
                let rw = rt.width();
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let l = self.st.cmp(c, x, y); let g = self.st.cmp(c, y, x);
                let m1 = self.st.c(u128::MAX, rw); let z = self.st.c(0, rw); let p1 = self.st.c(1, rw);
                let i = self.st.ite(g, p1, z);
                let r = self.st.ite(l, m1, i);
                return Ok(Some(self.v(r)));
            }
        }
        if pre("abs") {
            let r = self.map1(a[0].clone(), &mut |s, p| { let x = s.t(&p, w); let z = s.st.c(0, w); let n = s.st.bin(BinOp::Sub, z, x); let sg = s.st.extract(w - 1, w - 1, x); let r = s.st.ite(sg, n, x); Ok(s.v(r)) })?;
            return Ok(Some(r));
        }
        if pre("ctpop") || pre("ctlz") || pre("cttz") || pre("bitreverse") || pre("bswap") {
            let which = if pre("ctpop") { 0 } else if pre("ctlz") { 1 } else if pre("cttz") { 2 } else if pre("bitreverse") { 3 } else { 4 };
            let r = self.map1(a[0].clone(), &mut |s, p| {
                let x = s.t(&p, w);
                let r = match which {
                    0 => { let mut acc = s.st.c(0, w); for b in 0..w { let e = s.st.extract(b, b, x); let z = s.st.zext(e, w); acc = s.st.bin(BinOp::Add, acc, z); } acc }
                    1 => { let mut acc = s.st.c(w as u128, w); for b in 0..w { let e = s.st.extract(b, b, x); let k = s.st.c((w - 1 - b) as u128, w); acc = s.st.ite(e, k, acc); } acc }
                    2 => { let mut acc = s.st.c(w as u128, w); for b in (0..w).rev() { let e = s.st.extract(b, b, x); let k = s.st.c(b as u128, w); acc = s.st.ite(e, k, acc); } acc }
                    3 => { let mut acc = s.st.extract(0, 0, x); for b in 1..w { let e = s.st.extract(b, b, x); acc = s.st.concat(acc, e); } acc }
                    _ => { let mut acc = s.st.extract(7, 0, x); for b in 1..w / 8 { let e = s.st.extract(8 * b + 7, 8 * b, x); acc = s.st.concat(acc, e); } acc }
                };
                Ok(s.v(r))
            })?;
            return Ok(Some(r));
        }
        if pre("fshl") || pre("fshr") {
            if args[0].0.width() > 64 || matches!(a[0], V::A(_)) { return self.engine(format!("intrinsic {name}")); }
            let (x, y, z) = (self.t(&a[0], w), self.t(&a[1], w), self.t(&a[2], w));
            let cat = self.st.concat(x, y);
            let kw = self.st.c(w as u128, w);
            let s = self.st.bin(BinOp::URem, z, kw);
            let s2 = self.st.zext(s, 2 * w);
            let r = if pre("fshl") { let q = self.st.bin(BinOp::Shl, cat, s2); self.st.extract(2 * w - 1, w, q) } else { let q = self.st.bin(BinOp::LShr, cat, s2); self.st.extract(w - 1, 0, q) };
            return Ok(Some(self.v(r)));
        }
        if pre("fptosi.sat") || pre("fptoui.sat") {
            let tw = rt.width(); let sg = pre("fptosi");
            let r = self.map1(a[0].clone(), &mut |s, p| { let x = s.t(&p, w); let r = s.st.ftoi(sg, x, tw); Ok(s.v(r)) })?;
            return Ok(Some(r));
        }
        for (p, f) in [("fabs", FUn::Abs), ("floor", FUn::Floor), ("ceil", FUn::Ceil), ("trunc", FUn::Trunc), ("roundeven", FUn::RoundEven), ("rint", FUn::RoundEven), ("nearbyint", FUn::RoundEven), ("round", FUn::RoundAway), ("sqrt", FUn::Sqrt)] {
            if pre(p) {
                let r = self.map1(a[0].clone(), &mut |s, p| { let x = s.t(&p, w); let r = s.st.fun(f, x); Ok(s.v(r)) })?;
                return Ok(Some(r));
            }
        }
        if pre("copysign") {
            let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
            let m = self.st.extract(w - 2, 0, x); let s = self.st.extract(w - 1, w - 1, y);
            let r = self.st.concat(s, m);
            return Ok(Some(self.v(r)));
        }
        for (p, o) in [("vector.reduce.or", BinOp::Or), ("vector.reduce.and", BinOp::And), ("vector.reduce.add", BinOp::Add), ("vector.reduce.xor", BinOp::Xor), ("vector.reduce.mul", BinOp::Mul)] {
            if pre(p) {
                let V::A(e) = a[0].clone() else { return self.engine("reduce") };
                let mut acc = e[0].clone();
                for x in e[1..].iter() { acc = self.binop(o, w, acc, x.clone())?; }
                return Ok(Some(acc));
            }
        }
        self.engine(format!("intrinsic {name}"))
    }
    fn ovf(&mut self, signed: bool, k: u32, x: T, y: T) -> X<(T, T)> {
        let w = self.st.width(x);
        let s = &mut self.st;
        let (x, y) = if k != 1 && s.cval(x).is_some() { (y, x) } else { (x, y) };
        Ok(match (signed, k) {
            (false, 0) => { let r = s.bin(BinOp::Add, x, y); let o = if let Some(c) = s.cval(y) { let lim = s.c(mask(w) - c, w); s.cmp(Cmp::Ult, lim, x) } else if s.umax(x).checked_add(s.umax(y)).map_or(false, |z| z <= mask(w)) { s.c(0, 1) } else { s.cmp(Cmp::Ult, r, x) }; (r, o) }
            (false, 1) => { let r = s.bin(BinOp::Sub, x, y); let o = s.cmp(Cmp::Ult, x, y); (r, o) }
            (true, 0) | (true, 1) => {
                let r = s.bin(if k == 0 { BinOp::Add } else { BinOp::Sub }, x, y);
                let o = if let Some(c) = s.cval(y) {
                    let cs = sext(c, w);
                    let mx = mask(w - 1) as i128; let mn = -mx - 1;
                    // x + c (or x - c) out of range
                    let c2 = if k == 0 { cs } else { -cs };
                    if c2 == 0 { s.c(0, 1) }
                    else if c2 > 0 { let lim = s.c((mx - c2) as u128, w); if c2 > mx { let z = s.c(mask(w), w); s.cmp(Cmp::Slt, z, x) } else { s.cmp(Cmp::Slt, lim, x) } }
                    else { let lim = s.c((mn - c2) as u128, w); s.cmp(Cmp::Slt, x, lim) }
                } else {
                    let a = s.bin(BinOp::Xor, x, r);
                    let b = if k == 0 { s.bin(BinOp::Xor, y, r) } else { s.bin(BinOp::Xor, x, y) };
                    let q = s.bin(BinOp::And, a, b);
                    s.extract(w - 1, w - 1, q)
                };
                (r, o)
            }
            (false, _) => {
                let r = s.bin(BinOp::Mul, x, y);
                let o = if let Some(c) = s.cval(y) { if c == 0 { s.c(0, 1) } else { let lim = s.c(mask(w) / c, w); s.cmp(Cmp::Ult, lim, x) } }
                    else if w <= 64 { let a = s.zext(x, 2 * w); let b = s.zext(y, 2 * w); let p = s.bin(BinOp::Mul, a, b); let h = s.extract(2 * w - 1, w, p); let z = s.c(0, w); let e = s.cmp(Cmp::Eq, h, z); s.not(e) }
                    else { return self.engine("wide umul.with.overflow") };
                (r, o)
            }
            (true, _) => {
                let r = s.bin(BinOp::Mul, x, y);
                if w > 64 { return self.engine("wide smul.with.overflow"); }
                let o = if let (Some(c), true) = (s.cval(y), s.cval(y).map_or(false, |c| sext(c, w) > 0)) {
                    let cs = sext(c, w); let mx = mask(w - 1) as i128; let mn = -mx - 1;
                    let hi = s.c((mx / cs) as u128, w); let lo = s.c((mn / cs) as u128, w);
                    let a = s.cmp(Cmp::Slt, hi, x); let b = s.cmp(Cmp::Slt, x, lo);
                    s.bin(BinOp::Or, a, b)
                } else {
                    let a = s.sext_to(x, 2 * w); let b = s.sext_to(y, 2 * w); let p = s.bin(BinOp::Mul, a, b); let r2 = s.sext_to(r, 2 * w); let e = s.cmp(Cmp::Eq, p, r2); s.not(e)
                };
                (r, o)
            }
        })
    }
}
