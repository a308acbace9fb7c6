//! Reader for textual LLVM IR (as written by rustc's LLVM). Functions are
//! indexed first and parsed when first called.
use crate::term::BinOp;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Vec(u64, Arc<Ty>), Arr(u64, Arc<Ty>), Struct(Arc<Vec<Ty>>, bool), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => { let b = (*w as u64).div_ceil(8).next_power_of_two(); b.min(16) }
            Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8,
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::F32 => 32, Ty::F64 => 64, Ty::Ptr => 64, _ => self.size() * 8 }
    }
    /// store size
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8),
            _ => self.size(),
        }
    }
    /// alloc size (with padding)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let s = (*w as u64).div_ceil(8); s.next_multiple_of(self.align()) }
            Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8,
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8).next_multiple_of(self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(..) => { let mut o = 0; for i in 0..self.nfields() { o = self.field_off(i) + self.field(i).size(); } o.next_multiple_of(self.align()) }
        }
    }
    pub fn nfields(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn field(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => Ty::Other } }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*p { o = o.next_multiple_of(t.align()); }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.bits() / 8,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(_, t) => t.width(), _ => 0 } }
}

/// A value: concrete, symbolic term (width known from context), or aggregate/vector.
#[derive(Clone, Debug)]
pub enum V { C(u128), S(u32), A(Arc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Op { L(u32), C(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Same }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ptr(Op), Asm, Cpuid }

#[derive(Debug)]
pub enum K {
    Bin(BinOp, u32, Op, Op),
    FBin(crate::term::FOp, u32, Op, Op),
    FNeg(u32, Op),
    Icmp(Pred, u32, Op, Op),
    Fcmp(String, u32, Op, Op),
    Cast(Cast, u32, u32, Op),
    Bitcast(Ty, Ty, Op),
    Select(Op, Op, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64, Op),
    Gep(Op, i64, Vec<(Op, u32, i64)>),
    ExtractVal(Op, Vec<u32>),
    InsertVal(Op, Op, Vec<u32>),
    ExtractEl(Op, Op),
    InsertEl(Op, Op, Op),
    Shuffle(Op, Op, Vec<i64>),
    Call(Callee, Vec<(Ty, Op)>, Ty, Option<u32>), // normal dest for invoke
    Freeze(Op),
    CmpXchg(Ty, Op, Op, Op),
    AtomicRmw(Rmw, Ty, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Landingpad,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Inst { pub dst: u32, pub k: K, pub ty: Ty }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst>, pub name: String }
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub nlocals: u32, pub blocks: Vec<Block> }

pub struct FnEntry { pub name: String, pub demangled: String, pub start: usize, pub end: usize, pub is_def: bool, pub body: OnceLock<Arc<Func>> }

pub struct GlobalDef { pub name: String, pub size: u64, pub data: Vec<u8>, pub constant: bool }

pub struct Module {
    pub text: String,
    pub fns: Vec<FnEntry>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub sym_addr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(ix: u32) -> u64 { FN_BASE + ((ix as u64 + 1) << 6) }
pub fn addr_fn(a: u64) -> Option<u32> { if a > FN_BASE && (a & 63) == 0 { Some((((a - FN_BASE) >> 6) - 1) as u32) } else { None } }

pub struct P<'a> { s: &'a [u8], i: usize, m: Option<&'a Module>, types: &'a HashMap<String, Ty>, locals: HashMap<String, u32>, blocks: HashMap<String, u32> }

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn new(s: &'a str, m: Option<&'a Module>, types: &'a HashMap<String, Ty>) -> Self { P { s: s.as_bytes(), i: 0, m, types, locals: HashMap::new(), blocks: HashMap::new() } }
    fn err<X>(&self, w: &str) -> R<X> { let e = (self.i + 120).min(self.s.len()); Err(format!("{w} near `{}`", String::from_utf8_lossy(&self.s[self.i.min(e)..e]))) }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
            else if c.is_ascii_whitespace() { self.i += 1; } else { break; }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(c.as_bytes()) { self.i += c.len(); true } else { false } }
    fn expect(&mut self, c: &str) -> R<()> { if self.eat(c) { Ok(()) } else { self.err(&format!("expected {c}")) } }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.' || self.s[j] == b'-' || self.s[j] == b'$') { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str { let w = self.word_at(); self.i += w.len(); w }
    fn eatw(&mut self, w: &str) -> bool { if self.word_at() == w { self.i += w.len(); true } else { false } }
    fn balanced(&mut self) { // at '(' '[' '{' '<'
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn eol(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
    /// name after a sigil
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let n = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            n
        } else { self.word().to_string() }
    }
    fn at_type(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' { return true; }
        if c == b'%' { return true; }
        let w = self.word_at();
        matches!(w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
            || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'{' => { self.i += 1; self.struct_ty(false) }
            b'[' => { self.i += 1; let n: u64 = self.word().parse().map_err(|_| "arr n".to_string())?; self.eatw("x"); let t = self.ty()?; self.expect("]")?; Ok(Ty::Arr(n, Arc::new(t))) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let t = self.struct_ty(true)?; self.expect(">")?; return Ok(t); }
                let n: u64 = self.word().parse().map_err(|_| "vec n".to_string())?; self.eatw("x"); let t = self.ty()?; self.expect(">")?; Ok(Ty::Vec(n, Arc::new(t)))
            }
            b'%' => { self.i += 1; let n = self.name(); self.types.get(&n).cloned().ok_or(format!("type %{n}")) }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => { if self.eatw("addrspace") { self.ws(); self.balanced(); } Ok(Ty::Ptr) }
                    "void" => Ok(Ty::Void), "float" => Ok(Ty::F32), "double" => Ok(Ty::F64),
                    "label" | "metadata" | "token" | "opaque" | "half" | "bfloat" | "fp128" | "x86_fp80" => Ok(Ty::Other),
                    _ if w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| format!("type {w}")),
                    _ => self.err(&format!("type `{w}`")),
                }
            }
        }
    }
    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if self.peek() == b'}' { self.i += 1; return Ok(Ty::Struct(Arc::new(f), packed)); }
        loop { f.push(self.ty()?); if self.eat(",") { continue; } self.expect("}")?; break; }
        Ok(Ty::Struct(Arc::new(f), packed))
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.i < self.s.len() && self.s[self.i] == b'=' { self.i += 1; if self.s[self.i] == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } } continue; }
            if c == b'#' { self.i += 1; self.word(); continue; }
            let w = self.word_at();
            if w.is_empty() || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' { return; }
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "blockaddress" | "asm" | "addrspacecast" | "nan" | "inf" | "qnan" | "snan" | "pinf" | "ninf") { return; }
            if w == "c" && self.s.get(self.i + 1) == Some(&b'"') { return; }
            if (w.starts_with("f0x")) || w.starts_with("u0x") || w.starts_with("s0x") { return; }
            if w.starts_with("f0") { return; }
            self.i += w.len();
            if w == "align" && self.i < self.s.len() && self.s[self.i] != b'(' { self.ws(); if self.s[self.i].is_ascii_digit() { self.word(); } continue; }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.balanced(); }
        }
    }
    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) | Ty::Arr(n, t) => V::A(Arc::new((0..*n).map(|_| Self::zero(t)).collect())),
            Ty::Struct(f, _) => V::A(Arc::new(f.iter().map(Self::zero).collect())),
            _ => V::C(0),
        }
    }
    fn sym(&self, n: &str) -> R<u64> {
        self.m.and_then(|m| m.sym_addr.get(n).copied()).ok_or(format!("unknown symbol @{n}"))
    }
    /// constant of type ty
    fn cst(&mut self, ty: &Ty) -> R<V> {
        let c = self.peek();
        let w = ty.width();
        let mk = crate::term::mask(w.max(1));
        match c {
            b'@' => { self.i += 1; let n = self.name(); return Ok(V::C(self.sym(&n)? as u128)); }
            b'{' | b'[' => { self.i += 1; return self.cst_list(if c == b'{' { "}" } else { "]" }); }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let v = self.cst_list("}")?; self.expect(">")?; return Ok(v); }
                return self.cst_list(">");
            }
            _ => {}
        }
        if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') {
            self.i += 2;
            let mut v = vec![];
            while self.s[self.i] != b'"' {
                if self.s[self.i] == b'\\' {
                    if self.s[self.i + 1] == b'\\' { v.push(V::C(b'\\' as u128)); self.i += 2; continue; }
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128));
                    self.i += 3;
                } else { v.push(V::C(self.s[self.i] as u128)); self.i += 1; }
            }
            self.i += 1;
            return Ok(V::A(Arc::new(v)));
        }
        let wd = self.word();
        match wd {
            "true" => return Ok(V::C(1)),
            "false" => return Ok(V::C(0)),
            "null" => return Ok(V::C(0)),
            "undef" | "poison" | "zeroinitializer" | "none" => return Ok(Self::zero(ty)),
            "splat" => {
                self.expect("(")?;
                let t = self.ty()?; let v = self.cst(&t)?; self.expect(")")?;
                return Ok(V::A(Arc::new((0..ty.nfields()).map(|_| v.clone()).collect())));
            }
            "getelementptr" => {
                loop { let w = self.word_at(); if matches!(w, "inbounds" | "nuw" | "nusw") { self.i += w.len(); } else if w == "inrange" { self.i += w.len(); self.balanced(); } else { break; } }
                self.expect("(")?;
                let bt = self.ty()?; self.expect(",")?;
                let pt = self.ty()?; let base = self.cst(&pt)?;
                let V::C(mut a) = base else { return self.err("gep base") };
                let mut cur = bt; let mut first = true;
                while self.eat(",") {
                    loop { if self.eatw("inrange") { self.balanced(); } else { break; } }
                    let it = self.ty()?; let V::C(ix) = self.cst(&it)? else { return self.err("gep ix") };
                    let ix = crate::term::sext(ix, it.width());
                    if first { a = a.wrapping_add((ix * cur.size() as i128) as u128); first = false; }
                    else { a = a.wrapping_add(match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => ix * t.size() as i128, _ => cur.field_off(ix as usize) as i128 } as u128); cur = cur.field(ix as usize); }
                }
                self.expect(")")?;
                return Ok(V::C(a as u64 as u128));
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect("(")?;
                let t = self.ty()?; let v = self.cst(&t)?; self.eatw("to"); let t2 = self.ty()?; self.expect(")")?;
                let V::C(x) = v else { return self.err("const cast") };
                return Ok(V::C(x & crate::term::mask(t2.width().max(1))));
            }
            "sub" | "add" | "xor" => {
                loop { let w = self.word_at(); if matches!(w, "nuw" | "nsw") { self.i += w.len(); } else { break; } }
                self.expect("(")?;
                let t = self.ty()?; let a = self.cst(&t)?; self.expect(",")?; let t2 = self.ty()?; let b = self.cst(&t2)?; self.expect(")")?;
                let (V::C(x), V::C(y)) = (a, b) else { return self.err("const bin") };
                let r = match wd { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y };
                return Ok(V::C(r & mk));
            }
            _ => {}
        }
        match ty {
            Ty::F32 | Ty::F64 => {
                let mut wd = wd.to_string();
                if self.s.get(self.i) == Some(&b'+') { self.i += 1; wd.push('+'); wd.push_str(self.word()); }
                let v: f64 = if let Some(h) = wd.strip_prefix("0x").or(wd.strip_prefix("f0x")) {
                    let x = u64::from_str_radix(h, 16).map_err(|_| "float".to_string())?;
                    if wd.starts_with('f') { // exact bits of the type
                        return Ok(V::C(x as u128));
                    }
                    f64::from_bits(x)
                } else { match wd.as_str() { "nan" | "qnan" => f64::NAN, "inf" | "pinf" => f64::INFINITY, "-inf" | "ninf" => f64::NEG_INFINITY, "-nan" => -f64::NAN, _ => wd.parse().map_err(|_| format!("float {wd}"))? } };
                Ok(V::C(if *ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }))
            }
            _ => {
                if let Some(h) = wd.strip_prefix("u0x").or(wd.strip_prefix("s0x")) { return Ok(V::C(u128::from_str_radix(h, 16).map_err(|_| "hex")? & mk)); }
                if let Ok(x) = wd.parse::<i128>() { return Ok(V::C((x as u128) & mk)); }
                if let Ok(x) = wd.parse::<u128>() { return Ok(V::C(x & mk)); }
                self.err(&format!("constant `{wd}`"))
            }
        }
    }
    fn cst_list(&mut self, end: &str) -> R<V> {
        let mut v = vec![];
        if self.eat(end) { return Ok(V::A(Arc::new(v))); }
        loop { let t = self.ty()?; v.push(self.cst(&t)?); if self.eat(",") { continue; } self.expect(end)?; break; }
        Ok(V::A(Arc::new(v)))
    }
    fn local(&mut self, n: String) -> u32 { let k = self.locals.len() as u32; *self.locals.entry(n).or_insert(k) }
    fn opnd(&mut self, ty: &Ty) -> R<Op> {
        self.skip_attrs();
        if self.peek() == b'%' { self.i += 1; let n = self.name(); return Ok(Op::L(self.local(n))); }
        Ok(Op::C(self.cst(ty)?))
    }
    fn top(&mut self) -> R<(Ty, Op)> { let t = self.ty()?; let o = self.opnd(&t)?; Ok((t, o)) }
    fn block(&mut self) -> R<u32> {
        // label %name
        self.eatw("label"); self.expect("%")?; let n = self.name();
        let k = self.blocks.len() as u32;
        Ok(*self.blocks.entry(n).or_insert(k))
    }
}

pub fn write_const(v: &V, ty: &Ty, out: &mut [u8]) {
    match v {
        V::C(x) => { let n = ty.store() as usize; let b = x.to_le_bytes(); for i in 0..n.min(16).min(out.len()) { out[i] = b[i]; } }
        V::A(a) => {
            if let Ty::Vec(_, t) = ty { if t.bits() % 8 != 0 { return; } }
            for (i, e) in a.iter().enumerate() {
                let o = ty.field_off(i) as usize; let f = ty.field(i);
                let n = f.size() as usize;
                if o + f.store() as usize <= out.len() { let end = (o + n).min(out.len()); write_const(e, &f, &mut out[o..end]); }
            }
        }
        V::S(_) => unreachable!(),
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module { text, fns: vec![], fn_ix: HashMap::new(), globals: vec![], sym_addr: HashMap::new(), types: HashMap::new() };
        let text = std::mem::take(&mut m.text);
        // pass 1: index lines
        let mut gl: Vec<(String, usize, usize)> = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        let mut tys: Vec<(String, usize, usize)> = vec![];
        let mut pos = 0;
        let b = text.as_bytes();
        let mut last_comment = String::new();
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|k| pos + k).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with("; ") { last_comment = line[2..].to_string(); }
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let n = sym_name(&line[at + 1..]);
                let is_def = line.starts_with("define");
                let end = if is_def { text[pos..].find("\n}\n").map(|k| pos + k + 2).unwrap_or(b.len()) } else { e };
                let ix = m.fns.len() as u32;
                m.fn_ix.insert(n.clone(), ix);
                m.sym_addr.insert(n.clone(), fn_addr(ix));
                let dem = if is_def && !last_comment.starts_with("Function Attrs") { last_comment.clone() } else { String::new() };
                m.fns.push(FnEntry { name: n, demangled: dem, start: pos, end, is_def, body: OnceLock::new() });
                pos = end + 1;
                last_comment.clear();
                continue;
            }
            if line.starts_with('@') {
                let n = sym_name(&line[1..]);
                let rest = line.find(" = ").unwrap() + 3;
                let body = &line[rest..];
                if body.split(' ').take(8).any(|w| w == "alias" || w == "ifunc") && !body.contains(" constant ") && !body.contains(" global ") { aliases.push((n, pos + rest, e)); } else { gl.push((n, pos + rest, e)); }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let k = line.find(" = type ").unwrap();
                tys.push((sym_name(&line[1..]), pos + k + 8, e));
            }
            pos = e + 1;
        }
        let mut types = HashMap::new();
        let mut pending = tys;
        while !pending.is_empty() {
            let before = pending.len();
            let mut next = vec![];
            for (n, s, e) in pending { let mut p = P::new(&text[s..e], None, &types); match p.ty() { Ok(t) => { types.insert(n, t); } Err(_) => next.push((n, s, e)) } }
            if next.len() == before { return Err(format!("types: {:?}", next[0].0)); }
            pending = next;
        }
        m.types = types;
        for (i, (n, _, _)) in gl.iter().enumerate() { m.sym_addr.insert(n.clone(), ((i as u64) + 1) << 32); }
        // aliases refer to functions or globals
        for (n, s, e) in &aliases {
            let body = &text[*s..*e];
            if let Some(at) = body.find('@') { let t = sym_name(&body[at + 1..]); if let Some(&a) = m.sym_addr.get(&t) { m.sym_addr.insert(n.clone(), a); if let Some(ix) = addr_fn(a) { m.fn_ix.insert(n.clone(), ix); } } }
        }
        let mut defs = vec![];
        for (n, s, e) in &gl {
            let body = &text[*s..*e];
            let mut p = P::new(body, Some(&m), &m.types);
            let mut constant = false; let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "" => return Err(format!("global {n}")),
                    _ => { if p.i < p.s.len() && p.s[p.i] == b'(' { p.balanced(); } }
                }
            }
            let ty = p.ty().map_err(|x| format!("global {n}: {x}"))?;
            let mut data = vec![0u8; ty.size() as usize];
            if !external {
                let v = p.cst(&ty).map_err(|x| format!("global {n}: {x}"))?;
                write_const(&v, &ty, &mut data);
            }
            defs.push(GlobalDef { name: n.clone(), size: data.len() as u64, data, constant });
        }
        m.globals = defs;
        m.text = text;
        Ok(m)
    }
    pub fn func(&self, ix: u32) -> R<Arc<Func>> {
        let f = &self.fns[ix as usize];
        if let Some(b) = f.body.get() { return Ok(b.clone()); }
        let p = parse_fn(self, &self.text[f.start..f.end], &f.name).map_err(|e| format!("in {}: {e}", f.name))?;
        let a = Arc::new(p);
        let _ = f.body.set(a.clone());
        Ok(a)
    }
}

fn sym_name(s: &str) -> String {
    if let Some(r) = s.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() }
    else { s.chars().take_while(|c| c.is_ascii_alphanumeric() || "_.$-".contains(*c)).collect() }
}

fn parse_fn(m: &Module, text: &str, name: &str) -> R<Func> {
    let mut p = P::new(text, Some(m), &m.types);
    // header
    let at = text.find('@').unwrap();
    p.i = at + 1;
    p.name();
    p.expect("(")?;
    let mut params = vec![];
    let mut unnamed = 0;
    if !p.eat(")") {
        loop {
            if p.eat("...") { p.expect(")")?; break; }
            p.ty()?; p.skip_attrs();
            p.expect("%")?; let n = p.name();
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            let l = p.local(n); params.push(l);
            if p.eat(",") { continue; }
            p.expect(")")?; break;
        }
    }
    // skip to the opening brace at end of line
    p.eol();
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<u32> = None;
    let lines_end = p.s.len() - 1;
    loop {
        p.ws();
        if p.i >= lines_end || p.s[p.i] == b'}' { break; }
        // label?
        let save = p.i;
        let lab = if p.s[p.i] == b'"' { let n = p.name(); if p.i < p.s.len() && p.s[p.i] == b':' { p.i += 1; Some(n) } else { p.i = save; None } }
            else { let w = p.word_at().to_string(); if !w.is_empty() && p.s[p.i + w.len()] == b':' { p.i += w.len() + 1; Some(w) } else { None } };
        if let Some(l) = lab {
            let k = p.blocks.len() as u32; let ix = *p.blocks.entry(l.clone()).or_insert(k);
            while blocks.len() <= ix as usize { blocks.push(None); }
            blocks[ix as usize] = Some(Block { phis: vec![], insts: vec![], name: l });
            cur = Some(ix);
            p.eol();
            continue;
        }
        if cur.is_none() {
            let l = unnamed.to_string();
            let k = p.blocks.len() as u32; let ix = *p.blocks.entry(l.clone()).or_insert(k);
            while blocks.len() <= ix as usize { blocks.push(None); }
            blocks[ix as usize] = Some(Block { phis: vec![], insts: vec![], name: l });
            cur = Some(ix);
        }
        if p.s[p.i] == b'#' { p.eol(); continue; } // debug record
        let w0 = p.word_at();
        if matches!(w0, "cleanup" | "catch" | "filter") { p.eol(); continue; }
        let mut dst = NODST;
        if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); p.expect("=")?; dst = p.local(n); }
        let line_start = p.i;
        let mut line_end = line_start;
        while line_end < p.s.len() && p.s[line_end] != b'\n' { line_end += 1; }
        let b = blocks[cur.unwrap() as usize].as_mut().unwrap();
        match inst(&mut p, dst) {
            Ok(Parsed::Phi(inc)) => { b.phis.push((dst, inc)); p.i = line_end; }
            Ok(Parsed::I(k, ty)) => { if !matches!(k, K::Switch(..) | K::Call(_, _, _, Some(_))) { p.i = line_end; } b.insts.push(Inst { dst, k, ty }) }
            Err(e) => { p.i = line_start; let s = p.i; p.eol(); let t = String::from_utf8_lossy(&p.s[s..p.i]).into_owned(); b.insts.push(Inst { dst, k: K::Unsupported(format!("{e}: {t}")), ty: Ty::Void }); }
        }
        p.eol();
    }
    // entry must be block 0 for execution: find it
    let nlocals = p.locals.len() as u32;
    let blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![], name: "?".into() })).collect();
    let _ = name;
    Ok(Func { name: name.to_string(), params, nlocals, blocks })
}

enum Parsed { Phi(Vec<(u32, Op)>), I(K, Ty) }

fn inst(p: &mut P, _dst: u32) -> R<Parsed> {
    use crate::term::FOp;
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
    let ok = |k: K, t: Ty| Ok(Parsed::I(k, t));
    let flags = |p: &mut P| loop {
        let w = p.word_at();
        if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" | "inalloca" | "swifterror") { p.i += w.len(); if w == "nofpclass" { p.balanced(); } }
        else if w == "inrange" { p.i += w.len(); p.balanced(); } else { break; }
    };
    match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            flags(p);
            let o = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
            let (t, a) = p.top()?; p.expect(",")?; let b = p.opnd(&t)?;
            ok(K::Bin(o, t.width(), a, b), t)
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(p);
            let o = match w { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            let (t, a) = p.top()?; p.expect(",")?; let b = p.opnd(&t)?;
            ok(K::FBin(o, t.width(), a, b), t)
        }
        "fneg" => { flags(p); let (t, a) = p.top()?; ok(K::FNeg(t.width(), a), t) }
        "icmp" => {
            flags(p);
            let q = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return p.err(x) };
            flags(p);
            let (t, a) = p.top()?; p.expect(",")?; let b = p.opnd(&t)?;
            ok(K::Icmp(q, t.width(), a, b), t)
        }
        "fcmp" => { flags(p); let q = p.word().to_string(); let (t, a) = p.top()?; p.expect(",")?; let b = p.opnd(&t)?; ok(K::Fcmp(q, t.width(), a, b), t) }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" => {
            flags(p);
            let (t, a) = p.top()?; if !p.eatw("to") { return p.err("to"); } let t2 = p.ty()?;
            let c = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, _ => { let (f, g) = (t.width(), t2.width()); if f == g { Cast::Same } else if f > g { Cast::Trunc } else { Cast::ZExt } } };
            ok(K::Cast(c, t.width(), t2.width(), a), t2)
        }
        "bitcast" => { let (t, a) = p.top()?; if !p.eatw("to") { return p.err("to"); } let t2 = p.ty()?; ok(K::Bitcast(t, t2.clone(), a), t2) }
        "select" => { flags(p); let (_, c) = p.top()?; p.expect(",")?; let (t, a) = p.top()?; p.expect(",")?; let (_, b) = p.top()?; ok(K::Select(c, a, b), t) }
        "load" => { flags(p); let t = p.ty()?; p.expect(",")?; let (_, a) = p.top()?; ok(K::Load(t.clone(), a), t) }
        "store" => { flags(p); let (t, v) = p.top()?; p.expect(",")?; let (_, a) = p.top()?; ok(K::Store(t, v, a), Ty::Void) }
        "alloca" => {
            flags(p);
            let t = p.ty()?;
            let mut n = Op::C(V::C(1));
            if p.eat(",") { if p.at_type() { let (_, c) = p.top()?; n = c; } }
            ok(K::Alloca(t.size(), n), Ty::Ptr)
        }
        "getelementptr" => {
            flags(p);
            let bt = p.ty()?; p.expect(",")?;
            let (_, base) = p.top()?;
            let mut off = 0i64; let mut ix = vec![];
            let mut cur = bt; let mut first = true;
            while p.peek() == b',' {
                p.i += 1;
                p.ws();
                if p.s[p.i] == b'!' { break; }
                let it = p.ty()?; let o = p.opnd(&it)?;
                let scale = if first { cur.size() as i64 } else { match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64, _ => 0 } };
                if first || matches!(cur, Ty::Arr(..) | Ty::Vec(..)) {
                    match &o { Op::C(V::C(x)) => off = off.wrapping_add((crate::term::sext(*x, it.width()) as i64).wrapping_mul(scale)), _ => ix.push((o, it.width(), scale)) }
                    if !first { cur = cur.field(0); }
                    first = false;
                } else {
                    let Op::C(V::C(x)) = o else { return p.err("struct gep") };
                    off += cur.field_off(x as usize) as i64; cur = cur.field(x as usize);
                }
            }
            ok(K::Gep(base, off, ix), Ty::Ptr)
        }
        "extractvalue" => { let (_, a) = p.top()?; let mut ix = vec![]; while p.peek() == b',' { p.i += 1; p.ws(); if p.s[p.i] == b'!' { break; } ix.push(p.word().parse().map_err(|_| "ix")?); } ok(K::ExtractVal(a, ix), Ty::Other) }
        "insertvalue" => { let (t, a) = p.top()?; p.expect(",")?; let (_, b) = p.top()?; let mut ix = vec![]; while p.peek() == b',' { p.i += 1; p.ws(); if p.s[p.i] == b'!' { break; } ix.push(p.word().parse().map_err(|_| "ix")?); } ok(K::InsertVal(a, b, ix), t) }
        "extractelement" => { let (_, a) = p.top()?; p.expect(",")?; let (_, b) = p.top()?; ok(K::ExtractEl(a, b), Ty::Other) }
        "insertelement" => { let (t, a) = p.top()?; p.expect(",")?; let (_, e) = p.top()?; p.expect(",")?; let (_, b) = p.top()?; ok(K::InsertEl(a, e, b), t) }
        "shufflevector" => {
            let (t, a) = p.top()?; p.expect(",")?; let (_, b) = p.top()?; p.expect(",")?;
            let mt = p.ty()?; let mv = p.cst(&mt)?;
            let V::A(mv) = mv else { return p.err("mask") };
            let mask = mv.iter().map(|v| if let V::C(x) = v { *x as u32 as i32 as i64 } else { 0 }).collect();
            ok(K::Shuffle(a, b, mask), t)
        }
        "phi" => {
            flags(p);
            let t = p.ty()?;
            let mut inc = vec![];
            loop {
                p.expect("[")?; let o = p.opnd(&t)?; p.expect(",")?; let b = p.block()?; p.expect("]")?;
                inc.push((b, o));
                p.ws();
                if p.i < p.s.len() && p.s[p.i] == b',' && { let mut j = p.i + 1; while p.s[j] == b' ' { j += 1; } p.s[j] == b'[' } { p.i += 1; continue; }
                break;
            }
            Ok(Parsed::Phi(inc))
        }
        "br" => {
            p.ws();
            if p.word_at() == "label" { let b = p.block()?; return ok(K::Br(b), Ty::Void); }
            let (_, c) = p.top()?; p.expect(",")?; let t = p.block()?; p.expect(",")?; let f = p.block()?;
            ok(K::CondBr(c, t, f), Ty::Void)
        }
        "switch" => {
            let (t, v) = p.top()?; p.expect(",")?; let d = p.block()?; p.expect("[")?;
            let mut cs = vec![];
            while p.peek() != b']' { let ct = p.ty()?; let V::C(x) = p.cst(&ct)? else { return p.err("case") }; p.expect(",")?; let b = p.block()?; cs.push((x, b)); }
            p.i += 1;
            ok(K::Switch(t.width(), v, d, cs), Ty::Void)
        }
        "ret" => { if p.eatw("void") { return ok(K::Ret(None), Ty::Void); } let (t, v) = p.top()?; ok(K::Ret(Some(v)), t) }
        "unreachable" => ok(K::Unreachable, Ty::Void),
        "landingpad" => { ok(K::Landingpad, Ty::Void) }
        "resume" => ok(K::Unsupported("resume".into()), Ty::Void),
        "freeze" => { let (t, a) = p.top()?; ok(K::Freeze(a), t) }
        "fence" => ok(K::Fence, Ty::Void),
        "cmpxchg" => { flags(p); let (_, a) = p.top()?; p.expect(",")?; let (t, c) = p.top()?; p.expect(",")?; let (_, n) = p.top()?; ok(K::CmpXchg(t.clone(), a, c, n), t) }
        "atomicrmw" => {
            flags(p);
            let o = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => return p.err(x) };
            let (_, a) = p.top()?; p.expect(",")?; let (t, v) = p.top()?; ok(K::AtomicRmw(o, t.clone(), a, v), t)
        }
        "call" | "invoke" => {
            // flags, cc, return attributes
            loop {
                if p.at_type() { break; }
                let c = p.peek();
                if c == b'"' { p.skip_attrs(); continue; }
                let wd = p.word();
                if wd.is_empty() { return p.err("call"); }
                if wd == "align" { p.ws(); if p.s[p.i].is_ascii_digit() { p.word(); } continue; }
                if p.i < p.s.len() && p.s[p.i] == b'(' { p.balanced(); }
            }
            let rt = p.ty()?;
            if p.peek() == b'(' { p.balanced(); }
            let callee;
            p.ws();
            if p.s[p.i] == b'@' {
                p.i += 1; let n = p.name();
                match p.m.unwrap().fn_ix.get(&n) { Some(&ix) => callee = Callee::F(ix), None => return p.err(&format!("callee @{n}")) }
            } else if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); let l = p.local(n); callee = Callee::Ptr(Op::L(l)); }
            else if p.word_at() == "asm" {
                let from = p.i;
                // skip to args
                loop { let c = p.peek(); if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } else if c == b'(' { break; } else { p.i += 1; } }
                callee = if p.s[from..p.i].windows(5).any(|w| w == b"cpuid") { Callee::Cpuid } else { Callee::Asm };
            }
            else { let c = p.cst(&Ty::Ptr)?; callee = Callee::Ptr(Op::C(c)); }
            p.expect("(")?;
            let mut args = vec![];
            if !p.eat(")") {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other { // metadata
                        let mut d = 0;
                        loop { match p.s[p.i] { b'(' | b'{' => d += 1, b')' | b'}' => { if d == 0 { break; } d -= 1; } b',' if d == 0 => break, _ => {} } p.i += 1; }
                        args.push((t, Op::C(V::C(0))));
                    } else { let o = p.opnd(&t)?; args.push((t, o)); }
                    if p.eat(",") { continue; }
                    p.expect(")")?; break;
                }
            }
            let mut normal = None;
            if w == "invoke" {
                // find "to label"
                let rest = std::str::from_utf8(&p.s[p.i..]).map_err(|_| "utf8")?;
                let k = rest.find("to label").ok_or("invoke")?;
                p.i += k + 3; let b = p.block()?; normal = Some(b);
                p.eatw("unwind"); let _ = p.block()?;
            }
            ok(K::Call(callee, args, rt.clone(), normal), rt)
        }
        _ => p.err(&format!("instruction {w}")),
    }
}
