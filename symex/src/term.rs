//! Hash-consed bit-vector terms with a rewriting simplifier, known-bits
//! analysis, a concrete evaluator and an SMT-LIB2 printer.
use std::collections::HashMap;

pub type T = u32; // index in the store; 0 is reserved (never a valid term)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FUn { Neg, Abs, Floor, Ceil, Trunc, RoundEven, RoundAway, Sqrt }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FCmp { Oeq, Olt, Ole, Uno }

/// A node. Booleans are 1-bit vectors.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32),
    Const(u128),
    Bin(BinOp, T, T),
    Cmp(Cmp, T, T),
    Not(T),
    Extract(u32, u32, T), // hi lo
    Concat(T, T),         // hi, lo
    ZExt(T),
    SExt(T),
    Ite(T, T, T),
    FBin(FOp, T, T),
    FUn(FUn, T),
    FCmp(FCmp, T, T),
    IToF(bool, T),    // signed?, source int; width = float width
    FToI(bool, T),    // saturating, signed?; width = int width
    FToF(T),          // float to float of another width
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Store {
    pub nodes: Vec<Node>,
    pub w: Vec<u32>,
    kz: Vec<u128>,
    ko: Vec<u128>,
    map: HashMap<(Node, u32), T>,
    pub nvars: u32,
    pub has_fp: Vec<bool>,
}

pub fn bin_concrete(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::UDiv => { if b == 0 { return None; } a / b }
        BinOp::URem => { if b == 0 { return None; } a % b }
        BinOp::SDiv => { if b == 0 { return None; } (sext(a, w).wrapping_div(sext(b, w)) as u128) & m }
        BinOp::SRem => { if b == 0 { return None; } (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m }
        BinOp::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => {
            let s = sext(a, w);
            let sh = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    })
}
pub fn cmp_concrete(c: Cmp, w: u32, a: u128, b: u128) -> bool {
    match c {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sext(a, w) < sext(b, w),
        Cmp::Sle => sext(a, w) <= sext(b, w),
    }
}
pub fn fbin_concrete(op: FOp, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
        r.to_bits() as u128
    }
}
pub fn fun_concrete(op: FUn, w: u32, a: u128) -> u128 {
    if op == FUn::Neg { return a ^ (1u128 << (w - 1)); }
    if op == FUn::Abs { return a & mask(w - 1); }
    if w == 32 {
        let x = f32::from_bits(a as u32);
        (match op { FUn::Floor => x.floor(), FUn::Ceil => x.ceil(), FUn::Trunc => x.trunc(), FUn::RoundEven => x.round_ties_even(), FUn::RoundAway => x.round(), FUn::Sqrt => x.sqrt(), _ => unreachable!() }).to_bits() as u128
    } else {
        let x = f64::from_bits(a as u64);
        (match op { FUn::Floor => x.floor(), FUn::Ceil => x.ceil(), FUn::Trunc => x.trunc(), FUn::RoundEven => x.round_ties_even(), FUn::RoundAway => x.round(), FUn::Sqrt => x.sqrt(), _ => unreachable!() }).to_bits() as u128
    }
}
pub fn fval(w: u32, a: u128) -> f64 {
    if w == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }
}
pub fn fcmp_concrete(c: FCmp, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (fval(w, a), fval(w, b));
    match c { FCmp::Oeq => x == y, FCmp::Olt => x < y, FCmp::Ole => x <= y, FCmp::Uno => x.is_nan() || y.is_nan() }
}
pub fn itof_concrete(signed: bool, a: u128, from: u32, to: u32) -> u128 {
    if to == 32 {
        (if signed { sext(a, from) as f32 } else { a as f32 }).to_bits() as u128
    } else {
        (if signed { sext(a, from) as f64 } else { a as f64 }).to_bits() as u128
    }
}
pub fn ftoi_concrete(signed: bool, a: u128, from: u32, to: u32) -> u128 {
    let x = fval(from, a);
    if signed {
        let lo = -(1i128 << (to - 1)); let hi = (1i128 << (to - 1)) - 1;
        let r = if x.is_nan() { 0 } else { (x as i128).clamp(lo, hi) };
        (r as u128) & mask(to)
    } else {
        if x.is_nan() || x <= 0.0 { 0 } else { (x as u128).min(mask(to)) }
    }
}
pub fn ftof_concrete(a: u128, from: u32, to: u32) -> u128 {
    if from == to { return a; }
    if to == 32 { (f64::from_bits(a as u64) as f32).to_bits() as u128 } else { (f32::from_bits(a as u32) as f64).to_bits() as u128 }
}

/// What a query uses: floating point, division by constants, or neither.
#[derive(Clone, Copy, PartialEq)]
pub enum Logic { Bv, Fp, Div }
impl Store {
    pub fn new() -> Self {
        let mut s = Store { nodes: vec![Node::Const(0)], w: vec![0], kz: vec![0], ko: vec![0], map: HashMap::new(), nvars: 0, has_fp: vec![false] };
        s.nodes.reserve(1024);
        s
    }
    pub fn width(&self, t: T) -> u32 { self.w[t as usize] }
    pub fn cval(&self, t: T) -> Option<u128> { if let Node::Const(c) = self.nodes[t as usize] { Some(c) } else { None } }
    fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }

    fn known(&self, n: &Node, w: u32) -> (u128, u128) {
        let m = mask(w);
        let k = |t: T| (self.kz[t as usize], self.ko[t as usize]);
        let (z, o) = match *n {
            Node::Const(c) => (!c & m, c),
            Node::Bin(BinOp::And, a, b) => { let (az, ao) = k(a); let (bz, bo) = k(b); (az | bz, ao & bo) }
            Node::Bin(BinOp::Or, a, b) => { let (az, ao) = k(a); let (bz, bo) = k(b); (az & bz, ao | bo) }
            Node::Bin(BinOp::Xor, a, b) => { let (az, ao) = k(a); let (bz, bo) = k(b); ((az & bz) | (ao & bo), (az & bo) | (ao & bz)) }
            Node::Not(a) => { let (az, ao) = k(a); (ao, az) }
            Node::Concat(a, b) => { let (az, ao) = k(a); let (bz, bo) = k(b); let wb = self.w[b as usize]; ((az << wb) | bz, (ao << wb) | bo) }
            Node::ZExt(a) => { let (az, ao) = k(a); (az | (m & !mask(self.w[a as usize])), ao) }
            Node::Extract(_, lo, a) => { let (az, ao) = k(a); ((az >> lo) & m, (ao >> lo) & m) }
            Node::Ite(_, a, b) => { let (az, ao) = k(a); let (bz, bo) = k(b); (az & bz, ao & bo) }
            Node::Bin(BinOp::Add, a, b) => {
                let (az, _) = k(a); let (bz, _) = k(b);
                // leading zeros: result < 2^(max+1); trailing zeros: min
                let la = w - (128 - (!az & m).leading_zeros()).min(w);
                let lb = w - (128 - (!bz & m).leading_zeros()).min(w);
                let l = la.min(lb).saturating_sub(1);
                let tz = ((!az & m).trailing_zeros()).min((!bz & m).trailing_zeros()).min(w);
                let mut z = if tz >= w { m } else { mask(tz) };
                if l > 0 { z |= m & !mask(w - l); }
                (z, 0)
            }
            Node::Bin(BinOp::Mul, a, b) => {
                let (az, _) = k(a); let (bz, _) = k(b);
                let ba = 128 - (!az & m).leading_zeros();
                let bb = 128 - (!bz & m).leading_zeros();
                let l = ba + bb;
                let tz = ((!az & m).trailing_zeros().min(w) + (!bz & m).trailing_zeros().min(w)).min(w);
                let mut z = mask(tz);
                if l < w { z |= m & !mask(l); }
                (z, 0)
            }
            Node::Bin(BinOp::UDiv, a, _) => { let (az, _) = k(a); let ba = 128 - (!az & m).leading_zeros(); (m & !mask(ba), 0) }
            Node::Bin(BinOp::URem, a, b) => {
                let (az, _) = k(a); let (bz, _) = k(b);
                let ba = 128 - (!az & m).leading_zeros();
                let bb = 128 - (!bz & m).leading_zeros();
                (m & !mask(ba.min(bb)), 0)
            }
            Node::Bin(BinOp::LShr, a, _) => { let (az, _) = k(a); let ba = 128 - (!az & m).leading_zeros(); (m & !mask(ba), 0) }
            _ => (0, 0),
        };
        (z & m, o & m)
    }

    fn mk(&mut self, n: Node, w: u32) -> T {
        debug_assert!(w > 0 && w <= 256);
        if let Some(&t) = self.map.get(&(n.clone(), w)) { return t; }
        let (kz, ko) = if w > 128 { (0, 0) } else { self.known(&n, w) };
        if w <= 128 && !matches!(n, Node::Const(_)) && (kz | ko) == mask(w) { return self.c(ko, w); }
        let fp = match n {
            Node::Var(_) | Node::Const(_) => false,
            Node::FBin(..) | Node::FUn(..) | Node::FCmp(..) | Node::IToF(..) | Node::FToI(..) | Node::FToF(..) => true,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.has_fp[a as usize] || self.has_fp[b as usize],
            Node::Not(a) | Node::Extract(_, _, a) | Node::ZExt(a) | Node::SExt(a) => self.has_fp[a as usize],
            Node::Ite(a, b, c) => self.has_fp[a as usize] || self.has_fp[b as usize] || self.has_fp[c as usize],
        };
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.w.push(w);
        self.kz.push(kz);
        self.ko.push(ko);
        self.has_fp.push(fp);
        self.map.insert((n, w), t);
        t
    }
    pub fn c(&mut self, v: u128, w: u32) -> T { self.mk(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, w: u32) -> T { let id = self.nvars; self.nvars += 1; self.mk(Node::Var(id), w) }
    pub fn umax(&self, t: T) -> u128 { !self.kz[t as usize] & mask(self.w[t as usize]) }
    pub fn umin(&self, t: T) -> u128 { self.ko[t as usize] }

    pub fn bin(&mut self, op: BinOp, mut a: T, mut b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b), "bin width {:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = bin_concrete(op, w, x, y) { return self.c(r, w); }
        }
        use BinOp::*;
        if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if let Node::Bin(Add, p, q) = *self.n(a) {
                        if let Some(x) = self.cval(q) { let k = self.c(x.wrapping_add(y), w); return self.bin(Add, p, k); }
                    }
                }
                // disjoint bits: use Or, which composes better
                if (!self.kz[a as usize] & !self.kz[b as usize] & m) == 0 { return self.bin(Or, a, b); }
                // pull constants out: (p + c) + b -> (p + b) + c
                if let Node::Bin(Add, p, q) = *self.n(a) {
                    if self.cval(q).is_some() && cb.is_none() { let s = self.bin(Add, p, b); return self.bin(Add, s, q); }
                }
                if let Node::Bin(Add, p, q) = *self.n(b) {
                    if self.cval(q).is_some() { let s = self.bin(Add, a, p); return self.bin(Add, s, q); }
                }
                // x + (0 - y) handled as Sub below; (p - y) + y -> p
                if let Node::Bin(Sub, p, q) = *self.n(a) { if q == b { return p; } }
                if let Node::Bin(Sub, p, q) = *self.n(b) { if q == a { return p; } }
            }
            Sub => {
                if a == b { return self.c(0, w); }
                if let Some(y) = cb { let k = self.c(y.wrapping_neg(), w); return self.bin(Add, a, k); }
                if let Node::Bin(Add, p, q) = *self.n(a) {
                    if p == b { return q; }
                    if q == b { return p; }
                    if self.cval(q).is_some() { let s = self.bin(Sub, p, b); return self.bin(Add, s, q); }
                }
                if let Node::Bin(Add, p, q) = *self.n(b) {
                    if let Some(y) = self.cval(q) { let s = self.bin(Sub, a, p); let k = self.c(y.wrapping_neg(), w); return self.bin(Add, s, k); }
                }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y.trailing_zeros() as u128, w); return self.bin(LShr, a, k); } if y > self.umax(a) { return self.c(0, w); } }
            }
            URem => {
                if cb == Some(1) { return self.c(0, w); }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(y - 1, w); return self.bin(And, a, k); } if y > self.umax(a) && y != 0 { return a; } }
            }
            And => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return b; }
                    if (self.kz[a as usize] | y) & m == m { return a; } // every possibly-one bit kept
                    if let Node::Bin(And, p, q) = *self.n(a) { if let Some(x) = self.cval(q) { let k = self.c(x & y, w); return self.bin(And, p, k); } }
                    // contiguous mask starting at bit lo: concat(0, extract, 0)
                    let lo = y.trailing_zeros(); let hi = 127 - y.leading_zeros();
                    if y == (mask(hi + 1) & !mask(lo)) {
                        let e = self.extract(hi, lo, a);
                        let e = if lo > 0 { let z = self.c(0, lo); self.concat(e, z) } else { e };
                        return self.zext(e, w);
                    }
                    // push through concat
                    if let Node::Concat(p, q) = *self.n(a) {
                        let wq = self.width(q);
                        let wp = self.width(p);
                        let yh = self.c(y >> wq, wp); let yl = self.c(y, wq);
                        let h = self.bin(And, p, yh); let l = self.bin(And, q, yl);
                        return self.concat(h, l);
                    }
                    if let Node::ZExt(p) = *self.n(a) {
                        let wp = self.width(p);
                        let k = self.c(y, wp);
                        let r = self.bin(And, p, k);
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if let Node::Not(x) = *self.n(a) { if x == b { return self.c(0, 1); } }
                    if let Node::Not(x) = *self.n(b) { if x == a { return self.c(0, 1); } }
                }
            }
            Or => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y == m { return b; }
                }
                if w == 1 {
                    if let Node::Not(x) = *self.n(a) { if x == b { return self.c(1, 1); } }
                    if let Node::Not(x) = *self.n(b) { if x == a { return self.c(1, 1); } }
                }
                // disjoint halves -> concat
                let pa = !self.kz[a as usize] & m; let pb = !self.kz[b as usize] & m;
                if pa & pb == 0 && pa != 0 && pb != 0 {
                    let (hi, lo, plo) = if pa > pb { (a, b, pb) } else { (b, a, pa) };
                    let k = 128 - plo.leading_zeros(); // lo occupies [0,k)
                    let phi = if pa > pb { pa } else { pb };
                    if k < w && phi & mask(k) == 0 {
                        let h = self.extract(w - 1, k, hi);
                        let l = self.extract(k - 1, 0, lo);
                        return self.concat(h, l);
                    }
                }
            }
            Xor => {
                if a == b { return self.c(0, w); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
            }
            Shl => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.c(0, w); }
                    let s = s as u32;
                    let e = self.extract(w - 1 - s, 0, a);
                    let z = self.c(0, s);
                    return self.concat(e, z);
                }
                if ca == Some(0) { return a; }
            }
            LShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    if s >= w as u128 { return self.c(0, w); }
                    let e = self.extract(w - 1, s as u32, a);
                    return self.zext(e, w);
                }
                if ca == Some(0) { return a; }
            }
            AShr => {
                if let Some(s) = cb {
                    if s == 0 { return a; }
                    let s = if s >= w as u128 { w - 1 } else { s as u32 };
                    let e = self.extract(w - 1, s, a);
                    return self.sext_to(e, w);
                }
            }
            SDiv | SRem => {
                // both non-negative: unsigned
                let sb = 1u128 << (w - 1);
                if self.kz[a as usize] & sb != 0 && self.kz[b as usize] & sb != 0 {
                    return self.bin(if op == SDiv { UDiv } else { URem }, a, b);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(c) = self.cval(a) { return self.c(!c, w); }
        if let Node::Not(x) = *self.n(a) { return x; }
        self.mk(Node::Not(a), w)
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: T) -> T {
        let w = self.width(a);
        let r = hi - lo + 1;
        if r == w { return a; }
        if let Some(c) = self.cval(a) { return self.c(c >> lo, r); }
        match *self.n(a) {
            Node::Extract(_, l2, x) => return self.extract(hi + l2, lo + l2, x),
            Node::Concat(p, q) => {
                let wq = self.width(q);
                if hi < wq { return self.extract(hi, lo, q); }
                if lo >= wq { return self.extract(hi - wq, lo - wq, p); }
                let h = self.extract(hi - wq, 0, p);
                let l = self.extract(wq - 1, lo, q);
                return self.concat(h, l);
            }
            Node::ZExt(x) => {
                let wx = self.width(x);
                if lo >= wx { return self.c(0, r); }
                if hi < wx { return self.extract(hi, lo, x); }
                let e = self.extract(wx - 1, lo, x);
                return self.zext(e, r);
            }
            Node::SExt(x) => {
                let wx = self.width(x);
                if hi < wx { return self.extract(hi, lo, x); }
                if lo < wx { let e = self.extract(wx - 1, lo, x); return self.sext_to(e, r); }
            }
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), p, q) => {
                let x = self.extract(hi, lo, p);
                let y = self.extract(hi, lo, q);
                return self.bin(op, x, y);
            }
            Node::Not(x) => { let e = self.extract(hi, lo, x); return self.not(e); }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), p, q) if lo == 0 => {
                let x = self.extract(hi, 0, p);
                let y = self.extract(hi, 0, q);
                return self.bin(op, x, y);
            }
            Node::Ite(c, p, q) if self.cval(p).is_some() || self.cval(q).is_some() => {
                let x = self.extract(hi, lo, p);
                let y = self.extract(hi, lo, q);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.mk(Node::Extract(hi, lo, a), r)
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (wa, wb) = (self.width(a), self.width(b));
        let w = wa + wb;
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { if w <= 128 { return self.c((x << wb) | y, w); } }
        if self.cval(a) == Some(0) { return self.zext(b, w); }
        // adjacent extracts
        if let (Node::Extract(h1, l1, x), Node::Extract(h2, l2, y)) = (self.n(a).clone(), self.n(b).clone()) {
            if x == y && l1 == h2 + 1 { return self.extract(h1, l2, x); }
        }
        // the low part was simplified further
        if let Node::Extract(h1, l1, x) = *self.n(a) {
            if l1 == wb && self.extract(l1 - 1, 0, x) == b { return self.extract(h1, 0, x); }
        }
        // whole-low + extract
        if let Node::Extract(h1, l1, x) = *self.n(a) {
            if let Node::Concat(p, q) = *self.n(b) {
                if let Node::Extract(h2, l2, y) = *self.n(p) {
                    if x == y && l1 == h2 + 1 { let e = self.extract(h1, l2, x); return self.concat(e, q); }
                }
            }
        }
        // right-nest: (p . q) . b -> p . (q . b)
        if let Node::Concat(p, q) = *self.n(a) { let r = self.concat(q, b); return self.concat(p, r); }
        if let Node::ZExt(p) = *self.n(a) { let r = self.concat(p, b); return self.zext(r, w); }
        self.mk(Node::Concat(a, b), w)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.width(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        if let Some(c) = self.cval(a) { return self.c(c, w); }
        if let Node::ZExt(x) = *self.n(a) { return self.zext(x, w); }
        self.mk(Node::ZExt(a), w)
    }
    pub fn sext_to(&mut self, a: T, w: u32) -> T {
        let wa = self.width(a);
        if wa == w { return a; }
        if let Some(c) = self.cval(a) { return self.c(sext(c, wa) as u128, w); }
        if self.kz[a as usize] >> (wa - 1) & 1 == 1 { return self.zext(a, w); }
        if let Node::SExt(x) = *self.n(a) { return self.sext_to(x, w); }
        self.mk(Node::SExt(a), w)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(x) = self.cval(c) { return if x == 1 { a } else { b }; }
        if a == b { return a; }
        if let Node::Not(x) = *self.n(c) { return self.ite(x, b, a); }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(BinOp::And, n, b); }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(BinOp::Or, n, a); }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = *self.n(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Node::Ite(c2, _, y) = *self.n(b) { if c2 == c { return self.ite(c, a, y); } }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn cmp(&mut self, k: Cmp, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) { let r = cmp_concrete(k, w, x, y); return self.c(r as u128, 1); }
        if a == b { return self.c(matches!(k, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1); }
        match k {
            Cmp::Eq => {
                let (a, b) = if ca.is_some() || (cb.is_none() && a > b) { (b, a) } else { (a, b) };
                let (za, oa) = (self.kz[a as usize], self.ko[a as usize]);
                let (zb, ob) = (self.kz[b as usize], self.ko[b as usize]);
                if (za & ob) != 0 || (oa & zb) != 0 { return self.c(0, 1); }
                if w == 1 {
                    if let Some(y) = self.cval(b) { return if y == 1 { a } else { self.not(a) }; }
                }
                if let Some(y) = self.cval(b) {
                    match *self.n(a) {
                        Node::ZExt(x) => { let wx = self.width(x); let k2 = self.c(y, wx); return self.cmp(Cmp::Eq, x, k2); }
                        Node::Concat(p, q) => {
                            let (wp, wq) = (self.width(p), self.width(q));
                            let kh = self.c(y >> wq, wp); let kl = self.c(y, wq);
                            let e1 = self.cmp(Cmp::Eq, p, kh); let e2 = self.cmp(Cmp::Eq, q, kl);
                            return self.bin(BinOp::And, e1, e2);
                        }
                        Node::Bin(BinOp::Add, p, q) => if let Some(x) = self.cval(q) { let k2 = self.c(y.wrapping_sub(x), w); return self.cmp(Cmp::Eq, p, k2); },
                        Node::Bin(BinOp::Xor, p, q) => if let Some(x) = self.cval(q) { let k2 = self.c(y ^ x, w); return self.cmp(Cmp::Eq, p, k2); },
                        Node::Not(x) => { let k2 = self.c(!y, w); return self.cmp(Cmp::Eq, x, k2); }
                        Node::SExt(x) => {
                            let wx = self.width(x); let lo = y & mask(wx);
                            if (sext(lo, wx) as u128) & mask(w) != y { return self.c(0, 1); }
                            let k2 = self.c(lo, wx); return self.cmp(Cmp::Eq, x, k2);
                        }
                        Node::Ite(c, p, q) => {
                            if self.cval(p).is_some() || self.cval(q).is_some() {
                                let e1 = self.cmp(Cmp::Eq, p, b); let e2 = self.cmp(Cmp::Eq, q, b);
                                return self.ite(c, e1, e2);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                        let (wx, wy) = (self.width(x), self.width(y));
                        let wm = wx.max(wy);
                        let x2 = self.zext(x, wm); let y2 = self.zext(y, wm);
                        return self.cmp(Cmp::Eq, x2, y2);
                    }
                    if let (Node::SExt(x), Node::SExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                        if self.width(x) == self.width(y) { return self.cmp(Cmp::Eq, x, y); }
                    }
                    if let (Node::Concat(p, q), Node::Concat(r, s)) = (self.n(a).clone(), self.n(b).clone()) {
                        if self.width(q) == self.width(s) {
                            let e1 = self.cmp(Cmp::Eq, p, r); let e2 = self.cmp(Cmp::Eq, q, s);
                            return self.bin(BinOp::And, e1, e2);
                        }
                    }
                }
                return self.mk(Node::Cmp(Cmp::Eq, a, b), 1);
            }
            Cmp::Ult => {
                if self.umax(a) < self.umin(b) { return self.c(1, 1); }
                if self.umin(a) >= self.umax(b) { return self.c(0, 1); }
                if cb == Some(1) { let z = self.c(0, w); return self.cmp(Cmp::Eq, a, z); }
                if let Some(r) = self.shrink_cmp(k, a, b) { return r; }
            }
            Cmp::Ule => {
                if self.umax(a) <= self.umin(b) { return self.c(1, 1); }
                if self.umin(a) > self.umax(b) { return self.c(0, 1); }
                let l = self.cmp(Cmp::Ult, b, a);
                return self.not(l);
            }
            Cmp::Slt | Cmp::Sle => {
                let sb = 1u128 << (w - 1);
                let nn = |s: &Self, t: T| s.kz[t as usize] & sb != 0;
                let ng = |s: &Self, t: T| s.ko[t as usize] & sb != 0;
                if (nn(self, a) && nn(self, b)) || (ng(self, a) && ng(self, b)) { return self.cmp(if k == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b); }
                if nn(self, a) && ng(self, b) { return self.c(0, 1); }
                if ng(self, a) && nn(self, b) { return self.c(1, 1); }
                if k == Cmp::Sle { let l = self.cmp(Cmp::Slt, b, a); return self.not(l); }
                // x < 0  -> sign bit
                if cb == Some(0) { return self.extract(w - 1, w - 1, a); }
                if ca == Some(mask(w)) { let s = self.extract(w - 1, w - 1, b); return self.not(s); }
            }
        }
        self.mk(Node::Cmp(k, a, b), 1)
    }
    fn shrink_cmp(&mut self, k: Cmp, a: T, b: T) -> Option<T> {
        // unsigned compare of zero-extended values
        let wa = if let Node::ZExt(x) = *self.n(a) { Some((x, self.width(x))) } else { None };
        let wb = if let Node::ZExt(x) = *self.n(b) { Some((x, self.width(x))) } else { None };
        match (wa, wb) {
            (Some((x, wx)), Some((y, wy))) => { let m = wx.max(wy); let p = self.zext(x, m); let q = self.zext(y, m); Some(self.cmp(k, p, q)) }
            (Some((x, wx)), None) => { let y = self.cval(b)?; if y > mask(wx) { return Some(self.c(1, 1)); } let c = self.c(y, wx); Some(self.cmp(k, x, c)) }
            (None, Some((y, wy))) => { let x = self.cval(a)?; if x > mask(wy) { return Some(self.c(0, 1)); } let c = self.c(x, wy); Some(self.cmp(k, c, y)) }
            _ => None,
        }
    }
    pub fn fbin(&mut self, op: FOp, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = fbin_concrete(op, w, x, y); return self.c(r, w); }
        self.mk(Node::FBin(op, a, b), w)
    }
    pub fn fun(&mut self, op: FUn, a: T) -> T {
        let w = self.width(a);
        if let Some(x) = self.cval(a) { let r = fun_concrete(op, w, x); return self.c(r, w); }
        if op == FUn::Neg { let k = self.c(1u128 << (w - 1), w); return self.bin(BinOp::Xor, a, k); }
        if op == FUn::Abs { let k = self.c(mask(w - 1), w); return self.bin(BinOp::And, a, k); }
        self.mk(Node::FUn(op, a), w)
    }
    pub fn fcmp(&mut self, c: FCmp, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = fcmp_concrete(c, w, x, y); return self.c(r as u128, 1); }
        // values that come from an integer conversion are never NaN
        if a == b {
            let nn = matches!(*self.n(a), Node::IToF(..));
            if nn { return self.c(matches!(c, FCmp::Oeq | FCmp::Ole) as u128, 1); }
        }
        if c == FCmp::Uno {
            let f = |s: &Self, t: T| matches!(*s.n(t), Node::IToF(..)) || s.cval(t).map_or(false, |v| !fval(w, v).is_nan());
            if f(self, a) && f(self, b) { return self.c(0, 1); }
        }
        self.mk(Node::FCmp(c, a, b), 1)
    }
    pub fn itof(&mut self, signed: bool, a: T, w: u32) -> T {
        let f = self.width(a);
        if let Some(x) = self.cval(a) { let r = itof_concrete(signed, x, f, w); return self.c(r, w); }
        // canonicalise: a zero-extended integer converts the same way signed or not
        let (signed, a) = match *self.n(a) {
            Node::ZExt(x) => (false, x),
            Node::SExt(x) if signed => (true, x),
            _ => { if signed && self.kz[a as usize] >> (f - 1) & 1 == 1 { (false, a) } else { (signed, a) } }
        };
        self.mk(Node::IToF(signed, a), w)
    }
    pub fn ftoi(&mut self, signed: bool, a: T, w: u32) -> T {
        let f = self.width(a);
        if let Some(x) = self.cval(a) { let r = ftoi_concrete(signed, x, f, w); return self.c(r, w); }
        self.mk(Node::FToI(signed, a), w)
    }
    pub fn ftof(&mut self, a: T, w: u32) -> T {
        let f = self.width(a);
        if f == w { return a; }
        if let Some(x) = self.cval(a) { let r = ftof_concrete(x, f, w); return self.c(r, w); }
        self.mk(Node::FToF(a), w)
    }

    /// children of a node
    pub fn kids(&self, t: T, out: &mut Vec<T>) {
        match *self.n(t) {
            Node::Var(_) | Node::Const(_) => {}
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) | Node::FBin(_, a, b) | Node::FCmp(_, a, b) => { out.push(a); out.push(b); }
            Node::Not(a) | Node::Extract(_, _, a) | Node::ZExt(a) | Node::SExt(a) | Node::FUn(_, a) | Node::IToF(_, a) | Node::FToI(_, a) | Node::FToF(a) => out.push(a),
            Node::Ite(a, b, c) => { out.push(a); out.push(b); out.push(c); }
        }
    }
    pub fn vars(&self, t: T, out: &mut std::collections::BTreeSet<u32>) {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![t];
        let mut k = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if let Node::Var(v) = *self.n(x) { out.insert(v); }
            k.clear();
            self.kids(x, &mut k);
            st.extend_from_slice(&k);
        }
    }

    /// Evaluates under `model` (missing vars are 0). `memo` is (epoch,value) per term.
    pub fn eval(&self, t: T, model: &[u128], memo: &mut Vec<(u32, u128)>, epoch: u32) -> u128 {
        if memo.len() < self.nodes.len() { memo.resize(self.nodes.len(), (0, 0)); }
        let mut st = vec![t];
        let mut k: Vec<T> = vec![];
        while let Some(&x) = st.last() {
            if memo[x as usize].0 == epoch { st.pop(); continue; }
            k.clear();
            self.kids(x, &mut k);
            let mut ready = true;
            for &c in &k { if memo[c as usize].0 != epoch { st.push(c); ready = false; } }
            if !ready { continue; }
            st.pop();
            let w = self.w[x as usize];
            let g = |c: T| memo[c as usize].1;
            let v = match *self.n(x) {
                Node::Var(v) => model.get(v as usize).copied().unwrap_or(0) & mask(w),
                Node::Const(c) => c,
                Node::Bin(op, a, b) => match bin_concrete(op, w, g(a), g(b)) {
                    Some(v) => v,
                    // SMT-LIB semantics of division by zero (such paths are excluded before)
                    None => match op { BinOp::UDiv => mask(w), BinOp::SDiv => if sext(g(a), w) < 0 { 1 } else { mask(w) }, _ => g(a) },
                },
                Node::Cmp(c, a, b) => cmp_concrete(c, self.w[a as usize], g(a), g(b)) as u128,
                Node::Not(a) => !g(a) & mask(w),
                Node::Extract(_, lo, a) => (g(a) >> lo) & mask(w),
                Node::Concat(a, b) => (g(a) << self.w[b as usize]) | g(b),
                Node::ZExt(a) => g(a),
                Node::SExt(a) => (sext(g(a), self.w[a as usize]) as u128) & mask(w),
                Node::Ite(c, a, b) => if g(c) == 1 { g(a) } else { g(b) },
                Node::FBin(op, a, b) => fbin_concrete(op, w, g(a), g(b)),
                Node::FUn(op, a) => fun_concrete(op, w, g(a)),
                Node::FCmp(c, a, b) => fcmp_concrete(c, self.w[a as usize], g(a), g(b)) as u128,
                Node::IToF(s, a) => itof_concrete(s, g(a), self.w[a as usize], w),
                Node::FToI(s, a) => ftoi_concrete(s, g(a), self.w[a as usize], w),
                Node::FToF(a) => ftof_concrete(g(a), self.w[a as usize], w),
            };
            memo[x as usize] = (epoch, v);
        }
        memo[t as usize].1
    }

    /// Prints the assertion set `asserts` (1-bit terms that must be 1) as an SMT-LIB script body.
    pub fn smt(&self, asserts: &[T], vars_out: &mut Vec<u32>) -> (String, Logic) {
        use std::fmt::Write;
        let mut order: Vec<T> = vec![];
        let mut state: HashMap<T, u8> = HashMap::new();
        let mut k: Vec<T> = vec![];
        let (mut fp, mut has_div) = (false, false);
        let div = &mut has_div;
        for &a in asserts {
            let mut st = vec![a];
            while let Some(&x) = st.last() {
                match state.get(&x) {
                    Some(2) => { st.pop(); continue; }
                    Some(1) => { state.insert(x, 2); order.push(x); st.pop(); continue; }
                    _ => {}
                }
                state.insert(x, 1);
                k.clear();
                self.kids(x, &mut k);
                for &c in &k { if state.get(&c) != Some(&2) { st.push(c); } }
            }
        }
        let mut s = String::new();
        let mut divs = std::collections::HashSet::new();
        let mut vs: Vec<u32> = vec![];
        let mut num: HashMap<T, usize> = HashMap::new();
        for (i, &x) in order.iter().enumerate() {
            let w = self.w[x as usize];
            fp |= self.has_fp[x as usize];
            let nm = |t: T| -> String {
                match *self.n(t) {
                    Node::Var(v) => format!("v{v}"),
                    Node::Const(c) => format!("(_ bv{} {})", c, self.w[t as usize]),
                    _ => format!("n{}", num[&t]),
                }
            };
            let f = |t: T| -> String {
                let (e, sg) = if self.w[t as usize] == 32 { (8, 24) } else { (11, 53) };
                format!("((_ to_fp {e} {sg}) {})", nm(t))
            };
            let b2 = |c: String| format!("(ite {c} #b1 #b0)");
            let e = match *self.n(x) {
                Node::Var(v) => { vs.push(v); let _ = writeln!(s, "(declare-const v{v} (_ BitVec {w}))"); continue; }
                Node::Const(_) => continue,
                Node::Bin(op @ (BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem), a, b) if w > 8 && self.cval(b).is_some_and(|c| c > 1 && (c <= mask(w) >> 1 || matches!(op, BinOp::SDiv | BinOp::SRem) && c != mask(w) && c != 1u128 << (w - 1))) => {
                    // Division by a constant: quotient and remainder are the only numbers
                    // with a = q * c + r, r < c. Multiplying by a constant is a few additions.
                    let c = self.cval(b).unwrap();
                    let neg = c > mask(w) >> 1;
                    let c = if neg { c.wrapping_neg() & mask(w) } else { c };
                    *div = true;
                    let signed = matches!(op, BinOp::SDiv | BinOp::SRem);
                    let nb = if signed { w } else { (128 - self.umax(a).leading_zeros()).max(128 - c.leading_zeros()) };
                    let wide = |s: String| if nb == w { s } else { format!("((_ zero_extend {}) {s})", w - nb) };
                    let dv = format!("d{a}_{c}_{}", signed as u8);
                    if divs.insert(dv.clone()) {
                        let x = nm(a);
                        let abs = if signed { format!("(ite (bvslt {x} (_ bv0 {w})) (bvneg {x}) {x})") } else if nb == w { x } else { format!("((_ extract {} 0) {x})", nb - 1) };
                        let top = (if signed { 1u128 << (w - 1) } else { mask(nb) }) / c;
                        let _ = writeln!(s, "(define-fun a{dv} () (_ BitVec {nb}) {abs})\n(declare-const q{dv} (_ BitVec {nb}))\n(define-fun p{dv} () (_ BitVec {nb}) (bvmul q{dv} (_ bv{c} {nb})))\n(define-fun r{dv} () (_ BitVec {nb}) (bvsub a{dv} p{dv}))");
                        let _ = writeln!(s, "(assert (bvule q{dv} (_ bv{top} {nb})))\n(assert (bvule p{dv} a{dv}))\n(assert (bvult r{dv} (_ bv{c} {nb})))");
                    }
                    match op {
                        BinOp::UDiv => wide(format!("q{dv}")),
                        BinOp::URem => wide(format!("r{dv}")),
                        BinOp::SDiv if neg => format!("(ite (bvslt {0} (_ bv0 {w})) q{dv} (bvneg q{dv}))", nm(a)),
                        BinOp::SDiv => format!("(ite (bvslt {0} (_ bv0 {w})) (bvneg q{dv}) q{dv})", nm(a)),
                        _ => format!("(ite (bvslt {0} (_ bv0 {w})) (bvneg r{dv}) r{dv})", nm(a)),
                    }
                }
                Node::Bin(op, a, b) => {
                    let o = match op { BinOp::Add => "bvadd", BinOp::Sub => "bvsub", BinOp::Mul => "bvmul", BinOp::UDiv => "bvudiv", BinOp::SDiv => "bvsdiv", BinOp::URem => "bvurem", BinOp::SRem => "bvsrem", BinOp::Shl => "bvshl", BinOp::LShr => "bvlshr", BinOp::AShr => "bvashr", BinOp::And => "bvand", BinOp::Or => "bvor", BinOp::Xor => "bvxor" };
                    format!("({o} {} {})", nm(a), nm(b))
                }
                Node::Cmp(c, a, b) => {
                    let o = match c { Cmp::Eq => "=", Cmp::Ult => "bvult", Cmp::Ule => "bvule", Cmp::Slt => "bvslt", Cmp::Sle => "bvsle" };
                    b2(format!("({o} {} {})", nm(a), nm(b)))
                }
                Node::Not(a) => format!("(bvnot {})", nm(a)),
                Node::Extract(h, l, a) => format!("((_ extract {h} {l}) {})", nm(a)),
                Node::Concat(a, b) => format!("(concat {} {})", nm(a), nm(b)),
                Node::ZExt(a) => format!("((_ zero_extend {}) {})", w - self.w[a as usize], nm(a)),
                Node::SExt(a) => format!("((_ sign_extend {}) {})", w - self.w[a as usize], nm(a)),
                Node::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", nm(c), nm(a), nm(b)),
                Node::FBin(op, a, b) => {
                    let o = match op { FOp::Add => "fp.add RNE", FOp::Sub => "fp.sub RNE", FOp::Mul => "fp.mul RNE", FOp::Div => "fp.div RNE", FOp::Rem => "fp.rem" };
                    format!("(fp.to_ieee_bv ({o} {} {}))", f(a), f(b))
                }
                Node::FUn(op, a) => {
                    let o = match op { FUn::Floor => "fp.roundToIntegral RTN", FUn::Ceil => "fp.roundToIntegral RTP", FUn::Trunc => "fp.roundToIntegral RTZ", FUn::RoundEven => "fp.roundToIntegral RNE", FUn::RoundAway => "fp.roundToIntegral RNA", FUn::Sqrt => "fp.sqrt RNE", FUn::Neg => "fp.neg", FUn::Abs => "fp.abs" };
                    format!("(fp.to_ieee_bv ({o} {}))", f(a))
                }
                Node::FCmp(c, a, b) => match c {
                    FCmp::Oeq => b2(format!("(fp.eq {} {})", f(a), f(b))),
                    FCmp::Olt => b2(format!("(fp.lt {} {})", f(a), f(b))),
                    FCmp::Ole => b2(format!("(fp.leq {} {})", f(a), f(b))),
                    FCmp::Uno => b2(format!("(or (fp.isNaN {}) (fp.isNaN {}))", f(a), f(b))),
                },
                Node::IToF(sg, a) => {
                    let (e, m) = if w == 32 { (8, 24) } else { (11, 53) };
                    if sg { format!("(fp.to_ieee_bv ((_ to_fp {e} {m}) RNE {}))", nm(a)) } else { format!("(fp.to_ieee_bv ((_ to_fp_unsigned {e} {m}) RNE {}))", nm(a)) }
                }
                Node::FToF(a) => {
                    let (e, m) = if w == 32 { (8, 24) } else { (11, 53) };
                    format!("(fp.to_ieee_bv ((_ to_fp {e} {m}) RNE {}))", f(a))
                }
                Node::FToI(sg, a) => {
                    let fw = self.w[a as usize];
                    let (e, m) = if fw == 32 { (8, 24) } else { (11, 53) };
                    let cst = |v: f64| -> String {
                        if fw == 32 { format!("((_ to_fp {e} {m}) (_ bv{} 32))", (v as f32).to_bits()) } else { format!("((_ to_fp {e} {m}) (_ bv{} 64))", v.to_bits()) }
                    };
                    let two = |k: u32| 2f64.powi(k as i32);
                    if sg {
                        let mx = mask(w - 1); let mn = 1u128 << (w - 1);
                        format!("(ite (fp.isNaN {0}) (_ bv0 {w}) (ite (fp.geq {0} {1}) (_ bv{mx} {w}) (ite (fp.leq {0} {2}) (_ bv{mn} {w}) ((_ fp.to_sbv {w}) RTZ {0}))))", f(a), cst(two(w - 1)), cst(-two(w - 1)))
                    } else {
                        let mx = mask(w);
                        format!("(ite (fp.isNaN {0}) (_ bv0 {w}) (ite (fp.geq {0} {1}) (_ bv{mx} {w}) (ite (fp.leq {0} {2}) (_ bv0 {w}) ((_ fp.to_ubv {w}) RTZ {0}))))", f(a), cst(two(w)), cst(0.0))
                    }
                }
            };
            num.insert(x, i);
            let _ = writeln!(s, "(define-fun n{i} () (_ BitVec {w}) {e})");
        }
        for &a in asserts {
            let nm = match *self.n(a) {
                Node::Var(v) => format!("v{v}"),
                Node::Const(c) => format!("(_ bv{c} 1)"),
                _ => format!("n{}", num[&a]),
            };
            let _ = writeln!(s, "(assert (= {nm} #b1))");
        }
        vars_out.extend(vs);
        (s, if fp { Logic::Fp } else if has_div { Logic::Div } else { Logic::Bv })
    }
}
