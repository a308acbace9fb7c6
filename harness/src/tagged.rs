//! Reference encoder for the byte aligned ("versioned") format: writes a
//! symbolic value of a schema type and records the values it must decode to.
//! `dev` bounds the unusual but legal choices (field order, absent optionals,
//! array and blob lengths), `bad` the illegal ones (wrong tag, unknown,
//! duplicate or missing field, unknown variant).
use crate::sym;

pub enum Ty {
    Int(i64, i64),
    Blob,
    /// A blob that is not text.
    Raw,
    Bool,
    Cc,
    Opt(&'static Ty),
    /// A blob that may be left out, which then reads as empty.
    MaybeBlob,
    Arr(&'static Ty),
    St(&'static [(u8, Ty)]),
    /// A variable size unsigned integer: a choice of four widths.
    Ch,
}
impl Ty { fn leave(&self) -> bool { matches!(self, Ty::Opt(_) | Ty::MaybeBlob) } }
pub const U8: Ty = Ty::Int(0, 255);
pub const U32: Ty = Ty::Int(0, u32::MAX as i64);
pub const I32: Ty = Ty::Int(i32::MIN as i64, i32::MAX as i64);
pub const I64: Ty = Ty::Int(i64::MIN, i64::MAX);
pub const U64: Ty = Ty::Int(0, i64::MAX);

/// A decoded value, flattened.
#[derive(Clone)]
pub enum L { I(i64), B(Vec<u8>), No, Len(usize) }

pub struct Enc { pub b: Vec<u8>, pub dev: u32, pub bad: u32, pub wild: u32, pub ok: bool, pub ascii: bool, pub free: usize, pub flat: bool, blobs: usize }

impl Enc {
    pub fn new(dev: u32, bad: u32, wild: u32) -> Enc { Enc { b: Vec::with_capacity(1024), dev, bad, wild, ok: true, ascii: false, free: usize::MAX, flat: false, blobs: 0 } }
    fn pick(&mut self, n: usize) -> usize {
        if n <= 1 || self.dev == 0 || sym::choice(2) == 0 { return 0 }
        self.dev -= 1;
        1 + sym::choice(n as u8 - 1)
    }
    /// 0: well formed.
    fn wrong(&mut self, n: usize) -> usize {
        if self.bad == 0 || sym::choice(2) == 0 { return 0 }
        self.bad -= 1;
        self.ok = false;
        1 + sym::choice(n as u8)
    }
    pub fn type_tag(&mut self, t: u8) {
        let x = if self.wrong(1) == 0 { t } else { let x = sym::u8(); sym::assume(x != t); x };
        self.b.push(x);
    }
    pub fn small(&mut self, n: u8) { self.b.push(n << 1) }
    /// A value in 0..=hi, in ten bytes.
    fn tame(&mut self, hi: u64) -> i64 {
        let m = u64::MAX >> hi.leading_zeros();
        let x = if self.flat { 0 } else { sym::u64() & m };
        if hi != m { sym::assume(x <= hi) }
        self.b.push(0x80 | ((x & 0x3f) << 1) as u8);
        for k in 1..9 { self.b.push(0x80 | ((x >> (7 * k - 1)) & 0x7f) as u8) }
        self.b.push((x >> 62) as u8);
        x as i64
    }
    /// Any 64 bit integer, in ten bytes; None if it does not fit.
    pub fn any(&mut self) -> (bool, i64) {
        let x = sym::bytes::<10>();
        for k in 0..9 { self.b.push(x[k] | 0x80) }
        self.b.push(x[9] & 0x7f);
        // without branches: sign, 63 bits of magnitude, the bits above them
        let neg = (x[0] & 1) as u64;
        let mut m = ((x[0] & 0x7f) >> 1) as u64;
        for k in 1..9 { m |= ((x[k] & 0x7f) as u64) << (7 * k - 1) }
        let hi = (x[9] & 0x7f) as u64;
        m |= hi << 62;
        let fits = (hi < 2) | ((hi == 2) & (neg == 1) & (m << 1 == 0));
        (fits, (m ^ neg.wrapping_neg()).wrapping_add(neg) as i64)
    }
    pub fn field(&mut self, tag: u8, t: &Ty) -> Vec<L> { self.small(tag); self.put(t) }
    pub fn put(&mut self, t: &Ty) -> Vec<L> {
        match t {
            Ty::Int(lo, hi) => {
                self.type_tag(9);
                let v = if self.wild > 0 && sym::choice(2) == 1 {
                    self.wild -= 1;
                    let (f, v) = self.any();
                    self.ok &= f & (*lo <= v) & (v <= *hi);
                    v
                } else { self.tame(*hi as u64) };
                vec![L::I(v)]
            }
            Ty::Blob | Ty::MaybeBlob | Ty::Raw => {
                self.type_tag(2);
                let n = [1, 0, 2][self.pick(3)];
                self.small(n);
                let mut v = if self.flat { vec![b'a'; n as usize] } else { sym::vec(n as usize) };
                if !matches!(t, Ty::Raw) {
                    if self.ascii && self.free != self.blobs { for x in &mut v { *x &= 0x7f } }
                    self.blobs += 1;
                }
                self.b.extend_from_slice(&v);
                vec![L::B(v)]
            }
            Ty::Bool => { self.type_tag(6); let x = if self.flat { 0 } else { sym::u8() }; self.b.push(x); vec![L::I((x != 0) as i64)] }
            Ty::Cc => {
                self.type_tag(7);
                let x = if self.flat { *b"  S2" } else { sym::bytes::<4>() };
                self.b.extend_from_slice(&x);
                vec![L::I(((x[0] as i64) << 24) | ((x[1] as i64) << 16) | ((x[2] as i64) << 8) | x[3] as i64)]
            }
            Ty::Opt(t) => {
                self.type_tag(4);
                if self.pick(2) == 1 { self.b.push(0); return vec![L::No] }
                let x = if self.flat { 1 } else { sym::u8() };
                sym::assume(x != 0);
                self.b.push(x);
                self.put(t)
            }
            Ty::Arr(t) => {
                self.type_tag(0);
                let n = [1, 0, 2][self.pick(3)];
                self.small(n);
                let mut r = vec![L::Len(n as usize)];
                for _ in 0..n { r.extend(self.put(t)) }
                r
            }
            Ty::Ch => {
                self.type_tag(3);
                if self.wrong(1) == 1 { let (f, v) = self.any(); sym::assume(!f | (v < 0) | (v > 3)); return vec![] }
                let k = [3, 0, 1, 2][self.pick(4)];
                self.small(k);
                self.put(if k == 0 { &U8 } else { &U32 })
            }
            Ty::St(fs) => {
                self.type_tag(5);
                let n = fs.len();
                // order of the fields: as listed, reversed, rotated
                let order = self.pick(if n > 1 { 3 } else { 1 });
                // an optional field may be left out
                let nopt = fs.iter().filter(|f| f.1.leave()).count();
                let gone = self.pick(1 + nopt);
                let w = self.wrong(2 * n + 1 - nopt);
                let mut at_opt = 0;
                let mut at_req = 0;
                let mut skip = [false; 64];
                for (i, f) in fs.iter().enumerate() {
                    if f.1.leave() { at_opt += 1; skip[i] = gone == at_opt }
                    else { at_req += 1; skip[i] = w == 1 + n + at_req }
                }
                let sent = (0..n).filter(|i| !skip[*i]).count();
                // wrong: 1 unknown field, 2..=n+1 duplicate, above: missing required field
                let extra = w >= 1 && w <= n + 1;
                if w >= 2 && w <= n + 1 { sym::assume(!skip[w - 2]) }
                self.small(sent as u8 + extra as u8);
                let mut out: Vec<Vec<L>> = vec![vec![L::No]; n];
                for k in 0..n {
                    let i = match order { 0 => k, 1 => n - 1 - k, _ => (k + n.div_ceil(2)) % n };
                    if !skip[i] { out[i] = self.field(fs[i].0, &fs[i].1) } else if matches!(fs[i].1, Ty::MaybeBlob) { out[i] = vec![L::B(vec![])] }
                }
                if w == 1 {
                    let (f, v) = self.any();
                    let mut other = true;
                    for x in *fs { other &= x.0 as i64 != v }
                    sym::assume(!f | other);
                    self.put(&U8);
                } else if extra {
                    let f = &fs[w - 2];
                    // an optional that was explicitly absent may be repeated
                    sym::assume(!matches!(f.1, Ty::Opt(_)) || !matches!(out[w - 2][0], L::No));
                    self.field(f.0, &f.1);
                }
                out.concat()
            }
        }
    }
}

/// Flattening of decoded values, in the order of the schema.
pub trait Lv { fn l(&self, o: &mut Vec<L>); }
macro_rules! li { ($($t:ty),*) => { $(impl Lv for $t { fn l(&self, o: &mut Vec<L>) { o.push(L::I(*self as i64)) } })* } }
li!(u8, u32, i32, i64, u64, bool);
impl Lv for Vec<u8> { fn l(&self, o: &mut Vec<L>) { o.push(L::B(self.clone())) } }
impl Lv for String { fn l(&self, o: &mut Vec<L>) { o.push(L::B(self.as_bytes().to_vec())) } }
impl<T: Lv> Lv for Option<T> { fn l(&self, o: &mut Vec<L>) { match self { None => o.push(L::No), Some(x) => x.l(o) } } }
pub fn seq<T: Lv>(v: &[T], o: &mut Vec<L>) { o.push(L::Len(v.len())); for x in v { x.l(o) } }
impl Lv for Vec<i32> { fn l(&self, o: &mut Vec<L>) { seq(self, o) } }
impl Lv for Vec<Vec<u8>> { fn l(&self, o: &mut Vec<L>) { seq(self, o) } }
#[macro_export]
macro_rules! lv { ($t:ty: $($f:ident),*) => { impl $crate::tagged::Lv for $t { fn l(&self, o: &mut Vec<$crate::tagged::L>) { $( $crate::tagged::Lv::l(&self.$f, o); )* } } } }
pub fn leaves<T: Lv>(x: &T) -> Vec<L> { let mut o = vec![]; x.l(&mut o); o }

pub fn same(want: &[L], got: &[L], what: &'static str) {
    sym::check(want.len() == got.len(), what);
    for (w, g) in want.iter().zip(got) {
        match (w, g) {
            (L::I(a), L::I(b)) => { sym::check(a == b, what); sym::observe(*b as u64) }
            (L::B(a), L::B(b)) => {
                sym::check(a.len() == b.len(), what);
                for (x, y) in a.iter().zip(b) { sym::check(x == y, what); sym::observe(*y as u64) }
            }
            (L::No, L::No) => (),
            (L::Len(a), L::Len(b)) => sym::check(a == b, what),
            _ => sym::check(false, what),
        }
    }
}
