//! Reference walker for the bit packed format.
//! `plan`ning fixes the structure of the (symbolic) input: which optionals are
//! present, how long arrays are, which variants are chosen. Everything else
//! stays symbolic. `dev` bounds how many structural points differ from their
//! default (present, one element, two bytes, first variant).
use crate::p_prim::read_bits;
use crate::sym;
use crate::tagged::L;

#[path = "bits_schema.rs"]
pub mod schema;

pub struct C<'a> { pub d: &'a [u8], w: *mut u8, pub pos: usize, pub dev: u32, pub next_free: bool, pub short: bool, pub big: usize, log: Option<Vec<L>>, pub blobs: Vec<usize>, pub ascii: bool, pub force: Option<u64> }

pub trait W { fn p(c: &mut C) -> bool; fn v(&self, c: &mut C); }

impl<'a> C<'a> {
    /// Compares against `d`.
    pub fn new(d: &'a [u8]) -> C<'a> { C { d, w: core::ptr::null_mut(), pos: 0, dev: 0, next_free: false, short: false, big: 2, log: None, blobs: Vec::new(), ascii: false, force: None } }
    /// Collects the values instead of comparing them.
    pub fn leaves<T: W>(v: &T) -> Vec<L> { let mut c = C::new(&[]); c.log = Some(Vec::with_capacity(64)); v.v(&mut c); c.log.unwrap() }
    fn log(&mut self, l: L) -> bool { match &mut self.log { Some(o) => { o.push(l); true } None => false } }
    /// Plans `d`: the structure bits are overwritten.
    pub fn plan(d: &'a mut [u8], dev: u32) -> C<'a> {
        let w = d.as_mut_ptr();
        C { d: unsafe { core::slice::from_raw_parts(w, d.len()) }, w, pos: 0, dev, next_free: false, short: false, big: 2, log: None, blobs: Vec::new(), ascii: false, force: None }
    }
    /// Puts `v` where the next `bits` bits are.
    pub fn put(&mut self, bits: usize, v: u64) {
        if self.pos + bits > self.d.len() * 8 { self.short = true; sym::assume(false); }
        let mut left = bits;
        while left > 0 {
            let (i, o) = (self.pos / 8, self.pos % 8);
            let k = if left < 8 - o { left } else { 8 - o };
            let m = ((1u32 << k) - 1) as u8;
            let x = ((v >> (left - k)) as u8) & m;
            unsafe { let p = self.w.add(i); p.write_volatile((p.read_volatile() & !(m << o)) | (x << o)); }
            self.pos += k;
            left -= k;
        }
    }
    pub fn read(&mut self, bits: usize) -> u64 {
        if self.pos + bits > self.d.len() * 8 { self.short = true; sym::assume(false); }
        let v = read_bits(self.d, self.pos, bits);
        self.pos += bits;
        v
    }
    pub fn align(&mut self) { self.pos = self.pos.div_ceil(8) * 8 }
    fn pick(&mut self, n: usize) -> usize {
        if n <= 1 { return 0 }
        if self.next_free { self.next_free = false; return sym::choice(n as u8) }
        if self.dev == 0 || sym::choice(2) == 0 { return 0 }
        self.dev -= 1;
        1 + sym::choice(n as u8 - 1)
    }
    fn len(&mut self, bits: usize, alts: &[usize]) -> usize {
        let k = self.pick(alts.len());
        self.put(bits, alts[k] as u64);
        alts[k]
    }
    pub fn tag(&mut self, bits: usize, vals: &[u64]) -> Option<u64> {
        if self.next_free && let Some(v) = self.force.take() { self.next_free = false; self.put(bits, v); return vals.contains(&v).then_some(v) }
        let all = vals.len() as u64 == 1 << bits;
        let k = self.pick(vals.len() + !all as usize);
        if k == vals.len() {
            let v = self.read(bits);
            let mut other = true;
            for x in vals { other &= v != *x }
            sym::assume(other);
            return None;
        }
        self.put(bits, vals[k]);
        Some(vals[k])
    }
    pub fn skip(&mut self, bits: usize) -> bool {
        if self.pos + bits > self.d.len() * 8 { self.short = true; sym::assume(false); }
        self.pos += bits;
        true
    }
    fn present(&mut self) -> bool {
        let k = self.pick(2);
        self.put(1, 1 - k as u64);
        k == 0
    }
    pub fn opt<T: W>(&mut self) -> bool { !self.present() || T::p(self) }
    pub fn opti(&mut self, bits: usize) -> bool { !self.present() || self.skip(bits) }
    pub fn optb(&mut self) -> bool { !self.present() || self.skip(1) }
    pub fn array<T: W>(&mut self, bits: usize) -> bool {
        let n = self.len(bits, &[1, 0, 2]);
        for _ in 0..n { if !T::p(self) { return false } }
        true
    }
    pub fn string(&mut self, bits: usize) -> bool {
        let n = self.len(bits, &[self.big, 0, 1]);
        self.align();
        let at = self.pos / 8;
        let r = self.skip(8 * n);
        if self.ascii { for i in at..at + n { unsafe { let p = self.w.add(i); p.write_volatile(p.read_volatile() & 0x7f) } } }
        r
    }
    pub fn blob(&mut self, bits: usize) -> bool { self.align(); self.blobs.push(self.pos / 8); self.skip(bits) }
    pub fn mask(&mut self, bits: usize) -> bool { let n = self.len(bits, &[11, 0, 1, 8]); self.skip(n) }
    pub fn mask64(&mut self, bits: usize) -> bool {
        let n = if bits > 6 { self.len(bits, &[6, 0, 1, 64, 65]) } else if bits > 2 { self.len(bits, &[6, 0, 1]) } else { self.len(bits, &[3, 0, 1]) };
        if n > 64 { return false }
        self.skip(n)
    }

    // comparison of a decoded value with the bits
    fn eq(&mut self, v: u64, w: u64, l: &'static str) { sym::check(v == w, l) }
    pub fn vi(&mut self, v: i64, bias: i64, bits: usize, l: &'static str) { if self.log(L::I(v)) { return } let w = self.read(bits).wrapping_add(bias as u64); self.eq(v as u64, w, l) }
    pub fn vbool(&mut self, v: bool, l: &'static str) { if self.log(L::I(v as i64)) { return } let w = self.read(1); sym::check(v == (w == 1), l) }
    pub fn vtag(&mut self, v: u64, bits: usize, l: &'static str) { if self.log(L::I(v as i64)) { return } let w = self.read(bits); self.eq(v, w, l) }
    fn vpresent(&mut self, v: bool, l: &'static str) { if self.log.is_some() { if !v { self.log(L::No); } return } let w = self.read(1); sym::check(w == v as u64, l) }
    pub fn vopt<T: W>(&mut self, v: &Option<T>) { self.vpresent(v.is_some(), "presence of an optional"); if let Some(x) = v { x.v(self) } }
    pub fn vopti(&mut self, v: Option<i64>, bias: i64, bits: usize, l: &'static str) { self.vpresent(v.is_some(), l); if let Some(x) = v { self.vi(x, bias, bits, l) } }
    pub fn voptb(&mut self, v: Option<bool>, l: &'static str) { self.vpresent(v.is_some(), l); if let Some(x) = v { self.vbool(x, l) } }
    fn vlen(&mut self, n: usize, bits: usize, l: &'static str) { if self.log(L::Len(n)) { return } let w = self.read(bits); self.eq(n as u64, w, l) }
    pub fn varray<T: W>(&mut self, v: &[T], bits: usize, l: &'static str) { self.vlen(v.len(), bits, l); for x in v { x.v(self) } }
    fn bytes(&mut self, v: &[u8], l: &'static str) { if self.log(L::B(v.to_vec())) { return } for x in v { let w = self.read(8); self.eq(*x as u64, w, l) } }
    pub fn v4(&mut self, v: &[u8], l: &'static str) { if self.log(L::B(v.to_vec())) { return } sym::check(v.len() == 4, l); self.bytes(v, l) }
    pub fn vstring(&mut self, v: &[u8], bits: usize, l: &'static str) { if self.log(L::B(v.to_vec())) { return }
        let v = if v == [0] && read_bits(self.d, self.pos, bits) == 0 { &[] } else { v }; self.vlen(v.len(), bits, l); self.align(); self.bytes(v, l) }
    pub fn vblob(&mut self, v: &[u8], bits: usize, l: &'static str) { if self.log(L::B(v.to_vec())) { return } self.align(); sym::check(v.len() * 8 == bits, l); self.bytes(v, l) }
    pub fn vmask(&mut self, v: &[u8], bits: usize, l: &'static str) {
        if self.log(L::B(v.to_vec())) { return }
        let n = sym::concretize(self.read(bits)) as usize;
        // no bits: the crate's tests pin one zero byte (known finding, see h_empty_string)
        if n == 0 { sym::check(v.iter().all(|b| *b == 0), l); return }
        sym::check(v.len() == n.div_ceil(8), l);
        let mut i = 0;
        while i < v.len() {
            let w = self.read(if n - i * 8 < 8 { n - i * 8 } else { 8 });
            self.eq(v[i] as u64, w, l);
            i += 1;
        }
    }
    pub fn vmask64(&mut self, v: i64, bits: usize, l: &'static str) {
        if self.log(L::I(v)) { return }
        let n = sym::concretize(self.read(bits)) as usize;
        let w = self.read(n);
        self.eq(v as u64, w, l)
    }
}
