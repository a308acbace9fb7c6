//! Primitives: VLQ integers, bit-packed reads, tagged values.
use crate::sym;
use s2protocol::*;

/// Where a tail starts, in bytes from the start of `all`; the tail must be a
/// suffix of `all`.
pub fn at(all: &[u8], tail: &[u8]) -> usize {
    let n = all.len() - tail.len();
    sym::check(core::ptr::eq(tail.as_ptr(), all[n..].as_ptr()), "the rest is a suffix of the input");
    n
}

/// Reference: the protocol's variable length integer. None: truncated.
pub struct Vlq { pub neg: bool, pub mag: u128, pub used: usize }
pub fn vlq(b: &[u8], i: usize) -> Option<Vlq> {
    if i >= b.len() { return None }
    let neg = b[i] & 1 == 1;
    let mut mag = ((b[i] & 0x7f) >> 1) as u128;
    let (mut k, mut sh) = (i, 6);
    while b[k] >= 128 {
        k += 1;
        if k >= b.len() { return None }
        mag += (b[k] as u128 % 128) << sh;
        sh += 7;
    }
    Some(Vlq { neg, mag, used: k + 1 - i })
}
impl Vlq {
    pub fn fits(&self) -> bool { if self.neg { self.mag <= 1u128 << 63 } else { self.mag < 1u128 << 63 } }
    pub fn val(&self) -> i64 { (if self.neg { (self.mag as u64).wrapping_neg() } else { self.mag as u64 }) as i64 }
}

entry! { h_vlq {
    let all = sym::bytes::<14>();
    let len = sym::choice(15);
    let b = &all[..len];
    let r = vlq(b, 0);
    match parse_vlq_int(b) {
        Ok((t, v)) => {
            let n = at(b, t);
            sym::observe(v as u64); sym::observe(n as u64);
            match r {
                None => sym::check(false, "a truncated integer is rejected"),
                Some(r) => {
                    sym::check(n == r.used, "consumes up to the first byte without the continuation bit");
                    sym::check(r.fits(), "a value that does not fit is rejected");
                    sym::check(r.val() == v, "value is sign and magnitude of the encoding");
                    sym::cover("decoded");
                    if v < 0 { sym::cover("negative") }
                }
            }
        }
        Err(_) => match r { None => sym::cover("truncated"), Some(r) => { sym::check(!r.fits(), "a well formed integer is accepted"); sym::cover("too large") } }
    }
}}

/// Every i64 has an encoding, which decodes to it and to nothing else.
entry! { h_vlq_encode {
    let v = sym::i64();
    let extra = sym::u8();
    let mag = v.unsigned_abs();
    let mut b = [0u8; 12];
    let mut rest = mag >> 6;
    b[0] = ((mag & 0x3f) << 1) as u8 | (v < 0) as u8;
    let mut n = 1;
    while rest != 0 { b[n - 1] |= 0x80; b[n] = (rest & 0x7f) as u8; rest >>= 7; n += 1; }
    b[n] = extra;
    match parse_vlq_int(&b[..n + 1]) {
        Ok((t, w)) => {
            sym::check(w == v, "decode(encode(v)) = v");
            sym::check(t.len() == 1 && t[0] == extra, "the following bytes are left alone");
            sym::observe(w as u64);
            sym::cover("decoded");
        }
        Err(_) => sym::check(false, "the encoding of every i64 is accepted"),
    }
    sym::check(parse_vlq_int(&b[..n - 1]).is_err(), "a shortened encoding is rejected");
}}

/// Reference: the published bit reader. From each byte the low bits first,
/// later bits less significant.
pub fn read_bits(d: &[u8], pos: usize, bits: usize) -> u64 {
    let (mut res, mut done, mut pos) = (0u64, 0, pos);
    while done < bits {
        let avail = 8 - pos % 8;
        let copy = if bits - done < avail { bits - done } else { avail };
        let v = (d[pos / 8] >> (pos % 8)) as u64 & ((1u64 << copy) - 1);
        res |= v << (bits - done - copy);
        done += copy; pos += copy;
    }
    res
}
/// Bit position of a bit cursor.
pub fn bit_at(all: &[u8], t: (&[u8], usize)) -> usize {
    sym::check(t.1 < 8, "bit offset below 8");
    at(all, t.0) * 8 + t.1
}

const N: usize = 10;
/// (buffer length, start offset): any cursor with whole bytes behind it.
fn cursor() -> (usize, usize) {
    let len = sym::choice(N as u8 + 1);
    let off = sym::choice(8);
    sym::assume(len > 0 || off == 0);
    (len, off)
}

entry! { h_bits_int {
    let all = sym::bytes::<N>();
    let (len, off) = cursor();
    let n = sym::choice(66);
    let d = &all[..len];
    match take_n_bits_into_i64((d, off), n) {
        Ok((t, v)) => {
            sym::check(n <= 64, "more than 64 bits are rejected");
            sym::check(off + n <= len * 8, "reading past the end is rejected");
            sym::check(bit_at(d, t) == off + n, "exactly the requested bits are consumed");
            sym::check(v as u64 == read_bits(d, off, n), "bits are assembled as the protocol lays them out");
            sym::observe(v as u64);
            sym::cover("read");
        }
        Err(_) => { sym::check(off + n > len * 8 || n > 64, "bits that are there can be read"); sym::cover("rejected"); }
    }
}}

entry! { h_bits_packed {
    let all = sym::bytes::<N>();
    let bias = sym::i64();
    let (len, off) = cursor();
    let n = sym::choice(65);
    let d = &all[..len];
    match parse_packed_int((d, off), bias, n) {
        Ok((t, v)) => {
            sym::check(bit_at(d, t) == off + n, "exactly the requested bits are consumed");
            sym::check(v as u64 == read_bits(d, off, n).wrapping_add(bias as u64), "offset plus bits");
            sym::observe(v as u64);
            sym::cover("read");
        }
        Err(_) => { sym::check(off + n > len * 8, "bits that are there can be read"); sym::cover("rejected"); }
    }
}}

entry! { h_bits_array {
    let all = sym::bytes::<N>();
    let (len, off) = cursor();
    let n = sym::choice(80);
    let d = &all[..len];
    match take_bit_array((d, off), n) {
        Ok((t, v)) => {
            sym::check(off + n <= len * 8, "reading past the end is rejected");
            sym::check(bit_at(d, t) == off + n, "exactly the requested bits are consumed");
            if n == 0 { sym::check(v.iter().all(|b| *b == 0), "no bits, no ones") }
            else {
                sym::check(v.len() == n.div_ceil(8), "one byte per eight bits");
                let mut i = 0;
                while i < v.len() {
                    let w = if n - i * 8 < 8 { n - i * 8 } else { 8 };
                    sym::check(v[i] as u64 == read_bits(d, off + i * 8, w), "every byte is an eight bit read");
                    sym::observe(v[i] as u64);
                    i += 1;
                }
                sym::cover("read");
            }
        }
        Err(_) => { sym::check(off + n > len * 8, "bits that are there can be read"); sym::cover("rejected"); }
    }
}}

entry! { h_bits_small {
    let all = sym::bytes::<6>();
    let len = sym::choice(7);
    let off = sym::choice(8);
    sym::assume(len > 0 || off == 0);
    let d = &all[..len];
    let have = len * 8 - off;
    match parse_bool((d, off)) {
        Ok((t, v)) => { sym::check(have >= 1 && bit_at(d, t) == off + 1, "a bool takes one bit"); sym::check(v == (read_bits(d, off, 1) == 1), "bool value"); sym::observe(v as u64); sym::cover("bool") }
        Err(_) => sym::check(have < 1, "bool that is there can be read"),
    }
    match take_unaligned_byte((d, off)) {
        Ok((t, v)) => { sym::check(have >= 8 && bit_at(d, t) == off + 8, "a byte takes eight bits"); sym::check(v as u64 == read_bits(d, off, 8), "byte value"); sym::observe(v as u64); sym::cover("byte") }
        Err(_) => sym::check(have < 8, "byte that is there can be read"),
    }
    match take_fourcc((d, off)) {
        Ok((t, v)) => {
            sym::check(have >= 32 && bit_at(d, t) == off + 32, "a fourcc takes 32 bits");
            sym::check(v.len() == 4, "a fourcc has four bytes");
            let mut i = 0;
            while i < 4 { sym::check(v[i] as u64 == read_bits(d, off + 8 * i, 8), "fourcc bytes in order"); i += 1; }
            sym::cover("fourcc")
        }
        Err(_) => sym::check(have < 32, "fourcc that is there can be read"),
    }
    match byte_align((d, off)) {
        Ok((t, ())) => { sym::check(bit_at(d, t) == off.div_ceil(8) * 8, "alignment skips to the next byte"); sym::cover("align") }
        Err(_) => sym::check(false, "alignment always succeeds"),
    }
    match take_null((d, off)) {
        Ok((t, ())) => sym::check(bit_at(d, t) == off, "null takes nothing"),
        Err(_) => sym::check(false, "null always succeeds"),
    }
}}

/// Common shape of the tagged decoders: tag byte, then a payload.
const M: usize = 12;
fn tagged() -> ([u8; M], usize) { (sym::bytes::<M>(), sym::choice(M as u8 + 1)) }

entry! { h_tag_int {
    let (all, len) = tagged();
    let b = &all[..len];
    let r = if len > 0 && b[0] == 9 { vlq(b, 1) } else { None };
    match tagged_vlq_int(b) {
        Ok((t, v)) => match r {
            Some(r) => { sym::check(at(b, t) == 1 + r.used, "consumption"); sym::check(r.fits() && v == r.val(), "value"); sym::observe(v as u64); sym::cover("ok") }
            None => sym::check(false, "not an integer, yet accepted"),
        },
        Err(_) => sym::check(r.is_none_or(|r| !r.fits()), "well formed integer rejected"),
    }
}}

/// Length prefixed bytes: (start, size) of the payload when well formed.
fn sized(b: &[u8], tag: u8, bits: bool) -> Option<(usize, usize)> {
    if b.is_empty() || b[0] != tag { return None }
    let r = vlq(b, 1)?;
    if !r.fits() || (r.neg && r.mag != 0) { return None }
    let n = if bits { r.mag.div_ceil(8) } else { r.mag };
    let start = 1 + r.used;
    if n > (b.len() - start) as u128 { return None }
    Some((start, n as usize))
}
fn same(r: Option<(usize, usize)>, got: Option<(&[u8], Vec<u8>)>, b: &[u8]) {
    match got {
        Some((t, v)) => match r {
            Some((s, n)) => {
                let n = sym::concretize(n as u64) as usize;
                sym::check(at(b, t) == s + n, "consumption");
                sym::check(v.len() == n, "as many bytes as announced");
                let mut i = 0;
                while i < n { sym::check(v[i] == b[s + i], "payload bytes"); sym::observe(v[i] as u64); i += 1; }
                sym::cover("ok"); if n > 0 { sym::cover("non-empty") }
            }
            None => sym::check(false, "malformed value accepted"),
        },
        None => { sym::check(r.is_none(), "well formed value rejected"); sym::cover("rejected") }
    }
}
entry! { h_tag_blob { let (all, len) = tagged(); let b = &all[..len]; same(sized(b, 2, false), tagged_blob(b).ok(), b) }}
entry! { h_tag_bitarray { let (all, len) = tagged(); let b = &all[..len]; same(sized(b, 1, true), tagged_bitarray(b).ok(), b) }}

entry! { h_tag_fixed {
    let all = sym::bytes::<6>();
    let len = sym::choice(7);
    let b = &all[..len];
    match tagged_bool(b) {
        Ok((t, v)) => { sym::check(len >= 2 && b[0] == 6, "bool tag"); sym::check(at(b, t) == 2 && v == (b[1] != 0), "bool"); sym::observe(v as u64); sym::cover("bool") }
        Err(_) => sym::check(len < 2 || b[0] != 6, "bool rejected"),
    }
    match tagged_fourcc(b) {
        Ok((t, v)) => { sym::check(len >= 5 && b[0] == 7, "fourcc tag"); sym::check(at(b, t) == 5 && v == (b[1] as u32) << 24 | (b[2] as u32) << 16 | (b[3] as u32) << 8 | b[4] as u32, "fourcc"); sym::observe(v as u64); sym::cover("fourcc") }
        Err(_) => sym::check(len < 5 || b[0] != 7, "fourcc rejected"),
    }
    macro_rules! tag { ($($f:ident $v:literal),*) => { $(match $f(b) {
        Ok((t, _)) => { sym::check(len >= 1 && b[0] == $v && at(b, t) == 1, concat!("tag accepted: ", stringify!($f))); }
        Err(_) => sym::check(len < 1 || b[0] != $v, concat!("tag rejected: ", stringify!($f))),
    })* } }
    tag!(validate_array_tag 0, validate_bitarray_tag 1, validate_blob_tag 2, validate_choice_tag 3, validate_opt_tag 4, validate_struct_tag 5, validate_bool_tag 6, validate_fourcc_tag 7, validate_int_tag 9);
}}
