// @attach server/src/engine/core/index/key.rs
// @feature p08
//! P08: contracts of the primary index key: equality and hashing of keys and query literals.
use super::*;
use crate::vp::*;
use std::mem::ManuallyDrop;

fn class(k: usize) -> TagUnique { match k { 0 => TagUnique::UnsignedInt, 1 => TagUnique::SignedInt, 2 => TagUnique::Bin, _ => TagUnique::Str } }
fn int_key(k: usize, w: u64) -> ManuallyDrop<PrimaryIndexKey> { ManuallyDrop::new(unsafe { PrimaryIndexKey::new_from_dc(if k == 0 { Datacell::new_uint_default(w) } else { Datacell::new_sint_default(w as i64) }) }) }
fn int_lit<'a>(k: usize, w: u64) -> Lit<'a> { if k == 0 { Lit::new_uint(w) } else { Lit::new_sint(w as i64) } }
/// a key over borrowed bytes
fn byte_key(k: usize, b: &[u8]) -> ManuallyDrop<PrimaryIndexKey> { ManuallyDrop::new(unsafe { PrimaryIndexKey::new_from_dual(class(k), b.len() as u64, b.as_ptr() as usize) }) }
fn byte_lit<'a>(k: usize, b: &'a [u8]) -> Lit<'a> { if k == 2 { Lit::new_bin(b) } else { Lit::new_str(unsafe { str::from_utf8_unchecked(b) }) } }

/// what a hasher is fed: the number of bytes, and the byte at one arbitrary position
struct Rec { at: usize, n: usize, byte: u8, ints: [u64; 4], k: usize }
impl Rec { fn new(at: usize) -> Self { Rec { at, n: 0, byte: 0, ints: [0; 4], k: 0 } } fn int(&mut self, v: u64) { if self.k < 4 { self.ints[self.k] = v ^ ((self.n as u64) << 3); self.k += 1 } else { assert!(false, "C[key]: more than four numbers are hashed") } } fn same(&self, o: &Rec) -> bool { self.n == o.n && self.byte == o.byte && self.k == o.k && self.ints[0] == o.ints[0] && self.ints[1] == o.ints[1] && self.ints[2] == o.ints[2] && self.ints[3] == o.ints[3] } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { if self.at >= self.n && self.at - self.n < b.len() { self.byte = b[self.at - self.n] } self.n += b.len() }
    fn write_u8(&mut self, i: u8) { self.int(i as u64) }
    fn write_u16(&mut self, i: u16) { self.int(i as u64) }
    fn write_u32(&mut self, i: u32) { self.int(i as u64) }
    fn write_u64(&mut self, i: u64) { self.int(i) }
    fn write_usize(&mut self, i: usize) { self.int(i as u64) }
    fn write_i64(&mut self, i: i64) { self.int(i as u64) }
    fn write_isize(&mut self, i: isize) { self.int(i as u64) }
}
fn fed(x: &impl Hash, at: usize) -> Rec { let mut r = Rec::new(at); x.hash(&mut r); r }

/// integer keys: equal exactly when class and number are, for stored keys and literals alike; equal keys hash alike
pub fn ints_of(g: &mut Gen, x: usize, y: usize) {
    let (a, b) = (g.u64(), g.u64());
    let want = x == y && a == b;
    let (p, q) = (int_key(x, a), int_key(y, b));
    let (l, m) = (int_lit(x, a), int_lit(y, b));
    assert!(p.tag() == class(x), "C[key]: the key has another class");
    assert!((*p == *q) == want, "C[key]: stored keys are equal although class or number differ, or the other way round");
    assert!((*p == m) == want && (*q == l) == want, "C[key]: a stored key and a literal are equal although class or number differ, or the other way round");
    assert!((*p).cmp_eq(&m) == want && l.cmp_eq(&*q) == want, "C[key]: lookup compares differently");
    if want { let at = g.usize(); assert!(fed(&*p, at).same(&fed(&*q, at)) && fed(&*p, at).same(&fed(&m, at)), "C[key]: equal keys hash differently"); }
    if x == 0 { assert!(p.uint() == Some(a) && p.sint().is_none() && p.bin().is_none() && p.str().is_none(), "C[key]: the key reads as another value") }
    else { assert!(p.sint() == Some(a as i64) && p.uint().is_none() && p.bin().is_none() && p.str().is_none(), "C[key]: the key reads as another value") }
    let c = ManuallyDrop::new((*p).clone());
    assert!(*c == *p && c.tag() == p.tag(), "C[key]: a copy of a key differs");
    let c = ManuallyDrop::new(unsafe { p.raw_clone() });
    assert!(*c == *p, "C[key]: a copy of a key differs");
    g.cover(want || x != y);
}
/// byte keys against integer keys of any value: never equal
pub fn mixed_of(g: &mut Gen, x: usize, y: usize) {
    let b: [u8; 2] = g.array();
    let n = g.range(0, 2);
    let w = g.u64();
    let (p, q) = (int_key(x, w), byte_key(y, &b[..n]));
    assert!(!(*p == *q) && !(*q == *p), "C[key]: keys of different classes are equal");
    assert!(!(*p == byte_lit(y, &b[..n])) && !(*q == int_lit(x, w)), "C[key]: a key equals a literal of another class");
    g.cover(n == w as usize);
}
/// byte keys: equal exactly when class and bytes are (content up to two bytes; bounded)
pub fn bytes_of(g: &mut Gen, x: usize, y: usize) {
    let (a, b): ([u8; 2], [u8; 2]) = (g.array(), g.array());
    let (n, m) = (g.range(0, 2), g.range(0, 2));
    let want = x == y && n == m && (n < 1 || a[0] == b[0]) && (n < 2 || a[1] == b[1]);
    let (p, q) = (byte_key(x, &a[..n]), byte_key(y, &b[..m]));
    assert!((*p == *q) == want, "C[key]: stored keys are equal although class or bytes differ, or the other way round");
    assert!((*p == byte_lit(y, &b[..m])) == want && byte_lit(x, &a[..n]).cmp_eq(&*q) == want, "C[key]: a stored key and a literal are equal although class or bytes differ, or the other way round");
    g.cover(want && n == 2 || x != y);
}
/// byte keys of any length: bytes and length are those of the value, and stored key and literal feed a hasher alike
pub fn bytes_any_of(g: &mut Gen, x: usize) {
    let n = g.range(0, if Gen::NATIVE { 64 } else { 1 << 40 });
    let mut v: Vec<u8> = vec![0; n];
    let i = g.usize();
    if i < n { v[i] = g.u8() & 127 }
    let p = byte_key(x, &v);
    let l = byte_lit(x, &v);
    let at = g.usize();
    assert!(fed(&*p, at).same(&fed(&l, at)), "C[key]: a key and an equal literal hash differently");
    let r = if x == 2 { assert!(p.str().is_none(), "C[key]: class"); p.bin() } else { assert!(p.bin().is_none(), "C[key]: class"); p.str().map(|s| s.as_bytes()) };
    match r { Some(r) => assert!(r.len() == n && (i >= n || r[i] == v[i]), "C[key]: the key reads as other bytes"), None => assert!(false, "C[key]: the key is not readable") }
    assert!(p.uint().is_none() && p.sint().is_none(), "C[key]: a byte key reads as a number");
    g.cover(n > 4);
}
/// a copy of a byte key has the same bytes in memory of its own (so that dropping one leaves the other)
pub fn copy_of(g: &mut Gen, x: usize, n: usize) {
    let a: [u8; 3] = g.array();
    let a = a.map(|c| c & 127);
    let p = ManuallyDrop::new(unsafe { PrimaryIndexKey::new_from_dc(if x == 2 { Datacell::new_bin(a[..n].into()) } else { Datacell::new_str(std::str::from_boxed_utf8_unchecked(a[..n].into())) }) });
    let c = ManuallyDrop::new((*p).clone());
    let (r, s) = unsafe { (p.read_bin(), c.read_bin()) };
    assert!(c.tag() == p.tag() && r.len() == n && s.len() == n, "C[key]: a copy of a key differs");
    let mut i = 0;
    while i < n { assert!(r[i] == a[i] && s[i] == a[i], "C[key]: a copy of a key differs"); i += 1 }
    assert!(n == 0 || r.as_ptr() != s.as_ptr(), "C[key]: a copy of a key shares memory with it");
    g.cover(true);
}
pub fn any(g: &mut Gen) {
    match g.range(0, 4) {
        0 => { let (x, y) = (g.range(0, 1), g.range(0, 1)); ints_of(g, x, y) }
        1 => { let (x, y) = (g.range(0, 1), g.range(2, 3)); mixed_of(g, x, y) }
        2 => { let (x, y) = (g.range(2, 3), g.range(2, 3)); bytes_of(g, x, y) }
        3 => { let x = g.range(2, 3); bytes_any_of(g, x) }
        _ => { let (x, n) = (g.range(2, 3), g.range(0, 3)); copy_of(g, x, n) }
    }
}
vp_native!(n_any, any, 40, 4000);

#[cfg(any(kani, test))]
mod k {
    use super::*;
    macro_rules! two { ($($f:ident $k:ident $h:ident $x:literal $y:literal;)*) => { $(fn $f(g: &mut Gen) { $h(g, $x, $y) } vp_kani!($k, 4, $f);)* } }
    two! { i0 k_uint_uint ints_of 0 0; i1 k_uint_sint ints_of 0 1; i2 k_sint_uint ints_of 1 0; i3 k_sint_sint ints_of 1 1;
           m0 k_uint_bin mixed_of 0 2; m1 k_uint_str mixed_of 0 3; m2 k_sint_bin mixed_of 1 2; m3 k_sint_str mixed_of 1 3;
           b0 kb_bin_bin bytes_of 2 2; b1 kb_bin_str bytes_of 2 3; b2 kb_str_bin bytes_of 3 2; b3 kb_str_str bytes_of 3 3;
           c0 kb_copy_bin copy_of 2 3; c1 kb_copy_str copy_of 3 2; c2 kb_copy_empty copy_of 3 0; }
    fn a2(g: &mut Gen) { bytes_any_of(g, 2) }
    fn a3(g: &mut Gen) { bytes_any_of(g, 3) }
    vp_kani!(k_bytes_bin, 4, a2);
    vp_kani!(k_bytes_str, 4, a3);
}
