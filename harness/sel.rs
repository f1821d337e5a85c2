// @attach server/src/engine/core/dml/sel.rs
// @feature p03
//! P03: contract of the response encoder of a cell. Numerals are represented by the contract of `Int::init` (verus unit `numbuf`
//! proves it for every width): any injective rendering will do, here the eight bytes of the number.
use super::*;
use crate::engine::{data::tag::{FullTag, TagSelector, UIntSpec, SIntSpec, FloatSpec}, data::cell::Datacell};
use crate::vp::*;
use std::mem::ManuallyDrop;

#[cfg(kani)]
fn any_numeral_u64(n: u64, buf: &mut [u8; 20]) -> &[u8] { let b = n.to_le_bytes(); let mut i = 0; while i < 8 { buf[12 + i] = b[i]; i += 1 } &buf[12..] }
#[cfg(kani)]
fn any_numeral_i64(n: i64, buf: &mut [u8; 20]) -> &[u8] { let b = n.to_le_bytes(); let mut i = 0; while i < 8 { buf[12 + i] = b[i]; i += 1 } &buf[12..] }
#[cfg(kani)]
fn numeral(w: u64, _signed: bool) -> [u8; 8] { w.to_le_bytes() }
#[cfg(not(kani))]
fn numeral(w: u64, signed: bool) -> Vec<u8> { if signed { (w as i64).to_string().into_bytes() } else { w.to_string().into_bytes() } }

fn sel(i: usize) -> FullTag {
    match i {
        1 => FullTag::new_uint(TagSelector::UInt8), 2 => FullTag::new_uint(TagSelector::UInt16), 3 => FullTag::new_uint(TagSelector::UInt32), 4 => FullTag::new_uint(TagSelector::UInt64),
        5 => FullTag::new_sint(TagSelector::SInt8), 6 => FullTag::new_sint(TagSelector::SInt16), 7 => FullTag::new_sint(TagSelector::SInt32), _ => FullTag::new_sint(TagSelector::SInt64),
    }
}
/// null: the null marker and nothing else; bool: marker 1 and one byte
pub fn small(g: &mut Gen) {
    let mut out = Vec::new();
    encode_cell(&mut out, &Datacell::null());
    assert!(out.len() == 1 && out[0] == 0, "C[enc]: null is not the null marker");
    let b = g.bool();
    let mut out = Vec::new();
    encode_cell(&mut out, &ManuallyDrop::new(Datacell::new_bool(b)));
    assert!(out.len() == 2 && out[0] == 1 && out[1] == b as u8, "C[enc]: a bool is encoded differently");
    g.cover(true);
}
/// integers: the marker of the width (2.. in the order of the types), the numeral, a newline
pub fn int_of(g: &mut Gen, i: usize) {
    let w = g.u64();
    let c = ManuallyDrop::new(if i <= 4 { Datacell::new_uint(w, unsafe { UIntSpec::from_full(sel(i)) }) } else { Datacell::new_sint(w as i64, unsafe { SIntSpec::from_full(sel(i)) }) });
    let n = numeral(w, i > 4);
    let mut out = Vec::new();
    encode_cell(&mut out, &c);
    assert!(out.len() == n.len() + 2 && out[0] == i as u8 + 1 && out[n.len() + 1] == b'\n', "C[enc]: an integer is framed differently");
    let mut k = 0;
    while k < n.len() { assert!(out[k + 1] == n[k], "C[enc]: another number is sent"); k += 1 }
    g.cover(true);
}
/// binary and text: marker, length, newline, the very bytes
pub fn bytes_of(g: &mut Gen, s: bool, len: usize) {
    let a: [u8; 3] = g.array();
    let a = a.map(|x| x & 127);
    let c = ManuallyDrop::new(if s { Datacell::new_str(unsafe { std::str::from_boxed_utf8_unchecked(a[..len].into()) }) } else { Datacell::new_bin(a[..len].into()) });
    let n = numeral(len as u64, false);
    let mut out = Vec::new();
    encode_cell(&mut out, &c);
    assert!(out.len() == n.len() + 2 + len && out[0] == if s { 13 } else { 12 } && out[n.len() + 1] == b'\n', "C[enc]: text is framed differently");
    let mut k = 0;
    while k < n.len() { assert!(out[k + 1] == n[k], "C[enc]: another length is sent"); k += 1 }
    let mut k = 0;
    while k < len { assert!(out[n.len() + 2 + k] == a[k], "C[enc]: other bytes are sent"); k += 1 }
    g.cover(true);
}
/// lists: marker, number of elements, newline, the elements one after another (bounded: two elements)
pub fn list_of(g: &mut Gen, nested: bool) {
    let (w, b) = (g.u64(), g.bool());
    let mut v = Vec::with_capacity(2);
    v.push(Datacell::new_uint_default(w));
    v.push(if nested { Datacell::new_list(Vec::new()) } else { Datacell::new_bool(b) });
    let c = ManuallyDrop::new(Datacell::new_list(v));
    let (two, zero, n) = (numeral(2, false), numeral(0, false), numeral(w, false));
    let mut out = Vec::new();
    encode_cell(&mut out, &c);
    let h = two.len() + 2;
    assert!(out[0] == 14 && out[1] == two[0] && out[h - 1] == b'\n' && out[h] == 5, "C[enc]: a list is framed differently");
    let mut k = 0;
    while k < n.len() { assert!(out[h + 1 + k] == n[k], "C[enc]: another element is sent"); k += 1 }
    let e = h + 1 + n.len();
    assert!(out[e] == b'\n', "C[enc]: elements are separated differently");
    if nested { assert!(out.len() == e + 3 + zero.len() && out[e + 1] == 14 && out[e + 2] == zero[0] && out[e + 2 + zero.len()] == b'\n', "C[enc]: a nested list is framed differently") }
    else { assert!(out.len() == e + 3 && out[e + 1] == 1 && out[e + 2] == b as u8, "C[enc]: another element is sent") }
    g.cover(true);
}
pub fn enc(g: &mut Gen) {
    match g.range(0, 3) { 0 => small(g), 1 => { let i = g.range(1, 8); int_of(g, i) } 2 => { let (s, n) = (g.bool(), g.range(0, 3)); bytes_of(g, s, n) } _ => { let b = g.bool(); list_of(g, b) } }
    #[cfg(not(kani))]
    {
        if g.u8() % 64 == 0 {
            // long ones: the announced length at the widths at which a counter could wrap
            let n = [255, 256, 257, 65535, 65536, 65537, 70001][g.range(0, 6)];
            let (c, e) = match g.range(0, 2) {
                0 => (Datacell::new_list((0..n).map(|i| Datacell::new_bool(i % 3 == 0)).collect()), (0..n).flat_map(|i| [1, (i % 3 == 0) as u8]).collect::<Vec<u8>>()),
                1 => (Datacell::new_bin(vec![7; n].into()), vec![7; n]),
                _ => (Datacell::new_str("x".repeat(n).into()), vec![b'x'; n]),
            };
            let mut out = vec![];
            encode_cell(&mut out, &c);
            let h = format!("{n}\n");
            assert!(out.len() == 1 + h.len() + e.len() && &out[1..h.len() + 1] == h.as_bytes() && out[h.len() + 1..] == e, "C[enc]: a value of length {n} is sent differently");
        }
        let (b, c) = (g.u64(), g.bool());
        let f = f64::from_bits(b);
        let mut out = vec![];
        encode_cell(&mut out, &Datacell::new_float(f, unsafe { FloatSpec::from_full(FullTag::new_float(if c { TagSelector::Float32 } else { TagSelector::Float64 })) }));
        let t = std::str::from_utf8(&out[1..out.len() - 1]).unwrap();
        assert!(out[0] == if c { 10 } else { 11 } && *out.last().unwrap() == b'\n', "C[enc]: a float is framed differently");
        assert!(t.parse::<f64>().unwrap().to_bits() == b || f.is_nan(), "C[enc]: another float is sent: {t} for {f:?}");
    }
}
vp_native!(n_enc, enc, 42, 3000);

#[cfg(any(kani, test))]
mod k {
    use super::*;
    vp_kani!(k_small, 10, small);
    macro_rules! en { ($($f:ident $k:ident $h:ident $a:literal $b:literal;)*) => { $(fn $f(g: &mut Gen) { en!(@ $h g $a $b) } vp_kani!($k, 10, $f, kani::stub(<u64 as crate::engine::mem::__vp_memx::Int>::init, any_numeral_u64), kani::stub(<i64 as crate::engine::mem::__vp_memx::Int>::init, any_numeral_i64));)* };
        (@ int_of $g:ident $a:literal $b:literal) => { int_of($g, $a) };
        (@ bytes_of $g:ident $a:literal $b:literal) => { bytes_of($g, $a, $b) };
    }
    en! { i1 k_uint8 int_of 1 0; i2 k_uint16 int_of 2 0; i3 k_uint32 int_of 3 0; i4 k_uint64 int_of 4 0; i5 k_sint8 int_of 5 0; i6 k_sint16 int_of 6 0; i7 k_sint32 int_of 7 0; i8 k_sint64 int_of 8 0;
          b0 kb_bin_empty bytes_of false 0; b3 kb_bin bytes_of false 3; s0 kb_str_empty bytes_of true 0; s3 kb_str bytes_of true 3; }
}
