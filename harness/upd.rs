// @attach server/src/engine/core/dml/upd.rs
// @feature p07
//! P07: contracts of the assignment operators, through the operator table the update statement uses.
use super::*;
use crate::engine::data::tag::{FullTag, TagSelector};
use crate::vp::*;
use std::mem::ManuallyDrop;

const OPS: [AssignmentOperator; 5] = [AssignmentOperator::Assign, AssignmentOperator::AddAssign, AssignmentOperator::SubAssign, AssignmentOperator::MulAssign, AssignmentOperator::DivAssign];
fn apply(c: TagClass, op: usize, d: &Datacell, l: Lit) -> (bool, ManuallyDrop<Datacell>) {
    let (ok, n) = unsafe { OPERATOR[opc(c, OPS[op])](d, l) };
    (ok, ManuallyDrop::new(n))
}
/// unsigned: the mathematical result, or nothing (exceeds the width of the column, below zero, division by zero)
pub fn uint_of(g: &mut Gen, op: usize) {
    let (a, b) = (g.u64(), g.u64());
    let (sel, max) = match g.range(0, 3) { 0 => (TagSelector::UInt8, u8::MAX as u64), 1 => (TagSelector::UInt16, u16::MAX as u64), 2 => (TagSelector::UInt32, u32::MAX as u64), _ => (TagSelector::UInt64, u64::MAX) };
    let d = ManuallyDrop::new(Datacell::new_uint(a, unsafe { UIntSpec::from_full(FullTag::new_uint(sel)) }));
    let (ok, n) = apply(TagClass::UnsignedInt, op, &d, Lit::new_uint(b));
    let want = match op { 0 => Some(b), 1 => a.checked_add(b), 2 => a.checked_sub(b), 3 => a.checked_mul(b), _ => a.checked_div(b) };
    let want = match want { Some(v) if v <= max => Some(v), _ => None };
    assert!(ok == want.is_some(), "C[upd]: an unsigned assignment succeeds although the result does not fit the column, or fails although it does");
    if ok { assert!(n.try_uint() == want && n.tag() == FullTag::new_uint(sel), "C[upd]: the unsigned result is not the exact one"); }
    assert!(d.uint() == a, "C[upd]: an operator changes the old cell");
    g.cover(ok);
}
pub fn sint_of(g: &mut Gen, op: usize) {
    let (a, b) = (g.i64(), g.i64());
    let (sel, min, max) = match g.range(0, 3) { 0 => (TagSelector::SInt8, i8::MIN as i64, i8::MAX as i64), 1 => (TagSelector::SInt16, i16::MIN as i64, i16::MAX as i64), 2 => (TagSelector::SInt32, i32::MIN as i64, i32::MAX as i64), _ => (TagSelector::SInt64, i64::MIN, i64::MAX) };
    let d = ManuallyDrop::new(Datacell::new_sint(a, unsafe { SIntSpec::from_full(FullTag::new_sint(sel)) }));
    let (ok, n) = apply(TagClass::SignedInt, op, &d, Lit::new_sint(b));
    let want = match op { 0 => Some(b), 1 => a.checked_add(b), 2 => a.checked_sub(b), 3 => a.checked_mul(b), _ => a.checked_div(b) };
    let want = match want { Some(v) if v >= min && v <= max => Some(v), _ => None };
    assert!(ok == want.is_some(), "C[upd]: a signed assignment succeeds although the result does not fit the column, or fails although it does");
    if ok { assert!(n.try_sint() == want && n.tag() == FullTag::new_sint(sel), "C[upd]: the signed result is not the exact one"); }
    assert!(d.sint() == a, "C[upd]: an operator changes the old cell");
    g.cover(ok);
}
/// floats: the IEEE double result when it lies within the column's range, otherwise (also for infinities and NaN) nothing
pub fn float_of(g: &mut Gen, op: usize) {
    let (a, b) = (f64::from_bits(g.u64()), f64::from_bits(g.u64()));
    let (sel, max) = if g.bool() { (TagSelector::Float32, f32::MAX as f64) } else { (TagSelector::Float64, f64::MAX) };
    let d = ManuallyDrop::new(Datacell::new_float(a, unsafe { FloatSpec::from_full(FullTag::new_float(sel)) }));
    let (ok, n) = apply(TagClass::Float, op, &d, Lit::new_float(b));
    let want = match op { 0 => b, 1 => a + b, 2 => a - b, 3 => a * b, _ => a / b };
    assert!(ok == (want >= -max && want <= max), "C[upd]: a float assignment succeeds although the result is outside the column's range, or fails although it is inside");
    if ok { assert!(n.try_float() == Some(want) && n.tag() == FullTag::new_float(sel), "C[upd]: the float result is not the IEEE one"); }
    g.cover(ok);
}
/// the range rule alone, for all finite operands: what is accepted lies within the column's range, what lies within it is accepted
/// (that the value is the IEEE one is left to `float_of`, natively: solvers do not get through double multipliers)
pub fn float_range_of(g: &mut Gen, op: usize) {
    let (a, b) = (f64::from_bits(g.u64()), f64::from_bits(g.u64()));
    if !g.assume(a.is_finite() && b.is_finite() && b != 0.0) { return }
    let (sel, max) = if g.bool() { (TagSelector::Float32, f32::MAX as f64) } else { (TagSelector::Float64, f64::MAX) };
    let d = ManuallyDrop::new(Datacell::new_float(a, unsafe { FloatSpec::from_full(FullTag::new_float(sel)) }));
    let (ok, n) = apply(TagClass::Float, op, &d, Lit::new_float(b));
    if let Some(v) = n.try_float() { assert!(ok == (v >= -max && v <= max), "C[upd]: a float assignment succeeds although the result is outside the column's range, or fails although it is inside"); }
    else { assert!(!ok, "C[upd]: a float assignment yields no float"); }
    if ok { assert!(n.tag() == FullTag::new_float(sel), "C[upd]: the float result has another type"); }
    assert!(d.float().to_bits() == a.to_bits(), "C[upd]: an operator changes the old cell");
    g.cover(ok);
}
pub fn bool_of(g: &mut Gen, op: usize) {
    let (a, b) = (g.bool(), g.bool());
    let d = ManuallyDrop::new(Datacell::new_bool(a));
    let (ok, n) = apply(TagClass::Bool, op, &d, Lit::new_bool(b));
    assert!(ok == (op == 0), "C[upd]: bools can only be assigned");
    if ok { assert!(n.try_bool() == Some(b), "C[upd]: another bool is assigned"); }
    g.cover(true);
}
/// text and binary: assignment replaces, `+=` appends, nothing else is defined (any content; up to three bytes on either side)
pub fn bytes_of(g: &mut Gen, op: usize, s: bool, n: usize, m: usize) {
    let (a, b): ([u8; 3], [u8; 3]) = (g.array(), g.array());
    let (a, b) = (a.map(|x| x & 127), b.map(|x| x & 127));
    let class = if s { TagClass::Str } else { TagClass::Bin };
    let old: Box<[u8]> = a[..n].into();
    let d = ManuallyDrop::new(if s { Datacell::new_str(unsafe { std::str::from_boxed_utf8_unchecked(old) }) } else { Datacell::new_bin(old) });
    let l = if s { Lit::new_str(unsafe { std::str::from_utf8_unchecked(&b[..m]) }) } else { Lit::new_bin(&b[..m]) };
    let (ok, new) = apply(class, op, &d, l);
    assert!(ok == (op < 2), "C[upd]: an operator that is not defined for text succeeds, or one that is fails");
    if ok {
        let p = if op == 0 { 0 } else { n };
        assert!(new.kind() == class && !new.is_null(), "C[upd]: the result has another type");
        let r = unsafe { new.read_bin() };
        assert!(r.len() == p + m, "C[upd]: the result has another length");
        let mut i = 0;
        while i < 3 {
            if i < p { assert!(r[i] == a[i], "C[upd]: the old text is not kept"); }
            if i < m { assert!(r[p + i] == b[i], "C[upd]: other text is appended"); }
            i += 1;
        }
    }
    assert!(unsafe { d.read_bin() }.len() == n, "C[upd]: an operator changes the old cell");
    g.cover(true);
}
pub fn ops(g: &mut Gen) {
    let op = g.range(0, 4);
    match g.range(0, 4) { 0 => uint_of(g, op), 1 => sint_of(g, op), 2 => float_of(g, op), 3 => bool_of(g, op), _ => { let (s, n, m) = (g.bool(), g.range(0, 3), g.range(0, 3)); bytes_of(g, op, s, n, m) } }
}
vp_native!(n_ops, ops, 40, 5000);

#[cfg(any(kani, test))]
mod k {
    use super::*;
    macro_rules! op { ($($f:ident $k:ident $h:ident $o:literal;)*) => { $(fn $f(g: &mut Gen) { $h(g, $o) } vp_kani!($k, 5, $f);)* } }
    macro_rules! opz { ($($f:ident $k:ident $h:ident $o:literal;)*) => { $(fn $f(g: &mut Gen) { $h(g, $o) } vp_kani!($k, 5, $f, kani::solver(z3));)* } }
    op! { u0 k_uint_assign uint_of 0; u1 k_uint_add uint_of 1; u2 k_uint_sub uint_of 2; s0 k_sint_assign sint_of 0; s1 k_sint_add sint_of 1; s2 k_sint_sub sint_of 2;
          f0 k_float_assign float_of 0; b0 k_bool_assign bool_of 0; b1 k_bool_add bool_of 1; b2 k_bool_sub bool_of 2; b3 k_bool_mul bool_of 3; b4 k_bool_div bool_of 4; }
    opz! { u3 k_uint_mul uint_of 3; u4 k_uint_div uint_of 4; s3 k_sint_mul sint_of 3; s4 k_sint_div sint_of 4; }
    op! { f1 k_float_add float_range_of 1; f2 k_float_sub float_range_of 2; f3 k_float_mul float_range_of 3; f4 k_float_div float_range_of 4; }
    macro_rules! by { ($($f:ident $k:ident $s:literal $o:literal;)*) => { $(fn $f(g: &mut Gen) { let mut n = 0; while n < 4 { bytes_of(g, $o, $s, n, 3 - n); n += 1 } } vp_kani!($k, 5, $f);)* } }
    by! { t0 kb_str_assign true 0; t1 kb_str_add true 1; t2 k_str_sub true 2; t3 k_str_mul true 3; t4 k_str_div true 4; y0 kb_bin_assign false 0; y1 kb_bin_add false 1; y2 k_bin_sub false 2; y3 k_bin_mul false 3; y4 k_bin_div false 4; }
}
