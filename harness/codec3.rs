// @attach server/src/engine/storage/common_encoding/r1/obj.rs
// @feature p13 p14
//! P13 / P14: contracts of the cell, layer, field and identifier codecs.
use super::cell::{self, CanYieldDict, StorageCellTypeID};
use super::*;
use crate::engine::data::{cell::Datacell, tag::TagUnique};
use crate::vp::*;

/// a cell of every scalar type (tag 0 to 10) with every value comes back with the same tag and the same bits, and exactly its bytes are consumed
pub fn scalar_of(g: &mut Gen, tag: u8) {
    let q = g.u64();
    let full = unsafe { TagSelector::from_raw(tag).into_full() };
    let c = if tag == 0 { Datacell::new_bool(q & 1 == 1) } else { unsafe { Datacell::new_qw(q, full) } };
    let mut b = Vec::with_capacity(24);
    cell::encode(&mut b, &c);
    let n = b.len();
    assert!(n == if tag == 0 { 2 } else { 9 } && b[0] == tag + 1, "C[round]: a scalar is stored with a wrong type or length");
    b.push(0x5A);
    let mut s = BufferedScanner::new(&b);
    let t = unsafe { s.next_byte() };
    assert!(StorageCellTypeID::is_valid(t) && s.has_left(StorageCellTypeID::expect_atleast(t)), "C[round]: the stored type is refused");
    let r: Result<Datacell, ()> = unsafe { cell::decode_element::<Datacell, BufferedScanner>(&mut s, StorageCellTypeID::from_raw(t)) };
    match &r {
        Ok(r) => {
            assert!(r.tag().tag_selector().value_u8() == tag && r.tag().tag_class() == full.tag_class() && r.tag().tag_unique() == full.tag_unique(), "C[round]: a scalar comes back with another type");
            assert!(if tag == 0 { r.try_bool() == Some(q & 1 == 1) } else { unsafe { r.read_uint() == q } }, "C[round]: a scalar comes back with another value");
        }
        Err(_) => assert!(false, "C[round]: a scalar just encoded is refused"),
    }
    assert!(s.cursor() == n, "C[round]: a scalar is not consumed exactly");
    g.cover(q != 0);
    core::mem::forget((r, c, b));
}
pub fn scalars(g: &mut Gen) { let t = g.range(0, 10) as u8; scalar_of(g, t) }
pub fn null(g: &mut Gen) {
    let mut b = Vec::with_capacity(4);
    cell::encode(&mut b, &Datacell::null());
    assert!(b.len() == 1 && b[0] == 0, "C[round]: null is not stored as one zero byte");
    let mut s = BufferedScanner::new(&b);
    let t = unsafe { s.next_byte() };
    let r: Result<Datacell, ()> = unsafe { cell::decode_element::<Datacell, BufferedScanner>(&mut s, StorageCellTypeID::from_raw(t)) };
    assert!(matches!(&r, Ok(x) if x.is_null()) && s.eof(), "C[round]: null comes back differently");
    g.cover(true);
    core::mem::forget((r, b));
}
/// binary cells of exactly `n` bytes
pub fn bin_of(g: &mut Gen, n: usize) {
    let a: [u8; 4] = g.array();
    let c = Datacell::new_bin(a[..n].to_vec().into_boxed_slice());
    let mut b = Vec::with_capacity(24);
    cell::encode(&mut b, &c);
    assert!(b.len() == 9 + n, "C[round]: a binary cell is stored with a wrong length");
    b.push(0x5A);
    let mut s = BufferedScanner::new(&b);
    let t = unsafe { s.next_byte() };
    assert!(t == StorageCellTypeID::Bin.value_u8(), "C[round]: a binary cell is stored with another type");
    let r: Result<Datacell, ()> = unsafe { cell::decode_element::<Datacell, BufferedScanner>(&mut s, StorageCellTypeID::Bin) };
    match &r { Ok(r) => assert!(r.try_bin() == Some(&a[..n]) && s.cursor() == 9 + n, "C[round]: a binary cell comes back differently"), Err(_) => assert!(false, "C[round]: a binary cell just encoded is refused") }
    g.cover(true);
    core::mem::forget((r, c, b));
}
pub fn bins(g: &mut Gen) { let n = g.range(0, 4); bin_of(g, n) }
/// every layer type and every 16 bytes
pub fn layer(g: &mut Gen) {
    let t = g.u8();
    g.assume(t <= 13);
    let l = Layer::new_empty_props(unsafe { TagSelector::from_raw(t) }.into_full());
    let mut b = Vec::with_capacity(24);
    LayerRef::default_full_enc(&mut b, LayerRef(&l));
    assert!(b.len() == 16, "C[round]: a layer is stored with a wrong length");
    let mut s = BufferedScanner::new(&b);
    let r = LayerRef::default_full_dec(&mut s);
    assert!(matches!(&r, Ok(x) if x.tag() == l.tag()) && s.eof(), "C[round]: a layer comes back differently");
    g.cover(t > 3);
    core::mem::forget((r, b));
}
pub fn any_layer(g: &mut Gen) {
    let b: [u8; 16] = g.array();
    let b = if Gen::NATIVE && g.bool() { let mut x = [0u8; 16]; x[0] = b[0] % 20; x } else { b };
    let n = g.range(0, 16);
    let mut ok = n == 16 && b[0] <= 13;
    let mut i = 1;
    while i < 16 { ok &= b[i] == 0; i += 1 }
    let mut s = BufferedScanner::new(&b[..n]);
    let r = LayerRef::default_full_dec(&mut s);
    match &r { Ok(l) => assert!(ok && l.tag().tag_selector().value_u8() == b[0], "C[clean]: a damaged layer is taken for a layer"), Err(_) => assert!(!ok, "C[clean]: a well formed layer is refused") }
    assert!(s.cursor() <= n, "C[clean]: decoding a layer reads past its end");
    g.cover(ok);
    core::mem::forget(r);
}
/// fields with exactly `k` layers
pub fn field_of(g: &mut Gen, k: usize) {
    let (t, null) = (g.u8(), g.bool());
    g.assume(t <= 12);
    let mut v = VInline::new();
    let mut i = 1;
    while i < k { v.push(Layer::new_empty_props(TagSelector::List.into_full())); i += 1 }
    v.push(Layer::new_empty_props(unsafe { TagSelector::from_raw(t) }.into_full()));
    let f = Field::new(v, null);
    let mut b = Vec::with_capacity(96);
    FieldRef::default_full_enc(&mut b, &f);
    assert!(b.len() == 17 + 16 * k, "C[round]: a field is stored with a wrong length");
    b.push(0x5A);
    let mut s = BufferedScanner::new(&b);
    let r = FieldRef::default_full_dec(&mut s);
    match &r {
        Ok(r) => {
            assert!(r.is_nullable() == null && r.layers().len() == k, "C[round]: a field comes back with another nullability or depth");
            let mut i = 0;
            while i < k { assert!(r.layers()[i].tag().tag_selector().value_u8() == if i + 1 < k { 13 } else { t }, "C[round]: a layer of a field comes back differently"); i += 1 }
        }
        Err(_) => assert!(false, "C[round]: a field just encoded is refused"),
    }
    assert!(s.cursor() == 17 + 16 * k, "C[round]: a field is not consumed exactly");
    g.cover(null);
    core::mem::forget((r, f, b));
}
/// any bytes as a field: at most 2 layers fit
pub fn any_field<const N: usize>(g: &mut Gen) {
    let b: [u8; N] = g.array();
    let n = g.range(0, N);
    let mut s = BufferedScanner::new(&b[..n]);
    let r = FieldRef::default_full_dec(&mut s);
    g.cover(r.is_ok());
    if let Ok(f) = &r { assert!(f.layers().len() >= 1 && f.layers().len() <= 2, "C[clean]: a field with more layers than there are bytes") }
    assert!(s.cursor() <= n, "C[clean]: decoding a field reads past its end");
    core::mem::forget(r);
}
/// any bytes as a cell of the given type
pub fn any_cell<const N: usize>(g: &mut Gen, t: u8) {
    let b: [u8; N] = g.array();
    let n = g.range(0, N);
    let mut s = BufferedScanner::new(&b[..n]);
    g.assume(s.has_left(StorageCellTypeID::expect_atleast(t)));
    let r: Result<CanYieldDict, ()> = unsafe { cell::decode_element::<CanYieldDict, BufferedScanner>(&mut s, StorageCellTypeID::from_raw(t)) };
    g.cover(r.is_ok());
    match &r { Ok(CanYieldDict::Data(c)) => assert!(if t == 0 { c.is_null() } else { !c.is_null() && c.tag().tag_selector().value_u8() == t - 1 }, "C[clean]: a cell of another type than stated comes out"), Ok(CanYieldDict::Dict) => assert!(t == 15, "C[clean]: a dictionary comes out of a cell"), Err(_) => assert!(t != 0 && t != 15 && !(t >= 2 && t <= 11), "C[clean]: a well formed cell is refused") }
    assert!(s.cursor() <= n, "C[clean]: decoding a cell reads past its end");
    core::mem::forget(r);
}
pub fn any_scalar(g: &mut Gen) { let t = g.range(0, 11) as u8; any_cell::<9>(g, t) }
#[cfg(feature = "vp_p13")]
vp_native!(n_scalars, scalars, 16, 200);
#[cfg(feature = "vp_p14")]
vp_native!(n_any_layer, any_layer, 40, 200);
#[cfg(feature = "vp_p14")]
vp_native!(n_any_scalar, any_scalar, 40, 200);
#[cfg(kani)]
use crate::engine::fractal::context::{self, Dmsg, Subsystem};
/// error context (a thread local used for messages only) is replaced by "no context"
#[cfg(kani)]
mod ctx { use super::*; pub fn o() -> Option<Subsystem> { None } pub fn d() -> Option<Dmsg> { None }
/// UTF-8 validation is taken to accept (its error path returns an error at once)
pub fn utf8(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> { Ok(unsafe { String::from_utf8_unchecked(v) }) } }
#[cfg(all(any(kani, test), feature = "vp_p13"))]
mod k {
    use super::*;
    pub fn sc0(g: &mut Gen) { scalar_of(g, 0) }
    vp_kani!(k_scalar_0, 10, sc0);
    pub fn sc1(g: &mut Gen) { scalar_of(g, 1) }
    vp_kani!(k_scalar_1, 10, sc1);
    pub fn sc2(g: &mut Gen) { scalar_of(g, 2) }
    vp_kani!(k_scalar_2, 10, sc2);
    pub fn sc3(g: &mut Gen) { scalar_of(g, 3) }
    vp_kani!(k_scalar_3, 10, sc3);
    pub fn sc4(g: &mut Gen) { scalar_of(g, 4) }
    vp_kani!(k_scalar_4, 10, sc4);
    pub fn sc5(g: &mut Gen) { scalar_of(g, 5) }
    vp_kani!(k_scalar_5, 10, sc5);
    pub fn sc6(g: &mut Gen) { scalar_of(g, 6) }
    vp_kani!(k_scalar_6, 10, sc6);
    pub fn sc7(g: &mut Gen) { scalar_of(g, 7) }
    vp_kani!(k_scalar_7, 10, sc7);
    pub fn sc8(g: &mut Gen) { scalar_of(g, 8) }
    vp_kani!(k_scalar_8, 10, sc8);
    pub fn sc9(g: &mut Gen) { scalar_of(g, 9) }
    vp_kani!(k_scalar_9, 10, sc9);
    pub fn sc10(g: &mut Gen) { scalar_of(g, 10) }
    vp_kani!(k_scalar_10, 10, sc10);
    vp_kani!(k_null, 10, null);
    pub fn b0(g: &mut Gen) { bin_of(g, 0) }
    vp_kani!(kb_bin_0, 10, b0);
    pub fn b1(g: &mut Gen) { bin_of(g, 1) }
    vp_kani!(kb_bin_1, 10, b1);
    pub fn b4(g: &mut Gen) { bin_of(g, 4) }
    vp_kani!(kb_bin_4, 10, b4);
    vp_kani!(k_layer, 10, layer, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
    pub fn f1(g: &mut Gen) { field_of(g, 1) }
    vp_kani!(kb_field_1, 10, f1, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
    pub fn f2(g: &mut Gen) { field_of(g, 2) }
    vp_kani!(kb_field_2, 10, f2, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
}
#[cfg(all(any(kani, test), feature = "vp_p14"))]
mod k {
    use super::*;
    vp_kani!(k_any_layer, 18, any_layer, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
    pub fn af(g: &mut Gen) { any_field::<50>(g) }
    vp_kani!(kb_any_field, 52, af, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
    pub fn at0(g: &mut Gen) { any_cell::<9>(g, 0) }
    vp_kani!(k_any_cell_0, 12, at0);
    pub fn at1(g: &mut Gen) { any_cell::<9>(g, 1) }
    vp_kani!(k_any_cell_1, 12, at1);
    pub fn at2(g: &mut Gen) { any_cell::<9>(g, 2) }
    vp_kani!(k_any_cell_2, 12, at2);
    pub fn at3(g: &mut Gen) { any_cell::<9>(g, 3) }
    vp_kani!(k_any_cell_3, 12, at3);
    pub fn at4(g: &mut Gen) { any_cell::<9>(g, 4) }
    vp_kani!(k_any_cell_4, 12, at4);
    pub fn at5(g: &mut Gen) { any_cell::<9>(g, 5) }
    vp_kani!(k_any_cell_5, 12, at5);
    pub fn at6(g: &mut Gen) { any_cell::<9>(g, 6) }
    vp_kani!(k_any_cell_6, 12, at6);
    pub fn at7(g: &mut Gen) { any_cell::<9>(g, 7) }
    vp_kani!(k_any_cell_7, 12, at7);
    pub fn at8(g: &mut Gen) { any_cell::<9>(g, 8) }
    vp_kani!(k_any_cell_8, 12, at8);
    pub fn at9(g: &mut Gen) { any_cell::<9>(g, 9) }
    vp_kani!(k_any_cell_9, 12, at9);
    pub fn at10(g: &mut Gen) { any_cell::<9>(g, 10) }
    vp_kani!(k_any_cell_10, 12, at10);
    pub fn at11(g: &mut Gen) { any_cell::<9>(g, 11) }
    vp_kani!(k_any_cell_11, 12, at11);
    pub fn at15(g: &mut Gen) { any_cell::<9>(g, 15) }
    vp_kani!(k_any_cell_15, 12, at15);
    pub fn at12(g: &mut Gen) { any_cell::<11>(g, 12) }
    vp_kani!(kb_any_cell_12, 14, at12);
    pub fn at13(g: &mut Gen) { any_cell::<11>(g, 13) }
    vp_kani!(kb_any_cell_13, 14, at13, kani::stub(std::string::String::from_utf8, ctx::utf8));
}
