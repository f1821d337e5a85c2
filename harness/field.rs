// @attach server/src/engine/core/model/mod.rs
// @feature p06 p17 p18
//! Contracts of the field and layer functions: value conformance (P06), type names (P17), type changes (P18).
use super::*;
use crate::engine::data::lit::Lit;
use crate::vp::*;
use core::mem::{self, ManuallyDrop};

/// the fourteen declared types: name, class, width in bits
const TYPES: [(&str, TagClass, u32); 14] = [
    ("bool", TagClass::Bool, 0),
    ("uint8", TagClass::UnsignedInt, 8), ("uint16", TagClass::UnsignedInt, 16), ("uint32", TagClass::UnsignedInt, 32), ("uint64", TagClass::UnsignedInt, 64),
    ("sint8", TagClass::SignedInt, 8), ("sint16", TagClass::SignedInt, 16), ("sint32", TagClass::SignedInt, 32), ("sint64", TagClass::SignedInt, 64),
    ("float32", TagClass::Float, 32), ("float64", TagClass::Float, 64),
    ("binary", TagClass::Bin, 0), ("string", TagClass::Str, 0), ("list", TagClass::List, 0),
];
fn tag_of(i: usize) -> FullTag {
    match i {
        0 => FullTag::BOOL, 1 => FullTag::new_uint(TagSelector::UInt8), 2 => FullTag::new_uint(TagSelector::UInt16), 3 => FullTag::new_uint(TagSelector::UInt32), 4 => FullTag::new_uint(TagSelector::UInt64),
        5 => FullTag::new_sint(TagSelector::SInt8), 6 => FullTag::new_sint(TagSelector::SInt16), 7 => FullTag::new_sint(TagSelector::SInt32), 8 => FullTag::new_sint(TagSelector::SInt64),
        9 => FullTag::new_float(TagSelector::Float32), 10 => FullTag::new_float(TagSelector::Float64), 11 => FullTag::BIN, 12 => FullTag::STR, _ => FullTag::LIST,
    }
}
/// the statement's notion of "within the declared width"
fn in_range(i: usize, w: u64) -> bool {
    match i {
        1 => w <= 255, 2 => w <= 65535, 3 => w <= 4294967295, 4 => true,
        5 => (w as i64) >= -128 && (w as i64) <= 127, 6 => (w as i64) >= -32768 && (w as i64) <= 32767, 7 => (w as i64) >= -2147483648 && (w as i64) <= 2147483647, 8 => true,
        9 => { let f = f64::from_bits(w); f >= f32::MIN as f64 && f <= f32::MAX as f64 }
        10 => { let f = f64::from_bits(w); f >= f64::MIN && f <= f64::MAX }
        _ => true,
    }
}

// ------------------------------------------------------------------------------------------------------------- P06
/// a value of class `c` (0..=5 scalar / byte class, 6 = null) offered for a field of the (not list) type `i`
pub fn conforms_of(g: &mut Gen, i: usize, c: usize) {
    static TEXT: [u8; 3] = [97, 98, 99];
    let w = g.u64();
    let null = g.bool();
    let mut vin = VInline::new();
    vin.push(Layer::new(tag_of(i)));
    let f = ManuallyDrop::new(Field::new(vin, null));
    let n = (w % 4) as usize;
    let lit = match c {
        0 => Lit::new_bool(w & 1 == 1), 1 => Lit::new_uint(w), 2 => Lit::new_sint(w as i64), 3 => Lit::new_float(f64::from_bits(w)),
        4 => Lit::new_bin(&TEXT[..n]), 5 => Lit::new_str(unsafe { core::str::from_utf8_unchecked(&TEXT[..n]) }),
        _ => Lit::new_bool(false),
    };
    let mut d = ManuallyDrop::new(if c == 6 { Datacell::null() } else { Datacell::from(lit.as_ir()) });
    mem::forget(lit);
    let ok = f.vt_data_fpath(&mut d);
    if c == 6 {
        assert!(ok == null, "C[field]: a null is accepted for a field that is not nullable, or rejected for a nullable one");
        assert!(d.is_null(), "C[field]: a null became a value");
    } else {
        let same = TYPES[i].1 as u8 as usize == c;
        assert!(ok == (same && in_range(i, w)), "C[field]: a value outside the declared type or range is accepted, or one inside is rejected");
        if ok {
            assert!(!d.is_null() && d.kind() == TYPES[i].1 && d.tag().tag_selector() == tag_of(i).tag_selector(), "C[field]: an accepted value is stored under another type");
            match c {
                0 => assert!(d.bool() == (w & 1 == 1), "C[field]: the stored value differs"),
                1 => assert!(d.uint() == w, "C[field]: the stored value differs"),
                2 => assert!(d.sint() == w as i64, "C[field]: the stored value differs"),
                3 => assert!(d.float().to_bits() == w, "C[field]: the stored value differs"),
                4 => assert!(d.bin().len() == n && (n == 0 || d.bin()[n - 1] == TEXT[n - 1]), "C[field]: the stored value differs"),
                _ => assert!(d.str().len() == n && (n == 0 || d.str().as_bytes()[n - 1] == TEXT[n - 1]), "C[field]: the stored value differs"),
            }
        }
    }
    g.cover(ok || c != TYPES[i].1 as u8 as usize);
}
pub fn conforms(g: &mut Gen) { let (i, c) = (g.range(0, 12), g.range(0, 6)); conforms_of(g, i, c) }
/// a list field: rejects every value that is not a list; a null exactly when not nullable
pub fn conforms_list_of(g: &mut Gen, i: usize, c: usize) {
    let w = g.u64();
    let null = g.bool();
    let mut vin = VInline::new();
    vin.push(Layer::list());
    vin.push(Layer::new(tag_of(i)));
    let f = ManuallyDrop::new(Field::new(vin, null));
    let mut d = ManuallyDrop::new(match c { 0 => Datacell::new_bool(w & 1 == 1), 1 => Datacell::new_uint_default(w), 2 => Datacell::new_sint_default(w as i64), 3 => Datacell::new_float_default(f64::from_bits(w)), _ => Datacell::null() });
    let ok = f.vt_data_fpath(&mut d);
    assert!(ok == (c > 3 && null), "C[field]: a list field accepts a value that is not a list, or mistreats null");
    g.cover(true);
}
/// lists: every element conforms, at the nesting level the type says (bounded: up to two elements)
pub fn list_of(g: &mut Gen, i: usize, n: usize, nested: bool) {
    let mut vin = VInline::new();
    vin.push(Layer::list());
    if nested { vin.push(Layer::list()); }
    vin.push(Layer::new(tag_of(i)));
    let f = ManuallyDrop::new(Field::new(vin, g.bool()));
    let mut v: Vec<Datacell> = Vec::with_capacity(2);
    let mut want = true;
    let mut k = 0;
    let mut ws = [0u64; 2];
    while k < n {
        let w = g.u64();
        ws[k] = w;
        let e = match TYPES[i].1 { TagClass::UnsignedInt => Datacell::new_uint_default(w), TagClass::SignedInt => Datacell::new_sint_default(w as i64), TagClass::Float => Datacell::new_float_default(f64::from_bits(w)), _ => Datacell::new_bool(w & 1 == 1) };
        v.push(e);
        want &= in_range(i, w);
        k += 1;
    }
    let inner = Datacell::new_list(v);
    let mut d = ManuallyDrop::new(if nested { let mut o = Vec::with_capacity(1); o.push(inner); Datacell::new_list(o) } else { inner });
    let ok = f.vt_data_fpath(&mut d);
    assert!(ok == want, "C[field]: a list is accepted although an element is outside the declared type, or the other way round");
    if ok && !nested {
        let l = d.try_list();
        assert!(l.is_some(), "C[field]: the list is lost");
        let l = ManuallyDrop::new(l.unwrap().read());
        assert!(l.len() == n, "C[field]: an accepted list changes its length");
        let mut k = 0;
        while k < n {
            let same = match TYPES[i].1 { TagClass::UnsignedInt => l[k].uint() == ws[k], TagClass::SignedInt => l[k].sint() == ws[k] as i64, TagClass::Float => l[k].float().to_bits() == ws[k], _ => l[k].bool() == (ws[k] & 1 == 1) };
            assert!(same, "C[field]: an accepted list changes an element");
            k += 1;
        }
    }
    g.cover(ok && n == 2);
}
/// elements of another class than declared, and flat lists for nested types (or the other way round), are rejected
pub fn list_mismatch_of(g: &mut Gen, i: usize, c: usize) {
    let mut vin = VInline::new();
    vin.push(Layer::list());
    vin.push(Layer::new(tag_of(i)));
    let f = ManuallyDrop::new(Field::new(vin, g.bool()));
    let w = g.u64();
    let e = match c { 0 => Datacell::new_bool(w & 1 == 1), 1 => Datacell::new_uint_default(w), 2 => Datacell::new_sint_default(w as i64), 3 => Datacell::new_float_default(f64::from_bits(w)), _ => Datacell::new_list(Vec::new()) };
    let mut v = Vec::with_capacity(1);
    v.push(e);
    let mut d = ManuallyDrop::new(Datacell::new_list(v));
    let ok = f.vt_data_fpath(&mut d);
    assert!(!ok, "C[field]: a list with an element of another class is accepted");
    g.cover(true);
}

// ------------------------------------------------------------------------------------------------------------- P17
/// the fourteen names denote their types
pub fn names(g: &mut Gen) {
    let mut i = 0;
    while i < 14 {
        match Layer::get_layer(TYPES[i].0) {
            Some(l) => assert!(l.tag() == tag_of(i) && l.tag().tag_class() == TYPES[i].1, "C[field]: a type name denotes another type"),
            None => assert!(false, "C[field]: a type name is not recognised"),
        }
        i += 1;
    }
    g.cover(true);
}
fn is_name(b: &[u8], i: usize) -> bool {
    let t = TYPES[i].0.as_bytes();
    if t.len() != b.len() { return false }
    let mut k = 0;
    while k < t.len() { if t[k] != b[k] { return false } k += 1 }
    true
}
/// every other word of up to 8 bytes denotes no type
pub fn other_names_of(g: &mut Gen, n: usize) {
    let a: [u8; 8] = g.array();
    let b = &a[..n];
    let r = Layer::get_layer(unsafe { core::str::from_utf8_unchecked(b) });
    let mut want = None;
    let mut i = 0;
    while i < 14 { if is_name(b, i) { want = Some(tag_of(i)) } i += 1 }
    assert!(r.map(|l| l.tag()) == want, "C[field]: a word that is not a type name denotes a type");
    g.cover(true);
}
pub fn other_names(g: &mut Gen) {
    #[cfg(not(kani))]
    {
        // words near the names as well as arbitrary ones
        let mut b = if g.bool() { g.pick(&TYPES).0.as_bytes().to_vec() } else { g.bytes(40) };
        for _ in 0..g.range(0, 2) { if b.is_empty() { b.push(g.u8()) } else { let p = g.range(0, b.len() - 1); match g.range(0, 2) { 0 => b[p] = g.u8(), 1 => { b.remove(p); } _ => b.insert(p, g.u8()) } } }
        let Ok(s) = std::str::from_utf8(&b) else { return };
        g.note(|| format!("{s:?}"));
        let want = (0..14).find(|i| TYPES[*i].0 == s).map(tag_of);
        assert!(Layer::get_layer(s).map(|l| l.tag()) == want, "C[field]: get_layer({s:?})");
        g.nontrivial();
    }
}
/// the hash stays within its tables, for words of up to 16 bytes (bounded)
pub fn hash_range(g: &mut Gen) {
    let a: [u8; 16] = g.array();
    let n = g.range(0, 16);
    let x = Layer::pf(&a[..n]);
    assert!(x < 15, "C[field]: the type name hash leaves its table");
    g.cover(true);
}
/// class, width and uniqueness of a selector agree (what is displayed, persisted and checked is the declared type)
pub fn selectors(g: &mut Gen) {
    let mut i = 0;
    while i < 14 {
        let t = tag_of(i);
        let s = t.tag_selector();
        assert!(s.value_word() == i && s.tag_class() == TYPES[i].1 && s.into_full() == t, "C[field]: a type selector denotes another type");
        assert!(s.tag_unique() == t.tag_unique(), "C[field]: primary key kind of a type");
        let may_key = matches!(TYPES[i].1, TagClass::UnsignedInt | TagClass::SignedInt | TagClass::Bin | TagClass::Str);
        assert!(t.tag_unique().is_unique() == may_key, "C[field]: a type may be a primary key although it may not, or the other way round");
        i += 1;
    }
    g.cover(true);
}

// ------------------------------------------------------------------------------------------------------------- P18
/// changing a (not list) field of type `i` to type `j`: allowed exactly within one numeric class; without a lock exactly when nothing that is stored can
/// stop conforming; reported as a change exactly when type or nullability differ; the new field is the stated one
/// contract of Layer::get_layer, as P17 proves it: a name denotes its type (types are numbered by one byte here)
#[cfg(kani)]
fn get_layer_contract(ident: &str) -> Option<Layer> { Some(Layer::new(tag_of((ident.as_bytes()[0] - b'a') as usize))) }
#[cfg(kani)]
fn type_ident(j: usize) -> &'static str { static A: &str = "abcdefghijklmn"; &A[j..j + 1] }
#[cfg(not(kani))]
fn type_ident(j: usize) -> &'static str { TYPES[j].0 }
#[cfg(feature = "vp_p18")]
pub fn retype_of(g: &mut Gen, i: usize, j: usize) {
    let (was, now) = (g.bool(), g.bool());
    let mut vin = VInline::new();
    vin.push(Layer::new(tag_of(i)));
    let f = ManuallyDrop::new(Field::new(vin, was));
    let mut spec = Vec::with_capacity(1);
    spec.push(LayerSpec { ty: type_ident(j).into(), props: Default::default() });
    let (nl0, ok0) = (g.bool(), g.bool());
    let (mut nl, mut ok) = (nl0, ok0);
    let r = ManuallyDrop::new(super::alt::__vp_alt::ldeltas(&f, spec, now, &mut nl, &mut ok));
    let numeric = matches!(TYPES[i].1, TagClass::UnsignedInt | TagClass::SignedInt | TagClass::Float);
    let may = i == j || (numeric && TYPES[i].1 as u8 == TYPES[j].1 as u8);
    assert!(r.is_ok() == may, "C[field]: an illegal type change is accepted, or a legal one rejected");
    if let Ok((delta, new)) = &*r {
        assert!(ok == ok0, "C[field]: a legal type change is reported as illegal");
        assert!(*delta == (i != j || was != now), "C[field]: a change is not recognised as one (or the other way round)");
        assert!(new.is_nullable() == now && new.layers().len() == 1 && new.layers()[0].tag() == tag_of(j), "C[field]: the altered field is not the stated one");
        let narrows = TYPES[j].2 < TYPES[i].2;
        assert!(nl == (nl0 && !narrows && !(was && !now)), "C[field]: a change that stored values may not conform to is made without checking them");
    }
    g.cover(true);
}
#[cfg(feature = "vp_p18")]
pub fn retype(g: &mut Gen) { let (i, j) = (g.range(0, 12), g.range(0, 13)); retype_of(g, i, j) }

#[cfg(any(feature = "vp_p06"))]
vp_native!(n_conforms, conforms, 24, 2000);
#[cfg(any(feature = "vp_p17"))]
vp_native!(n_other_names, other_names, 60, 2000);
#[cfg(any(feature = "vp_p18"))]
vp_native!(n_retype, retype, 24, 2000);

#[cfg(all(any(kani, test), feature = "vp_p06"))]
mod k {
    use super::*;
    macro_rules! ty { ($($f:ident $k:ident $i:literal;)*) => { $(fn $f(g: &mut Gen) { let mut c = 0; while c < 7 { conforms_of(g, $i, c); c += 1 } } vp_kani!($k, 9, $f);)* } }
    ty! { c0 k_conforms_bool 0; c1 k_conforms_uint8 1; c2 k_conforms_uint16 2; c3 k_conforms_uint32 3; c4 k_conforms_uint64 4; c5 k_conforms_sint8 5; c6 k_conforms_sint16 6; c7 k_conforms_sint32 7; c8 k_conforms_sint64 8;
          c9 k_conforms_float32 9; c10 k_conforms_float64 10; c11 k_conforms_binary 11; c12 k_conforms_string 12; }
    fn nl(g: &mut Gen) { let mut c = 0; while c < 5 { conforms_list_of(g, 1, c); c += 1 } }
    vp_kani!(k_conforms_notlist, 9, nl);
    macro_rules! li { ($($f:ident $k:ident $i:literal $n:literal $d:literal;)*) => { $(fn $f(g: &mut Gen) { list_of(g, $i, $n, $d) } vp_kani!($k, 4, $f);)* } }
    li! { l0 kb_list_uint8 1 2 false; l1 kb_list_sint16 6 2 false; l2 kb_list_float32 9 2 false; l3 kb_list_bool 0 2 false; l4 kb_list_nested 2 2 true; }
    fn mm(g: &mut Gen) { list_mismatch_of(g, 1, 2) }
    vp_kani!(kb_list_mismatch, 4, mm);
    fn md(g: &mut Gen) { list_mismatch_of(g, 1, 4) }
    vp_kani!(kb_list_depth, 4, md);
}
#[cfg(all(any(kani, test), feature = "vp_p17"))]
mod k {
    use super::*;
    vp_kani!(k_names, 16, names);
    vp_kani!(k_selectors, 16, selectors);
    vp_kani!(kb_hash_range, 18, hash_range);
    macro_rules! on { ($($f:ident $k:ident $n:literal;)*) => { $(fn $f(g: &mut Gen) { other_names_of(g, $n) } vp_kani!($k, 16, $f);)* } }
    on! { o0 k_other_names0 0; o1 k_other_names1 1; o2 k_other_names2 2; o3 k_other_names3 3; o4 k_other_names4 4; o5 k_other_names5 5; o6 k_other_names6 6; o7 k_other_names7 7; o8 k_other_names8 8; }
}
#[cfg(all(any(kani, test), feature = "vp_p18"))]
mod k {
    use super::*;
    // modular: Layer::get_layer is represented by its contract (P17 discharges it: k_names, k_other_names*)
    /// the types of the class of `i`, and bool and list (the thorough tier has all 14)
    fn near(g: &mut Gen, i: usize) {
        let c = TYPES[i].1 as u8;
        let mut j = 0;
        while j < 14 {
            if TYPES[j].1 as u8 == c || j == 0 || j == 13 { retype_of(g, i, j) }
            j += 1
        }
    }
    fn all(g: &mut Gen, i: usize) { let mut j = 0; while j < 14 { retype_of(g, i, j); j += 1 } }
    macro_rules! rt { ($($f:ident $q:ident $h:ident $t:ident $i:literal;)*) => { $(
        fn $f(g: &mut Gen) { near(g, $i) } vp_kani!($q, 15, $f, kani::stub(Layer::get_layer, get_layer_contract));
        fn $h(g: &mut Gen) { all(g, $i) } vp_kani!($t, 15, $h, kani::stub(Layer::get_layer, get_layer_contract));
    )* } }
    rt! { r0 k_retype_bool a0 kt_retype_bool 0; r1 k_retype_uint8 a1 kt_retype_uint8 1; r2 k_retype_uint16 a2 kt_retype_uint16 2; r3 k_retype_uint32 a3 kt_retype_uint32 3; r4 k_retype_uint64 a4 kt_retype_uint64 4;
          r5 k_retype_sint8 a5 kt_retype_sint8 5; r6 k_retype_sint16 a6 kt_retype_sint16 6; r7 k_retype_sint32 a7 kt_retype_sint32 7; r8 k_retype_sint64 a8 kt_retype_sint64 8;
          r9 k_retype_float32 a9 kt_retype_float32 9; r10 k_retype_float64 a10 kt_retype_float64 10; r11 k_retype_binary a11 kt_retype_binary 11; r12 k_retype_string a12 kt_retype_string 12; }
}
