// @attach server/src/engine/data/cell.rs
// @feature p09
//! P09: contracts of the cell constructors, accessors, conversions and equality.
use super::*;
use crate::engine::data::tag::TagSelector;
use crate::vp::*;

/// an independent copy of a value, by class
#[derive(Clone, Debug)]
pub enum M { Null, Bool(bool), U(u64), S(i64), F(u64), Bin(Vec<u8>), Str(String), List(Vec<M>) }

fn uspec(g: &mut Gen) -> UIntSpec { unsafe { UIntSpec::from_full(FullTag::new_uint(match g.range(0, 3) { 0 => TagSelector::UInt8, 1 => TagSelector::UInt16, 2 => TagSelector::UInt32, _ => TagSelector::UInt64 })) } }
fn sspec(g: &mut Gen) -> SIntSpec { unsafe { SIntSpec::from_full(FullTag::new_sint(match g.range(0, 3) { 0 => TagSelector::SInt8, 1 => TagSelector::SInt16, 2 => TagSelector::SInt32, _ => TagSelector::SInt64 })) } }
fn fspec(g: &mut Gen) -> FloatSpec { unsafe { FloatSpec::from_full(FullTag::new_float(if g.bool() { TagSelector::Float32 } else { TagSelector::Float64 })) } }

/// exactly one accessor answers: the one of the class of the cell
fn only(c: &Datacell, k: TagClass) {
    assert!(c.is_init() && !c.is_null() && c.kind() == k, "C[cell]: kind or initialisation lost");
    assert!(c.try_bool().is_some() == (k == TagClass::Bool), "C[cell]: try_bool");
    assert!(c.try_uint().is_some() == (k == TagClass::UnsignedInt), "C[cell]: try_uint");
    assert!(c.try_sint().is_some() == (k == TagClass::SignedInt), "C[cell]: try_sint");
    assert!(c.try_float().is_some() == (k == TagClass::Float), "C[cell]: try_float");
    assert!(c.try_bin().is_some() == (k == TagClass::Bin), "C[cell]: try_bin");
    assert!(c.try_str().is_some() == (k == TagClass::Str), "C[cell]: try_str");
    assert!(c.try_list().is_some() == (k == TagClass::List), "C[cell]: try_list");
}

/// what a scalar cell is built from
pub struct S { k: TagClass, w: u64 }
fn scalar(g: &mut Gen) -> (S, Datacell) { let k = g.range(0, 3); scalar_of(g, k) }
fn scalar_of(g: &mut Gen, k: usize) -> (S, Datacell) {
    let w = g.u64();
    match k {
        0 => (S { k: TagClass::Bool, w: w & 1 }, Datacell::new_bool(w & 1 == 1)),
        1 => (S { k: TagClass::UnsignedInt, w }, Datacell::new_uint(w, uspec(g))),
        2 => (S { k: TagClass::SignedInt, w }, Datacell::new_sint(w as i64, sspec(g))),
        _ => (S { k: TagClass::Float, w }, Datacell::new_float(f64::from_bits(w), fspec(g))),
    }
}
fn reads(c: &Datacell, s: &S) {
    only(c, s.k);
    match s.k {
        TagClass::Bool => assert!(c.bool() == (s.w == 1), "C[cell]: another bool is read back"),
        TagClass::UnsignedInt => assert!(c.uint() == s.w, "C[cell]: another unsigned integer is read back"),
        TagClass::SignedInt => assert!(c.sint() == s.w as i64, "C[cell]: another signed integer is read back"),
        _ => assert!(c.float().to_bits() == s.w, "C[cell]: another float is read back"),
    }
}
pub fn scalar_roundtrip(g: &mut Gen) {
    let (s, mut c) = scalar(g);
    reads(&c, &s);
    g.cover(true);
    // an integer cell retagged to another width of its class keeps its value
    if s.k == TagClass::UnsignedInt { let t: FullTag = uspec(g).into(); unsafe { c.set_tag(t) }; assert!(c.tag() == t, "C[cell]: tag not set"); reads(&c, &s); assert!(c.into_uint() == Some(s.w), "C[cell]: into_uint"); }
    else { assert!(c.into_uint().is_none(), "C[cell]: into_uint of another class") }
}
pub fn scalar_tags(g: &mut Gen) {
    let (u, s, f) = (uspec(g), sspec(g), fspec(g));
    assert!(Datacell::new_uint(g.u64(), u).tag() == u.into(), "C[cell]: declared unsigned width lost");
    assert!(Datacell::new_sint(g.i64(), s).tag() == s.into(), "C[cell]: declared signed width lost");
    assert!(Datacell::new_float(f64::from_bits(g.u64()), f).tag() == f.into(), "C[cell]: declared float width lost");
    let w = g.u64();
    let c = unsafe { Datacell::new_qw(w, u.into()) };
    reads(&c, &S { k: TagClass::UnsignedInt, w });
    g.cover(true);
}
/// equality of cells is equality of class and value, null only equals null
pub fn scalar_eq(g: &mut Gen) { let (x, y) = (g.range(0, 3), g.range(0, 3)); scalar_eq_of(g, x, y) }
pub fn scalar_eq_of(g: &mut Gen, x: usize, y: usize) {
    let ((a, c), (b, d)) = (scalar_of(g, x), scalar_of(g, y));
    let want = a.k == b.k && if a.k == TagClass::Float { f64::from_bits(a.w) == f64::from_bits(b.w) } else { a.w == b.w };
    assert!((c == d) == want, "C[cell]: equality differs from equality of class and value");
    assert!((d == c) == want, "C[cell]: equality is not symmetric");
    let (n, m) = (Datacell::null(), Datacell::null());
    assert!(n == m && n != c && d != n, "C[cell]: null compares equal to a value, or not to null");
    std::mem::forget((c, d, n, m));
    g.cover(want || x != y);
}
pub fn null(g: &mut Gen) {
    let mut c = Datacell::null();
    let t = if g.bool() { uspec(g).into() } else { FullTag::BOOL };
    unsafe { c.set_tag(t) }
    assert!(c.is_null() && !c.is_init(), "C[cell]: null is not null");
    assert!(c.try_bool().is_none() && c.try_uint().is_none() && c.try_sint().is_none() && c.try_float().is_none() && c.try_bin().is_none() && c.try_str().is_none() && c.try_list().is_none(), "C[cell]: a value is read from null");
    g.cover(true);
}
/// literals become cells with the same value, and so do virtual cells
pub fn from_lit(g: &mut Gen) { let k = g.range(0, 3); from_lit_of(g, k) }
pub fn from_lit_of(g: &mut Gen, k: usize) {
    let w = g.u64();
    let (s, l) = match k {
        0 => (S { k: TagClass::Bool, w: w & 1 }, Lit::new_bool(w & 1 == 1)),
        1 => (S { k: TagClass::UnsignedInt, w }, Lit::new_uint(w)),
        2 => (S { k: TagClass::SignedInt, w }, Lit::new_sint(w as i64)),
        _ => (S { k: TagClass::Float, w }, Lit::new_float(f64::from_bits(w))),
    };
    let l2 = l.as_ir();
    let c = Datacell::from(l2);
    reads(&c, &s);
    if l.kind().tag_unique().is_unique() {
        let u = l.kind().tag_unique();
        let v = VirtualDatacell::new(l.clone(), u);
        reads(&v, &s);
        assert!(*v == c || s.k == TagClass::Float, "C[cell]: the virtual cell differs from the cell");
        let tag = c.tag();
        let pk = unsafe { PrimaryIndexKey::new_from_dc(c) };
        let p = VirtualDatacell::new_pk(&pk, tag);
        reads(&p, &s);
        assert!(p.tag() == tag, "C[cell]: the key cell has another type");
    }
    g.cover(true);
}
/// variable length cells: the very bytes, for every length (the buffer is an arbitrary allocation)
fn buf(g: &mut Gen, max: usize) -> (Box<[u8]>, usize, u8) {
    let n = g.range(0, max);
    let mut v: Vec<u8> = vec![0; n];
    let i = g.usize();
    let x = g.u8() & 0x7f;
    if i < n { v[i] = x }
    (v.into_boxed_slice(), i, x)
}
pub fn bin_roundtrip(g: &mut Gen) {
    let (b, i, x) = buf(g, if Gen::NATIVE { 64 } else { 1 << 40 });
    let (n, p) = (b.len(), b.as_ptr());
    let c = Datacell::new_bin(b);
    only(&c, TagClass::Bin);
    assert!(c.tag() == FullTag::BIN, "C[cell]: binary tag");
    assert!(c.bin().len() == n && (i >= n || c.bin()[i] == x), "C[cell]: other bytes are read back");
    match c.into_bin() { Some(v) => assert!(v.len() == n && (i >= n || v[i] == x) && (n == 0 || v.as_ptr() == p), "C[cell]: into_bin"), None => assert!(false, "C[cell]: into_bin") }
    g.cover(n > 3);
}
pub fn str_roundtrip(g: &mut Gen) {
    let (b, i, x) = buf(g, if Gen::NATIVE { 64 } else { 1 << 40 });
    let (n, p) = (b.len(), b.as_ptr());
    let c = Datacell::new_str(unsafe { std::str::from_boxed_utf8_unchecked(b) });
    only(&c, TagClass::Str);
    assert!(c.tag() == FullTag::STR, "C[cell]: string tag");
    assert!(c.str().len() == n && (i >= n || c.str().as_bytes()[i] == x), "C[cell]: other text is read back");
    match c.into_str() { Some(v) => assert!(v.len() == n && (i >= n || v.as_bytes()[i] == x) && (n == 0 || v.as_ptr() == p), "C[cell]: into_str"), None => assert!(false, "C[cell]: into_str") }
    g.cover(n > 3);
}
/// literals with bytes: a new cell with the same bytes, in memory of its own
pub fn lit_bytes(g: &mut Gen) {
    let (b, i, x) = buf(g, if Gen::NATIVE { 64 } else { 1 << 30 });
    let n = b.len();
    let is = |y: &[u8]| y.len() == n && (i >= n || y[i] == x);
    let s = g.bool();
    let l = if s { Lit::new_str(unsafe { str::from_utf8_unchecked(&b) }) } else { Lit::new_bin(&b) };
    let c = Datacell::from(l.as_ir());
    only(&c, if s { TagClass::Str } else { TagClass::Bin });
    assert!(is(unsafe { c.read_bin() }), "C[cell]: the cell holds other bytes than the literal");
    assert!(n == 0 || unsafe { c.read_bin() }.as_ptr() != b.as_ptr(), "C[cell]: the cell aliases the literal");
    g.cover(n == 4);
}
pub fn virtual_bytes(g: &mut Gen) {
    let (b, i, x) = buf(g, if Gen::NATIVE { 64 } else { 1 << 30 });
    let n = b.len();
    let is = |y: &[u8]| y.len() == n && (i >= n || y[i] == x);
    let s = g.bool();
    let l = if s { Lit::new_str(unsafe { str::from_utf8_unchecked(&b) }) } else { Lit::new_bin(&b) };
    let u = l.kind().tag_unique();
    let v = VirtualDatacell::new(l, u);
    only(&v, if s { TagClass::Str } else { TagClass::Bin });
    assert!(is(unsafe { v.read_bin() }), "C[cell]: the virtual cell differs from the literal");
    let p = b.as_ptr() as usize;
    let tag = v.tag();
    std::mem::forget(v);
    let pk = ManuallyDrop::new(unsafe { PrimaryIndexKey::new_from_dual(u, n as u64, p) });
    let k = VirtualDatacell::new_pk(&pk, tag);
    only(&k, if s { TagClass::Str } else { TagClass::Bin });
    assert!(is(unsafe { k.read_bin() }) && k.tag() == tag, "C[cell]: the key cell differs from the key");
    g.cover(n == 4);
}
pub fn bytes_eq(g: &mut Gen) { let (ka, kb) = (g.bool(), g.bool()); bytes_eq_of(g, ka, kb) }
pub fn bytes_eq_of(g: &mut Gen, ka: bool, kb: bool) {
    let (a, b): ([u8; 2], [u8; 2]) = (g.array(), g.array());
    let (n, m) = (g.range(0, 2), g.range(0, 2));
    // cells over borrowed bytes (never dropped): equality does not depend on where the bytes live
    let mk = |k: bool, x: &[u8]| ManuallyDrop::new(unsafe { Datacell::new(if k { FullTag::STR } else { FullTag::BIN }, DataRaw::word(WordIO::store((x.len(), x.as_ptr() as *mut u8)))) });
    let (c, d) = (mk(ka, &a[..n]), mk(kb, &b[..m]));
    let same = n == m && (n < 1 || a[0] == b[0]) && (n < 2 || a[1] == b[1]);
    assert!((*c == *d) == (ka == kb && same), "C[cell]: equality of byte cells differs from equality of class and bytes");
    assert!(Datacell::null() != *c, "C[cell]: null equals a value");
    g.cover(same && n > 0);
}

#[cfg(not(kani))]
mod deep {
    use super::*;
    pub fn model(g: &mut Gen, d: usize) -> M {
        match g.u8() % if d > 0 { 9 } else { 7 } {
            0 => M::Null, 1 => M::Bool(g.bool()), 2 => M::U(g.u64()), 3 => M::S(g.i64()), 4 => M::F(g.u64()),
            5 => M::Bin(g.bytes(9)), 6 => M::Str(String::from_utf8_lossy(&g.bytes(9)).into_owned()),
            _ => { let n = g.range(0, 3); M::List((0..n).map(|_| model(g, d - 1)).collect()) }
        }
    }
    pub fn build(g: &mut Gen, m: &M) -> Datacell {
        match m {
            M::Null => Datacell::null(), M::Bool(b) => Datacell::new_bool(*b), M::U(u) => Datacell::new_uint(*u, uspec(g)), M::S(s) => Datacell::new_sint(*s, sspec(g)),
            M::F(f) => Datacell::new_float(f64::from_bits(*f), fspec(g)), M::Bin(b) => Datacell::new_bin(b.clone().into_boxed_slice()), M::Str(s) => Datacell::new_str(s.clone().into_boxed_str()),
            M::List(l) => Datacell::new_list(l.iter().map(|x| build(g, x)).collect()),
        }
    }
    pub fn shows(c: &Datacell, m: &M) -> bool {
        match m {
            M::Null => c.is_null(), M::Bool(b) => c.try_bool() == Some(*b), M::U(u) => c.try_uint() == Some(*u), M::S(s) => c.try_sint() == Some(*s), M::F(f) => c.try_float().map(f64::to_bits) == Some(*f),
            M::Bin(b) => c.try_bin() == Some(b), M::Str(s) => c.try_str() == Some(s),
            M::List(l) => match c.try_list() { Some(x) => { let x = x.read(); x.len() == l.len() && x.iter().zip(l).all(|(a, b)| shows(a, b)) } None => false },
        }
    }
    pub fn same(a: &M, b: &M) -> bool {
        match (a, b) {
            (M::Null, M::Null) => true, (M::Bool(a), M::Bool(b)) => a == b, (M::U(a), M::U(b)) => a == b, (M::S(a), M::S(b)) => a == b, (M::F(a), M::F(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            (M::Bin(a), M::Bin(b)) => a == b, (M::Str(a), M::Str(b)) => a == b, (M::List(a), M::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
            _ => false,
        }
    }
    pub fn nested(g: &mut Gen) {
        let m = model(g, 3);
        let n = if g.bool() { m.clone() } else { model(g, 3) };
        let (c, d) = (build(g, &m), build(g, &n));
        g.note(|| format!("{m:?} / {n:?}"));
        assert!(shows(&c, &m) && shows(&d, &n), "C[cell]: {c:?} is read back for {m:?}");
        assert!((c == d) == same(&m, &n), "C[cell]: equality of {m:?} and {n:?} is {}", c == d);
        #[cfg(test)]
        { let e = c.clone(); assert!(shows(&e, &m), "C[cell]: a copy of {m:?} is {e:?}"); drop(c); assert!(shows(&e, &m), "C[cell]: a copy of {m:?} changes with the original"); }
        match &m {
            M::List(l) => { let x = build(g, &m).into_list().expect("C[cell]: into_list"); assert!(x.len() == l.len() && x.iter().zip(l).all(|(a, b)| shows(a, b)), "C[cell]: into_list") }
            M::U(u) => assert!(build(g, &m).into_uint() == Some(*u), "C[cell]: into_uint"),
            M::Bin(u) => assert!(build(g, &m).into_bin().as_ref() == Some(u), "C[cell]: into_bin"),
            M::Str(u) => assert!(build(g, &m).into_str().as_ref() == Some(u), "C[cell]: into_str"),
            _ => { assert!(build(g, &m).into_list().is_none() && build(g, &m).into_uint().is_none() && build(g, &m).into_str().is_none() && build(g, &m).into_bin().is_none(), "C[cell]: into_* of another class") }
        }
        g.nontrivial();
    }
}
#[cfg(test)]
mod n { pub use super::deep::nested; }

vp_native!(n_scalar, scalar_roundtrip, 24, 500);
vp_native!(n_tags, scalar_tags, 40, 500);
vp_native!(n_scalar_eq, scalar_eq, 24, 500);
vp_native!(n_null, null, 8, 20);
vp_native!(n_lit, from_lit, 16, 500);
vp_native!(n_bin, bin_roundtrip, 16, 200);
vp_native!(n_str, str_roundtrip, 16, 200);
vp_native!(n_lit_bytes, lit_bytes, 16, 200);
vp_native!(n_virtual_bytes, virtual_bytes, 16, 200);
vp_native!(n_bytes_eq, bytes_eq, 16, 200);
vp_native!(n_nested, deep::nested, 120, 2000);

#[cfg(any(kani, test))]
mod k {
    use super::*;
    vp_kani!(k_scalar, 2, scalar_roundtrip);
    vp_kani!(k_tags, 2, scalar_tags);
    macro_rules! eqs { ($($f:ident $x:literal;)*) => { $(fn $f(g: &mut Gen) { let mut y = 0; while y < 4 { scalar_eq_of(g, $x, y); y += 1 } })* } }
    eqs! { eq_bool 0; eq_uint 1; eq_sint 2; eq_float 3; }
    vp_kani!(k_scalar_eq_bool, 5, eq_bool);
    vp_kani!(k_scalar_eq_uint, 5, eq_uint);
    vp_kani!(k_scalar_eq_sint, 5, eq_sint);
    vp_kani!(k_scalar_eq_float, 5, eq_float);
    macro_rules! lits { ($($f:ident $x:literal;)*) => { $(fn $f(g: &mut Gen) { from_lit_of(g, $x) })* } }
    lits! { l_bool 0; l_uint 1; l_sint 2; l_float 3; }
    vp_kani!(k_lit_bool, 2, l_bool);
    vp_kani!(k_lit_uint, 2, l_uint);
    vp_kani!(k_lit_sint, 2, l_sint);
    vp_kani!(k_lit_float, 2, l_float);
    vp_kani!(k_null, 2, null);
    vp_kani!(k_bin, 2, bin_roundtrip);
    vp_kani!(k_str, 2, str_roundtrip);
    vp_kani!(k_lit_bytes, 2, lit_bytes);
    vp_kani!(k_virtual_bytes, 2, virtual_bytes);
    fn bb(g: &mut Gen) { bytes_eq_of(g, false, false) }
    fn ss(g: &mut Gen) { bytes_eq_of(g, true, true) }
    fn sb(g: &mut Gen) { bytes_eq_of(g, true, false) }
    vp_kani!(kb_bytes_eq_bin, 4, bb);
    vp_kani!(kb_bytes_eq_str, 4, ss);
    vp_kani!(kb_bytes_eq_mixed, 4, sb);
}
