// @attach server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
// @feature p13 p14
// @native
//! P13 / P14: stored dictionaries, cells, fields, models, spaces and DDL events: round trips; damaged bytes.
use super::*;
use super::{model::*, space::*};
use crate::vp::*;
use crate::engine::core::{model::{Field, Layer, ModelData}, space::Space};
use crate::engine::data::{cell::Datacell, tag::{DataTag, TagSelector, UIntSpec, SIntSpec, FloatSpec}, DictEntryGeneric, DictGeneric};
use crate::engine::idx::{IndexBaseSpec, IndexSTSeqCns, STIndex, STIndexSeq};
use crate::engine::ql::ast::*;
use crate::engine::storage::common_encoding::r1::{map::{GenericDictSpec, FieldMapSpec, PersistMapImpl}, obj::{self, cell::{self, StorageCellTypeID}, LayerRef, FieldRef, ModelLayoutRef, SpaceLayoutRef}};
use crate::engine::txn::{gns::{model::*, space::*}, ModelIDRef, SpaceIDRef};
use crate::engine::fractal::FractalModelDriver;
use crate::util::compiler::TaggedEnum;
use std::collections::{BTreeMap, HashMap};

pub fn gstr(g: &mut Gen, max: usize) -> String { let b = g.bytes(max); String::from_utf8_lossy(&b).into_owned() }
fn gcell(g: &mut Gen, d: usize) -> Datacell {
    match g.u8() % if d > 0 { 9 } else { 8 } {
        0 => Datacell::null(), 1 => Datacell::new_bool(g.bool()),
        2 => { let k = g.range(0, 3); let v = g.u64() >> [56, 48, 32, 0][k]; unsafe { Datacell::new_uint(v, UIntSpec::from_full(TagSelector::from_raw(1 + k as u8).into_full())) } }
        3 => { let k = g.range(0, 3); let v = g.i64() >> [56, 48, 32, 0][k]; unsafe { Datacell::new_sint(v, SIntSpec::from_full(TagSelector::from_raw(5 + k as u8).into_full())) } }
        4 => { let k = g.range(0, 1); unsafe { Datacell::new_float(f64::from_bits(g.u64()), FloatSpec::from_full(TagSelector::from_raw(9 + k as u8).into_full())) } }
        5 => Datacell::new_bin(g.bytes(20).into_boxed_slice()), 6 | 7 => Datacell::new_str(gstr(g, 20).into_boxed_str()),
        _ => { let n = g.range(0, 4); Datacell::new_list((0..n).map(|_| gcell(g, d - 1)).collect()) }
    }
}
fn gdict(g: &mut Gen, d: usize) -> DictGeneric {
    let n = g.range(0, 4);
    (0..n).map(|_| { let k = gstr(g, 9).into_boxed_str(); let v = if d > 0 && g.range(0, 2) == 0 { DictEntryGeneric::Map(gdict(g, d - 1)) } else { DictEntryGeneric::Data(gcell(g, 2)) }; (k, v) }).collect()
}
pub fn gtag(g: &mut Gen, hi: u8) -> TagSelector { let k = g.range(0, hi as usize) as u8; unsafe { TagSelector::from_raw(k) } }
pub fn glayers(g: &mut Gen) -> Vec<TagSelector> { let n = g.range(0, 3); let mut v = vec![TagSelector::List; n]; v.push(gtag(g, 12)); v }
fn mkfield(l: &[TagSelector], null: bool) -> Field { let mut v = crate::engine::mem::VInline::new(); for t in l { v.push(Layer::new_empty_props(t.into_full())) } Field::new(v, null) }
type FM = Vec<(String, Vec<TagSelector>, bool)>;
pub fn gfields(g: &mut Gen) -> FM { let n = g.range(0, 4); let mut v: FM = vec![]; for _ in 0..n { let k = gstr(g, 8); if v.iter().all(|x| x.0 != k) { let l = glayers(g); let b = g.bool(); v.push((k, l, b)) } } v }
fn mkfm(f: &FM) -> IndexSTSeqCns<Box<str>, Field> { let mut m = IndexSTSeqCns::idx_init(); for (k, l, n) in f { m.st_insert(k.clone().into_boxed_str(), mkfield(l, *n)); } m }
fn fm_is(m: &IndexSTSeqCns<Box<str>, Field>, f: &FM) -> bool { m.st_len() == f.len() && m.stseq_ord_kv().zip(f).all(|((k, v), (a, l, n))| **k == **a && field_is(v, l, *n)) }
fn field_is(v: &Field, l: &[TagSelector], null: bool) -> bool { v.is_nullable() == null && v.layers().len() == l.len() && v.layers().iter().zip(l).all(|(x, t)| x.tag().tag_selector() == *t) }
/// deep equality that also looks at the full tag and at floats bit by bit
fn cell_is(a: &Datacell, b: &Datacell) -> bool {
    if a.is_null() || b.is_null() { return a.is_null() && b.is_null() }
    if a.tag().tag_selector() != b.tag().tag_selector() { return false }
    unsafe { match (a.try_list(), b.try_list()) { (Some(x), Some(y)) => { let (x, y) = (x.read(), y.read()); x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| cell_is(p, q)) } (None, None) => match a.try_float() { Some(f) => Some(f.to_bits()) == b.try_float().map(|x| x.to_bits()), None => a == b }, _ => false } }
}
fn dict_is(a: &DictGeneric, b: &DictGeneric) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| match (v, b.get(k)) { (DictEntryGeneric::Map(x), Some(DictEntryGeneric::Map(y))) => dict_is(x, y), (DictEntryGeneric::Data(x), Some(DictEntryGeneric::Data(y))) => cell_is(x, y), _ => false })
}
fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
/// encode, decode, and require that exactly the encoded bytes are consumed
fn enc<T: PersistObject>(x: T::InputType) -> Vec<u8> { let mut v = vec![0xAA; 3]; T::default_full_enc(&mut v, x); assert!(v[..3] == [0xAA; 3], "C[enc]: bytes before the object are changed"); v.split_off(3) }
fn dec_all<T: PersistObject>(b: &[u8], what: &str) -> T::OutputType {
    // the object may be followed by others
    let mut x = b.to_vec();
    x.extend([0x5A; 7]);
    let mut s = BufferedScanner::new(&x);
    let r = T::default_full_dec(&mut s).unwrap_or_else(|e| panic!("C[round]: {what} just encoded is refused ({e:?}): {}", hx(b)));
    assert!(s.cursor() == b.len(), "C[round]: decoding {what} of {} bytes consumed {}", b.len(), s.cursor());
    r
}
pub fn dicts(g: &mut Gen) {
    let d = gdict(g, 3);
    g.note(|| format!("{d:?}"));
    let b = enc::<PersistMapImpl<GenericDictSpec>>(&d);
    let r = dec_all::<PersistMapImpl<GenericDictSpec>>(&b, "a dictionary");
    assert!(dict_is(&d, &r), "C[round]: {d:?} comes back as {r:?}");
    g.cover(!d.is_empty());
}
pub fn cells(g: &mut Gen) {
    let c = gcell(g, 3);
    g.note(|| format!("{c:?}"));
    cell_round(&c, &|| format!("{c:?}"));
    g.nontrivial();
}
fn cell_round(c: &Datacell, show: &dyn Fn() -> String) {
    let mut b = vec![];
    cell::encode(&mut b, c);
    let n = b.len();
    b.extend([0x5A; 7]);
    let mut s = BufferedScanner::new(&b);
    let t = unsafe { s.next_byte() };
    assert!(StorageCellTypeID::is_valid(t) && s.has_left(StorageCellTypeID::expect_atleast(t)), "C[round]: the type byte {t} of {} is not one the decoder takes", show());
    let r: Result<Datacell, ()> = unsafe { cell::decode_element::<Datacell, BufferedScanner>(&mut s, StorageCellTypeID::from_raw(t)) };
    let r = r.unwrap_or_else(|_| panic!("C[round]: {} just encoded is refused", show()));
    assert!(cell_is(c, &r) && s.cursor() == n, "C[round]: {} comes back as {} ({} of {n} bytes)", show(), if n < 1000 { format!("{r:?}") } else { "something else".into() }, s.cursor());
}
/// values of every kind around the sizes where a length needs another byte, and above a mebibyte
pub fn big(g: &mut Gen) {
    const N: [usize; 10] = [255, 256, 65535, 65536, 65537, 70001, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 3];
    let (kind, n) = (g.range(0, 4), N[g.range(0, 9)]);
    let n = if kind == 2 || kind == 4 { n.min(70001) } else { n };
    let c = match kind {
        0 => Datacell::new_bin((0..n).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<u8>>().into_boxed_slice()),
        1 => Datacell::new_str((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>().into_boxed_str()),
        2 => Datacell::new_list((0..n).map(|i| Datacell::new_bool(i % 3 == 0)).collect()),
        3 => Datacell::new_list(vec![Datacell::new_bool(true), Datacell::new_bin(vec![7; n].into_boxed_slice()), Datacell::new_bool(false)]),
        _ => {
            let d: DictGeneric = [("k".repeat(n).into_boxed_str(), DictEntryGeneric::Data(Datacell::new_str("v".repeat(n).into_boxed_str()))), ("x".into(), DictEntryGeneric::Data(Datacell::new_bool(true)))].into();
            g.note(|| format!("a dictionary with a key of {n} bytes"));
            let r = dec_all::<PersistMapImpl<GenericDictSpec>>(&enc::<PersistMapImpl<GenericDictSpec>>(&d), "a dictionary");
            assert!(dict_is(&d, &r), "C[round]: a dictionary with a key of {n} bytes comes back as something else");
            return g.nontrivial();
        }
    };
    g.note(|| format!("kind {kind}, {n} elements"));
    cell_round(&c, &|| format!("a value of kind {kind} of {n} elements"));
    g.nontrivial();
}
pub fn fields(g: &mut Gen) {
    let f = gfields(g);
    let l = glayers(g);
    let n = g.bool();
    let x = mkfield(&l, n);
    let b = enc::<FieldRef>(&x);
    assert!(field_is(&dec_all::<FieldRef>(&b, "a field"), &l, n), "C[round]: the field {l:?} {n} comes back differently");
    let m = mkfm(&f);
    let b = enc::<PersistMapImpl<FieldMapSpec<IndexSTSeqCns<Box<str>, Field>>>>(&m);
    let r = dec_all::<PersistMapImpl<FieldMapSpec<IndexSTSeqCns<Box<str>, Field>>>>(&b, "a field map");
    assert!(fm_is(&r, &f), "C[round]: the fields {f:?} come back differently");
    g.nontrivial();
}
fn gmodel(g: &mut Gen) -> (Uuid, String, TagSelector, FM, ModelData) {
    let u = Uuid::from_bytes(g.array::<16>());
    let k = gstr(g, 9);
    let t = gtag(g, 13);
    let f = gfields(g);
    let m = ModelData::new_restore(u, k.clone().into_boxed_str(), t.into_full(), mkfm(&f));
    (u, k, t, f, m)
}
fn model_is(r: &ModelData, u: Uuid, k: &str, t: TagSelector, f: &FM) -> bool {
    r.get_uuid() == u && r.p_key() == k && r.p_tag().tag_selector() == t && r.fields().st_len() == f.len() && r.fields().stseq_ord_kv().zip(f).all(|((a, v), (b, l, n))| a.as_str() == b && field_is(v, l, *n))
}
pub fn models(g: &mut Gen) {
    let (u, k, t, f, m) = gmodel(g);
    g.note(|| format!("{k:?} {t:?} {f:?}"));
    let b = enc::<ModelLayoutRef>((&m).into());
    let r = dec_all::<ModelLayoutRef>(&b, "a model");
    assert!(model_is(&r, u, &k, t, &f), "C[round]: the model {k:?} {t:?} {f:?} comes back as {r:?}");
    g.cover(f.len() > 1);
}
fn gspace(g: &mut Gen) -> (Uuid, DictGeneric, Space) { let u = Uuid::from_bytes(g.array::<16>()); let d = gdict(g, 2); (u, d.clone(), Space::new_restore_empty(u, d)) }
pub fn spaces(g: &mut Gen) {
    let (u, d, s) = gspace(g);
    let b = enc::<SpaceLayoutRef>((&s, s.props()).into());
    let r = dec_all::<SpaceLayoutRef>(&b, "a space");
    assert!(r.get_uuid() == u && dict_is(&d, r.props()) && r.models().is_empty(), "C[round]: the space {u:?} {d:?} comes back as {r:?}");
    g.nontrivial();
}
fn sid_is(r: &SpaceIDRes, u: Uuid, n: &str) -> bool { r.uuid == u && &*r.name == n }
pub fn events(g: &mut Gen) {
    let (su, d, s) = gspace(g);
    let sn = gstr(g, 9);
    let (mu, k, t, f, m) = gmodel(g);
    let mn = gstr(g, 9);
    let ver = g.u64();
    let kind = g.range(0, 7);
    g.note(|| format!("event {kind}: {su:?} {sn:?} {d:?} / {mu:?} {mn:?} v{ver} {k:?} {t:?} {f:?}"));
    let mid = ModelIDRef::new(SpaceIDRef::new(&sn, &s), &mn, mu, ver);
    let ok = match kind {
        0 => { let r = dec_all::<CreateSpaceTxn>(&enc::<CreateSpaceTxn>(CreateSpaceTxn::new(s.props(), &sn, &s)), "create space"); *r.space_name == *sn && r.space.get_uuid() == su && dict_is(r.space.props(), &d) }
        1 => { let r = dec_all::<AlterSpaceTxn>(&enc::<AlterSpaceTxn>(AlterSpaceTxn::new(SpaceIDRef::new(&sn, &s), &d)), "alter space"); sid_is(&r.space_id, su, &sn) && dict_is(&r.space_meta, &d) }
        2 => { let r = dec_all::<DropSpaceTxn>(&enc::<DropSpaceTxn>(DropSpaceTxn::new(SpaceIDRef::new(&sn, &s))), "drop space"); sid_is(&r, su, &sn) }
        3 => { let r = dec_all::<CreateModelTxn>(&enc::<CreateModelTxn>(CreateModelTxn::new(SpaceIDRef::new(&sn, &s), &mn, &m)), "create model"); sid_is(&r.space_id, su, &sn) && *r.model_name == *mn && model_is(&r.model, mu, &k, t, &f) }
        4 => { let x = mkfm(&f); let r = dec_all::<AlterModelAddTxn>(&enc::<AlterModelAddTxn>(AlterModelAddTxn::new(mid, &x)), "alter model add"); mid_is(&r.model_id, su, &sn, mu, &mn, ver) && fm_is(&r.new_fields, &f) }
        5 => { let names: Vec<_> = f.iter().map(|x| x.0.as_str().into()).collect(); let r = dec_all::<AlterModelRemoveTxn>(&enc::<AlterModelRemoveTxn>(AlterModelRemoveTxn::new(mid, &names)), "alter model remove"); mid_is(&r.model_id, su, &sn, mu, &mn, ver) && r.removed_fields.len() == f.len() && r.removed_fields.iter().zip(&f).all(|(a, b)| **a == *b.0) }
        6 => { let x: HashMap<Box<str>, Field> = f.iter().map(|(k, l, n)| (k.clone().into_boxed_str(), mkfield(l, *n))).collect(); let r = dec_all::<AlterModelUpdateTxn>(&enc::<AlterModelUpdateTxn>(AlterModelUpdateTxn::new(mid, &x)), "alter model update"); mid_is(&r.model_id, su, &sn, mu, &mn, ver) && r.updated_fields.st_len() == f.len() && f.iter().all(|(k, l, n)| r.updated_fields.st_get(k.as_str()).map_or(false, |v| field_is(v, l, *n))) }
        _ => { let r = dec_all::<DropModelTxn>(&enc::<DropModelTxn>(DropModelTxn::new(mid)), "drop model"); mid_is(&r, su, &sn, mu, &mn, ver) }
    };
    assert!(ok, "C[round]: the event {kind} comes back differently");
    g.nontrivial();
}
fn mid_is(r: &ModelIDRes, su: Uuid, sn: &str, mu: Uuid, mn: &str, ver: u64) -> bool { *r == ModelIDRes::new(SpaceIDRes { uuid: su, name: sn.into() }, mn.into(), mu, ver) }

// ---- P14
/// damage: cut, flip, set a length field, or start from noise
pub fn damage(g: &mut Gen, good: Vec<u8>) -> Vec<u8> {
    let mut b = if g.range(0, 7) == 0 { g.bytes(80) } else { good };
    for _ in 0..g.range(1, 3) {
        if b.is_empty() { break }
        let i = g.range(0, b.len() - 1);
        match g.u8() % 5 {
            0 => b.truncate(i),
            1 => b[i] = g.u8(),
            2 => { let v = *g.pick(&[0u64, 1, 2, 7, 8, 9, 17, 255, 1 << 20, 1 << 33, i64::MAX as u64, u64::MAX, u64::MAX - 7, u64::MAX - 40]); for (k, x) in v.to_le_bytes().iter().enumerate() { if i + k < b.len() { b[i + k] = *x } } }
            3 => { let k = g.range(0, b.len() - i); let c: Vec<u8> = b[i..i + k].to_vec(); b.extend(c) }
            _ => { b[i] = b[i].wrapping_add(1) }
        }
    }
    b
}
/// the decoder works on `data` inside a larger buffer whose surroundings vary: it must stop inside, and never look outside
pub fn contained<T>(data: &[u8], what: &str, f: impl Fn(&mut BufferedScanner) -> Option<T>, same: impl Fn(&T, &T) -> bool) -> bool {
    let mut outs = vec![];
    for fill in [0x00u8, 0x01, 0x7F] {
        let mut big = data.to_vec();
        big.extend(std::iter::repeat(fill).take(4096));
        let mut s = BufferedScanner::new(&big[..data.len()]);
        let r = match guarded(|| { let r = f(&mut s); (r, s.cursor()) }) { Ok(r) => r, Err(m) => panic!("C[clean]: decoding {what} from {} panics: {m}", hx(data)) };
        assert!(r.1 <= data.len(), "C[clean]: decoding {what} reads to {} of {} bytes: {}", r.1, data.len(), hx(data));
        outs.push(r);
    }
    for k in 1..3 { let same = match (&outs[0].0, &outs[k].0) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }; assert!(same && outs[0].1 == outs[k].1, "C[clean]: decoding {what} depends on bytes outside the input: {}", hx(data)) }
    outs[0].0.is_some()
}
fn dec1<T: PersistObject>(s: &mut BufferedScanner) -> Option<T::OutputType> { T::default_full_dec(s).ok() }
fn show<X: std::fmt::Debug>(a: &X, b: &X) -> bool { let _ = (a, b); true }
pub fn bad_dicts(g: &mut Gen) { let d = gdict(g, 3); let b = damage(g, enc::<PersistMapImpl<GenericDictSpec>>(&d)); g.note(|| hx(&b)); let ok = contained(&b, "a dictionary", dec1::<PersistMapImpl<GenericDictSpec>>, dict_is); g.cover(ok) }
pub fn bad_cells(g: &mut Gen) {
    let c = gcell(g, 3);
    let mut b = vec![];
    cell::encode(&mut b, &c);
    let b = damage(g, b);
    g.note(|| hx(&b));
    let ok = contained(&b, "a cell", |s| { if !s.has_left(1) { return None } let t = unsafe { s.next_byte() }; if !StorageCellTypeID::is_valid(t) || !s.has_left(StorageCellTypeID::expect_atleast(t)) { return None } unsafe { cell::decode_element::<Datacell, BufferedScanner>(s, StorageCellTypeID::from_raw(t)) }.ok() }, cell_is);
    g.cover(ok);
}
fn same_fm(a: &IndexSTSeqCns<Box<str>, Field>, b: &IndexSTSeqCns<Box<str>, Field>) -> bool { a.st_len() == b.st_len() && a.stseq_ord_kv().zip(b.stseq_ord_kv()).all(|(x, y)| x.0 == y.0 && x.1 == y.1) }
pub fn bad_fields(g: &mut Gen) {
    let f = gfields(g);
    let ok = if g.bool() { let x = mkfm(&f); let b = damage(g, enc::<PersistMapImpl<FieldMapSpec<IndexSTSeqCns<Box<str>, Field>>>>(&x)); g.note(|| hx(&b)); contained(&b, "a field map", dec1::<PersistMapImpl<FieldMapSpec<IndexSTSeqCns<Box<str>, Field>>>>, same_fm) }
        else { let x = mkfield(&glayers(g), g.bool()); let b = damage(g, enc::<FieldRef>(&x)); g.note(|| hx(&b)); contained(&b, "a field", dec1::<FieldRef>, |a, b| a == b) };
    g.cover(ok);
}
pub fn bad_models(g: &mut Gen) { let m = gmodel(g).4; let b = damage(g, enc::<ModelLayoutRef>((&m).into())); g.note(|| hx(&b)); let ok = contained(&b, "a model", dec1::<ModelLayoutRef>, |a, b| a.get_uuid() == b.get_uuid() && a.p_key() == b.p_key() && a.fields().st_len() == b.fields().st_len()); g.cover(ok) }
pub fn bad_spaces(g: &mut Gen) { let s = gspace(g).2; let b = damage(g, enc::<SpaceLayoutRef>((&s, s.props()).into())); g.note(|| hx(&b)); let ok = contained(&b, "a space", dec1::<SpaceLayoutRef>, |a, b| a.get_uuid() == b.get_uuid() && dict_is(a.props(), b.props())); g.cover(ok) }
pub fn bad_events(g: &mut Gen) {
    let (_, d, s) = gspace(g);
    let sn = gstr(g, 9);
    let (mu, _, _, f, m) = gmodel(g);
    let mn = gstr(g, 9);
    let mid = ModelIDRef::new(SpaceIDRef::new(&sn, &s), &mn, mu, g.u64());
    let kind = g.range(0, 7);
    let x = mkfm(&f);
    let names: Vec<_> = f.iter().map(|x| x.0.as_str().into()).collect();
    let upd: HashMap<Box<str>, Field> = f.iter().map(|(k, l, n)| (k.clone().into_boxed_str(), mkfield(l, *n))).collect();
    macro_rules! go { ($t:ty, $e:expr, $w:literal) => {{ let b = damage(g, enc::<$t>($e)); g.note(|| format!("{}: {}", $w, hx(&b))); contained(&b, $w, dec1::<$t>, show) }} }
    let ok = match kind {
        0 => go!(CreateSpaceTxn, CreateSpaceTxn::new(s.props(), &sn, &s), "create space"),
        1 => go!(AlterSpaceTxn, AlterSpaceTxn::new(SpaceIDRef::new(&sn, &s), &d), "alter space"),
        2 => go!(DropSpaceTxn, DropSpaceTxn::new(SpaceIDRef::new(&sn, &s)), "drop space"),
        3 => go!(CreateModelTxn, CreateModelTxn::new(SpaceIDRef::new(&sn, &s), &mn, &m), "create model"),
        4 => go!(AlterModelAddTxn, AlterModelAddTxn::new(mid, &x), "alter model add"),
        5 => go!(AlterModelRemoveTxn, AlterModelRemoveTxn::new(mid, &names), "alter model remove"),
        6 => go!(AlterModelUpdateTxn, AlterModelUpdateTxn::new(mid, &upd), "alter model update"),
        _ => go!(DropModelTxn, DropModelTxn::new(mid), "drop model"),
    };
    g.cover(ok);
}
#[cfg(feature = "vp_p13")]
vp_native!(n_dicts, dicts, 300, 500);
#[cfg(feature = "vp_p13")]
vp_native!(n_cells, cells, 200, 500);
#[cfg(feature = "vp_p13")]
vp_native!(n_big, big, 4, 50);
#[cfg(feature = "vp_p13")]
vp_native!(n_fields, fields, 200, 500);
#[cfg(feature = "vp_p13")]
vp_native!(n_models, models, 200, 500);
#[cfg(feature = "vp_p13")]
vp_native!(n_spaces, spaces, 300, 500);
#[cfg(feature = "vp_p13")]
vp_native!(n_events, events, 500, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_dicts, bad_dicts, 400, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_cells, bad_cells, 300, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_fields, bad_fields, 300, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_models, bad_models, 300, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_spaces, bad_spaces, 300, 500);
#[cfg(feature = "vp_p14")]
vp_native!(n_bad_events, bad_events, 500, 500);
