// @attach server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
// @feature p10
//! P10: contracts of the storage file header: layout written, acceptance of a block, acceptance by a file specification.
use super::*;
use crate::vp::*;
use crate::engine::storage::v2::raw::spec::{FileClass, FileSpecifier, Header, HeaderImplV2, ModelDataBatchAofV1, SystemDatabaseV1};
use crate::engine::error::ErrorKind;

const MAGIC: [u8; 8] = *b"!NAYASHO";
fn le64(b: &[u8; 64], at: usize) -> u64 { let mut v = 0u64; let mut i = 0; while i < 8 { v |= (b[at + i] as u64) << (8 * i); i += 1 } v }
fn all_eq(b: &[u8; 64], at: usize, want: &[u8]) -> bool { let mut i = 0; while i < want.len() { if b[at + i] != want[i] { return false } i += 1 } true }
// the numbers this generation of the format uses (server tag id, driver, header)
fn versions_ok(b: &[u8; 64]) -> bool { le64(b, 8) == 0 && b_server(b) && le64(b, 24) == 1 }
fn b_server(b: &[u8; 64]) -> bool { let s = <HeaderImplV2 as HeaderV1Spec>::CURRENT_SERVER_VERSION.little_endian(); all_eq(b, 16, &s) }
fn known_hosts(b: &[u8; 64]) -> bool { b[32] <= 13 && b[33] <= 5 && b[34] <= 1 && b[35] <= 1 }

/// a block is accepted exactly when magic and versions are the expected ones and every descriptor is a known one;
/// the accepted header carries exactly the bytes of the block
pub fn decode_any(g: &mut Gen) {
    let mut b: [u8; 64] = g.array();
    if Gen::NATIVE { soften(g, &mut b) }
    let magic = all_eq(&b, 0, &MAGIC);
    let want = magic && versions_ok(&b) && known_hosts(&b) && b[36] <= 1 && b[37] <= 1;
    g.cover(want);
    match Header::decode(b) {
        Ok(h) => {
            assert!(want, "C[decode]: a header with a wrong magic, version or descriptor is accepted");
            assert!(h.host_os().value_u8() == b[32] && h.host_arch().value_u8() == b[33] && h.host_ptr_width().value_u8() == b[34] && h.host_endian().value_u8() == b[35], "C[decode]: the host record differs from the block");
            assert!(h.file_class().value_u8() == b[36] && h.file_specifier().value_u8() == b[37], "C[decode]: file class or specifier differs from the block");
            assert!(h.file_specifier_version().little_endian() == [b[38], b[39]], "C[decode]: the specifier version differs from the block");
            let t = h.epoch_time().to_le_bytes();
            assert!(all_eq(&b, 40, &t), "C[decode]: the time differs from the block");
            assert!(all_eq(&b, 56, &h.padding_block()), "C[decode]: the padding differs from the block");
            assert!(all_eq(&b, 8, &h.header_version().little_endian_u64()) && all_eq(&b, 16, &h.server_version().little_endian()) && all_eq(&b, 24, &h.driver_version().little_endian()), "C[decode]: a version differs from the block");
        }
        Err(e) => {
            assert!(!want, "C[decode]: a well formed header is refused");
            if magic { assert!(matches!(e, StorageError::HeaderDecodeVersionMismatch) == !versions_ok(&b), "C[decode]: a version mismatch is reported as corruption, or the other way round") }
        }
    }
}
#[allow(unused)]
fn soften(g: &mut Gen, b: &mut [u8; 64]) {
    #[cfg(not(kani))]
    {
        // mostly valid blocks with a few damaged bytes
        let good = Header::_encode_auto_raw(FileClass::Batch, FileSpecifier::ModelData, FileSpecifierVersion::__new(g.u16()), g.u64() as u128, [0; 8]);
        let mut x = good;
        for _ in 0..g.range(0, 3) { let i = g.range(0, 63); x[i] = if g.bool() { g.u8() } else { x[i].wrapping_add(1) } }
        *b = x;
    }
}
fn class(b: bool) -> FileClass { if b { FileClass::Batch } else { FileClass::EventLog } }
fn specif(b: bool) -> FileSpecifier { if b { FileSpecifier::ModelData } else { FileSpecifier::GlobalNS } }
/// what is written decodes to exactly what was written
pub fn round_trip(g: &mut Gen) {
    let (c, s, v) = (class(g.bool()), specif(g.bool()), FileSpecifierVersion::__new(g.u16()));
    let t = ((g.u64() as u128) << 64) | g.u64() as u128;
    let pad: [u8; 8] = g.array();
    let b = Header::_encode_auto_raw(c, s, v, t, pad);
    assert!(all_eq(&b, 0, &MAGIC) && all_eq(&b, 40, &t.to_le_bytes()) && b[36] == c.value_u8() && b[37] == s.value_u8() && [b[38], b[39]] == v.little_endian(), "C[encode]: a field of the header block is not where the format has it");
    match Header::decode(b) {
        Ok(h) => {
            assert!(h.file_class() == c && h.file_specifier() == s && h.file_specifier_version() == v && h.epoch_time() == t && h.padding_block() == pad, "C[round]: the decoded header differs from the one written");
            assert!(h.header_version() == versions::HEADER_V1 && h.server_version() == HeaderImplV2::CURRENT_SERVER_VERSION && h.driver_version() == HeaderImplV2::CURRENT_DRIVER_VERSION, "C[round]: a version differs from the one written");
            assert!(h.host_os() == HostOS::new() && h.host_arch() == HostArch::new() && h.host_ptr_width() == HostPointerWidth::new() && h.host_endian() == HostEndian::new(), "C[round]: the host record differs");
        }
        Err(_) => assert!(false, "C[round]: a header just written is refused"),
    }
    g.cover(true);
}
/// a file is accepted for a purpose exactly when class, specifier and specifier version are the ones of that purpose
fn accept<S: FileSpecV1<HeaderSpec = HeaderImplV2, Metadata = Header, DecodeArgs = ()>>(g: &mut Gen, bc: bool, bs: bool) {
    let (c, s, v) = (g.bool(), g.bool(), g.u16());
    let h = Header::_new_auto(class(c), specif(s), FileSpecifierVersion::__new(v), g.u64() as u128, [0; 8]);
    let want = c == bc && s == bs && v == 0;
    g.cover(want);
    let got = S::validate_metadata(h, ());
    match &got {
        Ok(h) => assert!(want && h.file_class() == class(c) && h.file_specifier() == specif(s) && h.file_specifier_version() == FileSpecifierVersion::__new(v), "C[accept]: a file of another class, specifier or version is accepted"),
        Err(_) => assert!(!want, "C[accept]: a file of the right kind is refused"),
    }
    core::mem::forget(got);
}
pub fn accept_sys(g: &mut Gen) { accept::<SystemDatabaseV1>(g, false, false) }
pub fn accept_model(g: &mut Gen) { accept::<ModelDataBatchAofV1>(g, true, true) }

#[cfg(kani)]
use crate::engine::fractal::context::{self, Dmsg, Subsystem};
/// error context (a thread local used for messages only) is replaced by "no context"
#[cfg(kani)]
mod ctx { use super::*; pub fn o() -> Option<Subsystem> { None } pub fn d() -> Option<Dmsg> { None } }
#[cfg(all(any(kani, test), feature = "vp_p10"))]
mod k { use super::*;
    vp_kani!(k_decode, 66, decode_any);
    vp_kani!(k_round_trip, 66, round_trip);
    vp_kani!(k_accept_sys, 4, accept_sys, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
    vp_kani!(k_accept_model, 4, accept_model, kani::stub(context::pop_origin, ctx::o), kani::stub(context::pop_dmsg, ctx::d), kani::stub(context::get_origin, ctx::o), kani::stub(context::get_dmsg, ctx::d));
}
/// whole files: a file written by the server opens for its purpose only; damaged or foreign headers are refused
#[cfg(test)]
pub fn files(g: &mut Gen) {
        use rw::SdssFile;
        use crate::engine::storage::common::interface::fs::{File, FileSystem, FileWrite};
        let p = format!("hdr-{:?}.db", std::thread::current().id());
        let model = g.bool();
        let good = if model { ModelDataBatchAofV1::metadata_to_block(()).unwrap() } else { SystemDatabaseV1::metadata_to_block(()).unwrap() };
        assert!(good.len() == 64, "C[file]: the header is not 64 bytes");
        let mut b = good.clone();
        let n = g.range(0, 2);
        for _ in 0..n { let i = g.range(0, 63); b[i] ^= g.u8() }
        if g.range(0, 9) == 0 { let k = g.range(0, 63); b.truncate(k) }
        let _ = FileSystem::remove_file(&p);
        { let mut f = File::create(&p).unwrap(); f.fwrite_all(&b).unwrap(); }
        let (s, m) = (SdssFile::<SystemDatabaseV1>::open(&p).is_ok(), SdssFile::<ModelDataBatchAofV1>::open(&p).is_ok());
        let _ = FileSystem::remove_file(&p);
        // 0..32 magic and versions; 32..36 host record: any known value; 36..40 class, specifier, version; then time and padding: free
        let fixed = b.len() == 64 && (0..32).all(|i| b[i] == good[i]) && b[32] <= 13 && b[33] <= 5 && b[34] <= 1 && b[35] <= 1;
        let (ws, wm) = (fixed && b[36..40] == [0, 0, 0, 0], fixed && b[36..40] == [1, 1, 0, 0]);
        assert!(s == ws, "C[file]: opened as the system database: {s}, expected {ws}");
        assert!(m == wm, "C[file]: opened as a model journal: {m}, expected {wm}");
        g.nontrivial();
    }
vp_native!(n_files, files, 40, 200);
vp_native!(n_decode, decode_any, 96, 300);
vp_native!(n_round_trip, round_trip, 64, 300);
vp_native!(n_accept_sys, accept_sys, 32, 100);
vp_native!(n_accept_model, accept_model, 32, 100);
