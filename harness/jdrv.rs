// @attach server/src/engine/storage/v2/raw/journal/raw/mod.rs
// @feature p11
//! P11: contracts of journal control (driver) events.
use super::*;
use crate::vp::*;

fn le64(b: &[u8; 64], at: usize) -> u64 { let mut v = 0u64; let mut i = 0; while i < 8 { v |= (b[at + i] as u64) << (8 * i); i += 1 } v }
fn le128(b: &[u8; 64], at: usize) -> u128 { (le64(b, at) as u128) | ((le64(b, at + 8) as u128) << 64) }
fn crc(b: &[u8]) -> u64 { let mut c = SCrc64::new(); c.update(b); c.finish() }

/// a block is an event exactly when kind, payload length and checksum are right; the event carries exactly the block's fields
pub fn decode_any(g: &mut Gen) {
    let mut b: [u8; 64] = g.array();
    if Gen::NATIVE { soften(g, &mut b) }
    let kind = le64(&b, 16);
    let sum = crc(&b[32..64]);
    let want = kind <= 1 && le64(&b, 32) == 3 && le64(&b, 24) == sum;
    g.cover(want);
    match DriverEvent::decode(b) {
        Some(e) => {
            assert!(want, "C[decode]: a block with a wrong kind, length or checksum is accepted");
            assert!(e.txn_id == le128(&b, 0) && (e.event == DriverEventKind::Closed) == (kind == 1), "C[decode]: transaction id or kind differs from the block");
            assert!(e.checksum == sum && e.payload_len == 3 && e.last_checksum == le64(&b, 40) && e.last_offset == le64(&b, 48) && e.last_txn_id == le64(&b, 56), "C[decode]: a field differs from the block");
        }
        None => assert!(!want, "C[decode]: a well formed event is refused"),
    }
}
#[allow(unused)]
fn soften(g: &mut Gen, b: &mut [u8; 64]) {
    #[cfg(not(kani))]
    {
        let k = if g.bool() { DriverEventKind::Closed } else { DriverEventKind::Reopened };
        let mut x = DriverEvent::encode(g.u64() as u128, k, g.u64(), g.u64(), g.u64());
        for _ in 0..g.range(0, 2) { let i = g.range(0, 63); x[i] = if g.bool() { g.u8() } else { x[i].wrapping_add(1) } }
        // re-sealed blocks too: the checksum alone must not make a bad kind or length acceptable
        if g.bool() { let c = crc(&x[32..64]); x[24..32].copy_from_slice(&c.to_le_bytes()) }
        *b = x;
    }
}
/// what is written decodes to exactly what was written
pub fn round_trip(g: &mut Gen) {
    let k = if g.bool() { DriverEventKind::Closed } else { DriverEventKind::Reopened };
    let t = ((g.u64() as u128) << 64) | g.u64() as u128;
    let (a, o, l) = (g.u64(), g.u64(), g.u64());
    let b = DriverEvent::encode(t, k, a, o, l);
    assert!(le128(&b, 0) == t && le64(&b, 16) == k.value_u8() as u64 && (k == DriverEventKind::Closed) == (le64(&b, 16) == 1), "C[encode]: transaction id or kind is not where the format has it");
    assert!(le64(&b, 32) == 3 && le64(&b, 40) == a && le64(&b, 48) == o && le64(&b, 56) == l, "C[encode]: a field is not where the format has it");
    assert!(le64(&b, 24) == crc(&b[32..64]), "C[encode]: the checksum does not cover the payload");
    match DriverEvent::decode(b) {
        Some(e) => assert!(e.txn_id == t && e.event == k && e.last_checksum == a && e.last_offset == o && e.last_txn_id == l, "C[round]: the decoded event differs from the one written"),
        None => assert!(false, "C[round]: an event just written is refused"),
    }
    g.cover(true);
}
/// bit by bit CRC-64/XZ: the checksum of the documented format, and it depends on every byte
pub fn crc_ref(b: &[u8]) -> u64 {
    let mut c = !0u64;
    let mut i = 0;
    while i < b.len() { c ^= b[i] as u64; let mut k = 0; while k < 8 { c = if c & 1 == 1 { (c >> 1) ^ 0xC96C5795D7870F42 } else { c >> 1 }; k += 1 } i += 1 }
    !c
}
/// the checksum is CRC-64/XZ, also when fed in two parts
pub fn crc_n<const N: usize>(g: &mut Gen) {
    let b: [u8; N] = g.array();
    let k = g.range(0, N);
    let mut c = SCrc64::new();
    c.update(&b[..k]);
    c.update(&b[k..]);
    assert!(c.finish() == crc_ref(&b), "C[crc]: the checksum is not CRC-64/XZ");
    g.cover(true);
}
/// the checksum as an uninterpreted function: the proofs hold for every function of the bytes fed
#[cfg(kani)]
mod uf {
    static mut CUR: [u8; 32] = [0; 32];
    static mut N: usize = 0;
    static mut SEEN: [([u8; 32], u64); 4] = [([0; 32], 0); 4];
    static mut K: usize = 0;
    pub fn update(_: &mut super::SCrc64, b: &[u8]) { unsafe { let mut i = 0; while i < b.len() { assert!(N < 32, "C[sum]: the checksum covers more than the payload"); CUR[N] = b[i]; N += 1; i += 1 } } }
    pub fn finish(_: super::SCrc64) -> u64 {
        unsafe {
            assert!(N == 32, "C[sum]: the checksum does not cover the whole payload");
            N = 0;
            let mut i = 0;
            while i < K { if SEEN[i].0 == CUR { return SEEN[i].1 } i += 1 }
            let v: u64 = kani::any();
            SEEN[K] = (CUR, v);
            K += 1;
            v
        }
    }
}
#[cfg(all(any(kani, test), feature = "vp_p11"))]
mod k { use super::*;
    vp_kani!(k_decode, 66, decode_any, kani::stub(SCrc64::update, uf::update), kani::stub(SCrc64::finish, uf::finish));
    vp_kani!(k_round_trip, 66, round_trip, kani::stub(SCrc64::update, uf::update), kani::stub(SCrc64::finish, uf::finish));
    vp_kani!(kb_crc_1, 20, crc_n::<1>);
}
vp_native!(n_decode, decode_any, 120, 300);
vp_native!(n_round_trip, round_trip, 64, 300);
vp_native!(n_crc, crc_n::<40>, 64, 300);
