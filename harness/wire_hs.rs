// @attach server/src/engine/net/protocol/handshake.rs
// @feature p02
//! P02: client handshake.
use super::*;
use crate::vp::*;

fn first_bad(b: &[u8]) -> Option<ProtocolError> {
    let e = [ProtocolError::CorruptedHSPacket, ProtocolError::RejectHSVersion, ProtocolError::RejectProtocol, ProtocolError::RejectExchangeMode, ProtocolError::RejectQueryMode, ProtocolError::RejectAuth];
    let mut i = 0;
    while i < 6 { if b[i] != (if i == 0 { b'H' } else { 0 }) { return Some(e[i]) } i += 1 }
    None
}
/// all 2^48 static blocks
pub fn hs_static_block(g: &mut Gen) {
    let b: [u8; 6] = g.array();
    let mut s = BufferedScanner::new(&b);
    let r = CHandshake::resume_with(&mut s, HandshakeState::Initial);
    match (first_bad(&b), r) {
        (Some(e), HandshakeResult::Error(x)) => assert!(e == x, "C[code]: wrong rejection code"),
        (None, HandshakeResult::ChangeState { new_state: HandshakeState::StaticBlock(_), .. }) => { assert!(s.cursor() == 6, "C[cursor]") }
        _ => panic!("C[static]: static block accepted/rejected wrongly"),
    }
    g.cover(true);
}
/// the derive macro agrees with the discriminants as the proof reads them
pub fn hs_derives(g: &mut Gen) {
    assert!(HandshakeVersion::MAX_DSCR == 0 && ProtocolVersion::MAX_DSCR == 0 && DataExchangeMode::MAX_DSCR == 0 && QueryMode::MAX_DSCR == 0 && AuthMode::MAX_DSCR == 0, "C[derive]: MAX_DSCR");
    assert!(unsafe { AuthMode::from_raw(0) } == AuthMode::Password, "C[derive]: from_raw");
    let _ = g;
}
#[cfg(kani)]
mod k {
    use super::*;
    #[kani::proof] #[kani::unwind(8)] fn k_hs_static_block() { super::hs_static_block(&mut Gen) }
    #[kani::proof] fn k_hs_derives() { super::hs_derives(&mut Gen) }
}
vp_native!(n_hs_static_block, hs_static_block, 6, 2000);

#[cfg(not(kani))]
mod n {
    use super::*;
    #[derive(Debug, PartialEq)]
    enum W { BadSoon, Done { at: usize, u: usize, p: usize }, More, Bad(ProtocolError) }
    fn int_at(b: &[u8], i: usize) -> Result<Option<(u64, usize)>, ()> {
        let mut v: u128 = 0;
        let mut j = i;
        while j < b.len() {
            if b[j] == b'\n' { return Ok(Some((v as u64, j + 1))) }
            if !(b'0'..=b'9').contains(&b[j]) { return Err(()) }
            v = v * 10 + (b[j] - b'0') as u128;
            if v > u64::MAX as u128 { return Err(()) }
            j += 1;
        }
        Ok(None)
    }
    /// (result, is it certain already / strictly well formed)
    fn classify(b: &[u8]) -> W {
        if b.len() < 6 { return W::More }
        if let Some(e) = first_bad(b) { return W::Bad(e) }
        let bad = W::Bad(ProtocolError::CorruptedHSPacket);
        let (u, k) = match int_at(b, 6) { Err(()) => return bad, Ok(None) => return W::More, Ok(Some(x)) => x };
        // a username that cannot be addressed: no continuation is a handshake, it may be rejected now or later
        let huge = k as u128 + u as u128 + 2 > u64::MAX as u128;
        let (p, m) = match int_at(b, k) { Err(()) => return bad, Ok(None) => return if huge { W::BadSoon } else { W::More }, Ok(Some(x)) => x };
        let total = m as u128 + u as u128 + p as u128;
        if total > u64::MAX as u128 { return bad }
        if b.len() as u128 >= total { W::Done { at: m, u: u as usize, p: p as usize } } else { W::More }
    }
    fn push_int(g: &mut Gen, b: &mut Vec<u8>, v: u64) {
        match g.u8() % 12 {
            0 => { b.push(b'0'); b.extend(v.to_string().bytes()) }
            1 => { let x = g.u64(); b.extend(x.to_string().bytes()) }
            2 => { b.extend(v.to_string().bytes()); b.push(g.u8()) }
            _ => b.extend(v.to_string().bytes()),
        }
    }
    pub fn handshakes(g: &mut Gen) {
        let mut b = vec![b'H', 0, 0, 0, 0, 0];
        if g.u8() % 6 == 0 { for _ in 0..1 + g.range(0, 3) { let i = g.range(0, 5); b[i] = g.u8() } }
        let (u, p) = (g.range(0, 20), g.range(0, 20));
        push_int(g, &mut b, u as u64); b.push(b'\n');
        push_int(g, &mut b, p as u64); b.push(b'\n');
        for i in 0..u + p { b.push(b'a' + (i % 26) as u8) }
        if g.u8() % 8 == 0 { b.extend(g.bytes(8)) }
        if g.u8() % 8 == 0 { b.pop(); }
        if g.u8() % 8 == 0 { let i = g.range(0, b.len() - 1); b[i] = *g.pick(b"0123456789\n:/a") }
        g.note(|| format!("bytes {:?}", String::from_utf8_lossy(&b)));
        let mut state = HandshakeState::default();
        let mut cursor = 0;
        let mut expected = CHandshake::INITIAL_READ;
        let mut have = 0;
        while have < b.len() {
            let step = match g.u8() % 4 { 0 => 1, 1 => b.len() - have, _ => 1 + g.range(0, 8) };
            have = (have + step).min(b.len());
            let now = &b[..have];
            let want = classify(now);
            if now.len() < expected {
                assert!(!matches!(want, W::Done { at, .. } if now.len() >= 10), "C[completes]: a whole handshake is buffered, but more bytes are awaited");
                continue;
            }
            let mut s = unsafe { BufferedScanner::new_with_cursor(now, cursor) };
            match CHandshake::resume_with(&mut s, state.clone()) {
                HandshakeResult::Completed(hs) => match want {
                    W::Done { at, u, p } => {
                        assert!(hs.hs_auth().username() == &now[at..at + u], "C[auth]: username");
                        assert!(hs.hs_auth().password() == &now[at + u..at + u + p], "C[auth]: password");
                        assert!(s.cursor() == at + u + p, "C[cursor]: bytes after the handshake must be left for the first query");
                        g.nontrivial();
                        return;
                    }
                    w => panic!("C[sound]: completed on {w:?}"),
                },
                HandshakeResult::Error(e) => { assert!(want == W::Bad(e) || (want == W::BadSoon && e == ProtocolError::CorruptedHSPacket), "C[error]: {want:?} but got {e:?}"); g.nontrivial(); return }
                HandshakeResult::ChangeState { new_state, expect } => {
                    match want { W::Done { .. } => { assert!(now.len() < 10, "C[completes]: complete handshake not accepted") } _ => {} }
                    g.nontrivial();
                    state = new_state; expected = expect; cursor = s.cursor();
                }
            }
        }
    }
}
#[cfg(not(kani))]
vp_native!(n_handshakes, n::handshakes, 96, 20000);
