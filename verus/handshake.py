"""P02: the client handshake parser"""
include("netcommon")
WF = "old(scanner).wf(), 6 <= old(scanner).buf().len() < M()"
KEEPS = "final(scanner).wf(), final(scanner).buf() == old(scanner).buf()"
POST = "ensures %s, hs_step(old(scanner).buf(), final(scanner).cur(), r)" % KEEPS

# sky_macros::TaggedEnum derives MAX_DSCR / from_raw from the discriminants; the proof uses what the derive computes from
# the enum as written in /repo now (agreement of the derive with this reading: Kani harness hs_static_block)
# Verus cannot handle associated constants of a generic impl: they become free constants
SUBS = [(r"\b(?:Self|CHandshake)::(INITIAL_READ|CLIENT_HELLO)\b", r"CHandshake__\1")]
def tagged(name):
    src, e = find(HS, name, ("enum",))
    out, cur = [], -1
    for v in e["variants"]:
        cur = int(v["discr"]) if v["discr"] is not None else cur + 1
        out.append((v["name"], cur))
    mx = max(d for _, d in out)
    return "impl %s { pub const MAX_DSCR: u8 = %d;\n#[verifier::external_body] pub unsafe fn from_raw(d: u8) -> (r: Self) requires d <= %d ensures %s { unimplemented!() } }" % (
        name, mx, mx, ", ".join("d == %d ==> r is %s" % (d, n) for n, d in out))

HSPEC = r'''
pub open spec fn static_ok(b: Seq<u8>) -> bool { b.len() >= 6 && b[0] == 72 && b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 && b[5] == 0 }
/// which complaint a bad static block must get: the first offending field
pub open spec fn first_bad(b: Seq<u8>) -> ProtocolError {
    if b[0] != 72 { ProtocolError::CorruptedHSPacket } else if b[1] != 0 { ProtocolError::RejectHSVersion } else if b[2] != 0 { ProtocolError::RejectProtocol }
    else if b[3] != 0 { ProtocolError::RejectExchangeMode } else if b[4] != 0 { ProtocolError::RejectQueryMode } else { ProtocolError::RejectAuth }
}
pub open spec fn ul(b: Seq<u8>, k: int) -> int { num(b, 0, 6, k) }
pub open spec fn pl(b: Seq<u8>, k: int, m: int) -> int { num(b, 0, k + 1, m) }
pub open spec fn hs_hdr(b: Seq<u8>, k: int, m: int) -> bool { static_ok(b) && int_at(b, 6, k) && int_at(b, k + 1, m) }
/// b starts with a complete handshake; username starts at m+1, password follows
pub open spec fn hs_at(b: Seq<u8>, k: int, m: int) -> bool { hs_hdr(b, k, m) && m + 1 + ul(b, k) + pl(b, k, m) <= b.len() <= M() }
pub open spec fn has_hs(b: Seq<u8>) -> bool { exists|k: int, m: int| hs_at(b, k, m) }
/// as the client is documented to send it: both lengths have at least one digit
pub open spec fn has_strict_hs(b: Seq<u8>) -> bool { exists|k: int, m: int| hs_at(b, k, m) && 6 < k && k + 1 < m }
pub open spec fn hs_inv(b: Seq<u8>, c: int, st: HandshakeState) -> bool {
    0 <= c <= b.len() && match st {
        HandshakeState::Initial => c == 0,
        HandshakeState::StaticBlock(_) => static_ok(b) && c == 6,
        HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l } => static_ok(b) && int_at(b, 6, c - 1) && uname_l == ul(b, c - 1),
        HandshakeState::ExpectingVariableBlock { static_hs, uname_l, pwd_l } => exists|k: int| #[trigger] hs_hdr(b, k, c - 1) && uname_l == ul(b, k) && pwd_l == pl(b, k, c - 1),
    }
}
pub open spec fn hs_step(b: Seq<u8>, c: int, r: HandshakeResult) -> bool {
    match r {
        HandshakeResult::Completed(hs) => exists|k: int, m: int| #[trigger] hs_at(b, k, m) && c == m + 1 + ul(b, k) + pl(b, k, m)
            && hs.hs_auth.username@ == b.subrange(m + 1, m + 1 + ul(b, k)) && hs.hs_auth.password@ == b.subrange(m + 1 + ul(b, k), c),
        HandshakeResult::ChangeState { new_state, expect } => !has_strict_hs(b) && hs_inv(b, c, new_state) && (forall|e: Seq<u8>| ext(b, e) && #[trigger] has_strict_hs(e) ==> expect <= e.len()),
        HandshakeResult::Error(code) => (forall|e: Seq<u8>| ext(b, e) ==> !#[trigger] has_hs(e)) && code == (if static_ok(b) { ProtocolError::CorruptedHSPacket } else { first_bad(b) }),
    }
}
broadcast proof fn static_ext(b: Seq<u8>, e: Seq<u8>)
    requires #[trigger] ext(b, e), b.len() >= 6
    ensures static_ok(b) == static_ok(e)
{ assert(e[0] == b[0]); assert(e[1] == b[1]); assert(e[2] == b[2]); assert(e[3] == b[3]); assert(e[4] == b[4]); assert(e[5] == b[5]); }
pub broadcast group hswire { bad_int_final, int_at_unique, digits_prefix, static_ext }
broadcast proof fn num_nonneg(b: Seq<u8>, i: int, j: int)
    requires digits(b, i, j), 0 <= i <= j <= b.len()
    ensures #[trigger] num(b, 0, i, j) >= 0
{ num_mono(b, 0, i, i, j); }

/// the saved state describes only bytes already consumed: it stays valid when more bytes arrive
proof fn hs_inv_ext(b: Seq<u8>, e: Seq<u8>, c: int, st: HandshakeState)
    requires hs_inv(b, c, st), ext(b, e)
    ensures hs_inv(e, c, st)
{
    if b.len() >= 6 { static_ext(b, e); }
    match st {
        HandshakeState::Initial => {}
        HandshakeState::StaticBlock(_) => {}
        HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l } => { int_at_ext(b, e, 6, c - 1); }
        HandshakeState::ExpectingVariableBlock { static_hs, uname_l, pwd_l } => {
            let k = choose|k: int| #[trigger] hs_hdr(b, k, c - 1) && uname_l == ul(b, k) && pwd_l == pl(b, k, c - 1);
            int_at_ext(b, e, 6, k); int_at_ext(b, e, k + 1, c - 1);
            assert(hs_hdr(e, k, c - 1));
        }
    }
}
/// lemma over the contracts: whatever the fragmentation, once a whole well-formed handshake is buffered the step completes
proof fn hs_always_completes(b: Seq<u8>, c: int, r: HandshakeResult)
    requires has_strict_hs(b), hs_step(b, c, r)
    ensures r is Completed
{ assert(ext(b, b)); let (k, m) = choose|k: int, m: int| hs_at(b, k, m) && 6 < k && k + 1 < m; assert(hs_at(b, k, m)); assert(has_hs(b)); }
/// ... with credentials that are a function of the bytes alone
proof fn hs_unique(b: Seq<u8>, k: int, m: int, k2: int, m2: int)
    requires hs_at(b, k, m), hs_at(b, k2, m2)
    ensures k == k2, m == m2
{ assert(ext(b, b)); int_at_unique(b, b, 6, k, k2); int_at_unique(b, b, k + 1, m, m2); }
'''
H0 = "proof { broadcast use {hswire, num_nonneg}; }"
ITEMS = SCANNER + [
 Ty(HS, "ProtocolError", attr="#[derive(Clone, Copy)]"), Ty(HS, "HandshakeVersion", attr="#[derive(Clone, Copy)]"), Ty(HS, "ProtocolVersion", attr="#[derive(Clone, Copy)]"), Ty(HS, "DataExchangeMode", attr="#[derive(Clone, Copy)]"),
 Ty(HS, "QueryMode", attr="#[derive(Clone, Copy)]"), Ty(HS, "AuthMode", attr="#[derive(Clone, Copy)]"),
 Raw("\n".join(tagged(x) for x in ("HandshakeVersion", "ProtocolVersion", "DataExchangeMode", "QueryMode", "AuthMode"))),
 Fn(CO, "cold", ret="r"), Fn(CO, "unlikely", spec="ensures r == b"),
 Ty(HS, "CHandshakeStatic", attr="#[derive(Clone, Copy)]"), Ty(HS, "CHandshakeAuth"), Ty(HS, "HandshakeState"), Ty(HS, "HandshakeResult"), Ty(HS, "CHandshake"),
 Raw(HSPEC),
 Fn(HS, "AuthMode::min_payload_bytes", spec="ensures r == 4"),
 Fn(HS, "CHandshakeStatic::new", spec="ensures r.hs_version == hs_version, r.protocol == protocol, r.exchange_mode == exchange_mode, r.query_mode == query_mode, r.auth_mode == auth_mode"),
 Fn(HS, "CHandshakeAuth::new", spec="ensures r.username@ == username@, r.password@ == password@"),
 Fn(HS, "CHandshakeAuth::username", spec="ensures r@ == self.username@"),
 Fn(HS, "CHandshakeAuth::password", spec="ensures r@ == self.password@"),
 Const(HS, "CHandshake::INITIAL_READ", free=True, rename="CHandshake__INITIAL_READ"), Const(HS, "CHandshake::CLIENT_HELLO", free=True, rename="CHandshake__CLIENT_HELLO"),
 Fn(HS, "CHandshake::new", spec="ensures r.hs_static == hs_static, r.hs_auth == hs_auth"),
 Fn(HS, "CHandshake::hs_static", spec="ensures r == self.hs_static"),
 Fn(HS, "CHandshake::hs_auth", spec="ensures r == self.hs_auth"),
 Fn(HS, "CHandshake::resume_with", spec="requires %s, hs_inv(old(scanner).buf(), old(scanner).cur(), state) %s" % (WF, POST), hints={"start": H0}),
 Fn(HS, "CHandshake::resume_initial", spec="requires %s, old(scanner).cur() == 0 %s" % (WF, POST), hints={"start": H0}),
 Fn(HS, "CHandshake::resume_at_variable_block_payload", spec="""requires %s, ({ let b = old(scanner).buf(); let c = old(scanner).cur(); exists|k: int| #[trigger] hs_hdr(b, k, c - 1) && uname_l == ul(b, k) && pwd_l == pl(b, k, c - 1) }) %s""" % (WF, POST),
    hints={"start": "let ghost kk = choose|k: int| #[trigger] hs_hdr(scanner.buf(), k, scanner.cur() - 1) && uname_l == ul(scanner.buf(), k) && pwd_l == pl(scanner.buf(), k, scanner.cur() - 1); let ghost mm = scanner.cur() - 1; " + H0
      + " proof { if hs_at(scanner.buf(), kk, mm) {} }"}),
 Fn(HS, "CHandshake::resume_at_auth_metadata1", spec="""requires %s, static_ok(old(scanner).buf()), old(scanner).cur() == 6 %s""" % (WF, POST), hints={"start": H0}),
 Fn(HS, "CHandshake::resume_at_auth_metadata2", spec="""requires %s, static_ok(old(scanner).buf()), ({ let b = old(scanner).buf(); let c = old(scanner).cur(); int_at(b, 6, c - 1) && uname_l == ul(b, c - 1) }) %s""" % (WF, POST),
    hints={"start": "let ghost kk = scanner.cur() - 1; " + H0, ("call", "resume_at_variable_block_payload", 0): "proof { assert(hs_hdr(scanner.buf(), kk, scanner.cur() - 1)); }"}),
]
