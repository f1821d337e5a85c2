"""P12: the journal (storage/v2/raw/journal/raw/mod.rs, journal/mod.rs) and the tracked reader and writer under it (sdss_r1/rw.rs)

Dropped by the extraction (stated here, counted as R6 in the evidence):
 * `self.txn_context(|me, id| { B })` is txn_context with its `f(self, id)` replaced by a call of B: B becomes the function `NAME__body`, and txn_context is
   extracted once per caller under the name of that caller (its contract is that caller's contract);
 * the type parameters: the adapter is a type J with no known body (every adapter), the file specification disappears, the const parameters of
   TrackedWriter have their defaults (no other values are used anywhere; checked on every run);
 * both error types become one (E: the device failed, the state refused the event, the bytes ran out, or an error of the journal);
 * the global state is an argument that is changed in place and whose view is the sequence of the events applied to it;
 * the trace macros (empty outside of tests).
"""
import os, re
from vpcommon import REPO
CRATE_ATTRS = ""
RJ = "server/src/engine/storage/v2/raw/journal/raw/mod.rs"
JM = "server/src/engine/storage/v2/raw/journal/mod.rs"
RW = "server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs"
FS = "server/src/engine/storage/common/interface/fs.rs"
def text(p): return open(os.path.join(REPO, p)).read()
def only(p, pat, n=1):
    m = re.findall(pat, text(p))
    if len(m) != n: raise Undecided("lost anchor: %r in %s" % (pat, p))
    return m[0]
only(RJ, r"const AUTO_SYNC_ON_EVENT_COMMIT: bool = true;")
SIZE = only(RW, r"pub struct TrackedWriter<\s*S: FileSpecV1,\s*const SIZE: usize = (\d+),\s*const PANIC_IF_UNFLUSHED: bool = true,\s*const CHECKSUM_WRITTEN_IF_BLOCK_ERROR: bool = true,\s*>")
for dp, _, fs in os.walk(os.path.join(REPO, "server/src/engine")):
    for f in fs:
        if f.endswith(".rs"):
            t = open(os.path.join(dp, f)).read()
            for m in re.finditer(r"TrackedWriter<([^>]*(?:<[^<>]*>)?[^>]*)>", t):
                if re.search(r",\s*(\d|true|false)", m.group(1)): raise Undecided("TrackedWriter with other parameters in " + f)
            if len(re.findall(r"const AUTO_SYNC_ON_EVENT_COMMIT", t)) > (1 if f == "mod.rs" and dp.endswith("journal/raw") else 0): raise Undecided("AUTO_SYNC_ON_EVENT_COMMIT overridden in " + f)
SPEC = r'''
broadcast use {vstd::seq_lib::group_seq_properties, group_le, drv_is, ext_trans};
global size_of usize == 8;
pub const SIZE: usize = @SIZE@;
pub enum StorageError { RawJournalEventCorruptedMetadata, RawJournalInvalidEvent, RawJournalEventCorrupted, RawJournalCorrupted, RawJournalRuntimeCriticalLwtHBFail }
pub enum E { Io, Refused, Short, Storage(StorageError) }
pub type IoResult<T> = Result<T, E>;
pub type RuntimeResult<T> = Result<T, E>;
fn vp_short() -> (r: E) ensures r is Short { E::Short }
fn vp_io() -> (r: E) ensures r is Io { E::Io }
// ---- integers as bytes. TRUSTED: std (to_le_bytes and from_le_bytes are inverse to each other)
pub mod bytes { use vstd::prelude::*;
pub uninterp spec fn le8(x: u64) -> Seq<u8>;
pub uninterp spec fn un8(s: Seq<u8>) -> u64;
pub uninterp spec fn le16(x: u128) -> Seq<u8>;
pub uninterp spec fn un16(s: Seq<u8>) -> u128;
pub broadcast axiom fn le8_is(x: u64) ensures (#[trigger] le8(x)).len() == 8, un8(le8(x)) == x;
pub broadcast axiom fn un8_is(s: Seq<u8>) requires s.len() == 8 ensures le8(#[trigger] un8(s)) == s;
pub broadcast axiom fn le16_is(x: u128) ensures (#[trigger] le16(x)).len() == 16, un16(le16(x)) == x;
pub broadcast axiom fn un16_is(s: Seq<u8>) requires s.len() == 16 ensures le16(#[trigger] un16(s)) == s;
pub broadcast group group_le { le8_is, un8_is, le16_is, un16_is }
}
use bytes::*;
#[verifier::external_body] fn vp_le8(x: u64) -> (r: Vec<u8>) ensures r@ == le8(x) { unimplemented!() }
#[verifier::external_body] fn vp_le16(x: u128) -> (r: Vec<u8>) ensures r@ == le16(x) { unimplemented!() }
#[verifier::external_body] fn vp_un8(x: [u8; 8]) -> (r: u64) ensures r == un8(x@) { unimplemented!() }
#[verifier::external_body] fn vp_un16(x: [u8; 16]) -> (r: u128) ensures r == un16(x@) { unimplemented!() }
#[verifier::external_body] fn vp_take(x: &[u8], n: usize) -> (r: &[u8]) requires n <= x@.len() ensures r@ == x@.take(n as int) { unimplemented!() }
#[verifier::external_body] fn vp_skip(x: &[u8], n: usize) -> (r: &[u8]) requires n <= x@.len() ensures r@ == x@.skip(n as int) { unimplemented!() }
#[verifier::external_body] fn vp_zero<const N: usize>() -> (r: [u8; N]) ensures r@.len() == N { unimplemented!() }
#[verifier::external_body] fn vp_put(x: &mut [u8; 64], at: usize, end: usize, v: &[u8]) requires at <= end <= 64, v@.len() == end - at ensures final(x)@ == old(x)@.take(at as int) + v@ + old(x)@.skip(end as int) { unimplemented!() }
#[verifier::external_body] fn vp_extend(x: &mut Vec<u8>, v: &Vec<u8>) ensures final(x)@ == old(x)@ + v@ { unimplemented!() }
pub mod exts { use vstd::prelude::*;
/// the least of what is true afterwards: what was there is still there, in the same place
pub open spec fn ext(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub broadcast proof fn ext_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] ext(a, b), #[trigger] ext(b, c) ensures ext(a, c) { assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }
}
use exts::*;
proof fn ext_add(a: Seq<u8>, x: Seq<u8>) ensures ext(a, a + x) { assert((a + x).take(a.len() as int) =~= a); }
// ---- the checksum as a function of the bytes fed to it. TRUSTED: the crc crate (that it is CRC-64/XZ is checked by P11)
pub uninterp spec fn crc(s: Seq<u8>) -> u64;
/// nothing fed: CRC-64/XZ starts with all ones and ends with their complement
pub axiom fn crc_nothing() ensures crc(Seq::empty()) == 0;
#[verifier::external_body] pub struct SCrc64 { x: u8 }
impl SCrc64 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: u64) ensures r == crc(self@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] fn vp_take_crc(x: &mut SCrc64) -> (r: SCrc64) ensures r@ == old(x)@, final(x)@ == Seq::<u8>::empty() { unimplemented!() }
// ---- the file. TRUSTED: the operating system and std::fs (a file shorter than 2^63 bytes that nobody else changes)
#[verifier::external_body] pub struct File { x: u8 }
pub uninterp spec fn h() -> nat;
pub axiom fn h_is() ensures h() > 0;
#[verifier::external_body] fn vp_h() -> (r: u64) ensures r == h() { unimplemented!() }
impl File {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn sane(&self) -> bool { self@.len() <= 0x7fff_ffff_ffff_ffff && self.pos() == self@.len() }
    /// any number of bytes may be written, also none; nothing when it fails
    #[verifier::external_body] pub fn fwrite(&mut self, b: &[u8]) -> (r: IoResult<u64>) requires old(self).sane()
        ensures final(self).sane(), (match r { Ok(n) => n <= b@.len() && final(self)@ == old(self)@ + b@.take(n as int), Err(e) => e is Io && final(self)@ == old(self)@ }) { unimplemented!() }
    #[verifier::external_body] pub fn fsync_all(&mut self) -> (r: IoResult<()>) ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos(), r is Err ==> r->Err_0 is Io { unimplemented!() }
    #[verifier::external_body] pub fn f_cursor(&mut self) -> (r: IoResult<u64>) ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos(), (match r { Ok(c) => c == old(self).pos(), Err(e) => e is Io }) { unimplemented!() }
}
pub struct Md { pub x: u8 }
pub struct SdssFile { pub file: File, pub meta: Md }
/// the same file, read through a buffer
#[verifier::external_body] pub struct BufFile { x: u8 }
impl BufFile {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn read_buffer(&mut self, buf: &mut [u8]) -> (r: IoResult<()>)
        ensures final(self)@ == old(self)@, final(buf)@.len() == old(buf)@.len(),
            (match r { Ok(()) => old(self).pos() + old(buf)@.len() <= old(self)@.len() && final(self).pos() == old(self).pos() + old(buf)@.len() && final(buf)@ == old(self)@.subrange(old(self).pos() as int, (old(self).pos() + old(buf)@.len()) as int), Err(e) => e is Io }) { unimplemented!() }
}
impl SdssFile {
    #[verifier::external_body] pub fn file_length(&self) -> (r: IoResult<u64>) ensures (match r { Ok(n) => n == self.file@.len() && n <= 0x7fff_ffff_ffff_ffff, Err(e) => e is Io }) { unimplemented!() }
    #[verifier::external_body] pub fn into_buffered_reader(self) -> (r: IoResult<BufFile>) ensures (match r { Ok(f) => f@ == self.file@ && f.pos() == self.file.pos(), Err(e) => e is Io }) { unimplemented!() }
    /// at the end of the file there is nothing in the buffer that was not read
    #[verifier::external_body] pub fn downgrade_reader(f: BufFile) -> (r: Self) ensures r.file@ == f@, f.pos() == f@.len() ==> r.file.pos() == f.pos() { unimplemented!() }
    /// a new file that has its header and nothing else
    #[verifier::external_body] pub fn create(path: &str) -> (r: RuntimeResult<Self>) ensures (match r { Ok(f) => f.file@.len() == h() && f.file.sane(), Err(e) => true }) { unimplemented!() }
    /// an existing one; the header has been read
    #[verifier::external_body] pub fn open(path: &str) -> (r: RuntimeResult<Self>) ensures (match r { Ok(f) => f.file@.len() >= h() && f.file.pos() == h() && f.file@ == on_disk(path@), Err(e) => true }) { unimplemented!() }
}
pub uninterp spec fn on_disk(path: Seq<char>) -> Seq<u8>;
// ---- FixedVec<u8, SIZE>. ASSUMED (its contract is checked by P21)
#[verifier::external_body] pub struct FixedVec { x: u8 }
impl FixedVec {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn allocate() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@, self@.len() <= SIZE { unimplemented!() }
    #[verifier::external_body] pub fn remaining_capacity(&self) -> (r: usize) ensures r + self@.len() == SIZE { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= SIZE { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub unsafe fn extend_from_slice(&mut self, b: &[u8]) requires old(self)@.len() + b@.len() <= SIZE ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub unsafe fn decr_len_by(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.take(old(self)@.len() - n) { unimplemented!() }
    #[verifier::external_body] pub unsafe fn clear_start(&mut self, n: usize) requires n < old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
}
'''
SPEC2 = r'''
impl TrackedWriter {
    /// what is on disk, and what will be
    pub open spec fn disk(&self) -> Seq<u8> { self.f_d@ }
    pub open spec fn all(&self) -> Seq<u8> { self.f_d@ + self.buf@ }
    /// the cursor is the end of the file; the checksum covers everything after the header
    pub open spec fn ok(&self) -> bool { self.f_d.sane() && h() <= self.f_d@.len() && self.t_cursor == self.f_d@.len() && self.t_checksum@ == self.all().skip(h() as int) }
    /// the same file, as far as it was
    pub open spec fn after(&self, o: TrackedWriter) -> bool { ext(o.disk(), self.disk()) && ext(o.all(), self.all()) }
}
'''
# --- oracle of the journal
ORACLE = r'''
impl DriverEventKind { pub open spec fn k(&self) -> K { match self { DriverEventKind::Reopened => K::Reopened, DriverEventKind::Closed => K::Closed } } }
pub mod control { use vstd::prelude::*; use super::bytes::*;
pub ghost enum K { Reopened, Closed }
pub open spec fn dscr(k: K) -> u64 { match k { K::Reopened => 0u64, K::Closed => 1u64 } }
/// a control event as bytes. ASSUMED: DriverEvent::encode and decode (contracts proved complete by Kani, P11: a block is an event exactly when it is the encoding of its fields)
pub uninterp spec fn drv(t: u128, k: K, ck: u64, off: u64, last: u64) -> Seq<u8>;
pub uninterp spec fn un_drv(b: Seq<u8>) -> (u128, K, u64, u64, u64);
pub broadcast axiom fn drv_is(t: u128, k: K, ck: u64, off: u64, last: u64) ensures (#[trigger] drv(t, k, ck, off, last)).len() == 64, drv(t, k, ck, off, last).take(16) == le16(t), drv(t, k, ck, off, last).subrange(16, 24) == le8(dscr(k)), un_drv(drv(t, k, ck, off, last)) == (t, k, ck, off, last);
}
use control::*;
impl DriverEvent {
    pub const FULL_EVENT_SIZE: usize = 64;
    #[verifier::external_body] pub fn encode(txn_id: u128, k: DriverEventKind, ck: u64, off: u64, last: u64) -> (r: [u8; 64]) ensures r@ == drv(txn_id, k.k(), ck, off, last) { unimplemented!() }
    #[verifier::external_body] pub fn decode(block: [u8; 64]) -> (r: Option<DriverEvent>)
        ensures (match r { Some(e) => block@ == drv(e.txn_id, e.event.k(), e.last_checksum, e.last_offset, e.last_txn_id), None => forall|t: u128, k: K, ck: u64, off: u64, last: u64| block@ != #[trigger] drv(t, k, ck, off, last) }) { unimplemented!() }
}
pub const SERVER_EV_MASK: u64 = 0x8000_0000_0000_0000;
/// what the events of an adapter are. ASSUMED: what commit_* writes decodes to the event, and decoding looks at nothing beyond (P13 for the codecs)
#[verifier::external_body] pub struct Evt { x: u8 }
pub uninterp spec fn dec(md: u64, s: Seq<u8>) -> Option<(Evt, nat)>;
pub axiom fn dec_is(md: u64, s: Seq<u8>, x: Seq<u8>) requires dec(md, s) is Some ensures (dec(md, s)->0).1 <= s.len(), dec(md, s + x) == dec(md, s);
pub struct St { pub txn: nat, pub pos: nat, pub evs: Seq<Evt>, pub open: bool }
pub open spec fn start() -> St { St { txn: 0, pos: h(), evs: Seq::empty(), open: true } }
pub open spec fn last(s: St) -> nat { if s.txn > 0 { (s.txn - 1) as nat } else { 0 } }
pub open spec fn off(s: St) -> nat { if s.txn > 0 { s.pos } else { 0 } }
pub open spec fn sum(b: Seq<u8>, p: nat) -> u64 { crc(b.subrange(h() as int, p as int)) }
pub open spec fn drv_at(b: Seq<u8>, s: St, k: K) -> bool { b.len() >= s.pos + 64 && b.subrange(s.pos as int, (s.pos + 64) as int) == drv(s.txn as u128, k, sum(b, s.pos), off(s) as u64, last(s) as u64) }
/// one record
pub open spec fn rec(b: Seq<u8>, s: St) -> Option<St> {
    if !s.open { if drv_at(b, s, K::Reopened) { Some(St { txn: s.txn + 1, pos: s.pos + 64, evs: s.evs, open: true }) } else { None } }
    else if b.len() < s.pos + 24 || b.subrange(s.pos as int, (s.pos + 16) as int) != le16(s.txn as u128) { None }
    else {
        let md = un8(b.subrange((s.pos + 16) as int, (s.pos + 24) as int));
        if md & SERVER_EV_MASK != 0 { match dec(md & !SERVER_EV_MASK, b.skip((s.pos + 24) as int)) { Some((e, n)) => Some(St { txn: s.txn + 1, pos: s.pos + 24 + n, evs: s.evs.push(e), open: true }), None => None } }
        else if drv_at(b, s, K::Closed) { Some(St { txn: s.txn + 1, pos: s.pos + 64, evs: s.evs, open: false }) } else { None }
    }
}
/// the first n records
pub open spec fn run(b: Seq<u8>, n: nat) -> Option<St> decreases n { if n == 0 { Some(start()) } else { match run(b, (n - 1) as nat) { Some(s) => rec(b, s), None => None } } }
/// the journal was closed after n records and nothing follows
pub open spec fn closed(b: Seq<u8>, n: nat) -> bool { run(b, n) is Some && !(run(b, n)->0).open && (run(b, n)->0).pos == b.len() }
pub open spec fn never_closed(b: Seq<u8>) -> bool { forall|n: nat| !#[trigger] closed(b, n) }
proof fn rec_is(b: Seq<u8>, s: St) requires rec(b, s) is Some ensures (rec(b, s)->0).txn == s.txn + 1, s.pos + 24 <= (rec(b, s)->0).pos <= b.len()
{ if s.open && !drv_at(b, s, K::Closed) { let md = un8(b.subrange((s.pos + 16) as int, (s.pos + 24) as int)); if md & SERVER_EV_MASK != 0 { dec_is(md & !SERVER_EV_MASK, b.skip((s.pos + 24) as int), Seq::empty()); } } else if s.open { let md = un8(b.subrange((s.pos + 16) as int, (s.pos + 24) as int)); if md & SERVER_EV_MASK != 0 { dec_is(md & !SERVER_EV_MASK, b.skip((s.pos + 24) as int), Seq::empty()); } } }
proof fn run_is(b: Seq<u8>, n: nat) requires run(b, n) is Some, h() <= b.len() ensures (run(b, n)->0).txn == n, h() + 24 * n <= (run(b, n)->0).pos <= b.len() decreases n
{ if n > 0 { run_is(b, (n - 1) as nat); rec_is(b, run(b, (n - 1) as nat)->0); } }
proof fn run_mono(b: Seq<u8>, m: nat, n: nat) requires m <= n, run(b, n) is Some, h() <= b.len() ensures run(b, m) is Some, (run(b, m)->0).pos + 24 * (n - m) <= (run(b, n)->0).pos decreases n
{ if m < n { rec_is(b, run(b, (n - 1) as nat)->0); run_mono(b, m, (n - 1) as nat); } }
proof fn no_more(b: Seq<u8>, k: nat, n: nat) requires run(b, k) is Some, rec(b, run(b, k)->0) is None, n > k ensures run(b, n) is None decreases n
{ if n > k + 1 { no_more(b, k, (n - 1) as nat); } }
/// nothing can be read from here, and the journal does not end here: it was never closed
proof fn stuck(b: Seq<u8>, k: nat) requires h() <= b.len(), run(b, k) is Some, rec(b, run(b, k)->0) is None, !closed(b, k) ensures never_closed(b)
{ run_is(b, k); assert forall|n: nat| !#[trigger] closed(b, n) by { if n > k { no_more(b, k, n); } else if n < k { run_is(b, k); if run(b, n) is Some { run_mono(b, n, k); } } } }
/// what was read before is read again when more follows
proof fn rec_ext(b: Seq<u8>, x: Seq<u8>, s: St) requires rec(b, s) is Some, h() <= s.pos ensures rec(b + x, s) == rec(b, s)
{
    let c = b + x; rec_is(b, s);
    if b.len() >= s.pos + 64 { assert(c.subrange(s.pos as int, (s.pos + 64) as int) =~= b.subrange(s.pos as int, (s.pos + 64) as int)); }
    assert(c.subrange(h() as int, s.pos as int) =~= b.subrange(h() as int, s.pos as int));
    assert(c.subrange(s.pos as int, (s.pos + 16) as int) =~= b.subrange(s.pos as int, (s.pos + 16) as int));
    assert(c.subrange((s.pos + 16) as int, (s.pos + 24) as int) =~= b.subrange((s.pos + 16) as int, (s.pos + 24) as int));
    let md = un8(b.subrange((s.pos + 16) as int, (s.pos + 24) as int));
    assert(c.skip((s.pos + 24) as int) =~= b.skip((s.pos + 24) as int) + x);
    if s.open && md & SERVER_EV_MASK != 0 { dec_is(md & !SERVER_EV_MASK, b.skip((s.pos + 24) as int), x); }
}
proof fn run_ext(b: Seq<u8>, x: Seq<u8>, n: nat) requires run(b, n) is Some, h() <= b.len() ensures run(b + x, n) == run(b, n) decreases n
{ if n > 0 { run_ext(b, x, (n - 1) as nat); run_is(b, (n - 1) as nat); rec_ext(b, x, run(b, (n - 1) as nat)->0); } }
proof fn mask_facts(m: u64) ensures m & SERVER_EV_MASK == 0 ==> (m | SERVER_EV_MASK) & SERVER_EV_MASK != 0 && (m | SERVER_EV_MASK) & !SERVER_EV_MASK == m, 0u64 & SERVER_EV_MASK == 0, 1u64 & SERVER_EV_MASK == 0
{ assert(m & 0x8000_0000_0000_0000u64 == 0 ==> (m | 0x8000_0000_0000_0000u64) & 0x8000_0000_0000_0000u64 != 0 && (m | 0x8000_0000_0000_0000u64) & !0x8000_0000_0000_0000u64 == m) by (bit_vector); assert(0u64 & 0x8000_0000_0000_0000u64 == 0) by (bit_vector); assert(1u64 & 0x8000_0000_0000_0000u64 == 0) by (bit_vector); }
/// writing one event at the end of an open journal adds exactly that event
proof fn put_event(b: Seq<u8>, n: nat, md: u64, pay: Seq<u8>, e: Evt) requires h() <= b.len() <= 0x7fff_ffff_ffff_ffff, run(b, n) is Some, (run(b, n)->0).pos == b.len(), (run(b, n)->0).open, md & SERVER_EV_MASK == 0, dec(md, pay) == Some((e, pay.len()))
    ensures run(b + (le16(n as u128) + le8(md | SERVER_EV_MASK) + pay), n + 1) == Some(St { txn: n + 1, pos: b.len() + 24 + pay.len(), evs: (run(b, n)->0).evs.push(e), open: true })
{
    let x = le16(n as u128) + le8(md | SERVER_EV_MASK) + pay; let c = b + x; let s = run(b, n)->0;
    run_is(b, n); run_ext(b, x, n); mask_facts(md);
    assert(c.subrange(s.pos as int, (s.pos + 16) as int) =~= le16(n as u128));
    assert(c.subrange((s.pos + 16) as int, (s.pos + 24) as int) =~= le8(md | SERVER_EV_MASK));
    assert(c.skip((s.pos + 24) as int) =~= pay);
}
proof fn put_drv(b: Seq<u8>, n: nat, k: K) requires h() <= b.len() <= 0x7fff_ffff_ffff_ffff, run(b, n) is Some, (run(b, n)->0).pos == b.len(), (run(b, n)->0).open == (k is Closed)
    ensures run(b + drv(n as u128, k, crc(b.skip(h() as int)), off(run(b, n)->0) as u64, last(run(b, n)->0) as u64), n + 1) == Some(St { txn: n + 1, pos: b.len() + 64, evs: (run(b, n)->0).evs, open: k is Reopened })
{
    let s = run(b, n)->0; run_is(b, n);
    let x = drv(n as u128, k, crc(b.skip(h() as int)), off(s) as u64, last(s) as u64); let c = b + x;
    drv_is(n as u128, k, crc(b.skip(h() as int)), off(s) as u64, last(s) as u64);
    run_ext(b, x, n); mask_facts(0);
    assert(c.subrange(s.pos as int, (s.pos + 64) as int) =~= x);
    assert(c.subrange(s.pos as int, (s.pos + 16) as int) =~= x.take(16));
    assert(c.subrange((s.pos + 16) as int, (s.pos + 24) as int) =~= x.subrange(16, 24));
    assert(c.subrange(h() as int, s.pos as int) =~= b.skip(h() as int));
}
'''
ADAPTER = r'''
/// an adapter of which nothing is known but its codec. ASSUMED
#[verifier::external_body] pub struct J { x: u8 }
#[verifier::external_body] pub struct Event { x: u8 }
#[verifier::external_body] pub struct CommitContext { x: u8 }
#[verifier::external_body] pub struct EventMeta { x: u8 }
#[verifier::external_body] pub struct GS { x: u8 }
impl GS { /// the events applied so far
    pub uninterp spec fn view(&self) -> Seq<Evt>; }
impl Event {
    pub uninterp spec fn kind(&self) -> u64;
    pub uninterp spec fn view(&self) -> Evt;
    pub uninterp spec fn pay(&self) -> Seq<u8>;
    /// what it writes is it, and the bit that marks control events is not used
    pub open spec fn codec(&self) -> bool { self.kind() & SERVER_EV_MASK == 0 && dec(self.kind(), self.pay()) == Some((self@, self.pay().len())) }
    #[verifier::external_body] pub fn md(&self) -> (r: u64) ensures r == self.kind() { unimplemented!() }
}
impl EventMeta { pub uninterp spec fn md(&self) -> u64; }
impl J {
    pub const EVENT_SIZE_BUFFER: usize = 128;
    pub const AUTO_SYNC_ON_EVENT_COMMIT: bool = true;
    #[verifier::external_body] pub fn preference() -> (r: CommitPreference) { unimplemented!() }
    #[verifier::external_body] pub fn initialize(j: &JournalInitializer) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn parse_event_meta(meta: u64) -> (r: Option<EventMeta>) ensures (match r { Some(m) => m.md() == meta, None => forall|s: Seq<u8>| (#[trigger] dec(meta, s)) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn commit_direct(j: &mut J, w: &mut TrackedWriter, e: Event, c: CommitContext) -> (r: RuntimeResult<()>)
        requires old(w).ok(), old(w).t_partial_checksum@.len() == 0 ensures final(w).ok(), final(w).after(*old(w)), r is Ok ==> final(w).all() == old(w).all() + e.pay() && final(w).t_partial_checksum@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn commit_buffered(&mut self, b: &mut Vec<u8>, e: Event, c: CommitContext) ensures final(b)@ == old(b)@ + e.pay() { unimplemented!() }
    /// the error that remains is that of bytes which are no event
    #[verifier::external_body] pub fn decode_apply(gs: &mut GS, meta: EventMeta, f: &mut TrackedReader) -> (r: RuntimeResult<()>)
        requires old(f).ok()
        ensures (match r { Ok(()) => final(f).ok() && final(f).f@ == old(f).f@ && dec(meta.md(), old(f).rest()) is Some && final(f).cursor == old(f).cursor + (dec(meta.md(), old(f).rest())->0).1 && final(gs)@ == old(gs)@.push((dec(meta.md(), old(f).rest())->0).0),
            Err(e) => e is Io || e is Refused || dec(meta.md(), old(f).rest()) is None }) { unimplemented!() }
}
impl TrackedReader {
    pub open spec fn ok_pos(&self) -> bool { self.f.pos() == self.cursor && self.len == self.f@.len() && self.cursor <= self.len && self.len <= 0x7fff_ffff_ffff_ffff }
    /// what was read is what the checksum covers
    pub open spec fn ok(&self) -> bool { self.ok_pos() && h() <= self.cursor && self.cs@ == self.f@.subrange(h() as int, self.cursor as int) }
    pub open spec fn rest(&self) -> Seq<u8> { self.f@.skip(self.cursor as int) }
    /// n bytes further on in the same file
    pub open spec fn read(&self, o: TrackedReader, n: nat) -> bool { self.ok() && self.f@ == o.f@ && self.cursor == o.cursor + n }
}
/// a slice of an array to be filled
#[verifier::external_body] fn vp_mut<const N: usize>(a: &mut [u8; N]) -> (r: &mut [u8]) ensures r@ == old(a)@, r@.len() == N, final(a)@ == final(r)@ { unimplemented!() }
#[verifier::external_body] fn vp_mut_tail(a: &mut [u8; 64], at: usize) -> (r: &mut [u8]) requires at <= 64 ensures r@ == old(a)@.skip(at as int), final(r)@.len() == 64 - at ==> final(a)@ == old(a)@.take(at as int) + final(r)@ { unimplemented!() }
'''
STATE = r'''
impl RawJournalReader {
    pub open spec fn b(&self) -> Seq<u8> { self.tr.f@ }
    pub open spec fn st(&self) -> St { run(self.b(), self.txn_id as nat)->0 }
    /// the reader is between two records, and knows exactly what the records before say
    pub open spec fn ok(&self) -> bool {
        self.tr.ok() && run(self.b(), self.txn_id as nat) is Some && self.st().txn == self.txn_id && self.st().pos == self.tr.cursor && self.last_txn_id == last(self.st()) && self.last_txn_offset == off(self.st())
        && self.last_txn_checksum == sum(self.b(), self.st().pos) && self.stats.server_events + self.stats.driver_events <= self.txn_id
    }
}
impl JournalInitializer {
    /// the state of a journal that was closed after so many records (or of an empty one)
    pub open spec fn of(&self, b: Seq<u8>) -> bool {
        self.cursor == b.len() && self.checksum@ == b.skip(h() as int) && h() <= b.len() && run(b, self.last_txn_id as nat) is Some && (run(b, self.last_txn_id as nat)->0).pos == b.len() && self.last_offset == off(run(b, self.last_txn_id as nat)->0)
        && (run(b, self.last_txn_id as nat)->0).open == (self.last_txn_id == 0)
    }
}
impl RawJournalWriter {
    pub open spec fn b(&self) -> Seq<u8> { self.log_file.disk() }
    pub open spec fn st(&self) -> St { run(self.b(), self.txn_id as nat)->0 }
    /// nothing that failed left a part of itself behind
    pub open spec fn sync(&self) -> bool { self.log_file.t_cursor == self.known_cursor }
    pub open spec fn ok(&self) -> bool {
        self.log_file.ok() && self.known_cursor <= self.log_file.t_cursor
        && (self.sync() ==> self.log_file.buf@.len() == 0 && self.log_file.t_partial_checksum@.len() == 0 && run(self.b(), self.txn_id as nat) is Some && self.st().pos == self.b().len() && self.known_txn_id == last(self.st()) && self.known_txn_offset == off(self.st()))
    }
    pub open spec fn regs(&self, o: RawJournalWriter) -> bool { self.txn_id == o.txn_id && self.known_txn_id == o.known_txn_id && self.known_txn_offset == o.known_txn_offset && self.known_cursor == o.known_cursor }
    /// an operation: done and nothing else, or nothing happened, or the journal accepts nothing more
    pub open spec fn step(&self, o: RawJournalWriter, done: bool, evs: Seq<Evt>, open: bool) -> bool {
        self.ok() && ext(o.b(), self.b()) && (!o.sync() ==> !done && *self == o)
        && (if done { o.sync() && self.sync() && self.st().evs == evs && self.st().open == open && self.txn_id == o.txn_id + 1 } else { (self.sync() ==> o.sync() && self.b() == o.b() && self.regs(o)) })
    }
}
proof fn st_facts(w: RawJournalWriter) requires w.ok() ensures w.sync() ==> w.st().txn == w.txn_id && w.txn_id < 0x7fff_ffff_ffff_ffff && w.log_file.all() == w.b() && w.log_file.t_checksum@ == w.b().skip(h() as int)
{ if w.sync() { run_is(w.b(), w.txn_id as nat); assert(w.log_file.all() =~= w.b()); h_is(); } }
'''
def strip(t): return re.sub(r"<J: RawJournalAdapter>|<J>|<S: FileSpecV1>|<'a, S: FileSpecV1>", "", t)
TRACE = [(r"jtrace_\w+!\((?:[^(){}]|\([^()]*\)|\{[^{}]*\})*\);", "")]
SUBS = TRACE + [(r"StorageError::(\w+)\.into\(\)", r"E::Storage(StorageError::\1)"), (r"okay! \{([^{}]*)\}", lambda m: " && ".join("(%s)" % x.strip() for x in m.group(1).split(",") if x.strip())),
    (r"SysIOError::from\(std::io::ErrorKind::InvalidInput\)\.into_inner\(\)", "vp_short()"), (r"u128::from_le_bytes\((self\.tr\.read_block)\(\)\?\)", r"vp_un16(\1::<16>()?)"), (r"u64::from_le_bytes\((\w+(?:\.tr)?\.read_block)\(\)\?\)", r"vp_un8(\1::<8>()?)"),
    (r"<<J as RawJournalAdapter>::Spec as FileSpecV1>::SIZE as u64|<J::Spec as FileSpecV1>::SIZE as u64", "vp_h()"), (r"SdssFile::<J::Spec>::", "SdssFile::"), (r"RawJournalReader::<J>::", "RawJournalReader::")]
TW, TR, JW, JR = "impl TrackedWriter", "impl TrackedReader", "impl RawJournalWriter", "impl RawJournalReader"
def tw(n, **k): return Fn(RW, "TrackedWriter::" + n, header=TW, closures_optional=True, **k)
def tr(n, **k): return Fn(RW, "TrackedReader::" + n, header=TR, closures_optional=True, **k)
def jw(n, **k): return Fn(RJ, "RawJournalWriter::" + n, header=JW, closures_optional=True, **k)
def jr(n, **k): return Fn(RJ, "RawJournalReader::" + n, header=JR, **k)
def ji(n, **k): return Fn(RJ, "JournalInitializer::" + n, **k)
WSAME = "final(self).f_md == old(self).f_md"
WSUB = [(r"fwrite_all_count\(&self\.buf\)", "fwrite_all_count(self.buf.as_slice())"), (r"&buf\[\.\.((?:[^\[\]])*)\]", r"vp_take(buf, \1)"), (r"&buf\[(\w+)\.\.\]", r"vp_skip(buf, \1)"), (r"(self\.\w+\((?:buf)?\))\s*\.(?:map|and_then)\(\|_\| ([^;{}]*?)\)(?=\s*\}\s*$)", lambda m: "match %s { Ok(_) => %s, Err(vp_e) => Err(vp_e) }" % (m.group(1), m.group(2) if "fsync" in m.group(2) else "{ %s; Ok(()) }" % m.group(2))),
    (r"mem::take\(&mut (self\.\w+)\)", r"vp_take_crc(&mut \1)"), (r"written as _\b", "written as usize"), (r"CHECKSUM_WRITTEN_IF_BLOCK_ERROR", "true"),
    (r"std::io::Error::new\(\s*std::io::ErrorKind::Other,\s*\"[^\"]*\",\s*\)", "vp_io()")]
GROW = "final(self).t_partial_checksum == old(self).t_partial_checksum, final(self).ok(), final(self).after(*old(self)), r is Err ==> r->Err_0 is Io"
CTX = [("fn txn_context<T>", "fn %s"), ("f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>", "%s")]
EL = r"""
/// what an event of an event log is on disk: its checksum, its length, and what the event wrote
pub open spec fn el_pay(p: Seq<u8>) -> Seq<u8> { le8(crc(le8(p.len() as u64) + p)) + le8(p.len() as u64) + p }
pub open spec fn el_at(s: Seq<u8>, n: nat) -> Option<Seq<u8>> { if s.len() >= 16 + n && un8(s.take(8)) == crc(le8(n as u64) + s.subrange(16, (16 + n) as int)) { Some(s.subrange(16, (16 + n) as int)) } else { None } }
pub open spec fn el_rec(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() < 16 { None } else { el_at(s, un8(s.subrange(8, 16)) as nat) } }
/// reading gives back what was written, whatever follows; and nothing else is read as it
proof fn el_round(p: Seq<u8>, x: Seq<u8>) requires p.len() <= u64::MAX ensures el_rec(el_pay(p) + x) == Some(p)
{ let s = el_pay(p) + x; assert(s.take(8) =~= le8(crc(le8(p.len() as u64) + p))); assert(s.subrange(8, 16) =~= le8(p.len() as u64)); assert(s.subrange(16, (16 + p.len()) as int) =~= p); }
proof fn el_back(s: Seq<u8>) requires el_rec(s) is Some ensures (el_rec(s)->0).len() + 16 <= s.len(), s.take((16 + (el_rec(s)->0).len()) as int) == el_pay(el_rec(s)->0)
{ let p = el_rec(s)->0; assert(s.take((16 + p.len()) as int) =~= s.take(8) + s.subrange(8, 16) + p); }
proof fn el_facts(s: Seq<u8>) ensures s.len() < 16 ==> el_rec(s) is None {}
pub struct EventLogAdapter { x: u8 }
pub struct BatchAdapter { x: u8 }
/// the functions of one log that apply its events (P13, P15). ASSUMED: nothing but that they look at nothing else
pub struct EL { x: u8 }
pub uninterp spec fn ran(m: EventMeta, p: Seq<u8>, a: Seq<Evt>, b: Seq<Evt>) -> bool;
impl EL { #[verifier::external_body] pub fn dispatch(gs: &mut GS, m: EventMeta, p: Vec<u8>) -> (r: RuntimeResult<()>) ensures (match r { Ok(()) => ran(m, p@, old(gs)@, final(gs)@), Err(e) => e is Refused }) { unimplemented!() } }
impl Event {
    pub uninterp spec fn body(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn write_buffered(self, b: &mut Vec<u8>, c: ()) ensures final(b)@ == old(b)@ + self.body() { unimplemented!() }
    /// every byte through dtrack_write
    #[verifier::external_body] pub fn write_direct(self, w: &mut TrackedWriter, c: CommitContext) -> (r: RuntimeResult<()>) requires old(w).ok() ensures final(w).ok(), final(w).after(*old(w)), r is Ok ==> final(w).all() == old(w).all() + self.body() && final(w).t_partial_checksum@ == old(w).t_partial_checksum@ + self.body() { unimplemented!() }
}
#[verifier::external_body] fn vp_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] fn vp_mutv(a: &mut Vec<u8>) -> (r: &mut [u8]) ensures r@ == old(a)@, final(a)@ == final(r)@ { unimplemented!() }
"""
ADSUB = [(r"where\s*E: RawJournalAdapterEvent<Self>,", ""), (r"\be!\((w\.tracked_write\([^;]*\))\)(?=\s*\}\s*$)", lambda m: re.sub(r"&(\w+)\.to_le_bytes\(\)", r"vp_le8(\1).as_slice()", re.sub(r"&pl\b", "pl.as_slice()", m.group(1)))), (r"let mut pl = vec!\[\];", "let mut pl: Vec<u8> = Vec::new();"),
    (r"\(pl\.len\(\) as u64\)\.to_le_bytes\(\)", "vp_le8(pl.len() as u64)"), (r"checksum\.finish\(\)\.to_le_bytes\(\)", "vp_le8(checksum.finish())"), (r"(?<=(?:write|pdate)\()&(plen|pl|checksum)(?=\)[?;])", r"\1.as_slice()"), (r"(?<=update\()&plen\.to_le_bytes\(\)", "vp_le8(plen).as_slice()")]
ADSIG = [("<'a, E>", ""), ("TrackedWriter<Self::Spec>", "TrackedWriter"), ("ev: E", "ev: Event"), ("ctx: ()", "ctx: ()")]
ITEMS = [Raw(SPEC.replace("@SIZE@", SIZE)),
 Fn(FS, "FileWrite::fwrite_all_count", header="impl File", inherent=True, loops={0: "invariant self.sane(), len == buf@.len(), written <= len, self@ == old(self)@ + buf@.take(written as int) ensures written == len decreases len - written"}, hints={("loop", 0, "start"): "let ghost w0 = written; let ghost f0 = self@; proof { assert(buf@.skip(w0 as int).take((len - w0) as int) =~= buf@.skip(w0 as int)); assert forall|n: int| 0 <= n <= len - w0 implies buf@.take(w0 as int) + buf@.skip(w0 as int).take(n) =~= #[trigger] buf@.take(w0 + n) by {} }"},
    sub=[(r"&buf\[written as usize\.\.\]", "vp_skip(buf, written as usize)"), (r"Error::new\(\s*ErrorKind::WriteZero,\s*format!\((?:[^()]|\([^()]*\))*\),\s*\)\s*\.into\(\)", "vp_io()")],
    spec="requires old(self).sane() ensures final(self).sane(), r.0 <= buf@.len(), final(self)@ == old(self)@ + buf@.take(r.0 as int), (r.1 is Ok) == (r.0 == buf@.len()), r.1 is Err ==> r.1->Err_0 is Io"),
 Ty(RW, "TrackedWriter", sub=[(r"<\s*S: FileSpecV1,[^>]*>", ""), (r"S::Metadata", "Md"), (r"FixedVec<u8, SIZE>", "FixedVec")]), Raw(SPEC2),
 tw("available_capacity", spec="ensures r + self.buf@.len() == SIZE"),
 tw("__zero_buffer", spec="ensures final(self).buf@.len() == 0, final(self).f_d == old(self).f_d, final(self).t_cursor == old(self).t_cursor"),
 tw("buffered", spec="ensures r == self.buf@.len()"), tw("cursor", spec="ensures r == self.t_cursor"), tw("cursor_usize", sub=[(r"as _\b", "as usize")], spec="ensures r == self.t_cursor"),
 tw("is_dirty", spec="ensures r == (self.buf@.len() != 0)"),
 tw("current_checksum", spec="ensures r == crc(self.t_checksum@)"), tw("checksum", spec="ensures r@ == self.t_checksum@"),
 tw("verify_cursor", sub=WSUB, spec="ensures final(self).f_d@ == old(self).f_d@, final(self).f_d.pos() == old(self).f_d.pos(), final(self).buf == old(self).buf, final(self).t_cursor == old(self).t_cursor, final(self).t_checksum == old(self).t_checksum, r is Ok ==> old(self).f_d.pos() == old(self).t_cursor"),
 tw("__rollback", spec="ensures final(self).t_partial_checksum@.len() == 0, final(self).f_d == old(self).f_d, final(self).t_cursor == old(self).t_cursor, final(self).t_checksum == checksum, final(self).buf@ == (if buffered < old(self).buf@.len() { old(self).buf@.take(buffered as int) } else { old(self).buf@ })"),
 tw("_new", sub=[(r"S::Metadata", "Md")], spec="ensures r.f_d == f_d, r.t_cursor == t_cursor, r.t_checksum == t_checksum, r.t_partial_checksum@.len() == 0, r.buf@.len() == 0"),
 tw("with_cursor_and_checksum", sig_sub=[("SdssFile<S>", "SdssFile")], spec="ensures r.f_d == arg.file, r.t_cursor == c, r.t_checksum == ck, r.t_partial_checksum@.len() == 0, r.buf@.len() == 0"),
 tw("fsync", spec="ensures final(self).f_d@ == old(self).f_d@, final(self).f_d.pos() == old(self).f_d.pos(), final(self).t_partial_checksum == old(self).t_partial_checksum, final(self).t_cursor == old(self).t_cursor, final(self).t_checksum == old(self).t_checksum, final(self).buf == old(self).buf, r is Err ==> r->Err_0 is Io"),
 tw("flush_buf", sub=WSUB, hints={"start": "let ghost w0 = *self; proof { assert forall|n: int| 0 <= n <= w0.buf@.len() implies (w0.f_d@ + #[trigger] w0.buf@.take(n)) + w0.buf@.skip(n) =~= w0.all() by {} assert(w0.buf@.take(w0.buf@.len() as int) =~= w0.buf@); assert(w0.buf@.take(0).len() == 0); assert forall|n: int| 0 <= n <= w0.buf@.len() implies ext(w0.f_d@, w0.f_d@ + #[trigger] w0.buf@.take(n)) by { ext_add(w0.f_d@, w0.buf@.take(n)); } assert(ext(w0.all(), w0.all())) by { ext_add(w0.all(), Seq::empty()); assert(w0.all() + Seq::<u8>::empty() =~= w0.all()); } assert(w0.buf@.skip(w0.buf@.len() as int).len() == 0); }"},
    spec="requires old(self).ok() ensures " + GROW + ", final(self).all() == old(self).all(), final(self).t_checksum == old(self).t_checksum, r is Ok ==> final(self).buf@.len() == 0 && final(self).disk() == old(self).all(), r is Err ==> final(self).disk().len() < old(self).all().len()"),
 tw("flush_sync", sub=WSUB, spec="requires old(self).ok() ensures " + GROW + ", final(self).all() == old(self).all(), r is Ok ==> final(self).buf@.len() == 0 && final(self).disk() == old(self).all()"),
 tw("untracked_write", sub=WSUB, spec="""requires old(self).ok()
    ensures final(self).t_partial_checksum == old(self).t_partial_checksum, final(self).after(*old(self)), r is Err ==> r->Err_0 is Io, final(self).f_d.sane(), h() <= final(self).f_d@.len(), final(self).t_cursor == final(self).f_d@.len(), final(self).t_checksum == old(self).t_checksum,
        r is Ok ==> final(self).all() == old(self).all() + buf@, r is Err ==> ({ let n = final(self).disk().len() - old(self).disk().len() - old(self).buf@.len(); let k = if n < 0 { 0 } else { n }; k <= buf@.len() && final(self).all() == old(self).all() + buf@.take(k) })""",
    hints={"start": "let ghost w0 = *self; proof { ext_add(w0.all(), buf@); ext_add(w0.disk(), Seq::empty()); assert(w0.disk() + Seq::<u8>::empty() =~= w0.disk()); assert((w0.f_d@ + w0.buf@) + buf@ =~= w0.f_d@ + (w0.buf@ + buf@)); assert(w0.all() + buf@.take(0) =~= w0.all()); assert forall|n: int| 0 <= n <= buf@.len() implies ext(w0.all(), w0.all() + #[trigger] buf@.take(n)) && ext(w0.disk(), w0.all() + buf@.take(n)) by { ext_add(w0.all(), buf@.take(n)); assert(ext(w0.disk(), w0.all() + buf@.take(n))) by { assert((w0.all() + buf@.take(n)).take(w0.disk().len() as int) =~= w0.disk()); } } assert forall|n: int| 0 <= n <= buf@.len() implies (w0.all() + #[trigger] buf@.take(n)) + buf@.skip(n) =~= w0.all() + buf@ by {} assert forall|s: Seq<u8>, e: Seq<u8>| e.len() == 0 implies #[trigger] (s + e) =~= s by {} assert forall|n: int, c: int| 0 <= c <= n <= buf@.len() implies #[trigger] buf@.take(n).take(c) =~= buf@.take(c) by {} }"}),
 tw("tracked_write", sub=WSUB, hints={"start": "let ghost w0 = *self; proof { assert forall|x: Seq<u8>| (w0.all() + x).skip(h() as int) =~= #[trigger] (w0.all().skip(h() as int) + x) by {} }"},
    spec="requires old(self).ok() ensures " + GROW + ", r is Ok ==> final(self).all() == old(self).all() + buf@"),
 tw("tracked_write_through_buffer", sub=WSUB, hints={"start": "let ghost w0 = *self; proof { assert(w0.all() =~= w0.f_d@); assert(buf@.take(buf@.len() as int) =~= buf@); assert forall|x: Seq<u8>| (w0.all() + x).skip(h() as int) =~= #[trigger] (w0.all().skip(h() as int) + x) by {} assert forall|x: Seq<u8>| #[trigger] (w0.f_d@ + x) + w0.buf@ =~= w0.f_d@ + x by {} assert forall|n: int| 0 <= n <= buf@.len() implies ext(w0.f_d@, w0.f_d@ + #[trigger] buf@.take(n)) by { ext_add(w0.f_d@, buf@.take(n)); } }"},
    spec="requires old(self).ok(), old(self).buf@.len() == 0 ensures " + GROW + ", final(self).buf@.len() == 0, r is Ok ==> final(self).disk() == old(self).disk() + buf@"),
 tw("dtrack_write", sub=WSUB, spec="requires old(self).ok() ensures " + GROW.split(", ", 1)[1] + ", r is Ok ==> final(self).all() == old(self).all() + buf@ && final(self).t_partial_checksum@ == old(self).t_partial_checksum@ + buf@"),
 tw("reset_partial", sub=WSUB, spec="ensures r == crc(old(self).t_partial_checksum@), final(self).t_partial_checksum@.len() == 0, final(self).f_d == old(self).f_d, final(self).buf == old(self).buf, final(self).t_cursor == old(self).t_cursor, final(self).t_checksum == old(self).t_checksum"),
 # --- reader
 Ty(RW, "TrackedReader", sub=[(r"<S: FileSpecV1>", ""), (r"SdssFile<S, BufferedReader>", "BufFile")]),
 Ty(RJ, "DriverEventKind", attr="#[derive(PartialEq, Eq, Structural, Clone, Copy)]"), Ty(RJ, "DriverEvent"), Raw(ORACLE), Ty(RJ, "JournalInitializer"), Ty(RJ, "CommitPreference"), Raw(ADAPTER),
 tr("with_cursor", sig_sub=[("SdssFile<S, File>", "SdssFile")], spec="ensures (match r { Ok(t) => t.f@ == f.file@ && t.f.pos() == f.file.pos() && t.len == f.file@.len() && t.len <= 0x7fff_ffff_ffff_ffff && t.cursor == cursor && t.cs@.len() == 0, Err(e) => e is Io })"),
 tr("remaining", spec="requires self.ok_pos() ensures r == self.len - self.cursor"), tr("is_eof", spec="ensures r == (self.len == self.cursor)"), tr("has_left", spec="requires self.ok_pos() ensures r == (self.len - self.cursor >= v)"),
 tr("cursor", spec="ensures r == self.cursor"), tr("current_checksum", spec="ensures r == crc(self.cs@)"), tr("checksum", spec="ensures r@ == self.cs@"),
 tr("into_inner", sub=[(r"(?<=-> )SdssFile<S>", "SdssFile")], spec="ensures r.file@ == self.f@, self.f.pos() == self.f@.len() ==> r.file.pos() == self.f.pos()"),
 tr("untracked_read", spec="requires old(self).ok_pos() ensures final(buf)@.len() == old(buf)@.len(), final(self).f@ == old(self).f@, (match r { Ok(()) => final(self).ok_pos() && final(self).cursor == old(self).cursor + old(buf)@.len() && final(self).cs == old(self).cs && final(buf)@ == old(self).f@.subrange(old(self).cursor as int, final(self).cursor as int), Err(e) => e is Io || (e is Short && old(self).len - old(self).cursor < old(buf)@.len()) })"),
 tr("tracked_read", sub=WSUB, spec="requires old(self).ok() ensures final(buf)@.len() == old(buf)@.len(), final(self).f@ == old(self).f@, (match r { Ok(()) => final(self).read(*old(self), old(buf)@.len()) && final(buf)@ == old(self).f@.subrange(old(self).cursor as int, final(self).cursor as int), Err(e) => e is Io || (e is Short && old(self).len - old(self).cursor < old(buf)@.len()) })",
    hints={"start": "let ghost t0 = *self; proof { assert forall|k: int| t0.cursor <= k <= t0.f@.len() implies t0.f@.subrange(h() as int, t0.cursor as int) + #[trigger] t0.f@.subrange(t0.cursor as int, k) =~= t0.f@.subrange(h() as int, k) by {} }"}),
 tr("read_block", sub=[(r"N as _\b", "N as u64"), (r"= \[0; N\]", "= vp_zero::<N>()"), (r"tracked_read\(&mut buf\)", "tracked_read(vp_mut(&mut buf))")],
    spec="requires old(self).ok() ensures final(self).f@ == old(self).f@, (match r { Ok(x) => final(self).read(*old(self), N as nat) && x@ == old(self).f@.subrange(old(self).cursor as int, final(self).cursor as int), Err(e) => e is Io || (e is Short && old(self).len - old(self).cursor < N) })"),
 # --- journal
 ji("new", spec="ensures r.cursor == cursor, r.checksum == checksum, r.last_txn_id == txn_id, r.last_offset == last_offset"), ji("cursor", spec="ensures r == self.cursor"), ji("checksum", spec="ensures r@ == self.checksum@"),
 ji("txn_id", spec="ensures r == self.last_txn_id"), ji("last_txn_id", spec="ensures r == (if self.last_txn_id > 0 { self.last_txn_id - 1 } else { 0 })"), ji("is_new", spec="ensures r == (self.last_offset == 0)"), ji("last_offset", spec="ensures r == self.last_offset"),
 Ty(RJ, "JournalStats"), Fn(RJ, "JournalStats::new", spec="ensures r.server_events == 0, r.driver_events == 0"),
 Ty(RJ, "RawJournalReader", sub=[(r"<J: RawJournalAdapter>", ""), (r"TrackedReader<<J as RawJournalAdapter>::Spec>", "TrackedReader")]),
 Ty(RJ, "RawJournalWriter", sub=[(r"<J: RawJournalAdapter>", ""), (r"TrackedWriter<<J as RawJournalAdapter>::Spec>", "TrackedWriter")]), Raw(STATE),
 jr("new", sig_sub=[("TrackedReader<<J as RawJournalAdapter>::Spec>", "TrackedReader")], spec="ensures r.tr == reader, r.txn_id == txn_id, r.last_txn_id == last_txn_id, r.last_txn_offset == last_txn_offset, r.last_txn_checksum == last_txn_checksum, r.stats.server_events == 0, r.stats.driver_events == 0"),
 jr("__refresh_known_txn", spec="requires old(me).txn_id < u64::MAX ensures final(me).tr == old(me).tr, final(me).txn_id == old(me).txn_id + 1, final(me).last_txn_id == old(me).txn_id, final(me).last_txn_checksum == crc(old(me).tr.cs@), final(me).last_txn_offset == old(me).tr.cursor, final(me).stats == old(me).stats"),
 jr("_apply_next_event_and_stop", sig_sub=[("gs: &J::GlobalState", "gs: &mut GS")], sub=[(r"let Self \{ tr: reader, \.\. \} = self;", ""), (r"(?<=gs, meta, )reader", "&mut self.tr")],
    spec="""requires old(self).ok(), old(self).st().open, old(gs)@ == old(self).st().evs
      ensures final(self).b() == old(self).b() || r is Err, (match r { Ok(b) => final(self).ok() && final(self).txn_id > old(self).txn_id && final(self).tr.cursor > old(self).tr.cursor && final(gs)@ == final(self).st().evs && (if b { closed(old(self).b(), final(self).txn_id as nat) } else { final(self).st().open }), Err(e) => e is Io || e is Refused || never_closed(old(self).b()) })""",
    hints={"start": """let ghost m0 = *self; let ghost bb = self.b(); let ghost s0 = self.st(); proof { run_is(bb, self.txn_id as nat); if rec(bb, s0) is None { stuck(bb, self.txn_id as nat); } else { rec_is(bb, s0); } mask_facts(0);
        if s0.pos + 24 <= bb.len() { let md = un8(bb.subrange((s0.pos + 16) as int, (s0.pos + 24) as int)); assert(bb.skip((s0.pos + 24) as int) =~= bb.skip((s0.pos + 16 + 8) as int)); if drv_at(bb, s0, K::Closed) { assert(bb.subrange(s0.pos as int, (s0.pos + 64) as int).take(16) =~= bb.subrange(s0.pos as int, (s0.pos + 16) as int)); } } assert(run(bb, (self.txn_id + 1) as nat) == rec(bb, s0)); }"""}),
 jr("handle_close", sig_sub=[("Result<bool, crate::engine::fractal::error::Error>", "RuntimeResult<bool>")],
    sub=[(r"= \[0u8; DriverEvent::FULL_EVENT_SIZE\]", "= vp_zero::<64>()"), (r"block\[DriverEvent::OFFSET_0_TXN_ID\]\.copy_from_slice\(&(\w+)\.to_le_bytes\(\)\);", r"vp_put(&mut block, 0, 16, vp_le16(\1).as_slice());"), (r"block\[DriverEvent::OFFSET_1_EVENT_KIND\]\.copy_from_slice\(&(\w+)\.to_le_bytes\(\)\);", r"vp_put(&mut block, 16, 24, vp_le8(\1).as_slice());"),
         (r"&mut block\[DriverEvent::OFFSET_2_CHECKSUM\.start\.\.\]", "vp_mut_tail(&mut block, 24)")],
    spec="""requires old(self).tr.ok(), old(self).st().open, run(old(self).b(), old(self).txn_id as nat) is Some, old(self).st().txn == old(self).txn_id, old(self).st().pos + 24 == old(self).tr.cursor, old(self).last_txn_id == last(old(self).st()), old(self).last_txn_offset == off(old(self).st()),
        old(self).last_txn_checksum == sum(old(self).b(), old(self).st().pos), old(self).stats.server_events + old(self).stats.driver_events <= old(self).txn_id, txn_id == old(self).txn_id, old(self).b().subrange(old(self).st().pos as int, (old(self).st().pos + 16) as int) == le16(txn_id), old(self).b().subrange((old(self).st().pos + 16) as int, (old(self).st().pos + 24) as int) == le8(meta), meta & SERVER_EV_MASK == 0
      ensures final(self).b() == old(self).b() || r is Err, (match r { Ok(b) => final(self).ok() && final(self).txn_id > old(self).txn_id && final(self).tr.cursor > old(self).tr.cursor && final(self).st().evs == old(self).st().evs && (if b { closed(old(self).b(), final(self).txn_id as nat) } else { final(self).st().open }), Err(e) => e is Io || never_closed(old(self).b()) })""",
    hints={"start": """let ghost m0 = *self; let ghost bb = self.b(); let ghost s0 = self.st(); proof { run_is(bb, self.txn_id as nat); if rec(bb, s0) is None { stuck(bb, self.txn_id as nat); } else { rec_is(bb, s0); } mask_facts(meta); assert(run(bb, (self.txn_id + 1) as nat) == rec(bb, s0));
        if s0.pos + 64 <= bb.len() { assert(bb.subrange(s0.pos as int, (s0.pos + 64) as int) =~= le16(txn_id) + le8(meta) + bb.subrange((s0.pos + 24) as int, (s0.pos + 64) as int)); } }""",
        ("call", "decode", 0): "proof { assert(block@ =~= bb.subrange(s0.pos as int, (s0.pos + 64) as int)); }",
        ("call", "__refresh_known_txn", 0): "proof { assert(block@.take(16) =~= le16(txn_id)); }",
        ("call", "__refresh_known_txn", 0, "after"): "proof { assert(drv_at(bb, s0, K::Closed)); assert(rec(bb, s0) is Some); run_is(bb, self.txn_id as nat); }",
        }),
 jr("handle_reopen", sub=[(r"read_block::<\{ DriverEvent::FULL_EVENT_SIZE \}>", "read_block::<64>")],
    spec="""requires old(self).ok(), !old(self).st().open, old(self).tr.cursor < old(self).b().len()
      ensures final(self).b() == old(self).b() || r is Err, (match r { Ok(b) => !b && final(self).ok() && final(self).txn_id > old(self).txn_id && final(self).tr.cursor > old(self).tr.cursor && final(self).st().evs == old(self).st().evs && final(self).st().open, Err(e) => e is Io || never_closed(old(self).b()) })""",
    hints={"start": "let ghost m0 = *self; let ghost bb = self.b(); let ghost s0 = self.st(); proof { run_is(bb, self.txn_id as nat); if rec(bb, s0) is None { stuck(bb, self.txn_id as nat); } else { rec_is(bb, s0); } assert(run(bb, (self.txn_id + 1) as nat) == rec(bb, s0)); }"}),
 jr("scroll", sig_sub=[("file: SdssFile<<J as RawJournalAdapter>::Spec>", "file: SdssFile"), ("gs: &J::GlobalState", "gs: &mut GS"), ("SdssFile<J::Spec>", "SdssFile")],
    hints={"start": "let ghost bb = file.file@; proof { h_is(); crc_nothing(); assert(bb.subrange(h() as int, h() as int) =~= Seq::empty()); }", ("loop", 0, "start"): "proof { run_is(bb, me.txn_id as nat); }",
        ("call", "new", 1): "proof { run_is(bb, me.txn_id as nat); assert(bb.subrange(h() as int, bb.len() as int) =~= bb.skip(h() as int)); }"},
    loops={0: "invariant me.ok(), me.st().open, me.b() == bb, bb == file.file@, gs@ == me.st().evs, h() <= bb.len() decreases bb.len() - me.tr.cursor"},
    spec="""requires file.file.pos() == h(), h() <= file.file@.len(), old(gs)@.len() == 0
      ensures (match r { Ok((i, f)) => closed(file.file@, i.last_txn_id as nat) && i.of(file.file@) && final(gs)@ == (run(file.file@, i.last_txn_id as nat)->0).evs && f.file@ == file.file@ && f.file.sane(), Err(e) => e is Io || e is Refused || never_closed(file.file@) })"""),
 jw("commit_with_ctx", key="RawJournalWriter::commit_with_ctx, body", sig_sub=[("commit_with_ctx<'a, E: RawJournalAdapterEvent<J>>", "commit_with_ctx__body"), ("&mut self", "me: &mut Self, txn_id: u128"), ("event: E", "event: Event"), ("ctx: J::CommitContext", "ctx: CommitContext")],
    sub=[(r"self\.txn_context\(\|me, txn_id\| \{", "{", "required"), (r"\}\)(?=\s*\}\s*$)", "}", "required"), (r"let Self \{ j, log_file, \.\. \} = me;", ""), (r"J::COMMIT_PREFERENCE", "J::preference()"), (r"\bj\.commit_buffered", "me.j.commit_buffered"), (r"\b(?<!\.)log_file\.", "me.log_file."), (r"(?<=commit_direct\()j, log_file", "&mut me.j, &mut me.log_file"),
         (r"buf\.extend\(&txn_id\.to_le_bytes\(\)\)", "vp_extend(&mut buf, &vp_le16(txn_id))"), (r"buf\.extend\(&(\w+)\.to_le_bytes\(\)\)", r"vp_extend(&mut buf, &vp_le8(\1))"), (r"(?<=tracked_write_through_buffer\()&buf", "buf.as_slice()"), (r"(?<=tracked_write\()&txn_id\.to_le_bytes\(\)", "vp_le16(txn_id).as_slice()"), (r"(?<=tracked_write\()&(\w+)\.to_le_bytes\(\)", r"vp_le8(\1).as_slice()")],
    hints={"start": "let ghost w0 = me.log_file; proof { let x = le16(txn_id); let y = le8(event.kind() | SERVER_EV_MASK); let z = event.pay(); assert(w0.all() =~= w0.disk()); assert(((w0.all() + x) + y) + z =~= w0.disk() + (x + y + z)); assert((Seq::<u8>::empty() + x) + y + z =~= x + y + z); }"},
    spec="requires old(me).log_file.ok(), old(me).log_file.t_partial_checksum@.len() == 0, old(me).log_file.buf@.len() == 0, event.codec() ensures final(me).log_file.ok(), final(me).log_file.after(old(me).log_file), final(me).regs(*old(me)), r is Ok ==> final(me).log_file.buf@.len() == 0 && final(me).log_file.t_partial_checksum@.len() == 0 && final(me).b() == old(me).b() + (le16(txn_id) + le8(event.kind() | SERVER_EV_MASK) + event.pay())"),
 jw("_commit_driver_event", key="RawJournalWriter::_commit_driver_event, body", sig_sub=[("_commit_driver_event", "_commit_driver_event__body"), ("me: &mut Self", "me: &mut Self, txn_id: u128")],
    sub=[(r"me\.txn_context\(\|me, txn_id\| \{", "{", "required"), (r"\}\)(?=\s*\}\s*$)", "}", "required"), (r"(?<=tracked_write_through_buffer\()&block", "block.as_slice()")],
    spec="requires old(me).log_file.ok(), old(me).log_file.buf@.len() == 0 ensures final(me).log_file.t_partial_checksum == old(me).log_file.t_partial_checksum, final(me).log_file.ok(), final(me).log_file.after(old(me).log_file), final(me).log_file.buf@.len() == 0, final(me).regs(*old(me)), r is Ok ==> final(me).b() == old(me).b() + drv(txn_id, kind.k(), crc(old(me).log_file.t_checksum@), old(me).known_txn_offset, old(me).known_txn_id)"),
 jw("txn_context", key="RawJournalWriter::commit_with_ctx", sig_sub=[("fn txn_context<T>", "fn commit_with_ctx"), ("f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>", "event: Event, ctx: CommitContext")], sub=[(r"(?<=-> )RuntimeResult<T>(?= \{)", "RuntimeResult<()>"), (r"\bf\(self, id as u128\)", "Self::commit_with_ctx__body(self, id as u128, event, ctx)", "required")],
    hints={"start": "let ghost w0 = *self; proof { st_facts(w0); h_is(); ext_add(w0.b(), Seq::empty()); assert(w0.b() + Seq::<u8>::empty() =~= w0.b()); if w0.sync() { put_event(w0.b(), w0.txn_id as nat, event.kind(), event.pay(), event@); } }", ("call", "is_ok", 0): "proof { ext_add(w0.b(), self.b()); assert(self.log_file.f_d@.len() == w0.log_file.f_d@.len() ==> self.log_file.f_d@ =~= w0.log_file.f_d@.take(w0.log_file.f_d@.len() as int)) by { if self.log_file.f_d@.len() == w0.log_file.f_d@.len() { assert(self.log_file.f_d@.take(w0.log_file.f_d@.len() as int) =~= self.log_file.f_d@); } } assert(self.log_file.f_d@ + Seq::<u8>::empty() =~= self.log_file.f_d@); assert(self.log_file.buf@.take(0) =~= Seq::empty()); }"},
    spec="requires old(self).ok(), event.codec(), old(self).sync() ==> old(self).st().open ensures final(self).step(*old(self), r is Ok, old(self).st().evs.push(event@), true)"),
 jw("txn_context", key="RawJournalWriter::_commit_driver_event", sig_sub=[("fn txn_context<T>", "fn _commit_driver_event"), ("&mut self", "me: &mut Self"), ("f: impl FnOnce(&mut Self, u128) -> RuntimeResult<T>", "kind: DriverEventKind")], sub=[(r"(?<=-> )RuntimeResult<T>(?= \{)", "RuntimeResult<()>"), (r"\bf\(self, id as u128\)", "Self::_commit_driver_event__body(me, id as u128, kind)", "required"), (r"\bself\.", "me.")],
    hints={"start": "let ghost w0 = *me; proof { st_facts(w0); h_is(); ext_add(w0.b(), Seq::empty()); assert(w0.b() + Seq::<u8>::empty() =~= w0.b()); if w0.sync() { put_drv(w0.b(), w0.txn_id as nat, kind.k()); } }", ("call", "is_ok", 0): "proof { assert(me.log_file.f_d@.len() == w0.log_file.f_d@.len() ==> me.log_file.f_d@ =~= w0.log_file.f_d@.take(w0.log_file.f_d@.len() as int)) by { if me.log_file.f_d@.len() == w0.log_file.f_d@.len() { assert(me.log_file.f_d@.take(w0.log_file.f_d@.len() as int) =~= me.log_file.f_d@); } } assert(me.log_file.f_d@ + Seq::<u8>::empty() =~= me.log_file.f_d@); assert(me.log_file.buf@.take(0) =~= Seq::empty()); }"},
    spec="requires old(me).ok(), old(me).sync() ==> old(me).st().open == (kind is Closed) ensures final(me).step(*old(me), r is Ok, old(me).st().evs, kind is Reopened)"),
 jw("close_driver", spec="requires old(me).ok(), old(me).sync() ==> old(me).st().open ensures r is Ok ==> final(me).step(*old(me), true, old(me).st().evs, false) && closed(final(me).b(), final(me).txn_id as nat), r is Err ==> final(me).log_file.buf@.len() == 0 && ext(old(me).b(), final(me).b())"),
 jw("reopen_driver", spec="requires old(me).ok(), old(me).sync() ==> !old(me).st().open ensures final(me).step(*old(me), r is Ok, old(me).st().evs, true)"),
 jw("__lwt_heartbeat", spec="requires old(self).ok() ensures r is Ok ==> old(self).sync()"),
 jw("new", sig_sub=[("SdssFile<J::Spec>", "SdssFile")], hints={"start": "proof { h_is(); run_is(file.file@, j_.last_txn_id as nat); }"},
    spec="requires j_.of(file.file@), file.file.sane() ensures (match r { Ok(w) => w.ok() && w.sync() && w.st().open && w.st().evs == (run(file.file@, j_.last_txn_id as nat)->0).evs && ext(file.file@, w.b()), Err(e) => true })"),
 Fn(RJ, "create_journal", sig_sub=[("<J: RawJournalAdapter>", ""), ("RawJournalWriter<J>", "RawJournalWriter")], sub=[(r"where\s*J::Spec: FileSpecV1<EncodeArgs = \(\)>,", "")], hints={"start": "h_is(); assert forall|b: Seq<u8>| b.len() == h() implies (#[trigger] b.skip(h() as int)) =~= Seq::<u8>::empty() by {}"}, spec="ensures (match r { Ok(w) => w.ok() && w.sync() && w.st().open && w.st().evs.len() == 0, Err(e) => true })"),
 Fn(RJ, "open_journal", sig_sub=[("<J: RawJournalAdapter>", ""), ("gs: &J::GlobalState", "gs: &mut GS"), ("RawJournalWriter<J>", "RawJournalWriter")], sub=[(r"where\s*J::Spec: FileSpecV1<DecodeArgs = \(\)>,", "")],
    spec="requires old(gs)@.len() == 0 ensures (match r { Ok(w) => w.ok() && w.sync() && w.st().open && w.st().evs == final(gs)@ && !never_closed(on_disk(log_path@)) && ext(on_disk(log_path@), w.b()), Err(e) => true })"),

 # --- the two adapters: what they add to the file, and what they read back
 Raw(EL),
 Fn(JM, "<EventLogAdapter as RawJournalAdapter>::commit_direct", header="impl EventLogAdapter", inherent=True, key="EventLogAdapter::commit_direct", sub=ADSUB, sig_sub=ADSIG, hints={"start": "let ghost w0 = *w; proof { let p = ev.body(); let l = le8(p.len() as u64); assert(Seq::<u8>::empty() + l + p =~= l + p); assert(Seq::<u8>::empty() + p =~= p); assert(w0.all() + le8(crc(l + p)) + l + p =~= w0.all() + (le8(crc(l + p)) + l + p)); }"},
    spec="requires old(w).ok(), old(w).t_partial_checksum@.len() == 0, ev.body().len() <= 0x7fff_ffff_ffff_ffff ensures final(w).ok(), final(w).after(*old(w)), r is Ok ==> final(w).all() == old(w).all() + el_pay(ev.body()) && final(w).t_partial_checksum@.len() == 0"),
 Fn(JM, "<EventLogAdapter as RawJournalAdapter>::decode_apply", header="impl EventLogAdapter", inherent=True, key="EventLogAdapter::decode_apply", sub=ADSUB + [(r"vec!\[0; plen as usize\]", "vp_zeros(plen as usize)"), (r"tracked_read\(&mut pl\)", "tracked_read(vp_mutv(&mut pl))"), (r"<EL as EventLogSpec>::DECODE_DISPATCH\s*\[<<EL as EventLogSpec>::EventMeta as TaggedEnum>::dscr_u64\(&meta\) as usize\]\(\s*gs, pl\s*\)", "EL::dispatch(gs, meta, pl)", "required")],
    sig_sub=[("<'a>", ""), ("gs: &Self::GlobalState", "gs: &mut GS"), ("Self::EventMeta", "EventMeta"), ("TrackedReader<Self::Spec>", "TrackedReader")],
    hints={"start": "let ghost s = file.rest(); let ghost f0 = *file; proof { el_facts(s); assert(s.len() >= 8 ==> s.take(8) =~= f0.f@.subrange(f0.cursor as int, f0.cursor + 8)); assert(s.len() >= 16 ==> s.subrange(8, 16) =~= f0.f@.subrange(f0.cursor + 8, f0.cursor + 16)); assert forall|n: int| 16 <= n <= s.len() implies s.subrange(16, n) =~= #[trigger] f0.f@.subrange(f0.cursor + 16, f0.cursor + n) by {} assert forall|a: Seq<u8>| Seq::<u8>::empty() + a =~= #[trigger] (a + Seq::<u8>::empty()) by {} }", ("call", "tracked_read", 0): "proof { assert(el_rec(s) == el_at(s, plen as nat)); }", ("call", "finish", 0): "proof { let n = 16 + plen; assert(s.subrange(16, n) =~= f0.f@.subrange(f0.cursor + 16, f0.cursor + n)); assert(pl@ == s.subrange(16, n)); assert(this_checksum@ =~= le8(plen) + pl@); }"},
    spec="""requires old(file).ok()
      ensures (match r { Ok(()) => final(file).ok() && final(file).f@ == old(file).f@ && el_rec(old(file).rest()) is Some && final(file).cursor == old(file).cursor + 16 + (el_rec(old(file).rest())->0).len() && ran(meta, el_rec(old(file).rest())->0, old(gs)@, final(gs)@),
        Err(e) => final(gs)@ == old(gs)@ && (e is Io || el_rec(old(file).rest()) is None) || e is Refused })"""),
 Fn(JM, "<BatchAdapter as RawJournalAdapter>::commit_direct", header="impl BatchAdapter", inherent=True, key="BatchAdapter::commit_direct", sub=ADSUB, sig_sub=[x for x in ADSIG if x[0] != "ctx: ()"] + [("Self::CommitContext", "CommitContext")], hints={"start": "let ghost w0 = *w; proof { assert(w0.t_partial_checksum@ + ev.body() =~= ev.body()); assert(w0.all() + ev.body() + le8(crc(ev.body())) =~= w0.all() + (ev.body() + le8(crc(ev.body())))); }"},
    spec="requires old(w).ok(), old(w).t_partial_checksum@.len() == 0 ensures final(w).ok(), final(w).after(*old(w)), r is Ok ==> final(w).all() == old(w).all() + (ev.body() + le8(crc(ev.body()))) && final(w).t_partial_checksum@.len() == 0"),
]
