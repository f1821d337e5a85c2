"""Shared by the units query and handshake: byte scanner functions and the decimal/wire grammar."""
SC = "server/src/engine/mem/scanner.rs"
EX = "server/src/engine/net/protocol/exchange.rs"
HS = "server/src/engine/net/protocol/handshake.rs"
PR = "server/src/engine/net/protocol/mod.rs"
CO = "server/src/util/compiler.rs"
CRATE_ATTRS = ""
DROP_MODS = {"engine", "mem", "scanner", "exchange", "handshake", "compiler", "util"}

SPEC = r'''
global size_of usize == 8;   // ASSUMPTION: 64-bit target
broadcast use vstd::slice::group_slice_axioms;
pub broadcast group wire { bad_int_final, int_at_unique, digits_prefix }
/// LF cannot lie inside a run of digits
broadcast proof fn digits_prefix(b: Seq<u8>, e: Seq<u8>, i: int, m: int)
    requires #[trigger] digits(b, i, b.len() as int), #[trigger] ext(b, e), #[trigger] int_at(e, i, m), 0 <= i
    ensures m >= b.len()
{ if m < b.len() { assert(e[m] == b[m]); assert(is_digit(b[m])); } }

pub assume_specification[ u8::is_ascii_digit ](b: &u8) -> (r: bool)   // discharged by Kani over all u8 (harness std_digit)
    ensures r == (48 <= *b <= 57);

// ---------- decimal strings ----------
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn digits(s: Seq<u8>, i: int, j: int) -> bool { forall|x: int| i <= x < j ==> is_digit(#[trigger] s[x]) }
/// value of the digits s[i..j) appended (base 10) to acc
pub open spec fn num(s: Seq<u8>, acc: int, i: int, j: int) -> int decreases j - i {
    if i >= j { acc } else { num(s, acc, i, j - 1) * 10 + (s[j - 1] - 48) }
}
pub open spec fn M() -> int { 0xFFFF_FFFF_FFFF_FFFF }

proof fn num_same(s: Seq<u8>, t: Seq<u8>, acc: int, i: int, j: int)
    requires 0 <= i <= j <= s.len(), j <= t.len(), forall|x: int| i <= x < j ==> s[x] == t[x]
    ensures num(s, acc, i, j) == num(t, acc, i, j)
    decreases j - i
{ if i < j { num_same(s, t, acc, i, j - 1); } }
proof fn num_split(s: Seq<u8>, acc: int, i: int, k: int, j: int)
    requires i <= k <= j
    ensures num(s, num(s, acc, i, k), k, j) == num(s, acc, i, j)
    decreases j - k
{ if k < j { num_split(s, acc, i, k, j - 1); } }
proof fn num_mono(s: Seq<u8>, acc: int, i: int, k: int, j: int)
    requires 0 <= i <= k <= j <= s.len(), digits(s, i, j), acc >= 0
    ensures 0 <= num(s, acc, i, k) <= num(s, acc, i, j)
    decreases j - i
{
    if k < j {
        num_mono(s, acc, i, k, j - 1);
        assert(is_digit(s[j - 1]));
    } else if i < j {
        num_mono(s, acc, i, j - 1, j - 1);
        assert(is_digit(s[j - 1]));
    }
}
pub open spec fn ext(b: Seq<u8>, e: Seq<u8>) -> bool { b.len() <= e.len() && forall|x: int| 0 <= x < b.len() ==> #[trigger] e[x] == b[x] }

// ---------- the wire grammar ----------
/// b[i..k) are digits, b[k] is LF, and the number fits 64 bits
pub open spec fn int_at(b: Seq<u8>, i: int, k: int) -> bool {
    0 <= i <= k < b.len() && digits(b, i, k) && b[k] == 10 && num(b, 0, i, k) <= M()
}
broadcast proof fn int_at_unique(b: Seq<u8>, e: Seq<u8>, i: int, k: int, k2: int)
    requires #[trigger] int_at(b, i, k), #[trigger] ext(b, e), #[trigger] int_at(e, i, k2)
    ensures k == k2, num(b, 0, i, k) == num(e, 0, i, k2)
{
    if k < k2 { assert(e[k] == 10); assert(is_digit(e[k])); assert(false); }
    if k2 < k { assert(b[k2] == e[k2]); assert(is_digit(b[k2])); assert(false); }
    num_same(b, e, 0, i, k);
}
proof fn int_at_ext(b: Seq<u8>, e: Seq<u8>, i: int, k: int)
    requires int_at(b, i, k), ext(b, e)
    ensures int_at(e, i, k), num(b, 0, i, k) == num(e, 0, i, k)
{
    assert(e[k] == b[k]);
    assert forall|x: int| i <= x < k implies is_digit(#[trigger] e[x]) by { assert(e[x] == b[x]); }
    num_same(b, e, 0, i, k);
}

/// header of a query frame: 'S' <packet size> LF <query window> LF; k, m are the positions of the LFs
pub open spec fn hdr(b: Seq<u8>, k: int, m: int) -> bool {
    b.len() > 0 && b[0] == 83 && int_at(b, 1, k) && int_at(b, k + 1, m)
}
pub open spec fn psize(b: Seq<u8>, k: int) -> int { num(b, 0, 1, k) }
pub open spec fn qwin(b: Seq<u8>, k: int, m: int) -> int { num(b, 0, k + 1, m) }
/// b is exactly one query frame, with payload starting at m+1
pub open spec fn frame_at(b: Seq<u8>, k: int, m: int) -> bool {
    hdr(b, k, m) && b.len() <= M() && b.len() == k + 1 + psize(b, k) && qwin(b, k, m) <= b.len() - (m + 1)
}
pub open spec fn is_frame(b: Seq<u8>) -> bool { exists|k: int, m: int| frame_at(b, k, m) }
'''

SCAN_STATE = "self.wf(), self.buf().len() > 0"
KEEP = "final(self).wf(), final(self).buf() == old(self).buf()"

U64AT = r'''
pub open spec fn u64_stop(b: Seq<u8>, i: int, okay: bool, ret: int, c: int) -> bool {
    &&& i <= c <= b.len()
    &&& okay ==> digits(b, i, c) && (c == b.len() || b[c] == 10) && ret == num(b, 0, i, c) && ret <= M()
    &&& !okay ==> bad_int(b, i)
}
/// some byte before the first LF is not a digit, or the number is too large for 64 bits: no extension of b can be an integer here
pub open spec fn bad_int(b: Seq<u8>, i: int) -> bool {
    exists|k: int| #![auto] i <= k < b.len() && digits(b, i, k) && b[k] != 10 && (!is_digit(b[k]) || num(b, 0, i, k + 1) > M())
}
broadcast proof fn bad_int_final(b: Seq<u8>, e: Seq<u8>, i: int, m: int)
    requires #[trigger] bad_int(b, i), #[trigger] ext(b, e), 0 <= i
    ensures !#[trigger] int_at(e, i, m)
{
    let k = choose|k: int| #![auto] i <= k < b.len() && digits(b, i, k) && b[k] != 10 && (!is_digit(b[k]) || num(b, 0, i, k + 1) > M());
    if int_at(e, i, m) {
        if m < k { assert(e[m] == b[m]); assert(is_digit(b[m])); }
        else if m == k { assert(e[k] == b[k]); }
        else { assert(is_digit(e[k])); assert(e[k] == b[k]); num_same(b, e, 0, i, k + 1); num_mono(e, 0, i, k + 1, m); }
    }
}
'''

SCANNER = [
 Raw(SPEC), Raw(U64AT),
 Ty(SC, "Scanner"), Ty(SC, "BufferedScanner"), Ty(SC, "ScannerDecodeResult"),
 Raw(r'''
impl<'a, T> Scanner<'a, T> {
    pub open spec fn buf(&self) -> Seq<T> { self.d@ }
    pub open spec fn cur(&self) -> int { self.__cursor as int }
    pub open spec fn wf(&self) -> bool { self.__cursor <= self.d@.len() <= usize::MAX }
}
'''),
 Fn(SC, "Scanner::new", spec="ensures r.buf() == d@, r.cur() == 0, r.wf()"),
 Fn(SC, "Scanner::new_with_cursor", hints={"start": "assert(d@.len() == vstd::slice::spec_slice_len(d));"}, spec="requires i <= d@.len() ensures r.buf() == d@, r.cur() == i, r.wf()"),
 Fn(SC, "Scanner::buffer_len", spec="ensures r == self.buf().len()"),
 Fn(SC, "Scanner::remaining", spec="requires self.wf() ensures r == self.buf().len() - self.cur()"),
 Fn(SC, "Scanner::cursor", spec="ensures r == self.cur()"),
 Fn(SC, "Scanner::current_buffer", spec="requires self.wf() ensures r@ == self.buf().skip(self.cur())"),
 Fn(SC, "Scanner::eof", spec="requires self.wf() ensures r == (self.cur() == self.buf().len())"),
 Fn(SC, "Scanner::has_left", spec="requires self.wf() ensures r == (self.buf().len() - self.cur() >= sizeof)"),
 Fn(SC, "Scanner::rounded_cursor_matches", spec="""requires self.wf(), self.buf().len() > 0, forall|t: &T| f.requires((t,))
       ensures self.cur() == self.buf().len() ==> !r, self.cur() < self.buf().len() ==> f.ensures((&self.buf()[self.cur()],), r)"""),
 Fn(SC, "Scanner::rounded_cursor_not_eof_matches", spec="""requires self.wf(), self.buf().len() > 0, forall|t: &T| f.requires((t,))
       ensures self.cur() == self.buf().len() ==> !r, self.cur() < self.buf().len() ==> f.ensures((&self.buf()[self.cur()],), r)"""),
 Fn(SC, "Scanner::rounded_eq", header="impl<'a> Scanner<'a, u8>", sub=[(r"where\s+T: PartialEq,", ""), (r"\bT\b", "u8"), (r"v\.eq\(&([^;]*?)\)(?= &)", r"v == \1")],
    spec="requires self.wf(), self.buf().len() > 0 ensures r == (self.cur() < self.buf().len() && self.buf()[self.cur()] == v)"),
 Fn(SC, "Scanner::inner_buffer", spec="ensures r@ == self.buf()"),
 Fn(SC, "Scanner::set_cursor", spec="requires i <= old(self).buf().len(), old(self).wf() ensures %s, final(self).cur() == i" % KEEP),
 Fn(SC, "Scanner::incr_cursor", spec="requires old(self).wf(), old(self).cur() < old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + 1" % KEEP),
 Fn(SC, "Scanner::incr_cursor_by", spec="requires old(self).wf(), old(self).cur() + by <= old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + by" % KEEP),
 Fn(SC, "Scanner::incr_cursor_if", spec="requires old(self).wf(), iff ==> old(self).cur() < old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + (if iff { 1int } else { 0int })" % KEEP),
 Fn(SC, "Scanner::rounded_cursor", spec="requires self.wf(), self.buf().len() > 0 ensures r == if self.cur() < self.buf().len() { self.cur() } else { self.buf().len() - 1 }"),
 Fn(SC, "Scanner::try_next_variable_block", spec="""requires old(self).wf()
    ensures %s, r is Some <==> old(self).buf().len() - old(self).cur() >= len,
      r is Some ==> r->0@ == old(self).buf().subrange(old(self).cur(), old(self).cur() + len) && final(self).cur() == old(self).cur() + len,
      r is None ==> final(self).cur() == old(self).cur()""" % KEEP),
 Fn(SC, "Scanner::next_byte", external="raw pointer read; Kani harness leaf_next_byte", spec="requires old(self).wf(), old(self).cur() < old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + 1, r == old(self).buf()[old(self).cur()]" % KEEP),
 Fn(SC, "Scanner::next_chunk", external="raw pointer copy; Kani harness leaf_next_chunk", spec="requires old(self).wf(), old(self).cur() + N <= old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + N, r@ == old(self).buf().subrange(old(self).cur(), old(self).cur() + N)" % KEEP),
 Fn(SC, "Scanner::next_chunk_variable", external="raw pointer slice; Kani harness leaf_next_chunk_variable", spec="requires old(self).wf(), old(self).cur() + size <= old(self).buf().len() ensures %s, final(self).cur() == old(self).cur() + size, r@ == old(self).buf().subrange(old(self).cur(), old(self).cur() + size)" % KEEP),
 Fn(SC, "Scanner::try_next_ascii_u64_stop_at", spec="""
    requires old(self).wf(), old(self).buf().len() > 0, ASCII_CHECK,
        forall|b: u8| keep_going_if.requires((b,)), forall|b: u8, r: bool| keep_going_if.ensures((b,), r) ==> r == (b != 10)
    ensures %s, exists|ok: bool| u64_stop(old(self).buf(), old(self).cur(), ok, r as int, final(self).cur()) && *final(g_okay) == (*old(g_okay) && ok)""" % KEEP,
    closures={0: "|$0: &u8| -> (r: bool) ensures r == (*$0 != 10)"},
    loops={0: """invariant_except_break
            self.wf(), self.buf() == old(self).buf(), old(self).buf().len() > 0, 0 <= old(self).cur() <= self.cur(), ASCII_CHECK,
            okay ==> digits(self.buf(), old(self).cur(), self.cur()) && ret == num(self.buf(), 0, old(self).cur(), self.cur()),
            !okay ==> bad_int(self.buf(), old(self).cur()),
            forall|b: u8| keep_going_if.requires((b,)), forall|b: u8, r: bool| keep_going_if.ensures((b,), r) ==> r == (b != 10),
        ensures
            self.wf(), self.buf() == old(self).buf(), old(self).cur() <= self.cur(),
            u64_stop(self.buf(), old(self).cur(), okay, ret as int, self.cur()),
        decreases self.buf().len() - self.cur()"""},
    hints={("loop", 0, "start"): """proof {
            let b0 = self.buf(); let i = old(self).cur(); let c = self.cur();
            assert(b0[c] != 10 && c < b0.len());
            let x = b0[c];
            assert(x & 0x0F == x - 48 || !(48 <= x <= 57)) by (bit_vector);
            assert(!is_digit(x) ==> bad_int(b0, i));
            assert(num(b0, 0, i, c + 1) == num(b0, 0, i, c) * 10 + (b0[c] - 48));
            if is_digit(x) && (ret * 10 + (x - 48) > M()) { assert(bad_int(b0, i)); }
        }"""}),
 Fn(SC, "Scanner::try_next_ascii_u64_stop_at_lf", spec="""requires old(self).wf(), old(self).buf().len() > 0
    ensures %s, exists|ok: bool| u64_stop(old(self).buf(), old(self).cur(), ok, r as int, final(self).cur()) && *final(g_okay) == (*old(g_okay) && ok)""" % KEEP,
    closures={0: "|$0: u8| -> (r: bool) ensures r == ($0 != 10)"}),
 Fn(SC, "Scanner::try_next_ascii_u64_lf_separated_with_result_or", spec="""requires old(self).wf(), old(self).buf().len() > 0, RESTORE_CURSOR
    ensures %s, match r {
        ScannerDecodeResult::Value(v) => int_at(old(self).buf(), old(self).cur(), final(self).cur() - 1) && v == num(old(self).buf(), 0, old(self).cur(), final(self).cur() - 1),
        ScannerDecodeResult::NeedMore => final(self).cur() == old(self).cur() && digits(old(self).buf(), old(self).cur(), old(self).buf().len() as int),
        ScannerDecodeResult::Error => final(self).cur() == old(self).cur() && bad_int(old(self).buf(), old(self).cur()),
    }""" % KEEP, closures={0: "|$0: &u8| -> (r: bool) ensures r == (*$0 == 10)"}),
 Fn(SC, "Scanner::try_next_ascii_u64_lf_separated_with_result_or_restore_cursor", spec="""requires old(self).wf(), old(self).buf().len() > 0
    ensures %s, match r {
        ScannerDecodeResult::Value(v) => int_at(old(self).buf(), old(self).cur(), final(self).cur() - 1) && v == num(old(self).buf(), 0, old(self).cur(), final(self).cur() - 1),
        ScannerDecodeResult::NeedMore => final(self).cur() == old(self).cur() && digits(old(self).buf(), old(self).cur(), old(self).buf().len() as int),
        ScannerDecodeResult::Error => final(self).cur() == old(self).cur() && bad_int(old(self).buf(), old(self).cur()),
    }""" % KEEP),
]
