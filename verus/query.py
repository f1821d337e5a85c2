"""P01: the query frame parser (scanner, integer accumulator, exchange state machine)"""
include("netcommon")
# state of a partly parsed query frame
STATE = r'''
pub open spec fn st_inv(b: Seq<u8>, c: int, st: QExchangeState) -> bool {
    &&& 0 <= c <= b.len()
    &&& match st.state {
        QExchangeStateInternal::Initial => c == 0 && st.target == 5 && st.md_packet_size == 0 && st.md_q_window == 0,
        QExchangeStateInternal::PendingMeta1 => 1 <= c && b[0] == 83 && digits(b, 1, c) && st.md_packet_size == num(b, 0, 1, c) && st.md_q_window == 0 && st.target <= c + 1,
        QExchangeStateInternal::PendingMeta2 => b.len() > 0 && b[0] == 83 && exists|k: int| #![auto] int_at(b, 1, k) && st.target == k + 1 + psize(b, k) && st.target <= M() && k + 1 <= c && digits(b, k + 1, c) && st.md_q_window == num(b, 0, k + 1, c),
        QExchangeStateInternal::PendingData => exists|k: int, m: int| #![auto] hdr(b, k, m) && c == m + 1 && st.target == k + 1 + psize(b, k) && st.target <= M() && st.md_q_window == qwin(b, k, m),
    }
}
/// C2 (part): the state describes only bytes already consumed, so it stays valid when more bytes arrive
proof fn st_inv_ext(b: Seq<u8>, e: Seq<u8>, c: int, st: QExchangeState)
    requires st_inv(b, c, st), ext(b, e)
    ensures st_inv(e, c, st)
{
    match st.state {
        QExchangeStateInternal::Initial => {}
        QExchangeStateInternal::PendingMeta1 => { dig_ext(b, e, 1, c); num_same(b, e, 0, 1, c); assert(e[0] == b[0]); }
        QExchangeStateInternal::PendingMeta2 => {
            let k = choose|k: int| #![auto] int_at(b, 1, k) && st.target == k + 1 + psize(b, k) && st.target <= M() && k + 1 <= c && digits(b, k + 1, c) && st.md_q_window == num(b, 0, k + 1, c);
            int_at_ext(b, e, 1, k); dig_ext(b, e, k + 1, c); num_same(b, e, 0, k + 1, c); assert(e[0] == b[0]);
            assert(int_at(e, 1, k));
        }
        QExchangeStateInternal::PendingData => {
            let (k, m) = choose|k: int, m: int| #![auto] hdr(b, k, m) && c == m + 1 && st.target == k + 1 + psize(b, k) && st.target <= M() && st.md_q_window == qwin(b, k, m);
            int_at_ext(b, e, 1, k); int_at_ext(b, e, k + 1, m); assert(e[0] == b[0]);
            assert(hdr(e, k, m));
        }
    }
}
proof fn dig_ext(b: Seq<u8>, e: Seq<u8>, i: int, j: int)
    requires digits(b, i, j), ext(b, e), 0 <= i, j <= b.len()
    ensures digits(e, i, j)
{ assert forall|x: int| i <= x < j implies is_digit(#[trigger] e[x]) by { assert(e[x] == b[x]); } }

/// what one step of the exchange must deliver, for buffer b
pub open spec fn step_ok(b: Seq<u8>, c: int, r: QExchangeResult) -> bool {
    match r {
        QExchangeResult::SQCompleted(sq) => exists|k: int, m: int| #![auto] frame_at(b, k, m) && sq.q@ == b.skip(m + 1) && sq.q_window == qwin(b, k, m),
        QExchangeResult::ChangeState(st) => !is_frame(b) && st_inv(b, c, st) && !(st.state is Initial)
            && forall|e: Seq<u8>| ext(b, e) && #[trigger] is_frame(e) ==> st.target <= e.len(),
        QExchangeResult::Error => forall|e: Seq<u8>| ext(b, e) ==> !#[trigger] is_frame(e),
    }
}
proof fn hdr_unique(b: Seq<u8>, e: Seq<u8>, k: int, m: int, k2: int, m2: int)
    requires hdr(b, k, m), ext(b, e), hdr(e, k2, m2)
    ensures k == k2, m == m2, psize(b, k) == psize(e, k2), qwin(b, k, m) == qwin(e, k2, m2)
{ int_at_unique(b, e, 1, k, k2); int_at_unique(b, e, k + 1, m, m2); }

/// (lemma over the contracts) a buffer is at most one frame: the decoded query is a function of the bytes
proof fn frame_unique(b: Seq<u8>, k: int, m: int, k2: int, m2: int)
    requires frame_at(b, k, m), frame_at(b, k2, m2)
    ensures k == k2, m == m2
{ assert(ext(b, b)); hdr_unique(b, b, k, m, k2, m2); }

/// (lemma over the contracts) fragmentation independence: resuming any consistent saved state on a buffer that is a frame
/// cannot yield anything but the completed query of that frame.
proof fn frame_always_completes(b: Seq<u8>, c: int, r: QExchangeResult)
    requires is_frame(b), step_ok(b, c, r)
    ensures r is SQCompleted
{ assert(ext(b, b)); }
'''


ITEMS = SCANNER + [
 # ---- query exchange
 Ty(PR, "AccumlatorStatus"), 
 Raw(r'''
/// i: where the integer started (in an earlier fragment, perhaps); acc: value of the digits up to c0
pub open spec fn scan_ok(b: Seq<u8>, acc: int, i: int, c0: int, c: int, r: Result<AccumlatorStatus, ()>) -> bool {
    match r {
        Ok(AccumlatorStatus::Completed(v)) => c0 < c <= b.len() && int_at(b, i, c - 1) && v == num(b, 0, i, c - 1),
        Ok(AccumlatorStatus::Pending(v)) => c == b.len() && digits(b, i, c) && v == num(b, 0, i, c),
        Err(()) => bad_int(b, i),
    }
}
proof fn scan_rebase(b: Seq<u8>, acc: int, i: int, c0: int, c: int)
    requires 0 <= i <= c0 <= c <= b.len(), digits(b, i, c0), digits(b, c0, c), acc == num(b, 0, i, c0)
    ensures digits(b, i, c), num(b, acc, c0, c) == num(b, 0, i, c)
{ num_split(b, 0, i, c0, c); }
pub open spec fn scan_bad(b: Seq<u8>, acc: int, c0: int) -> bool {
    exists|k: int| #![auto] c0 <= k < b.len() && digits(b, c0, k) && b[k] != 10 && (!is_digit(b[k]) || num(b, acc, c0, k + 1) > M())
}
proof fn scan_bad_int(b: Seq<u8>, acc: int, i: int, c0: int)
    requires scan_bad(b, acc, c0), 0 <= i <= c0, digits(b, i, c0), acc == num(b, 0, i, c0)
    ensures bad_int(b, i)
{
    let k = choose|k: int| #![auto] c0 <= k < b.len() && digits(b, c0, k) && b[k] != 10 && (!is_digit(b[k]) || num(b, acc, c0, k + 1) > M());
    num_split(b, 0, i, c0, k + 1);
    assert(digits(b, i, k));
    assert(bad_int(b, i));
}
'''),
 Fn(PR, "scan_int", spec="""
    requires old(s).wf(), old(s).buf().len() > 0
    ensures final(s).wf(), final(s).buf() == old(s).buf(), old(s).cur() <= final(s).cur(),
        forall|i: int| 0 <= i <= old(s).cur() && digits(old(s).buf(), i, old(s).cur()) && acc == #[trigger] num(old(s).buf(), 0, i, old(s).cur()) ==> scan_ok(old(s).buf(), acc as int, i, old(s).cur(), final(s).cur(), r)""",
    hints={"start": "let ghost acc0 = acc;",
    ("loop", 0, "after"): """proof {
        let b = s.buf(); let c0 = old(s).cur(); let c = s.cur();
        assert forall|i: int| 0 <= i <= c0 && digits(b, i, c0) && acc0 == #[trigger] num(b, 0, i, c0) implies
            (okay ==> digits(b, i, c) && acc == num(b, 0, i, c)) && (!okay ==> bad_int(b, i)) by {
            if okay { scan_rebase(b, acc0 as int, i, c0, c); } else { scan_bad_int(b, acc0 as int, i, c0); }
        }
    }""",
    ("loop", 0, "start"): """let ghost c1 = s.cur(); proof {
        let x = s.buf()[c1];
        assert(x & 0x0F == x - 48 || !(48 <= x <= 57)) by (bit_vector);
        assert(num(s.buf(), acc0 as int, old(s).cur(), c1 + 1) == acc * 10 + (x - 48));
        assert(digits(s.buf(), old(s).cur(), c1));
        if !is_digit(x) || acc * 10 + (x - 48) > M() { assert(scan_bad(s.buf(), acc0 as int, old(s).cur())); }
    }"""},
    loops={0: """invariant s.wf(), s.buf() == old(s).buf(), old(s).buf().len() > 0, 0 <= old(s).cur() <= s.cur(),
        okay ==> digits(s.buf(), old(s).cur(), s.cur()) && acc == num(s.buf(), acc0 as int, old(s).cur(), s.cur()),
        !okay ==> scan_bad(s.buf(), acc0 as int, old(s).cur()),
        end == (s.cur() < s.buf().len() && s.buf()[s.cur()] == 10),
      decreases s.buf().len() - s.cur()"""},
    closures={0: "|$0: u64| -> (r: Option<u64>) ensures r == (if $0 + ((d & 0x0f) as u64) > u64::MAX { None::<u64> } else { Some(($0 + ((d & 0x0f) as u64)) as u64) })"}),
 Ty(EX, "Resume"), Ty(EX, "SQuery"), Ty(EX, "QExchangeStateInternal"), Ty(EX, "QExchangeState"), Ty(EX, "QExchangeResult"),
 Raw(STATE),
 Fn(EX, "SQuery::new", spec="ensures r.q@ == q@, r.q_window == q_window"),
 Fn(EX, "SQuery::payload", spec="ensures r@ == self.q@"),
 Fn(EX, "SQuery::q_window", spec="ensures r == self.q_window"),
 Fn(EX, "SQuery::query", spec="requires self.q_window <= self.q@.len() ensures r@ == self.q@.take(self.q_window as int)"),
 Fn(EX, "SQuery::params", spec="requires self.q_window <= self.q@.len() ensures r@ == self.q@.skip(self.q_window as int)"),
 Const(EX, "QExchangeState::MIN_READ"),
 Fn(EX, "QExchangeState::_new", spec="ensures r.state == state, r.target == target, r.md_packet_size == md_packet_size, r.md_q_window == md_q_window"),
 Fn(EX, "QExchangeState::new", spec="ensures st_inv(Seq::empty(), 0, r)"),
 Fn(EX, "QExchangeState::has_reached_target", spec="ensures r == (new_buffer@.len() >= self.target)"),
 Fn(EX, "QExchangeState::resume", spec="""
    requires old(scanner).wf(), 5 <= old(scanner).buf().len() < M(), st_inv(old(scanner).buf(), old(scanner).cur(), self), old(scanner).buf().len() >= self.target
    ensures final(scanner).wf(), final(scanner).buf() == old(scanner).buf(), step_ok(old(scanner).buf(), final(scanner).cur(), r)"""),
 Fn(EX, "QExchangeState::start_initial", hints={"start": "broadcast use wire;"}, spec="""
    requires old(scanner).wf(), 5 <= old(scanner).buf().len() < M(), st_inv(old(scanner).buf(), old(scanner).cur(), self), self.state is Initial, self.target <= old(scanner).buf().len()
    ensures final(scanner).wf(), final(scanner).buf() == old(scanner).buf(), step_ok(old(scanner).buf(), final(scanner).cur(), r)"""),
 Fn(EX, "QExchangeState::resume_at_md1", hints={"start": "broadcast use wire;"}, spec="""
    requires old(scanner).wf(), 5 <= old(scanner).buf().len() < M(), ({ let b = old(scanner).buf(); let c = old(scanner).cur();
        1 <= c && b[0] == 83 && digits(b, 1, c) && self.md_packet_size == num(b, 0, 1, c) && self.md_q_window == 0 && self.target <= b.len() })
    ensures final(scanner).wf(), final(scanner).buf() == old(scanner).buf(), step_ok(old(scanner).buf(), final(scanner).cur(), r)"""),
 Fn(EX, "QExchangeState::resume_at_md2", hints={"start": "let ghost kk = choose|k: int| #![auto] int_at(scanner.buf(), 1, k) && self.target == k + 1 + psize(scanner.buf(), k) && k + 1 <= scanner.cur() && digits(scanner.buf(), k + 1, scanner.cur()) && self.md_q_window == num(scanner.buf(), 0, k + 1, scanner.cur());  proof { broadcast use wire; }",
      ("call", "resume_data", 0): "proof { broadcast use wire; assert(hdr(scanner.buf(), kk, scanner.cur() - 1)); }"}, spec="""
    requires old(scanner).wf(), 5 <= old(scanner).buf().len() < M(), ({ let b = old(scanner).buf(); let c = old(scanner).cur();
        b[0] == 83 && exists|k: int| #![auto] int_at(b, 1, k) && self.target == k + 1 + psize(b, k) && k + 1 <= c && digits(b, k + 1, c) && self.md_q_window == num(b, 0, k + 1, c) })
    ensures final(scanner).wf(), final(scanner).buf() == old(scanner).buf(), step_ok(old(scanner).buf(), final(scanner).cur(), r)"""),
 Fn(EX, "QExchangeState::resume_data", hints={"start": "broadcast use wire;"}, spec="""
    requires old(scanner).wf(), exists|k: int, m: int| #![auto] hdr(old(scanner).buf(), k, m) && old(scanner).cur() == m + 1 && self.target == k + 1 + psize(old(scanner).buf(), k) && self.md_q_window == qwin(old(scanner).buf(), k, m)
    ensures final(scanner).wf(), final(scanner).buf() == old(scanner).buf(), step_ok(old(scanner).buf(), final(scanner).cur(), r)"""),
 Fn(EX, "resume", spec="""
    requires 5 <= buf@.len() < M(), st_inv(buf@, last_cursor.0 as int, last_state), last_state.target <= buf@.len()
    ensures step_ok(buf@, r.0.0 as int, r.1)"""),
]
