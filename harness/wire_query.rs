// @attach server/src/engine/net/protocol/mod.rs
// @feature p01
// @native
//! P01: differential check of the query exchange against an independent reading of the frame grammar,
//! under arbitrary fragmentation (bounded stand-in and counterexample finder for the Verus unit `query`).
use super::exchange::{self, QExchangeResult, QExchangeState};
use super::*;
use crate::vp::*;

#[derive(Debug, PartialEq, Clone, Copy)]
enum Int { Ok(u64, usize), Partial, Bad }
fn int_at(b: &[u8], i: usize) -> Int {
    let mut v: u128 = 0;
    let mut j = i;
    while j < b.len() {
        if b[j] == b'\n' { return Int::Ok(v as u64, j + 1) }
        if !(b'0'..=b'9').contains(&b[j]) { return Int::Bad }
        v = v * 10 + (b[j] - b'0') as u128;
        if v > u64::MAX as u128 { return Int::Bad }
        j += 1;
    }
    Int::Partial
}
#[derive(Debug, PartialEq)]
enum Frame { Is { body: usize, q: usize }, Prefix, Hopeless }
fn classify(b: &[u8]) -> Frame {
    if b.is_empty() { return Frame::Prefix }
    if b[0] != b'S' { return Frame::Hopeless }
    let (ps, k) = match int_at(b, 1) { Int::Ok(v, k) => (v as u128, k), Int::Partial => return Frame::Prefix, Int::Bad => return Frame::Hopeless };
    let total = k as u128 + ps;
    if total > u64::MAX as u128 { return Frame::Hopeless }
    let (qw, m) = match int_at(b, k) {
        Int::Ok(v, m) => (v as u128, m),
        Int::Partial => return if total < b.len() as u128 { Frame::Hopeless } else { Frame::Prefix },
        Int::Bad => return Frame::Hopeless,
    };
    if total < m as u128 || qw > total - m as u128 || (b.len() as u128) > total { return Frame::Hopeless }
    if b.len() as u128 == total { Frame::Is { body: m, q: qw as usize } } else { Frame::Prefix }
}
fn push_int(g: &mut Gen, b: &mut Vec<u8>, v: u64) {
    match g.u8() % 12 {
        0 => { b.push(b'0'); b.extend(v.to_string().bytes()) }
        1 => { let s = v.wrapping_add(1).to_string(); b.extend(s.bytes()) }
        2 => { b.extend(v.to_string().bytes()); b.push(g.u8()) }
        3 if v == 0 => {}
        _ => b.extend(v.to_string().bytes()),
    }
}
fn make(g: &mut Gen) -> Vec<u8> {
    let mut b = vec![];
    match g.u8() % 8 {
        0 => { let n = g.range(5, 24); b.push(b'S'); for _ in 1..n { b.push(*g.pick(b"0123456789\n\nSa-+:/ ")) } }
        1 => { b = g.bytes(40) }
        2 => { b.push(b'S'); let v = g.u64(); push_int(g, &mut b, v); b.push(b'\n'); let v = g.u64(); push_int(g, &mut b, v); b.push(b'\n'); b.extend(g.bytes(20)) }
        _ => {
            let q = g.range(0, 30);
            let p = g.range(0, 30);
            let mut body = vec![];
            push_int(g, &mut body, q as u64);
            body.push(b'\n');
            for i in 0..q + p { body.push(b'a' + (i % 26) as u8) }
            b.push(b'S');
            let n = body.len() as u64;
            push_int(g, &mut b, n);
            b.push(b'\n');
            b.extend(body);
            match g.u8() % 10 { 0 => { b.push(g.u8()) } 1 => { b.pop(); } _ => {} }
        }
    }
    b
}
pub fn query_frames(g: &mut Gen) {
    let b = make(g);
    g.note(|| format!("bytes {:?}", String::from_utf8_lossy(&b)));
    let mut state = QExchangeState::default();
    let mut cursor = Default::default();
    let mut have = 0;
    let mut started = false;
    while have < b.len() {
        let step = match g.u8() % 4 { 0 => 1, 1 => b.len() - have, _ => 1 + g.range(0, 8) };
        have = (have + step).min(b.len());
        let now = &b[..have];
        let want = classify(now);
        if !state.has_reached_target(now) {
            // an incomplete read may be deferred, a whole frame (of at least the minimum size) may not
            assert!(!(matches!(want, Frame::Is { .. }) && now.len() >= QExchangeState::MIN_READ), "C[completes]: a complete frame is buffered, but the parser waits for more bytes");
            continue;
        }
        let (c, r) = unsafe { exchange::resume(now, cursor, state) };
        match r {
            QExchangeResult::SQCompleted(sq) => {
                match want {
                    Frame::Is { body, q } => {
                        assert!(sq.payload() == &now[body..], "C[payload]: wrong payload");
                        assert!(sq.q_window() == q, "C[window]: wrong query window");
                        assert!(sq.query() == &now[body..body + q] && sq.params() == &now[body + q..], "C[split]: query/parameter split");
                    }
                    w => panic!("C[sound]: accepted bytes that are not a frame ({w:?})"),
                }
                g.nontrivial();
                return;
            }
            QExchangeResult::Error => {
                assert!(want == Frame::Hopeless, "C[error]: rejected bytes that are (a prefix of) a valid frame: {want:?}");
                g.nontrivial();
                return;
            }
            QExchangeResult::ChangeState(st) => {
                assert!(!matches!(want, Frame::Is { .. }), "C[completes]: complete frame not accepted");
                started = true;
                cursor = c;
                state = st;
            }
        }
    }
    if started { g.nontrivial() }
}
vp_native!(n_query_frames, query_frames, 96, 20000);

pub fn scan_int_contract(g: &mut Gen) {
    let n = g.range(1, 24);
    let b: Vec<u8> = (0..n).map(|_| if g.u8() % 6 == 0 { g.u8() } else { *g.pick(b"00112233445566778899\n") }).collect();
    let cut = g.range(0, n - 1);
    // scan in two fragments: the accumulated value must be that of the whole
    let first = &b[..cut.max(1)];
    let mut s = BufferedScanner::new(first);
    let r1 = scan_int(&mut s, 0);
    match (int_at(first, 0), &r1) {
        (Int::Ok(v, j), Ok(AccumlatorStatus::Completed(x))) => assert!(*x == v && s.cursor() == j, "C[scan]: value/cursor"),
        (Int::Partial, Ok(AccumlatorStatus::Pending(_))) => assert!(s.cursor() == first.len(), "C[scan]: pending must consume"),
        (Int::Bad, Err(())) => {}
        (w, r) => panic!("C[scan]: {w:?} vs {r:?}"),
    }
    if let Ok(AccumlatorStatus::Pending(p)) = r1 {
        let c = s.cursor();
        let mut s = unsafe { BufferedScanner::new_with_cursor(&b, c) };
        let r2 = scan_int(&mut s, p);
        match (int_at(&b, 0), r2) {
            (Int::Ok(v, j), Ok(AccumlatorStatus::Completed(x))) => assert!(x == v && s.cursor() == j, "C[scan]: resumed value/cursor"),
            (Int::Partial, Ok(AccumlatorStatus::Pending(_))) => {}
            (Int::Bad, Err(())) => {}
            (w, r) => panic!("C[scan]: resumed {w:?} vs {r:?}"),
        }
        g.nontrivial();
    }
}
vp_native!(n_scan_int, scan_int_contract, 48, 20000);
