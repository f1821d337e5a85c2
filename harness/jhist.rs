// @attach server/src/engine/storage/v2/raw/journal/raw/mod.rs
// @feature p12
// @native
//! P12 (bounded): histories of commits, failed commits, recoveries, closes and reopens of the two journal kinds on real files, and damaged files.
use super::*;
use super::super::{BatchAdapter, BatchAdapterSpec, DispatchFn, EventLogAdapter, EventLogSpec};
use crate::vp::*;
use crate::engine::storage::common::sdss::sdss_r1::rw::{TrackedReaderContext, __vp_rwx as rwx};
use crate::engine::storage::v2::raw::spec::{ModelDataBatchAofV1, SystemDatabaseV1};
use crate::util::compiler::TaggedEnum;
use std::cell::RefCell;

#[derive(Clone, PartialEq, Debug)]
pub struct Ev { kind: u8, items: Vec<Vec<u8>>, early: bool }
type Db = RefCell<Vec<Ev>>;

#[derive(sky_macros::TaggedEnum, Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum K3 { A = 0, B = 1, C = 2 }
#[derive(sky_macros::TaggedEnum, Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum K2 { Item = 0, Exit = 1 }

// ---- event log -------------------------------------------------------------------------------
pub struct Lin;
impl EventLogSpec for Lin {
    type Spec = SystemDatabaseV1;
    type GlobalState = Db;
    type EventMeta = K3;
    type DecodeDispatch = [DispatchFn<Db>; 3];
    const DECODE_DISPATCH: Self::DecodeDispatch = [|d, p| put(d, 0, p), |d, p| put(d, 1, p), |d, p| put(d, 2, p)];
}
fn put(d: &Db, kind: u8, p: Vec<u8>) -> RuntimeResult<()> { d.borrow_mut().push(Ev { kind, items: vec![p], early: false }); Ok(()) }
impl RawJournalAdapterEvent<EventLogAdapter<Lin>> for &Ev {
    fn md(&self) -> u64 { self.kind as u64 }
    fn write_buffered(self, buf: &mut Vec<u8>, _: ()) { buf.extend(&self.items[0]) }
}
// ---- batches ---------------------------------------------------------------------------------
pub struct Bat;
impl BatchAdapterSpec for Bat {
    type Spec = ModelDataBatchAofV1;
    type GlobalState = Db;
    type BatchType = K3;
    type EventType = K2;
    type BatchMetadata = u8;
    type BatchState = Ev;
    type CommitContext = ();
    fn is_early_exit(e: &K2) -> bool { *e == K2::Exit }
    fn initialize_batch_state(_: &Db) -> Ev { Ev { kind: 0, items: vec![], early: false } }
    fn decode_batch_metadata(_: &Db, f: &mut TrackedReaderContext<Self::Spec>, m: K3) -> RuntimeResult<u8> { let [x] = f.read_block()?; let _ = x; Ok(m.dscr()) }
    fn update_state_for_new_event(_: &Db, s: &mut Ev, f: &mut TrackedReaderContext<Self::Spec>, md: &u8, _: K2) -> RuntimeResult<()> {
        s.kind = *md;
        let n = u32::from_le_bytes(f.read_block()?) as usize;
        if n as u64 > f.remaining() { return Err(StorageError::RawJournalCorrupted.into()) }
        let mut b = vec![0; n];
        f.read(&mut b)?;
        s.items.push(b);
        Ok(())
    }
    fn finish(mut s: Ev, md: u8, d: &Db) -> RuntimeResult<()> { s.kind = md; d.borrow_mut().push(s); Ok(()) }
}
impl RawJournalAdapterEvent<BatchAdapter<Bat>> for &Ev {
    fn md(&self) -> u64 { self.kind as u64 }
    fn write_direct(self, w: &mut TrackedWriter<ModelDataBatchAofV1>, _: ()) -> RuntimeResult<()> {
        let n = self.items.len() as u64;
        w.dtrack_write(&(n + self.early as u64).to_le_bytes())?;
        w.dtrack_write(&[7])?;
        for i in &self.items { w.dtrack_write(&[0])?; w.dtrack_write(&(i.len() as u32).to_le_bytes())?; w.dtrack_write(i)?; }
        if self.early { w.dtrack_write(&[1])? }
        w.dtrack_write(&n.to_le_bytes())?;
        Ok(())
    }
}
// ---- harness ---------------------------------------------------------------------------------
trait J: RawJournalAdapter<GlobalState = Db, CommitContext = ()> where Self::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    fn commit(w: &mut RawJournalWriter<Self>, e: &Ev) -> RuntimeResult<()>;
    fn gen(g: &mut Gen) -> Ev;
}
fn blob(g: &mut Gen) -> Vec<u8> {
    let n = match g.range(0, 9) { 0..=4 => g.range(0, 12), 5..=6 => g.range(0, 300), 7 => g.range(8000, 8300), 8 => g.range(8100, 8200), _ => g.range(8192, 25000) };
    let (a, b) = (g.u8(), g.u8() | 1);
    (0..n).map(|i| a.wrapping_add(b.wrapping_mul(i as u8)).wrapping_add((i >> 8) as u8)).collect()
}
impl J for EventLogAdapter<Lin> {
    fn commit(w: &mut RawJournalWriter<Self>, e: &Ev) -> RuntimeResult<()> { w.commit_event(e) }
    fn gen(g: &mut Gen) -> Ev { Ev { kind: g.range(0, 2) as u8, items: vec![blob(g)], early: false } }
}
impl J for BatchAdapter<Bat> {
    fn commit(w: &mut RawJournalWriter<Self>, e: &Ev) -> RuntimeResult<()> { w.commit_with_ctx(e, ()) }
    fn gen(g: &mut Gen) -> Ev { let n = g.range(0, 3); Ev { kind: g.range(0, 2) as u8, items: (0..n).map(|_| blob(g)).collect(), early: g.bool() } }
}
pub fn path(tag: &str) -> String {
    let d = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "." };
    format!("{d}/vp-jrnl-{}-{}", std::process::id(), tag)
}
struct Rm(String);
impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
/// run `f` while no file may grow beyond `limit` bytes: writes become short, then fail
pub fn limited<T>(limit: Option<u64>, f: impl FnOnce() -> T) -> T {
    unsafe {
        let mut old: libc::rlimit = core::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        if let Some(l) = limit {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: l.min(old.rlim_max), rlim_max: old.rlim_max });
        }
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}
fn create<A: J>(p: &str) -> RawJournalWriter<A> where A::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    let f = rwx::create::<A::Spec>(p).unwrap();
    RawJournalWriter::new(JournalInitializer::new(<A::Spec as FileSpecV1>::SIZE as u64, SCrc64::new(), 0, 0), f).unwrap()
}
fn open<A: J>(p: &str, db: &Db) -> RuntimeResult<RawJournalWriter<A>> where A::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    let f = rwx::open::<A::Spec>(p)?;
    let (i, f) = RawJournalReader::<A>::scroll(f, db)?;
    RawJournalWriter::new(i, f)
}
fn show(v: &[Ev]) -> String { v.iter().map(|e| format!("{}{}{:?}", e.kind, if e.early { "!" } else { "" }, e.items.iter().map(|i| i.len()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ") }
fn same(a: &[Ev], b: &[Ev]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.kind == y.kind && x.items == y.items) }

/// the journal after a clean close, and the states at every clean close before
struct Hist { done: Vec<Ev>, closed: Vec<(u64, usize)> }
fn history<A: J>(g: &mut Gen, p: &str, faults: bool) -> Option<Hist> where A::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    let mut w = create::<A>(p);
    let mut done: Vec<Ev> = vec![];
    let mut closed = vec![];
    let steps = g.range(1, 10);
    for step in 0..=steps {
        let op = if step == steps { 9 } else { g.range(0, 9) };
        match op {
            0..=4 => {
                let e = A::gen(g);
                g.note(|| format!("commit {}", show(&[e.clone()])));
                match A::commit(&mut w, &e) { Ok(()) => done.push(e), Err(x) => { core::mem::forget(w); panic!("C[commit]: a commit failed although the file takes everything: {x} (after {})", show(&done)) } }
            }
            5..=6 if faults => {
                let e = A::gen(g);
                let len = std::fs::metadata(p).unwrap().len();
                let k = match g.range(0, 3) { 0 | 1 => 0, 2 => g.range(1, 60), _ => g.range(1, 20000) } as u64;
                g.note(|| format!("commit {} with room for {k} bytes", show(&[e.clone()])));
                let r = limited(Some(len + k), || A::commit(&mut w, &e));
                if r.is_ok() { done.push(e); continue }
                g.nontrivial();
                if g.range(0, 3) != 0 {
                    // the server's recovery
                    let hb = w.__lwt_heartbeat();
                    g.note(|| format!("failed; heartbeat {:?}", hb.is_ok()));
                    if hb.is_ok() { continue }
                    core::mem::forget(w);
                    return None;
                } else {
                    g.note(|| format!("failed; close"));
                    // shutdown without recovery
                    if RawJournalWriter::close_driver(&mut w).is_err() { core::mem::forget(w); return None }
                    drop(w);
                    closed.push((std::fs::metadata(p).unwrap().len(), done.len()));
                    let db = Db::default();
                    w = match open::<A>(p, &db) { Ok(w) => w, Err(e) => panic!("C[reopen]: a journal closed successfully after a failed commit cannot be reopened: {e} (committed: {})", show(&done)) };
                    assert!(same(&db.borrow(), &done), "C[replay]: replay gives {} but committed was {}", show(&db.borrow()), show(&done));
                }
            }
            _ => {
                g.note(|| "close, reopen".into());
                if let Err(e) = RawJournalWriter::close_driver(&mut w) { core::mem::forget(w); panic!("C[close]: closing failed although the file takes everything: {e}") }
                drop(w);
                closed.push((std::fs::metadata(p).unwrap().len(), done.len()));
                if step == steps {
                    let db = Db::default();
                    let keep = std::fs::read(p).unwrap();
                    match open::<A>(p, &db) { Ok(mut w) => { let _ = RawJournalWriter::close_driver(&mut w); } Err(e) => panic!("C[reopen]: a cleanly closed journal cannot be reopened: {e} (committed: {})", show(&done)) }
                    assert!(same(&db.borrow(), &done), "C[replay]: replay gives {} but committed was {}", show(&db.borrow()), show(&done));
                    std::fs::write(p, &keep).unwrap();
                    return Some(Hist { done, closed });
                }
                let db = Db::default();
                w = match open::<A>(p, &db) { Ok(w) => w, Err(e) => panic!("C[reopen]: a cleanly closed journal cannot be reopened: {e} (committed: {})", show(&done)) };
                assert!(same(&db.borrow(), &done), "C[replay]: replay gives {} but committed was {}", show(&db.borrow()), show(&done));
            }
        }
    }
    None
}
fn hist<A: J>(g: &mut Gen, tag: &str) where A::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    let p = Rm(path(tag));
    if let Some(h) = history::<A>(g, &p.0, true) { g.cover(h.done.len() > 2 && h.closed.len() > 1) }
}
pub fn lin_hist(g: &mut Gen) { hist::<EventLogAdapter<Lin>>(g, "lh") }
pub fn bat_hist(g: &mut Gen) { hist::<BatchAdapter<Bat>>(g, "bh") }

/// a damaged journal is refused, unless it is exactly an earlier cleanly closed one
fn damaged<A: J>(g: &mut Gen, tag: &str) where A::Spec: FileSpecV1<DecodeArgs = (), EncodeArgs = ()> {
    let p = Rm(path(tag));
    let h = match history::<A>(g, &p.0, false) { Some(h) => h, None => return };
    let good = std::fs::read(&p.0).unwrap();
    let hdr = <A::Spec as FileSpecV1>::SIZE;
    for _ in 0..12 {
        let mut b = good.clone();
        let n = b.len();
        let pos = |g: &mut Gen| match g.range(0, 2) { 0 => n - 1 - g.range(0, 160).min(n - 1 - hdr), 1 => hdr + g.range(0, 200).min(n - 1 - hdr), _ => g.range(hdr, n - 1) };
        let what = g.range(0, 7);
        let (i, j) = (pos(g), pos(g));
        let (i, j) = (i.min(j), i.max(j));
        match what {
            0 | 1 => { b[i] ^= 1 << g.range(0, 7) }
            2 => { b[i] = b[i].wrapping_add(g.u8()) }
            3 => b.truncate(i),
            4 => { b.drain(i..j); }
            5 => { let x = b[i..j].to_vec(); b.splice(i..i, x); }
            6 => { let m = g.range(1, 40); for q in 0..m { b.push((q as u8).wrapping_mul(g.u8())) } }
            _ => { for q in i..j.min(i + g.range(1, 16)) { b[q] = 0 } }
        }
        if b == good { continue }
        std::fs::write(&p.0, &b).unwrap();
        let db = Db::default();
        let r = limited(None, || open::<A>(&p.0, &db));
        let ok = r.is_ok();
        if let Ok(mut w) = r { let _ = RawJournalWriter::close_driver(&mut w); }
        g.note(|| format!("damage {what} at {i}..{j} of {n}: {}", if ok { "opened" } else { "refused" }));
        if ok {
            let cut = h.closed.iter().find(|(l, _)| *l as usize == b.len() && b[..] == good[..b.len()]);
            match cut {
                Some((_, k)) => assert!(same(&db.borrow(), &h.done[..*k]), "C[cut]: a journal cut back to an earlier close replays differently"),
                None => panic!("C[damage]: a damaged journal (damage {what} at {i}..{j} of {n} bytes) is opened; replayed {} committed {}", show(&db.borrow()), show(&h.done)),
            }
        } else { g.nontrivial() }
    }
}
pub fn lin_damaged(g: &mut Gen) { damaged::<EventLogAdapter<Lin>>(g, "ld") }
pub fn bat_damaged(g: &mut Gen) { damaged::<BatchAdapter<Bat>>(g, "bd") }

vp_native!(n_log_history, lin_hist, 400, 200);
vp_native!(n_batch_history, bat_hist, 500, 200);
vp_native!(n_log_damaged, lin_damaged, 900, 100);
vp_native!(n_batch_damaged, bat_damaged, 900, 100);
