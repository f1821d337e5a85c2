//! Support code for the contract harnesses. One harness body (`fn h(g: &mut Gen)`) serves three purposes:
//!  * under Kani every draw is `kani::any()` (full domain, restricted only by `assume`): a proof;
//!  * natively, draws come from a byte string (entropy mode): bounded search for counterexamples;
//!  * natively, draws come from a recorded counterexample (playback mode): replay on the real code.
#![allow(dead_code, unused_macros, unused_imports)]

#[cfg(kani)]
pub struct Gen;
#[cfg(kani)]
impl Gen {
    pub const NATIVE: bool = false;
    pub fn u8(&mut self) -> u8 { kani::any() }
    pub fn bool(&mut self) -> bool { kani::any() }
    pub fn u16(&mut self) -> u16 { kani::any() }
    pub fn u32(&mut self) -> u32 { kani::any() }
    pub fn u64(&mut self) -> u64 { kani::any() }
    pub fn i64(&mut self) -> i64 { kani::any() }
    pub fn usize(&mut self) -> usize { kani::any() }
    /// a value in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        let v: usize = kani::any();
        kani::assume(v >= lo && v <= hi);
        v
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] { kani::any() }
    pub fn assume(&mut self, c: bool) -> bool { kani::assume(c); true }
    pub fn note(&mut self, _f: impl FnOnce() -> String) {}
    pub fn nontrivial(&mut self) {}
    pub fn cover(&mut self, c: bool) { kani::cover!(c, "reached") }
}

#[cfg(not(kani))]
pub use native::*;

#[cfg(not(kani))]
mod native {
    use std::collections::{BTreeMap, HashSet};
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub struct Gen {
        data: Vec<u8>,
        pos: usize,
        playback: bool,
        discard: bool,
        nontrivial: bool,
        keep: bool,
        notes: Vec<String>,
    }
    impl Gen {
        pub const NATIVE: bool = true;
        pub fn new(data: Vec<u8>, playback: bool, keep: bool) -> Self {
            Self { data, pos: 0, playback, discard: false, nontrivial: false, keep, notes: vec![] }
        }
        fn take<const N: usize>(&mut self) -> [u8; N] {
            let mut o = [0u8; N];
            for b in o.iter_mut() {
                *b = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
            }
            o
        }
        pub fn exhausted(&self) -> bool { self.pos >= self.data.len() }
        pub fn u8(&mut self) -> u8 { self.take::<1>()[0] }
        pub fn bool(&mut self) -> bool { self.u8() & 1 == 1 }
        fn raw(&mut self, n: usize) -> u64 {
            match n {
                2 => u16::from_le_bytes(self.take()) as u64,
                4 => u32::from_le_bytes(self.take()) as u64,
                _ => u64::from_le_bytes(self.take()),
            }
        }
        /// in entropy mode integers are biased towards boundaries
        fn int(&mut self, n: usize) -> u64 {
            if self.playback {
                return self.raw(n);
            }
            let bits = (n * 8) as u32;
            let mask = if n == 8 { u64::MAX } else { (1u64 << bits) - 1 };
            let sel = self.u8();
            let v = match sel % 8 {
                0 => self.u8() as u64 % 16,
                1 => self.u8() as u64,
                2 => { let s = self.u8() as u32 % bits; let d = (self.u8() % 5) as u64; (1u64 << s).wrapping_add(d).wrapping_sub(2) }
                3 => { let d = self.u8() as u64 % 8; (mask).wrapping_sub(d) }
                4 => { let s = self.u8() as u32 % 20; let d = (self.u8() % 5) as u64; 10u64.pow(s.min(19)).wrapping_add(d).wrapping_sub(2) }
                5 => { let d = self.u8() as u64 % 8; (mask >> 1).wrapping_add(d).wrapping_sub(3) }
                _ => self.raw(n),
            };
            v & mask
        }
        pub fn u16(&mut self) -> u16 { self.int(2) as u16 }
        pub fn u32(&mut self) -> u32 { self.int(4) as u32 }
        pub fn u64(&mut self) -> u64 { self.int(8) }
        pub fn i64(&mut self) -> i64 { self.int(8) as i64 }
        pub fn usize(&mut self) -> usize { self.int(8) as usize }
        pub fn range(&mut self, lo: usize, hi: usize) -> usize {
            if self.playback {
                let v = self.raw(8) as usize;
                if v < lo || v > hi { self.discard = true; return lo; }
                return v;
            }
            let span = hi - lo;
            if span == 0 { return lo; }
            let v = if span < 256 { self.u8() as usize } else { u32::from_le_bytes(self.take()) as usize };
            lo + v % (span + 1)
        }
        pub fn array<const N: usize>(&mut self) -> [u8; N] { self.take() }
        pub fn bytes(&mut self, max: usize) -> Vec<u8> {
            let n = self.range(0, max);
            (0..n).map(|_| self.u8()).collect()
        }
        pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.range(0, s.len() - 1); &s[i] }
        /// returns false (and marks the case discarded) when the condition does not hold: callers must `return`
        pub fn assume(&mut self, c: bool) -> bool { if !c { self.discard = true; } c }
        pub fn note(&mut self, f: impl FnOnce() -> String) { if self.keep { let s = f(); self.notes.push(s) } }
        pub fn nontrivial(&mut self) { self.nontrivial = true }
        pub fn cover(&mut self, c: bool) { if c { self.nontrivial = true } }
    }

    pub struct Rng(u64);
    impl Rng {
        pub fn new(s: u64) -> Self { let mut r = Self(s ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    }

    pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
    pub fn unhex(s: &str) -> Vec<u8> {
        let s = s.trim();
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub fn jstr(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 || (c as u32) > 0x7e => { let mut buf = [0u16; 2]; for u in c.encode_utf16(&mut buf) { o.push_str(&format!("\\u{:04x}", u)) } }
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    pub enum Outcome { Pass { nontrivial: bool, used: usize }, Discard, Fail(String) }

    thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
    pub fn quiet_panics() {
        std::panic::set_hook(Box::new(|i| {
            if std::env::var("VP_PANICS").is_ok() { eprintln!("panicked at {}", i.location().map(|l| l.to_string()).unwrap_or_default()) }
            let s = i.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        }));
    }
    /// run something that may panic; Err(message) if it did
    pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
    }
    pub fn run_case(h: fn(&mut Gen), data: &[u8], playback: bool, keep: bool) -> (Outcome, Vec<String>) {
        let mut g = Gen::new(data.to_vec(), playback, keep);
        let r = guarded(|| h(&mut g));
        let notes = std::mem::take(&mut g.notes);
        let o = match r {
            Err(m) => if g.discard { Outcome::Discard } else { Outcome::Fail(m) },
            Ok(()) if g.discard => Outcome::Discard,
            Ok(()) => Outcome::Pass { nontrivial: g.nontrivial, used: g.pos.min(data.len()) },
        };
        (o, notes)
    }
    fn env(k: &str) -> Option<String> { std::env::var(k).ok() }

    /// Entry point of every native harness: VP_REPLAY=<mode>:<hex> replays one case, otherwise searches for VP_MS milliseconds.
    pub fn drive(name: &str, h: fn(&mut Gen), max_len: usize, seeds: &[&[u8]], min_cases: u64) {
        let Some(dir) = env("VP_OUT") else { return };
        if let Some(only) = env("VP_ONLY") { if only != name { return } }
        quiet_panics();
        if let Some(r) = env("VP_REPLAY") {
            let (mode, hx) = r.split_once(':').unwrap();
            let (o, notes) = run_case(h, &unhex(hx), mode == "playback", true);
            let (st, msg) = match o { Outcome::Pass { .. } => ("pass", String::new()), Outcome::Discard => ("discard", String::new()), Outcome::Fail(m) => ("fail", m) };
            std::fs::write(format!("{dir}/{name}.replay.json"), format!("{{\"status\":{},\"message\":{},\"notes\":[{}]}}", jstr(st), jstr(&msg), notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(","))).unwrap();
            return;
        }
        let seed: u64 = env("VP_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let ms: u64 = env("VP_MS").and_then(|s| s.parse().ok()).unwrap_or(2000);
        let trace = env("VP_TRACE").is_some();
        let known: Vec<String> = env("VP_KNOWN").map(|s| s.split('\u{1}').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
        let mut namehash = 0xcbf29ce484222325u64;
        for b in name.bytes() { namehash = (namehash ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut rng = Rng::new(seed ^ namehash);
        let t0 = std::time::Instant::now();
        let (mut evals, mut discards) = (0u64, 0u64);
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut fail: Option<(Vec<u8>, String)> = None;
        let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
        let mut corpus: Vec<Vec<u8>> = seeds.iter().map(|s| s.to_vec()).collect();
        let mut i = 0u64;
        loop {
            let el = t0.elapsed().as_millis() as u64;
            if (el >= ms && evals >= min_cases) || el >= ms.saturating_mul(6).max(20000) { break }
            let data: Vec<u8> = if (i as usize) < seeds.len() {
                seeds[i as usize].to_vec()
            } else if !corpus.is_empty() && rng.below(3) == 0 {
                // mutate a corpus entry
                let mut d = corpus[rng.below(corpus.len() as u64) as usize].clone();
                for _ in 0..1 + rng.below(4) {
                    if d.is_empty() { d.push(rng.next() as u8); continue }
                    let p = rng.below(d.len() as u64) as usize;
                    match rng.below(6) {
                        0 => d[p] = rng.next() as u8,
                        1 => { d.insert(p, rng.next() as u8) }
                        2 => { d.remove(p); }
                        3 => d[p] = d[p].wrapping_add(1),
                        4 => d[p] ^= 1 << rng.below(8),
                        _ => { d.truncate(p + 1); }
                    }
                }
                d
            } else {
                let n = if rng.below(4) == 0 { rng.below(1 + max_len as u64 / 8) } else { rng.below(max_len as u64 + 1) } as usize;
                let style = rng.below(3);
                (0..n).map(|_| { let x = rng.next(); match style { 0 => x as u8, 1 => (x as u8) % 16, _ => if x >> 60 < 8 { (x as u8) % 8 } else { x as u8 } } }).collect()
            };
            i += 1;
            if trace { std::fs::write(format!("{dir}/{name}.current"), hex(&data)).unwrap(); }
            let want = samples.len() < 3 && (i > 3 || i as usize > seeds.len());
            let (o, notes) = run_case(h, &data, false, want);
            match o {
                Outcome::Discard => discards += 1,
                Outcome::Pass { nontrivial, used } => {
                    evals += 1;
                    if nontrivial {
                        let mut hsh = 0xcbf29ce484222325u64;
                        for b in &data[..used] { hsh = (hsh ^ *b as u64).wrapping_mul(0x100000001b3); }
                        if distinct.len() < 4_000_000 && distinct.insert(hsh) && corpus.len() < 512 { corpus.push(data[..used].to_vec()) }
                        if want && !notes.is_empty() { samples.push(notes.join("; ")) }
                    }
                }
                Outcome::Fail(m) => {
                    evals += 1;
                    if let Some(k) = known.iter().find(|k| m.contains(k.as_str())) {
                        *knownhits.entry(k.clone()).or_default() += 1;
                        continue;
                    }
                    fail = Some((data, m));
                    break;
                }
            }
        }
        let mut extra = String::new();
        if let Some((mut data, mut msg)) = fail {
            // shrink
            let ts = std::time::Instant::now();
            let mut progress = true;
            while progress && ts.elapsed().as_millis() < 3000 {
                progress = false;
                let mut cands: Vec<Vec<u8>> = vec![];
                let mut sz = data.len() / 2;
                while sz >= 1 { for st in (0..data.len()).step_by(sz) { let mut d = data.clone(); d.drain(st..(st + sz).min(d.len())); cands.push(d) } sz /= 2; if cands.len() > 400 { break } }
                for p in 0..data.len().min(200) { if data[p] != 0 { let mut d = data.clone(); d[p] = 0; cands.push(d.clone()); d[p] = data[p] / 2; cands.push(d) } }
                for c in cands {
                    if c == data { continue }
                    if trace { std::fs::write(format!("{dir}/{name}.current"), hex(&c)).unwrap(); }
                    if let (Outcome::Fail(m), _) = run_case(h, &c, false, false) { if known.iter().any(|k| m.contains(k.as_str())) { continue } data = c; msg = m; progress = true; break }
                    if ts.elapsed().as_millis() > 3000 { break }
                }
            }
            let (_, notes) = run_case(h, &data, false, true);
            extra = format!(",\"fail\":{{\"input\":{},\"message\":{},\"notes\":[{}]}}", jstr(&hex(&data)), jstr(&msg), notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(","));
        }
        let kh = knownhits.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        std::fs::write(
            format!("{dir}/{name}.json"),
            format!("{{\"harness\":{},\"evaluations\":{},\"discarded\":{},\"distinct_nontrivial\":{},\"ms\":{},\"known\":{{{}}},\"samples\":[{}]{}}}", jstr(name), evals, discards, distinct.len(), t0.elapsed().as_millis(), kh, samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), extra),
        ).unwrap();
    }
}

/// declare a native harness driver and, optionally, Kani proofs over the same body
macro_rules! vp_native {
    ($name:ident, $h:expr, $max:expr, $min:expr) => {
        #[cfg(test)]
        #[test]
        fn $name() { crate::vp::drive(stringify!($name), $h, $max, &[], $min) }
    };
}
pub(crate) use vp_native;

/// Kani: sequential code never contends for a lock; the slow (parking) paths of parking_lot are replaced by a failure, so that
/// reaching one fails the proof instead of pulling the thread parking machinery into it
#[cfg(kani)]
pub mod nolock {
    /// hash maps: any hash keys
    pub fn random_state() -> std::collections::hash_map::RandomState { let k: [u64; 2] = kani::any(); unsafe { core::mem::transmute(k) } }
    pub fn shared(_: &parking_lot::RawRwLock, _: bool, _: Option<std::time::Instant>) -> bool { panic!("contended lock") }
    pub fn excl(_: &parking_lot::RawRwLock, _: Option<std::time::Instant>) -> bool { panic!("contended lock") }
    pub fn un_shared(_: &parking_lot::RawRwLock) { panic!("contended lock") }
    pub fn un_excl(_: &parking_lot::RawRwLock, _: bool) { panic!("contended lock") }
    pub fn upg(_: &parking_lot::RawRwLock, _: Option<std::time::Instant>) -> bool { panic!("contended lock") }
    pub fn down(_: &parking_lot::RawRwLock) { panic!("contended lock") }
}
/// a Kani proof of code that takes parking_lot read-write locks
#[cfg(kani)]
macro_rules! vp_kani {
    ($name:ident, $unwind:literal, $h:expr $(, $more:meta)*) => {
        #[kani::proof]
        $(#[$more])*
        #[kani::unwind($unwind)]
        #[kani::stub(std::collections::hash_map::RandomState::new, crate::vp::nolock::random_state)]
        #[kani::stub(parking_lot::RawRwLock::lock_shared_slow, crate::vp::nolock::shared)]
        #[kani::stub(parking_lot::RawRwLock::lock_exclusive_slow, crate::vp::nolock::excl)]
        #[kani::stub(parking_lot::RawRwLock::unlock_shared_slow, crate::vp::nolock::un_shared)]
        #[kani::stub(parking_lot::RawRwLock::unlock_exclusive_slow, crate::vp::nolock::un_excl)]
        #[kani::stub(parking_lot::RawRwLock::lock_upgradable_slow, crate::vp::nolock::upg)]
        #[kani::stub(parking_lot::RawRwLock::unlock_upgradable_slow, crate::vp::nolock::un_excl)]
        #[kani::stub(parking_lot::RawRwLock::upgrade_slow, crate::vp::nolock::upg)]
        #[kani::stub(parking_lot::RawRwLock::downgrade_slow, crate::vp::nolock::down)]
        #[kani::stub(parking_lot::RawRwLock::downgrade_to_upgradable_slow, crate::vp::nolock::down)]
        fn $name() { $h(&mut crate::vp::Gen) }
    };
}
/// natively the same name replays the solver's values on the real code
#[cfg(not(kani))]
macro_rules! vp_kani {
    ($name:ident, $unwind:literal, $h:expr $(, $more:meta)*) => {
        #[cfg(test)]
        #[test]
        fn $name() { if std::env::var("VP_REPLAY").is_ok() { crate::vp::drive(stringify!($name), $h, 0, &[], 0) } }
    };
}
pub(crate) use vp_kani;
