// @attach server/src/engine/mem/mod.rs
// @feature p21
//! P21: the inline and fixed capacity containers against a vector, with elements that know whether they are alive.
use super::{fixed_vec::FixedVec, uarray::UArray, vinline::VInline, AStr};
use crate::vp::*;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};

const IDS: usize = if cfg!(kani) { 10 } else { 200 };
const MX: usize = if cfg!(kani) { 6 } else { 24 };
static LIVE: [AtomicU8; IDS] = [const { AtomicU8::new(0) }; IDS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// an element: an identity and a value
#[derive(Debug)]
struct Tr(u8, u8);
impl Tr {
    fn new(v: u8) -> Self {
        let id = NEXT.fetch_add(1, Relaxed);
        LIVE[id].store(1, Relaxed);
        Tr(id as u8, v)
    }
    fn val(&self) -> u8 { assert!(LIVE[self.0 as usize].load(Relaxed) == 1, "C[drop: an element is read after it was dropped]"); self.1 }
}
impl Clone for Tr { fn clone(&self) -> Self { Tr::new(self.val()) } }
impl PartialEq for Tr { fn eq(&self, o: &Tr) -> bool { self.val() == o.val() } }
impl Drop for Tr {
    fn drop(&mut self) { assert!(LIVE[self.0 as usize].swap(0, Relaxed) == 1, "C[drop: an element is dropped twice]"); }
}
fn reset() { let mut i = 0; while i < IDS { LIVE[i].store(0, Relaxed); i += 1 } NEXT.store(0, Relaxed); }
fn all_dropped() {
    let n = NEXT.load(Relaxed);
    let mut i = 0;
    while i < IDS { if i < n { assert!(LIVE[i].load(Relaxed) == 0, "C[drop: an element is never dropped]"); } i += 1 }
}
/// the reference: a vector of values
#[derive(Clone, Copy)]
struct M { a: [u8; MX], n: usize }
impl M {
    fn push(&mut self, v: u8) { self.a[self.n] = v; self.n += 1 }
    fn remove(&mut self, i: usize) -> u8 { let r = self.a[i]; let mut j = i; while j + 1 < self.n { self.a[j] = self.a[j + 1]; j += 1 } self.n -= 1; r }
    fn same(&self, s: &[Tr]) {
        assert!(s.len() == self.n, "C[vector: the length]");
        let mut i = 0;
        while i < self.n { assert!(s[i].val() == self.a[i], "C[vector: the elements]"); i += 1 }
    }
}
/// take some elements from both ends, then drop the iterator
fn consume(g: &mut Gen, mut it: impl DoubleEndedIterator<Item = Tr> + ExactSizeIterator, m: &M) {
    let (mut lo, mut hi) = (0, m.n);
    assert!(it.len() == m.n, "C[iterator: its length]");
    let k = g.range(0, if cfg!(kani) { 3 } else { MX });
    let mut i = 0;
    while i < k {
        if g.bool() {
            match it.next() {
                Some(t) => { assert!(lo < hi && t.val() == m.a[lo], "C[iterator: the first remaining element]"); lo += 1 }
                None => assert!(lo == hi, "C[iterator: ends early]"),
            }
        } else {
            match it.next_back() {
                Some(t) => { assert!(lo < hi && t.val() == m.a[hi - 1], "C[iterator: the last remaining element]"); hi -= 1 }
                None => assert!(lo == hi, "C[iterator: ends early]"),
            }
        }
        i += 1;
    }
    assert!(it.len() == hi - lo, "C[iterator: its length]");
}
fn uarray_n<const N: usize>(g: &mut Gen, ops: usize) {
    reset();
    let mut m = M { a: [0; MX], n: 0 };
    {
        let mut a: UArray<N, Tr> = UArray::new();
        let n = g.range(0, N);
        while m.n < n { let v = g.u8(); a.push(Tr::new(v)); m.push(v) }
        m.same(&a);
        let k = if cfg!(kani) { ops } else { g.range(0, ops) };
        let mut i = 0;
        while i < k {
            match g.range(0, 5) {
                0 => if m.n < N { let v = g.u8(); a.push(Tr::new(v)); m.push(v) },
                1 => match a.pop() { Some(t) => { assert!(m.n > 0 && t.val() == m.a[m.n - 1], "C[pop]"); m.n -= 1 } None => assert!(m.n == 0, "C[pop: an element was there]") },
                2 => if m.n > 0 { let j = g.range(0, m.n - 1); let t = a.remove(j); assert!(t.val() == m.remove(j), "C[remove]") },
                3 => { a.clear(); m.n = 0 }
                4 => { let b = a.clone(); m.same(&b); assert!(a == b, "C[clone: equal]") }
                _ => if m.n > 0 { let j = g.range(0, m.n - 1); let v = g.u8(); a[j] = Tr::new(v); m.a[j] = v },
            }
            m.same(&a);
            i += 1;
        }
        if if cfg!(kani) { ops == 0 } else { g.bool() } { consume(g, a.into_iter(), &m) } else { drop(a) }
        g.cover(m.n > 1);
    }
    all_dropped();
}
fn vinline_n<const N: usize>(g: &mut Gen, max: usize, ops: usize) {
    reset();
    let mut m = M { a: [0; MX], n: 0 };
    {
        let mut a: VInline<N, Tr> = VInline::new();
        let n = g.range(0, max);
        while m.n < n { let v = g.u8(); a.push(Tr::new(v)); m.push(v) }
        m.same(&a);
        let k = if cfg!(kani) { ops } else { g.range(0, ops) };
        let mut i = 0;
        while i < k {
            match g.range(0, 6) {
                0 => if m.n + 1 < MX { let v = g.u8(); a.push(Tr::new(v)); m.push(v) },
                1 => if m.n > 0 { let j = g.range(0, m.n - 1); let t = a.remove(j); assert!(t.val() == m.remove(j), "C[remove]") },
                2 => if m.n > 0 { let j = g.range(0, m.n - 1); let t = a.remove_compact(j); assert!(t.val() == m.remove(j), "C[remove]") },
                3 => { a.clear(); m.n = 0 }
                4 => a.optimize_capacity(),
                5 => { let b = a.clone(); m.same(&b); assert!(a == b, "C[clone: equal]") }
                _ => if m.n > 0 { let j = g.range(0, m.n - 1); let v = g.u8(); a[j] = Tr::new(v); m.a[j] = v },
            }
            m.same(&a);
            assert!(a.capacity() >= a.len(), "C[vector: capacity]");
            i += 1;
        }
        if if cfg!(kani) { ops == 0 } else { g.bool() } { consume(g, a.into_iter(), &m) } else { drop(a) }
        g.cover(m.n > 1);
    }
    all_dropped();
}
fn fixed_n<const N: usize>(g: &mut Gen, ops: usize) {
    reset();
    let mut m = M { a: [0; MX], n: 0 };
    {
        let mut a: FixedVec<Tr, N> = FixedVec::allocate();
        let n = g.range(0, N);
        while m.n < n { let v = g.u8(); unsafe { a.push(Tr::new(v)) }; m.push(v) }
        let k = if cfg!(kani) { ops } else { g.range(0, ops) };
        let mut i = 0;
        while i < k {
            match g.range(0, 3) {
                0 => { let v = g.u8(); let r = a.try_push_result(Tr::new(v)); assert!(r.is_ok() == (m.n < N), "C[push: refused exactly when full]"); if r.is_ok() { m.push(v) } }
                1 => { a.clear(); m.n = 0 }
                2 => if m.n > 0 { let j = g.range(0, m.n - 1); unsafe { a.clear_start(j) }; let mut c = 0; while c < j { m.remove(0); c += 1 } },
                _ => if m.n > 0 { let j = g.range(0, m.n - 1); let v = g.u8(); a[j] = Tr::new(v); m.a[j] = v },
            }
            m.same(&a);
            assert!(a.remaining_capacity() == N - m.n && a.at_capacity() == (m.n == N), "C[vector: capacity]");
            i += 1;
        }
        g.cover(m.n > 1);
    }
    all_dropped();
}
/// a fixed vector of bytes: appending blocks, and giving its memory back
fn fixed_bytes(g: &mut Gen) {
    const N: usize = 4;
    let mut a: FixedVec<u8, N> = FixedVec::allocate();
    let (x, y): ([u8; N], [u8; N]) = (g.array(), g.array());
    let n = g.range(0, N);
    let k = g.range(0, N - n);
    unsafe { a.extend_from_slice(&x[..n]); a.extend_from_slice(&y[..k]) }
    assert!(a.len() == n + k, "C[extend: the length]");
    let mut i = 0;
    while i < n { assert!(a[i] == x[i], "C[extend: the bytes]"); i += 1 }
    while i < n + k { assert!(a[i] == y[i - n], "C[extend: the bytes]"); i += 1 }
    g.cover(n > 0 && k > 0);
}
/// short strings
fn astr(g: &mut Gen) {
    const N: usize = 4;
    let b: [u8; 6] = g.array();
    let b = b.map(|c| c & 127);
    let n = g.range(0, 6);
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    match AStr::<N>::try_new(s) {
        Some(a) => {
            assert!(n <= N && a._as_bytes().len() == n, "C[string: the length]");
            let mut i = 0;
            while i < n { assert!(a._as_bytes()[i] == b[i], "C[string: the bytes]"); i += 1 }
            g.cover(n > 1);
        }
        None => assert!(n > N, "C[string: refused exactly when too long]"),
    }
}
#[cfg(not(kani))]
mod native {
    use super::*;
    /// elements without spare bit patterns, and elements with heap memory
    pub fn plain(g: &mut Gen) {
        let n = g.range(0, 12);
        let v: Vec<u64> = (0..n).map(|_| g.u64()).collect();
        let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        let a: VInline<3, u64> = v.iter().copied().collect();
        let b: VInline<3, String> = s.iter().cloned().collect();
        let c: UArray<12, u64> = v.iter().copied().collect();
        let r = g.bool();
        fn go<T, I: DoubleEndedIterator<Item = T>>(i: I, rev: bool) -> Vec<T> { if rev { let mut v: Vec<T> = i.rev().collect(); v.reverse(); v } else { i.collect() } }
        assert!(a == a.clone() && *a == v[..] && *b == s[..] && *c == v[..], "C[vector: the elements]");
        assert!(go(a.into_iter(), r) == v && go(b.into_iter(), r) == s && go(c.into_iter(), r) == v, "C[iterator: every element]");
        g.cover(n > 3);
    }
    /// a full array refuses by panicking, with nothing changed
    pub fn full(g: &mut Gen) {
        reset();
        {
            let mut a: UArray<3, Tr> = (0..3).map(|i| Tr::new(i)).collect();
            let k = g.range(0, 1);
            let r = guarded(std::panic::AssertUnwindSafe(|| if k == 0 { a.push(Tr::new(9)) } else { drop(a.remove(3)) }));
            assert!(r.is_err(), "C[vector: out of bounds is accepted]");
            M { a: std::array::from_fn(|i| i as u8), n: 3 }.same(&a);
            g.nontrivial();
        }
        all_dropped();
    }
    /// memory of dropped fixed vectors is given back: what the process holds does not grow
    pub fn held(g: &mut Gen) {
        fn rss() -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse().unwrap() }
        const B: usize = 1 << 20;
        let cycle = || { for _ in 0..64 { let mut a: FixedVec<u8, B> = FixedVec::allocate(); unsafe { a.extend_from_slice(&[1; 4096]); let mut i = 4096; while i < B { a.set_len(i); a.push(1); i += 4096 } } } };
        cycle();
        let a = rss();
        cycle();
        let b = rss();
        g.nontrivial();
        assert!(b < a + 32 * 256, "C[drop: the memory of a fixed vector is not given back] {a} pages, then {b}");
    }
    pub fn ua(g: &mut Gen) { uarray_n::<8>(g, 20) }
    pub fn vi(g: &mut Gen) { if g.bool() { vinline_n::<2>(g, 9, 20) } else { vinline_n::<4>(g, 9, 20) } }
    pub fn fx(g: &mut Gen) { fixed_n::<8>(g, 20) }
}
#[cfg(not(kani))]
use native::*;
vp_native!(n_uarray, ua, 80, 1000);
vp_native!(n_vinline, vi, 80, 1000);
vp_native!(n_fixed, fx, 80, 1000);
vp_native!(n_plain, plain, 120, 1000);
vp_native!(n_full, full, 2, 2);
vp_native!(n_held, held, 1, 1);
vp_native!(n_astr, astr, 12, 100);
vp_native!(n_fixed_bytes, fixed_bytes, 12, 100);

#[cfg(any(kani, test))]
mod k {
    use super::*;
    fn u(g: &mut Gen) { uarray_n::<3>(g, 1) }
    fn v(g: &mut Gen) { vinline_n::<2>(g, 4, 1) }
    fn ui(g: &mut Gen) { uarray_n::<3>(g, 0) }
    fn vi(g: &mut Gen) { vinline_n::<2>(g, 4, 0) }
    fn f(g: &mut Gen) { fixed_n::<3>(g, 1) }
    fn u2(g: &mut Gen) { uarray_n::<3>(g, 2) }
    vp_kani!(kb_uarray, 11, u);
    vp_kani!(kb_vinline, 11, v);
    vp_kani!(kb_uarray_iter, 11, ui);
    vp_kani!(kb_vinline_iter, 11, vi);
    vp_kani!(kb_fixed, 11, f);
    vp_kani!(kbt_uarray2, 11, u2);
    vp_kani!(kb_fixed_bytes, 7, fixed_bytes);
    vp_kani!(kb_astr, 8, astr);
}
