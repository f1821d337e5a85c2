// @attach server/src/engine/idx/stord/iter.rs
// @feature p20
//! P20: the ordered index against a list of pairs, with keys and values that know whether they are alive.
use super::super::{config::{AllocStrategy, Config, ConservativeConfig, LiberalConfig, LiberalStrategy}, IndexSTSeqDll, IndexSTSeqDllNode};
use super::{OrderedOwnedIteratorRaw, OrderedOwnedIteratorKV};
use crate::engine::idx::{IndexBaseSpec, STIndex, STIndexExt, STIndexSeq};
use crate::vp::*;
use std::{borrow::Borrow, cell::RefCell, hash::{Hash, Hasher}};

#[cfg(not(kani))]
thread_local! { static LIVE: RefCell<Vec<bool>> = RefCell::new(vec![]); }
/// a key or value: an identity and what it shows
#[derive(Debug)]
pub struct Tr(usize, u8);
#[cfg(not(kani))]
impl Tr {
    fn new(v: u8) -> Self { LIVE.with(|l| { let mut l = l.borrow_mut(); l.push(true); Tr(l.len() - 1, v) }) }
    fn val(&self) -> u8 { LIVE.with(|l| assert!(l.borrow().get(self.0).copied() == Some(true), "C[drop: an entry is read after it was dropped]")); self.1 }
}
#[cfg(not(kani))]
impl Drop for Tr {
    fn drop(&mut self) { let ok = LIVE.with(|l| { let mut l = l.borrow_mut(); l.get_mut(self.0).is_some_and(|x| std::mem::replace(x, false)) }); if !ok && !std::thread::panicking() { panic!("C[drop: an entry is dropped twice]") } }
}
#[cfg(not(kani))]
mod native {
    use super::*;
    impl Clone for Tr { fn clone(&self) -> Self { Tr::new(self.val()) } }
    impl PartialEq for Tr { fn eq(&self, o: &Self) -> bool { self.val() == o.val() } }
    impl Eq for Tr {}
    impl Hash for Tr { fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) } }
    impl Borrow<u8> for Tr { fn borrow(&self) -> &u8 { self.val(); &self.1 } }
    type L = Vec<(u8, u8)>;
    fn check<C: Config<Tr, Tr>>(a: &IndexSTSeqDll<Tr, Tr, C>, m: &L, g: &mut Gen) {
        assert!(a.st_len() == m.len() && a.len() == m.len(), "C[index: the number of entries] {} for {m:?}", a.len());
        let kv: L = a.stseq_ord_kv().map(|(k, v)| (k.val(), v.val())).collect();
        assert!(kv == *m, "C[order: the entries in their order] {kv:?} for {m:?}");
        let k: Vec<u8> = a.stseq_ord_key().map(|k| k.val()).collect();
        let mut v: Vec<u8> = a.stseq_ord_value().rev().map(|v| v.val()).collect();
        v.reverse();
        assert!(k.iter().copied().eq(m.iter().map(|x| x.0)) && v.iter().copied().eq(m.iter().map(|x| x.1)), "C[order: the keys, and the values backwards]");
        let mut it = a.stseq_ord_kv();
        let (mut lo, mut hi) = (0, m.len());
        for _ in 0..g.range(0, 4) {
            assert!(it.len() == hi - lo, "C[order: the length of an iterator]");
            let back = g.bool();
            let x = if back { it.next_back() } else { it.next() }.map(|(k, v)| (k.val(), v.val()));
            let w = if lo == hi { None } else if back { hi -= 1; Some(m[hi]) } else { lo += 1; Some(m[lo - 1]) };
            assert!(x == w, "C[order: both ends of an iterator] {x:?} not {w:?}");
        }
        let mut s = m.clone(); s.sort();
        let mut u: L = a.st_iter_kv().map(|(k, v)| (k.val(), v.val())).collect(); u.sort();
        let mut uk: Vec<u8> = a.st_iter_key().map(|k| k.val()).collect(); uk.sort();
        let mut uv: Vec<u8> = a.st_iter_value().map(|k| k.val()).collect(); uv.sort();
        let mut sv: Vec<u8> = m.iter().map(|x| x.1).collect(); sv.sort();
        assert!(u == s && uk.iter().copied().eq(s.iter().map(|x| x.0)) && uv == sv, "C[index: exactly the live entries]");
        for k in 0..6u8 {
            let w = m.iter().find(|x| x.0 == k).map(|x| x.1);
            assert!(a.st_contains(&k) == w.is_some() && a.st_get(&k).map(|v| v.val()) == w && a.st_get_cloned(&k).map(|v| v.val()) == w
                && a.stext_get_key_value(&k).map(|(k, v)| (k.val(), v.val())) == w.map(|w| (k, w)), "C[index: lookup of {k}]");
        }
    }
    fn run<C: Config<Tr, Tr>>(g: &mut Gen) {
        LIVE.with(|l| l.borrow_mut().clear());
        {
            let mut a: IndexSTSeqDll<Tr, Tr, C> = if g.bool() { IndexSTSeqDll::idx_init() } else { IndexSTSeqDll::idx_init_cap(g.range(0, 5)) };
            let mut m: L = vec![];
            for _ in 0..g.range(1, 24) {
                let (k, v) = (g.range(0, 5) as u8, g.u8());
                let at = m.iter().position(|x| x.0 == k);
                let old = at.map(|i| m[i].1);
                match g.range(0, 12) {
                    0..=2 => {
                        g.note(|| format!("insert {k} {v}"));
                        assert!(a.st_insert(Tr::new(k), Tr::new(v)) == at.is_none(), "C[insert: refused exactly when the key exists]");
                        if at.is_none() { m.push((k, v)) }
                    }
                    3 => { g.note(|| format!("upsert {k} {v}")); a.st_upsert(Tr::new(k), Tr::new(v)); at.map(|i| m.remove(i)); m.push((k, v)) }
                    4 => {
                        g.note(|| format!("update {k} {v}"));
                        if g.bool() { assert!(a.st_update(&k, Tr::new(v)) == at.is_some(), "C[update: exactly when the key exists]") }
                        else { assert!(a.st_update_return(&k, Tr::new(v)).map(|x| x.val()) == old, "C[update: the old value]") }
                        if let Some(i) = at { m.remove(i); m.push((k, v)) }
                    }
                    5 | 6 => {
                        g.note(|| format!("delete {k}"));
                        if g.bool() { assert!(a.st_delete(&k) == at.is_some(), "C[delete: exactly when the key exists]") }
                        else { assert!(a.st_delete_return(&k).map(|x| x.val()) == old, "C[delete: the old value]") }
                        at.map(|i| m.remove(i));
                    }
                    7 => {
                        let yes = g.bool();
                        g.note(|| format!("delete_if {k} {yes}"));
                        assert!(a.st_delete_if(&k, |x| { assert!(Some(x.val()) == old); yes }) == at.map(|_| yes), "C[delete if]");
                        if yes { at.map(|i| m.remove(i)); }
                    }
                    8 => { g.note(|| format!("get_mut {k} {v}")); match a.st_get_mut(&k) { Some(x) => { *x = Tr::new(v); m[at.expect("C[get: no such entry]")].1 = v } None => assert!(at.is_none(), "C[get: the entry exists]") } }
                    9 => if g.range(0, 3) == 0 { g.note(|| "clear".into()); a.st_clear(); m.clear() },
                    10 => { g.note(|| "compact".into()); a.st_compact() }
                    11 => {
                        g.note(|| "clone".into());
                        let b = a.clone();
                        check(&b, &m, g);
                        assert!(a == b && b == a, "C[equal: a copy is equal]");
                        let mut b = b;
                        let o: L = b.stseq_ord_kv().map(|(k, v)| (k.val(), v.val())).collect();
                        if let Some(&(k0, v0)) = o.first() {
                            if g.bool() { b.st_update(&k0, Tr::new(v0.wrapping_add(1))); } else { b.st_delete(&k0); b.st_insert(Tr::new(k0 + 10), Tr::new(v0)); }
                            assert!(a != b && b != a, "C[equal: different entries are not equal]");
                        }
                        if g.bool() { a = b; m = a.stseq_ord_kv().map(|(k, v)| (k.val(), v.val())).collect(); if m.iter().any(|x| x.0 > 5) { a.st_clear(); m.clear() } }
                    }
                    _ => { g.note(|| "collect".into()); let e: Vec<(Tr, Tr)> = a.stseq_owned_kv().collect(); assert!(e.iter().map(|(k, v)| (k.val(), v.val())).eq(m.iter().copied()), "C[owned: the entries in their order]"); a = e.into_iter().collect(); g.nontrivial() }
                }
                check(&a, &m, g);
            }
            g.cover(m.len() > 2);
            g.note(|| format!("{m:?}"));
            // the owned iterators, from both ends, dropped with entries left
            let n = g.range(0, 5);
            let (mut lo, mut hi) = (0, m.len());
            match g.range(0, 3) {
                0 => { let mut it = a.stseq_owned_kv(); for _ in 0..n { let b = g.bool(); let x = if b { it.next_back() } else { it.next() }; let w = if lo == hi { None } else if b { hi -= 1; Some(m[hi]) } else { lo += 1; Some(m[lo - 1]) }; assert!(x.map(|(k, v)| (k.val(), v.val())) == w, "C[owned: both ends]") } }
                1 => { let mut it = a.stseq_owned_keys(); for _ in 0..n { let b = g.bool(); let x = if b { it.next_back() } else { it.next() }; let w = if lo == hi { None } else if b { hi -= 1; Some(m[hi].0) } else { lo += 1; Some(m[lo - 1].0) }; assert!(x.map(|k| k.val()) == w, "C[owned: both ends]") } }
                2 => { let mut it = a.stseq_owned_values(); for _ in 0..n { let b = g.bool(); let x = if b { it.next_back() } else { it.next() }; let w = if lo == hi { None } else if b { hi -= 1; Some(m[hi].1) } else { lo += 1; Some(m[lo - 1].1) }; assert!(x.map(|k| k.val()) == w, "C[owned: both ends]") } }
                _ => drop(a),
            }
        }
        LIVE.with(|l| assert!(l.borrow().iter().all(|x| !x), "C[drop: an entry is never dropped]"));
    }
    pub fn cns(g: &mut Gen) { run::<ConservativeConfig<Tr, Tr>>(g) }
    pub fn lib(g: &mut Gen) { run::<LiberalConfig<Tr, Tr>>(g) }
    /// what the process holds does not grow with indexes that were consumed or dropped
    pub fn held(g: &mut Gen) {
        fn rss() -> usize { std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse().unwrap() }
        type V = [u8; 1 << 20];
        fn one(x: usize) { let mut a: IndexSTSeqDll<u8, Box<u8>, LiberalConfig<u8, Box<u8>>> = IndexSTSeqDll::idx_init(); for i in 0..4 { a.st_insert(i, Box::new(1)); } a.st_delete(&2); match x { 0 => { for _ in a.stseq_owned_kv() {} } 1 => { a.stseq_owned_kv().next_back(); } _ => drop(a) } }
        let _ = std::mem::size_of::<V>();
        let x = g.range(0, 2);
        let cycle = || for _ in 0..120_000 { one(x) };
        cycle();
        let a = rss();
        cycle();
        let b = rss();
        g.nontrivial();
        assert!(b < a + 700, "C[drop: memory is not given back] {a} pages, then {b}");
    }
}
#[cfg(not(kani))]
use native::*;
vp_native!(n_conservative, cns, 160, 1000);
vp_native!(n_liberal, lib, 160, 1000);
vp_native!(n_held, held, 1, 1);

/// the pointer code of the list: nodes, iterators and recycling, for every list of up to 3 nodes
#[cfg(any(kani, test))]
mod k {
    use super::*;
    type N = IndexSTSeqDllNode<u8, u8>;
    /// a list of n nodes as the index builds it
    unsafe fn list(vals: &[(u8, u8)], n: usize) -> (*mut N, [*mut N; 3]) {
        let h: *mut N = N::_alloc_with_garbage();
        (*h).p = h;
        (*h).n = h;
        let mut at = [std::ptr::null_mut(); 3];
        let mut i = 0;
        while i < n {
            let x = N::alloc_box(N::new_null(vals[i].0, vals[i].1)).as_ptr();
            N::link(h, x);
            at[i] = x;
            i += 1;
        }
        (h, at)
    }
    /// from the oldest to the newest, and back
    unsafe fn is_list(h: *mut N, want: &[(u8, u8)], n: usize) {
        let (mut f, mut b) = ((*h).p, (*h).n);
        let mut i = 0;
        while i < n {
            assert!(f != h && ((*f).k, (*f).v) == want[i], "C[list: the entries in their order]");
            assert!(b != h && ((*b).k, (*b).v) == want[n - 1 - i], "C[list: the entries in reverse order]");
            f = (*f).p;
            b = (*b).n;
            i += 1;
        }
        assert!(f == h && b == h, "C[list: only these entries]");
    }
    fn pairs(g: &mut Gen) -> [(u8, u8); 3] { let a: [u8; 6] = g.array(); [(a[0], a[1]), (a[2], a[3]), (a[4], a[5])] }
    fn links(g: &mut Gen) {
        let v = pairs(g);
        let n = g.range(0, 3);
        unsafe {
            let (h, at) = list(&v, n);
            is_list(h, &v, n);
            if n > 0 {
                let j = g.range(0, n - 1);
                N::unlink(at[j]);
                let mut w = v;
                let mut i = j;
                while i + 1 < n { w[i] = w[i + 1]; i += 1 }
                is_list(h, &w, n - 1);
                // and back, as the newest
                N::link(h, at[j]);
                w[n - 1] = v[j];
                is_list(h, &w, n);
                N::unlink(at[j]);
                N::_drop(at[j]);
                g.cover(n == 3 && j == 1);
                let mut i = 0;
                while i < n { if i != j { N::_drop(at[i]) } i += 1 }
            }
            N::dealloc_headless(h);
        }
    }
    /// the owned iterator: every mix of both ends, then dropped
    fn owned(g: &mut Gen) {
        let v = pairs(g);
        let n = g.range(0, 3);
        unsafe {
            let (h, _) = list(&v, n);
            let it = OrderedOwnedIteratorRaw { h: (*h).p, t: h, r: n };
            let mut it = OrderedOwnedIteratorKV(it);
            let (mut lo, mut hi) = (0, n);
            let k = g.range(0, 4);
            let mut i = 0;
            while i < k {
                let back = g.bool();
                let x = if back { it.next_back() } else { it.next() };
                if lo == hi { assert!(x.is_none(), "C[owned: ends]") }
                else if back { hi -= 1; assert!(x == Some(v[hi]), "C[owned: the last remaining entry]") }
                else { assert!(x == Some(v[lo]), "C[owned: the first remaining entry]"); lo += 1 }
                i += 1;
            }
            g.cover(k == 2 && n == 3);
        }
    }
    /// recycled nodes carry the new entry, and cleaning up forgets them
    fn recycle(g: &mut Gen) {
        let v = pairs(g);
        let mut a = <LiberalStrategy<u8, u8> as AllocStrategy<u8, u8>>::NEW;
        let n = g.range(0, 2);
        unsafe {
            let mut i = 0;
            while i < n { a.free(N::alloc_box(N::new_null(7, 7)).as_ptr()); i += 1 }
            let mut reused = false;
            let mut j = 0;
            while j < 3 {
                reused = false;
                let p = a.alloc(N::new_null(v[j].0, v[j].1), &mut reused).as_ptr();
                assert!(reused == (j < n), "C[recycle: freed nodes are used first]");
                assert!((*p).k == v[j].0 && (*p).v == v[j].1 && (*p).n.is_null() && (*p).p.is_null(), "C[recycle: the new entry]");
                N::_drop(p);
                j += 1;
            }
            let mut i = 0;
            while i < n { a.free(N::alloc_box(N::new_null(7, 7)).as_ptr()); i += 1 }
            a.cleanup();
            let p = a.alloc(N::new_null(1, 2), &mut reused).as_ptr();
            assert!(!reused && (*p).v == 2, "C[recycle: nothing is kept after a cleanup]");
            N::_drop(p);
        }
        g.cover(n == 2);
    }
    vp_kani!(kb_links, 6, links);
    vp_kani!(kb_owned, 6, owned);
    vp_kani!(kb_recycle, 5, recycle);
}
