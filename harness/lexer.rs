// @attach server/src/engine/ql/lex/mod.rs
// @feature p04 p05
//! P04/P05: the secure lexer against an independent reading of the query and parameter grammar.
use super::*;
use crate::vp::*;

/// the documented keywords
pub const STMT: [&str; 12] = ["sysctl", "create", "alter", "drop", "use", "inspect", "describe", "insert", "select", "update", "delete", "exists"];
pub const MISC: [&str; 50] = ["table", "model", "space", "index", "type", "function", "rename", "add", "remove", "transform", "set", "return", "order", "sort", "group",
    "limit", "asc", "desc", "all", "by", "with", "on", "from", "into", "as", "to", "in", "of", "and", "or", "not", "if", "else", "where", "when", "allow", "auto",
    "default", "null", "transaction", "batch", "lock", "read", "write", "begin", "end", "key", "value", "primary", "truncate"];
pub const SYMBOLS: &[u8] = b"+-*/!&^|=()[]{}<>'\"@#$%_\\:;,.?~`";

fn kw_at(i: usize) -> &'static str { if i < 12 { STMT[i] } else { MISC[i - 12] } }
fn lower(b: u8) -> u8 { if b >= b'A' && b <= b'Z' { b + 32 } else { b } }
fn same_word(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < a.len() { if lower(a[i]) != lower(b[i]) { return false } i += 1 }
    true
}

/// every symbol byte is that symbol, every other byte is none
pub fn symbols(g: &mut Gen) {
    let b = g.u8();
    let mut known = None;
    let mut i = 0;
    while i < SYMBOLS.len() { if SYMBOLS[i] == b { known = Some(i) } i += 1 }
    match Symbol::get(b) {
        Some(s) => { assert!(known == Some(s as usize), "C[symbol]: recognised as another symbol"); g.cover(true) }
        None => assert!(known.is_none(), "C[symbol]: symbol not recognised"),
    }
}
/// a word is only ever recognised as the keyword it spells
pub fn keyword_sound(g: &mut Gen) {
    let w: [u8; 12] = g.array();
    let n = g.range(0, 12);
    if let Some(k) = Keyword::get(&w[..n]) {
        assert!(same_word(k.as_str().as_bytes(), &w[..n]), "C[keyword]: recognised as a keyword it does not spell");
        g.cover(true);
    }
}
/// no word longer than the longest keyword is a keyword (words up to 32 bytes)
pub fn keyword_long(g: &mut Gen) {
    let w: [u8; 32] = g.array();
    let n = g.range(12, 32);
    assert!(Keyword::get(&w[..n]).is_none(), "C[keyword]: overlong word recognised as a keyword");
    assert!(Keyword::get(&[]).is_none(), "C[keyword]: the empty word recognised as a keyword");
    g.cover(true);
}
/// each documented keyword, in any letter case, is recognised as exactly that keyword
pub fn keyword_complete(g: &mut Gen) {
    let i = g.range(0, 61);
    let case = g.u16();
    let kw = kw_at(i).as_bytes();
    let mut w = [0u8; 12];
    let mut j = 0;
    while j < kw.len() { w[j] = if (case >> j) & 1 == 1 { kw[j] - 32 } else { kw[j] }; j += 1 }
    match Keyword::get(&w[..kw.len()]) {
        Some(Keyword::Statement(s)) => assert!(i < 12 && s as usize == i, "C[keyword]: wrong statement keyword"),
        Some(Keyword::Misc(m)) => assert!(i >= 12 && m as usize == i - 12, "C[keyword]: wrong keyword"),
        None => panic!("C[keyword]: keyword not recognised"),
    }
    g.cover(true);
}

/// literals say what they were made from
pub fn lit_scalars(g: &mut Gen) {
    use crate::engine::data::tag::{DataTag, TagClass};
    let (b, u, s, f) = (g.bool(), g.u64(), g.i64(), f64::from_bits(g.u64()));
    let l = Lit::new_bool(b);
    assert!(l.kind().tag_class() == TagClass::Bool && l.try_bool() == Some(b) && l.try_uint().is_none() && l.try_str().is_none(), "C[lit]: bool");
    let l = Lit::new_uint(u);
    assert!(l.kind().tag_class() == TagClass::UnsignedInt && l.try_uint() == Some(u) && l.try_sint().is_none(), "C[lit]: unsigned");
    let l = Lit::new_sint(s);
    assert!(l.kind().tag_class() == TagClass::SignedInt && l.try_sint() == Some(s) && l.try_uint().is_none(), "C[lit]: signed");
    let l = Lit::new_float(f);
    assert!(l.kind().tag_class() == TagClass::Float && l.try_float().map(f64::to_bits) == Some(f.to_bits()) && l.try_uint().is_none(), "C[lit]: float");
    g.cover(true);
}
pub fn lit_bytes(g: &mut Gen) {
    use crate::engine::data::tag::{DataTag, TagClass};
    let a: [u8; 3] = g.array();
    let n = g.range(0, 3);
    let b = &a[..n];
    let l = Lit::new_bin(b);
    assert!(l.kind().tag_class() == TagClass::Bin && l.try_bin() == Some(b) && l.try_str().is_none(), "C[lit]: binary");
    if !g.assume(a[0] < 128 && a[1] < 128 && a[2] < 128) { return }
    let s = unsafe { std::str::from_utf8_unchecked(b) };
    let l = Lit::new_string(s.to_owned());
    assert!(l.kind().tag_class() == TagClass::Str && l.try_str().map(str::as_bytes) == Some(b) && l.try_bin().is_none(), "C[lit]: string");
    g.cover(true);
}
/// std: the byte classes the Verus unit assumes, all 256 bytes
pub fn std_word(g: &mut Gen) {
    let b = g.u8();
    let letter = (65 <= b && b <= 90) || (97 <= b && b <= 122);
    assert!(b.is_ascii_alphabetic() == letter && b.is_ascii_alphanumeric() == (letter || (48 <= b && b <= 57)), "C[std]: byte class");
    g.cover(true);
}
/// the word under the cursor is the maximal run of word bytes (the Verus unit reads the slice between two cursors)
pub fn scan_word(g: &mut Gen) {
    let a: [u8; 6] = g.array();
    let n = g.range(1, 6);
    let c = g.range(0, n);
    let mut e = c;
    while e < n && (a[e].is_ascii_alphanumeric() || a[e] == b'_') { e += 1 }
    let mut l = Lexer::new(&a[..n]);
    unsafe { l.token_buffer.set_cursor(c) };
    let w = l.scan_ident();
    assert!(w.len() == e - c && w.as_ptr() == a[c..].as_ptr() && l.token_buffer.cursor() == e, "C[scan_ident]: not the maximal word");
    std::mem::forget(l);
    g.cover(true);
}

#[cfg(not(kani))]
mod lexing {
    use super::*;
    #[derive(Debug, PartialEq, Clone)]
    enum T { Kw(String), Id(Vec<u8>), Sym(u8), Bool(bool), U(u64), S(i64), F(u64), Bin(Vec<u8>), Str(Vec<u8>) }
    #[derive(Debug, PartialEq, Clone)]
    enum R { Ok(Vec<T>), Err, Any }

    fn conv(t: &Token) -> T {
        use crate::engine::data::tag::{TagClass, DataTag};
        match t {
            Token::Symbol(s) => T::Sym(SYMBOLS[*s as usize]),
            Token::Keyword(k) => T::Kw(match k { Keyword::Statement(s) => STMT[*s as usize].into(), Keyword::Misc(m) => MISC[*m as usize].into() }),
            Token::Ident(i) => T::Id(i.as_slice().to_vec()),
            Token::Lit(l) => match l.kind().tag_class() {
                TagClass::Bool => T::Bool(l.try_bool().unwrap()),
                TagClass::UnsignedInt => T::U(l.try_uint().unwrap()),
                TagClass::SignedInt => T::S(l.try_sint().unwrap()),
                TagClass::Float => T::F(l.try_float().unwrap().to_bits()),
                TagClass::Bin => T::Bin(l.try_bin().unwrap().to_vec()),
                TagClass::Str => T::Str(l.try_str().unwrap().as_bytes().to_vec()),
                TagClass::List => panic!("C[lex]: list literal"),
            },
            #[allow(unreachable_patterns)]
            _ => panic!("C[lex]: odd token"),
        }
    }
    /// digits up to LF; Err(true) = outside the documented numeral grammar in a way that is not pinned down (no digits)
    fn uint(p: &[u8], c: &mut usize) -> Result<u64, bool> {
        let e = p[*c..].iter().position(|b| *b == b'\n').ok_or(false)?;
        let s = &p[*c..*c + e];
        if s.is_empty() { return Err(true) }
        if !s.iter().all(|b| b.is_ascii_digit()) { return Err(false) }
        let mut v = 0u128;
        for d in s { v = v * 10 + (d - b'0') as u128; if v > u64::MAX as u128 { return Err(false) } }
        *c += e + 1;
        Ok(v as u64)
    }
    fn param(p: &[u8], c: &mut usize) -> Result<T, bool> {
        let code = p[*c];
        *c += 1;
        Ok(match code {
            0 => T::Kw("null".into()),
            1 => { let b = *p.get(*c).ok_or(false)?; *c += 1; if b > 1 { return Err(false) } T::Bool(b == 1) }
            2 => T::U(uint(p, c)?),
            3 => {
                let neg = p.get(*c) == Some(&b'-');
                let e = p[*c..].iter().position(|b| *b == b'\n').ok_or(false)?;
                let s = &p[*c + neg as usize..*c + e];
                if s.is_empty() || !s.iter().all(|b| b.is_ascii_digit()) { return Err(false) }
                let mut v = 0i128;
                for d in s { v = v * 10 + (d - b'0') as i128; if v > 1 << 64 { return Err(false) } }
                if neg { v = -v }
                if v < i64::MIN as i128 || v > i64::MAX as i128 { return Err(false) }
                *c += e + 1;
                T::S(v as i64)
            }
            4 => {
                let e = p[*c..].iter().position(|b| *b == b'\n').ok_or(false)?;
                let f: f64 = std::str::from_utf8(&p[*c..*c + e]).map_err(|_| false)?.parse().map_err(|_| false)?;
                *c += e + 1;
                T::F(f.to_bits())
            }
            5 | 6 => {
                let n = uint(p, c)?;
                if n > (p.len() - *c) as u64 { return Err(false) }
                let b = p[*c..*c + n as usize].to_vec();
                *c += n as usize;
                if code == 5 { T::Bin(b) } else { std::str::from_utf8(&b).map_err(|_| false)?; T::Str(b) }
            }
            _ => return Err(false),
        })
    }
    // P05: by the documented tables. P04: whatever the text alone gives
    #[cfg(feature = "vp_p05")]
    fn word_token(w: &[u8]) -> T {
        let k = (0..62).map(kw_at).find(|k| same_word(k.as_bytes(), w));
        match k { Some(k) => T::Kw(k.into()), None if same_word(w, b"true") => T::Bool(true), None if same_word(w, b"false") => T::Bool(false), None => T::Id(w.to_vec()) }
    }
    #[cfg(feature = "vp_p05")]
    fn symbol_token(b: u8) -> Option<T> { SYMBOLS.contains(&b).then(|| T::Sym(b)) }
    #[cfg(not(feature = "vp_p05"))]
    fn word_token(w: &[u8]) -> T { match run(w, b"") { R::Ok(mut v) if v.len() == 1 => v.remove(0), x => panic!("C[lex]: the word {:?} reads as {x:?}", String::from_utf8_lossy(w)) } }
    #[cfg(not(feature = "vp_p05"))]
    fn symbol_token(b: u8) -> Option<T> { match run(&[b], b"") { R::Ok(mut v) if v.len() == 1 => Some(v.remove(0)), _ => None } }
    fn reference(q: &[u8], p: &[u8]) -> R {
        let (mut i, mut c) = (0, 0);
        let mut out = vec![];
        while i < q.len() {
            let b = q[i];
            if b.is_ascii_alphabetic() || b == b'_' {
                let s = i;
                while i < q.len() && (q[i].is_ascii_alphanumeric() || q[i] == b'_') { i += 1 }
                let w = &q[s..i];
                out.push(word_token(w));
            } else if b == b'?' && c < p.len() {
                i += 1;
                match param(p, &mut c) { Ok(t) => out.push(t), Err(any) => return if any { R::Any } else { R::Err } }
            } else if matches!(b, b' ' | b'\t' | b'\n') { i += 1 }
            else { match symbol_token(b) { Some(t) => { out.push(t); i += 1 } None => return R::Err } }
        }
        R::Ok(out)
    }
    fn run(q: &[u8], p: &[u8]) -> R {
        match SecureLexer::new_with_segments(q, p).lex() { Ok(t) => R::Ok(t.iter().map(conv).collect()), Err(_) => R::Err }
    }
    fn word(g: &mut Gen, q: &mut Vec<u8>) {
        match g.u8() % 8 {
            0..=2 => { let k = kw_at(g.range(0, 61)); for b in k.bytes() { q.push(if g.u8() % 3 == 0 { b - 32 } else { b }) } }
            3 => { let k = kw_at(g.range(0, 61)); let k = k.as_bytes(); let cut = g.range(0, k.len()); q.extend(&k[..cut]); q.push(*g.pick(b"_x0aeiouZ")); q.extend(&k[cut..]) }
            4 => { let k = kw_at(g.range(0, 61)); let mut k = k.as_bytes().to_vec(); let n = k.len() - 1; let p = g.range(0, n); k[p] = *g.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ_019"); q.extend(k) }
            5 => q.extend(*g.pick(&[&b"true"[..], b"FALSE", b"False", b"tRue", b"truee", b"_", b"nul", b"nulll"])),
            _ => { let n = g.range(1, 14); for _ in 0..n { q.push(*g.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")) } }
        }
    }
    fn text(g: &mut Gen, holes: &mut usize) -> Vec<u8> {
        let mut q = vec![];
        let n = g.range(0, 10);
        for _ in 0..n {
            match g.u8() % 9 {
                0..=2 => word(g, &mut q),
                3..=5 => { q.push(b'?'); *holes += 1 }
                6 => q.push(*g.pick(SYMBOLS)),
                7 => q.extend(*g.pick(&[&b" "[..], b"\t", b"\n", b"  \n\t "])),
                _ => if g.u8() % 8 == 0 { q.push(g.u8()) } else { q.push(b' ') },
            }
            if g.u8() % 3 != 0 { q.push(b' ') }
        }
        q
    }
    fn value(g: &mut Gen) -> (Vec<u8>, T) {
        match g.u8() % 8 {
            0 => (vec![0], T::Kw("null".into())),
            1 => { let b = g.bool(); (vec![1, b as u8], T::Bool(b)) }
            2 => { let v = g.u64(); (format!("\x02{v}\n").into_bytes(), T::U(v)) }
            3 => { let v = g.i64(); (format!("\x03{v}\n").into_bytes(), T::S(v)) }
            4 => { let v = f64::from_bits(g.u64()); if v.is_nan() { return (b"\x040.5\n".to_vec(), T::F(0.5f64.to_bits())) } (format!("\x04{v}\n").into_bytes(), T::F(v.to_bits())) }
            5 | 6 => { let b = g.bytes(16); let mut o = format!("\x05{}\n", b.len()).into_bytes(); o.extend(&b); (o, T::Bin(b)) }
            _ => { let n = g.range(0, 8); let s: String = (0..n).map(|_| *g.pick(&['?', '\n', '\'', '"', 'x', ';', '\0', 'é', '😃', '\u{7f}', '-', '1'])).collect(); (format!("\x06{}\n{s}", s.len()).into_bytes(), T::Str(s.into_bytes())) }
        }
    }
    /// the n-th placeholder is the n-th parameter, verbatim; all other tokens are those of the text alone
    pub fn params(g: &mut Gen) {
        let mut holes = 0;
        let q = text(g, &mut holes);
        let extra = g.u8() % 4 == 0;
        let n = if extra { g.range(0, holes + 2) } else { holes };
        let (mut p, mut vals) = (vec![], vec![]);
        for _ in 0..n { let (b, t) = value(g); p.extend(b); vals.push(t) }
        g.note(|| format!("query {:?} params {:?}", String::from_utf8_lossy(&q), vals));
        let got = run(&q, &p);
        // by construction
        match (run(&q, b""), &got) {
            (R::Ok(base), R::Ok(t)) => {
                assert!(base.len() == t.len(), "C[params]: the number of tokens depends on the parameters");
                let mut k = 0;
                for (a, b) in base.iter().zip(t) {
                    if *a == T::Sym(b'?') && k < vals.len() { assert!(*b == vals[k], "C[params]: parameter {k} sent as {:?}, decoded as {b:?}", vals[k]); k += 1; }
                    else { assert!(a == b, "C[params]: token of the query text changed by the parameters: {a:?} -> {b:?}") }
                }
                if k > 0 { g.nontrivial() }
            }
            (R::Err, R::Err) => {}
            (a, b) => panic!("C[params]: text alone lexes to {a:?}, with well-formed parameters to {b:?}"),
        }
        let want = reference(&q, &p);
        assert!(want == R::Any || want == got, "C[lex]: expected {want:?}, got {got:?}");
    }
    /// arbitrary / damaged parameter bytes
    pub fn damaged(g: &mut Gen) {
        let mut holes = 0;
        let mut q = text(g, &mut holes);
        if holes == 0 { q.extend(b" ? ?"); holes = 2 }
        let mut p = vec![];
        for _ in 0..holes { if g.u8() % 4 == 0 { p.push(g.u8() % 9); let n = g.range(0, 8); for _ in 0..n { p.push(*g.pick(b"0123456789-+.eE\n\n\0\x01\xffa ")) } } else { p.extend(value(g).0) } }
        for _ in 0..g.range(0, 3) {
            if p.is_empty() { break }
            let n = p.len() - 1;
            let at = g.range(0, n);
            match g.u8() % 5 { 0 => p.truncate(at), 1 => p[at] = g.u8(), 2 => { p.remove(at); } 3 => p.insert(at, *g.pick(b"0123456789-\n\0\xff")), _ => p[at] = *g.pick(b"0123456789-+\n\0\x01\x02\x03\x04\x05\x06\x07\x08\xff") }
        }
        g.note(|| format!("query {:?} parameter bytes {:?}", String::from_utf8_lossy(&q), String::from_utf8_lossy(&p)));
        let (want, got) = (reference(&q, &p), run(&q, &p));
        assert!(want == R::Any || want == got, "C[lex]: expected {want:?}, got {got:?}");
        g.nontrivial();
    }
    /// words and symbols without parameters
    pub fn words(g: &mut Gen) {
        let mut q = vec![];
        let n = g.range(1, 5);
        for _ in 0..n { word(g, &mut q); q.push(*g.pick(b"  \n\t+-*/.,;(){}")) }
        if g.u8() % 16 == 0 { q.push(g.u8()) }
        g.note(|| format!("query {:?}", String::from_utf8_lossy(&q)));
        let (want, got) = (reference(&q, b""), run(&q, b""));
        assert!(want == got, "C[words]: expected {want:?}, got {got:?}");
        g.nontrivial();
    }
    /// all 62 keywords in all letter cases, and all words of one to three letters
    pub fn all_keywords(_g: &mut Gen) {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {});
        for i in 0..62 {
            let kw = kw_at(i).as_bytes();
            for case in 0..1u32 << kw.len() {
                let w: Vec<u8> = kw.iter().enumerate().map(|(j, b)| if case >> j & 1 == 1 { b - 32 } else { *b }).collect();
                let ok = match Keyword::get(&w) { Some(Keyword::Statement(s)) => i < 12 && s as usize == i, Some(Keyword::Misc(m)) => i >= 12 && m as usize == i - 12, None => false };
                assert!(ok, "C[keyword]: {:?} is not recognised as {:?}", String::from_utf8_lossy(&w), kw_at(i));
            }
        }
        _g.nontrivial();
    }
}
#[cfg(not(kani))]
pub use lexing::*;
#[cfg(feature = "vp_p05")]
vp_native!(n_symbols, symbols, 2, 3000);
#[cfg(feature = "vp_p05")]
vp_native!(n_keyword_sound, keyword_sound, 16, 20000);
#[cfg(feature = "vp_p05")]
vp_native!(n_keyword_long, keyword_long, 40, 20000);
#[cfg(feature = "vp_p05")]
vp_native!(n_keyword_complete, keyword_complete, 8, 20000);
#[cfg(feature = "vp_p04")]
vp_native!(n_lit_scalars, lit_scalars, 30, 2000);
#[cfg(feature = "vp_p04")]
vp_native!(n_lit_bytes, lit_bytes, 8, 2000);
vp_native!(n_std_word, std_word, 1, 500);
vp_native!(n_scan_word, scan_word, 10, 5000);
#[cfg(feature = "vp_p05")]
vp_native!(n_words, words, 96, 20000);
#[cfg(feature = "vp_p05")]
vp_native!(n_all_keywords, all_keywords, 1, 1);
#[cfg(feature = "vp_p04")]
vp_native!(n_params, params, 160, 20000);
#[cfg(feature = "vp_p04")]
vp_native!(n_damaged, damaged, 160, 20000);

#[cfg(kani)]
mod k {
    use super::*;
    #[kani::proof] fn k_std_word() { std_word(&mut Gen) }
    #[kani::proof] #[kani::unwind(9)] fn kb_scan_word() { scan_word(&mut Gen) }
    #[cfg(feature = "vp_p04")] #[kani::proof] #[kani::unwind(5)] fn k_lit_scalars() { lit_scalars(&mut Gen) }
    #[cfg(feature = "vp_p04")] #[kani::proof] #[kani::unwind(6)] fn kb_lit_bytes() { lit_bytes(&mut Gen) }
    #[cfg(feature = "vp_p05")] #[kani::proof] #[kani::unwind(34)] fn k_symbols() { symbols(&mut Gen) }
    #[cfg(feature = "vp_p05")] #[kani::proof] #[kani::unwind(14)] fn k_keyword_sound() { keyword_sound(&mut Gen) }
    #[cfg(feature = "vp_p05")] #[kani::proof] #[kani::unwind(34)] fn kbt_keyword_long() { keyword_long(&mut Gen) }
    #[cfg(feature = "vp_p05")] #[kani::proof] #[kani::unwind(14)] fn k_keyword_complete() { keyword_complete(&mut Gen) }
}
