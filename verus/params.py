"""P04: the secure lexer: query text and parameters (ql/lex/mod.rs, mem/scanner.rs)

Substitutions stated here (R6 in the evidence):
 * the raw-pointer slice of an identifier (`from_raw_parts(start, end - start)`) becomes `vp_between(buffer, start, end)` on cursor positions;
 * `x.into()` of `push_token` becomes `x.vp_into()` (the conversions are generated by the macro direct_from!, their contract is assumed);
 * `str::from_utf8(b).map(FromStr::from_str)` becomes `vp_parse_float(b)`, `Option::map(str::from_utf8)` becomes `vp_opt_utf8`: both uninterpreted;
 * a local variable called `int` (a type name in Verus) is renamed;
 * `SCAN_PARAM[i](s)` becomes `match i { 0 => SCAN_PARAM_0(s), .. }`, one arm per closure of the table (R8 lifts the closures themselves).
"""
include("netcommon")
LX = "server/src/engine/ql/lex/mod.rs"
RW = "server/src/engine/ql/lex/raw.rs"
SPEC4 = r'''
pub enum QueryError { LexInvalidInput, LexUnexpectedByte }
pub type QueryResult<T> = Result<T, QueryError>;
pub type Slice<'a> = &'a [u8];
// ---- keywords and symbols. The tables are decided by P05 (Kani, complete); here: any function of the bytes
#[derive(Clone, Copy)] pub struct Keyword { k: u8 }
#[derive(Clone, Copy)] pub struct Symbol { k: u8 }
pub uninterp spec fn kw_of(w: Seq<u8>) -> Option<Keyword>;
pub uninterp spec fn sym_of(b: u8) -> Option<Symbol>;
pub uninterp spec fn kw_null() -> Keyword;
impl Keyword { #[verifier::external_body] pub fn get(k: &[u8]) -> (r: Option<Self>) ensures r == kw_of(k@) { unimplemented!() } }
impl Symbol { #[verifier::external_body] pub fn get(k: u8) -> (r: Option<Self>) ensures r == sym_of(k) { unimplemented!() } }
#[verifier::external_body] fn vp_token_null<'a>() -> (r: Token<'a>) ensures r == Token::<'a>::Keyword(kw_null()) { unimplemented!() }
pub uninterp spec fn same_letters(a: Seq<u8>, b: Seq<u8>) -> bool;
#[verifier::external_body] fn vp_eq_ignore_case(a: &[u8], b: &[u8]) -> (r: bool) ensures r == same_letters(a@, b@) { a.eq_ignore_ascii_case(b) }
// ---- identifiers and literals
#[derive(Clone, Copy)] pub struct Ident<'a>(pub &'a [u8]);
impl<'a> Ident<'a> { pub unsafe fn new(v: &'a [u8]) -> (r: Self) ensures r.0@ == v@ { Self(v) } }
pub enum LitV { Bool(bool), U(u64), S(i64), F(f64), Bin(Seq<u8>), Str(Seq<u8>) }
// TRUSTED: the literal representation (tagged words); Kani harness k_lit checks it in place
#[verifier::external_body] pub struct Lit<'a> { p: std::marker::PhantomData<&'a [u8]> }
impl<'a> Lit<'a> {
    pub uninterp spec fn v(&self) -> LitV;
    #[verifier::external_body] pub fn new_bool(b: bool) -> (r: Self) ensures r.v() == LitV::Bool(b) { unimplemented!() }
    #[verifier::external_body] pub fn new_uint(b: u64) -> (r: Self) ensures r.v() == LitV::U(b) { unimplemented!() }
    #[verifier::external_body] pub fn new_sint(b: i64) -> (r: Self) ensures r.v() == LitV::S(b) { unimplemented!() }
    #[verifier::external_body] pub fn new_float(b: f64) -> (r: Self) ensures r.v() == LitV::F(b) { unimplemented!() }
    #[verifier::external_body] pub fn new_bin(b: &'a [u8]) -> (r: Self) ensures r.v() == LitV::Bin(b@) { unimplemented!() }
    #[verifier::external_body] pub fn new_string(b: String) -> (r: Self) ensures r.v() == LitV::Str(utf8(b@)) { unimplemented!() }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
#[verifier::external_body] fn vp_to_owned(a: &str) -> (r: String) ensures r@ == a@ { a.into() }
#[verifier::external_body] fn vp_opt_utf8<'a>(b: Option<&'a [u8]>) -> (r: Option<Result<&'a str, ()>>)
    ensures b is None <==> r is None, b is Some ==> (r->0 is Ok <==> is_utf8(b->0@)), b is Some && r->0 is Ok ==> utf8(r->0->Ok_0@) == b->0@ { unimplemented!() }
/// the number that this text denotes, if any (UTF-8 decoding and f64::from_str of std)
pub uninterp spec fn float_of(s: Seq<u8>) -> Option<f64>;
#[verifier::external_body] fn vp_parse_float(b: &[u8], i: usize, j: usize) -> (r: Result<Result<f64, ()>, ()>)
    requires i <= j <= b@.len() ensures (match r { Ok(Ok(f)) => float_of(b@.subrange(i as int, j as int)) == Some(f), _ => float_of(b@.subrange(i as int, j as int)) is None }) { unimplemented!() }
#[verifier::external_body] fn vp_between<'a>(b: &'a [u8], i: usize, j: usize) -> (r: &'a [u8])
    requires i <= j <= b@.len() ensures r@ == b@.subrange(i as int, j as int) { unimplemented!() }
fn vp_min_u8(a: u8, b: u8) -> (r: u8) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
fn vp_unreachable() requires false { }
// discharged by Kani over all u8 (harness std_word)
pub assume_specification[ u8::is_ascii_alphabetic ](b: &u8) -> (r: bool) ensures r == letter(*b);
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (letter(*b) || is_digit(*b));
pub open spec fn letter(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn word_start(b: u8) -> bool { letter(b) || b == 95 }
pub open spec fn word_char(b: u8) -> bool { letter(b) || is_digit(b) || b == 95 }
pub open spec fn blank(b: u8) -> bool { b == 32 || b == 10 || b == 9 }
pub trait VpInto<'a>: Sized { spec fn tok(self) -> Token<'a>; fn vp_into(self) -> (r: Token<'a>) ensures r == self.tok(); }
impl<'a> VpInto<'a> for Token<'a> { open spec fn tok(self) -> Token<'a> { self } fn vp_into(self) -> (r: Token<'a>) { self } }
impl<'a> VpInto<'a> for Keyword { open spec fn tok(self) -> Token<'a> { Token::Keyword(self) } fn vp_into(self) -> (r: Token<'a>) { Token::Keyword(self) } }
impl<'a> VpInto<'a> for Symbol { open spec fn tok(self) -> Token<'a> { Token::Symbol(self) } fn vp_into(self) -> (r: Token<'a>) { Token::Symbol(self) } }
impl<'a> VpInto<'a> for Lit<'a> { open spec fn tok(self) -> Token<'a> { Token::Lit(self) } fn vp_into(self) -> (r: Token<'a>) { Token::Lit(self) } }

// ---- what a token says
pub enum TokV { Sym(Symbol), Kw(Keyword), Word(Seq<u8>), Lit(LitV) }
impl<'a> Token<'a> { pub open spec fn v(&self) -> TokV { match *self { Token::Symbol(s) => TokV::Sym(s), Token::Keyword(k) => TokV::Kw(k), Token::Ident(i) => TokV::Word(i.0@), Token::Lit(l) => TokV::Lit(l.v()) } } }
pub open spec fn views(t: Seq<Token>) -> Seq<TokV> { t.map_values(|x: Token| x.v()) }
broadcast proof fn views_push(t: Seq<Token>, x: Token)
    ensures #[trigger] views(t.push(x)) == views(t).push(x.v())
{ assert(views(t.push(x)) =~= views(t).push(x.v())); }

// ---- the text: pieces depend on the text alone
pub enum Piece { Word(int, int), Sym(u8), Hole }
pub open spec fn word_end(q: Seq<u8>, i: int) -> int decreases q.len() - i { if 0 <= i < q.len() && word_char(q[i]) { word_end(q, i + 1) } else { i } }
pub open spec fn blank_end(q: Seq<u8>, i: int) -> int decreases q.len() - i { if 0 <= i < q.len() && blank(q[i]) { blank_end(q, i + 1) } else { i } }
pub open spec fn after(q: Seq<u8>, i: int) -> int { if word_start(q[i]) { word_end(q, i) } else { i + 1 } }
pub open spec fn piece(q: Seq<u8>, i: int) -> Piece { if word_start(q[i]) { Piece::Word(i, word_end(q, i)) } else if q[i] == 63 { Piece::Hole } else { Piece::Sym(q[i]) } }
pub open spec fn pieces(q: Seq<u8>, i: int) -> Seq<Piece> decreases q.len() - i {
    if i < 0 || i >= q.len() { Seq::empty() }
    else if blank(q[i]) { pieces(q, i + 1) }
    else if i < after(q, i) <= q.len() { seq![piece(q, i)] + pieces(q, after(q, i)) }
    else { Seq::empty() }
}
proof fn word_end_grows(q: Seq<u8>, i: int)
    requires 0 <= i <= q.len() ensures i <= word_end(q, i) <= q.len() decreases q.len() - i
{ if i < q.len() && word_char(q[i]) { word_end_grows(q, i + 1); } }
proof fn blanks_skipped(q: Seq<u8>, i: int)
    requires 0 <= i <= q.len() ensures i <= blank_end(q, i) <= q.len(), pieces(q, i) == pieces(q, blank_end(q, i)) decreases q.len() - i
{ if i < q.len() && blank(q[i]) { blanks_skipped(q, i + 1); } }

// ---- the parameters
pub open spec fn lf(p: Seq<u8>, i: int) -> int decreases p.len() - i { if 0 <= i < p.len() && p[i] != 10 { lf(p, i + 1) } else { i } }
proof fn lf_bounds(p: Seq<u8>, i: int)
    requires 0 <= i <= p.len() ensures i <= lf(p, i) <= p.len(), lf(p, i) < p.len() ==> p[lf(p, i)] == 10, forall|x: int| i <= x < lf(p, i) ==> #[trigger] p[x] != 10 decreases p.len() - i
{ if i < p.len() && p[i] != 10 { lf_bounds(p, i + 1); } }
proof fn lf_past(p: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= p.len(), forall|x: int| i <= x < j ==> #[trigger] p[x] != 10 ensures lf(p, i) == lf(p, j) decreases j - i
{ if i < j { assert(p[i] != 10); lf_past(p, i + 1, j); } }
pub open spec fn uint_at(p: Seq<u8>, i: int) -> Option<(u64, int)> {
    let k = lf(p, i);
    if k < p.len() && digits(p, i, k) && num(p, 0, i, k) <= M() { Some((num(p, 0, i, k) as u64, k + 1)) } else { None }
}
proof fn uint_yes(p: Seq<u8>, i: int, k: int)
    requires int_at(p, i, k) ensures lf(p, i) == k, uint_at(p, i) == Some((num(p, 0, i, k) as u64, k + 1)), 0 <= num(p, 0, i, k) <= M()
{ assert forall|x: int| i <= x < k implies #[trigger] p[x] != 10 by { assert(is_digit(p[x])); } lf_past(p, i, k); num_mono(p, 0, i, i, k); }
proof fn uint_no(p: Seq<u8>, i: int)
    requires 0 <= i <= p.len(), forall|k: int| !int_at(p, i, k) ensures uint_at(p, i) is None
{ lf_bounds(p, i); assert(!int_at(p, i, lf(p, i))); }
pub open spec fn sint_start(p: Seq<u8>, i: int) -> int { if i < p.len() && p[i] == 45 { i + 1 } else { i } }
pub open spec fn sint_val(p: Seq<u8>, i: int, j: int) -> int { let s = sint_start(p, i); if s > i { -num(p, 0, s, j) } else { num(p, 0, s, j) } }
pub open spec fn sint_at(p: Seq<u8>, i: int) -> Option<(i64, int)> {
    let s = sint_start(p, i);
    let k = lf(p, s);
    if s < k < p.len() && digits(p, s, k) && -0x8000_0000_0000_0000 <= sint_val(p, i, k) <= 0x7fff_ffff_ffff_ffff { Some((sint_val(p, i, k) as i64, k + 1)) } else { None }
}
/// the digits up to j already leave the range, or there is something else before the line ends
pub open spec fn sint_bad(p: Seq<u8>, i: int) -> bool {
    exists|j: int| #![auto] sint_start(p, i) <= j < p.len() && digits(p, sint_start(p, i), j) && p[j] != 10 && (!is_digit(p[j]) || !(-0x8000_0000_0000_0000 <= sint_val(p, i, j + 1) <= 0x7fff_ffff_ffff_ffff))
}
proof fn sint_bad_final(p: Seq<u8>, i: int)
    requires 0 <= i < p.len(), sint_bad(p, i) ensures sint_at(p, i) is None
{
    let s = sint_start(p, i);
    let j = choose|j: int| #![auto] s <= j < p.len() && digits(p, s, j) && p[j] != 10 && (!is_digit(p[j]) || !(-0x8000_0000_0000_0000 <= sint_val(p, i, j + 1) <= 0x7fff_ffff_ffff_ffff));
    assert forall|x: int| s <= x < j + 1 implies #[trigger] p[x] != 10 by { if x < j { assert(is_digit(p[x])); } }
    lf_past(p, s, j + 1); lf_bounds(p, j + 1);
    let k = lf(p, s);
    if k < p.len() && digits(p, s, k) { assert(is_digit(p[j])); num_mono(p, 0, s, j + 1, k); }
}
/// what a parameter says: null is a keyword, everything else a literal
pub enum PV { Null, Lit(LitV) }
pub open spec fn pv_tok(v: PV) -> TokV { match v { PV::Null => TokV::Kw(kw_null()), PV::Lit(l) => TokV::Lit(l) } }
/// bytes a parameter of this type needs at least after its type byte
pub open spec fn room(t: u8) -> int { if t == 0 { 0 } else if t == 1 { 1 } else { 2 } }
/// the parameter that starts at c, and where it ends
pub open spec fn param(p: Seq<u8>, c: int) -> Option<(PV, int)> {
    if !(0 <= c < p.len()) || p[c] > 6 || p.len() - (c + 1) < room(p[c]) { None }
    else if p[c] == 0 { Some((PV::Null, c + 1)) }
    else if p[c] == 1 { if p[c + 1] <= 1 { Some((PV::Lit(LitV::Bool(p[c + 1] == 1)), c + 2)) } else { None } }
    else if p[c] == 2 { match uint_at(p, c + 1) { Some((v, e)) => Some((PV::Lit(LitV::U(v)), e)), None => None } }
    else if p[c] == 3 { match sint_at(p, c + 1) { Some((v, e)) => Some((PV::Lit(LitV::S(v)), e)), None => None } }
    else if p[c] == 4 { let k = lf(p, c + 1); if k >= p.len() { None } else { match float_of(p.subrange(c + 1, k)) { Some(f) => Some((PV::Lit(LitV::F(f)), k + 1)), None => None } } }
    else { match uint_at(p, c + 1) {
        Some((n, j)) => if p.len() - j < n { None } else { let b = p.subrange(j, j + n);
            if p[c] == 5 { Some((PV::Lit(LitV::Bin(b)), j + n)) } else if is_utf8(b) { Some((PV::Lit(LitV::Str(b)), j + n)) } else { None } },
        None => None } }
}

// ---- text and parameters together
pub open spec fn word_tok(w: Seq<u8>) -> TokV {
    match kw_of(w) { Some(k) => TokV::Kw(k), None => if same_letters(w, seq![116u8, 114, 117, 101]) { TokV::Lit(LitV::Bool(true)) } else if same_letters(w, seq![102u8, 97, 108, 115, 101]) { TokV::Lit(LitV::Bool(false)) } else { TokV::Word(w) } }
}
pub open spec fn sym_tok(s: (Seq<TokV>, int), b: u8) -> Option<(Seq<TokV>, int)> { match sym_of(b) { Some(x) => Some((s.0.push(TokV::Sym(x)), s.1)), None => None } }
pub open spec fn step(q: Seq<u8>, p: Seq<u8>, s: (Seq<TokV>, int), x: Piece) -> Option<(Seq<TokV>, int)> {
    match x {
        Piece::Word(i, j) => Some((s.0.push(word_tok(q.subrange(i, j))), s.1)),
        Piece::Sym(b) => sym_tok(s, b),
        Piece::Hole => if s.1 >= p.len() { sym_tok(s, 63) } else { match param(p, s.1) { Some((v, c)) => Some((s.0.push(pv_tok(v)), c)), None => None } },
    }
}
/// the tokens of these pieces with parameters p, and how many parameter bytes they use
pub open spec fn render(q: Seq<u8>, p: Seq<u8>, d: Seq<Piece>) -> Option<(Seq<TokV>, int)> decreases d.len() {
    if d.len() == 0 { Some((Seq::empty(), 0)) } else { match render(q, p, d.drop_last()) { Some(s) => step(q, p, s, d.last()), None => None } }
}
proof fn render_push(q: Seq<u8>, p: Seq<u8>, d: Seq<Piece>, x: Piece)
    ensures render(q, p, d.push(x)) == (match render(q, p, d) { Some(s) => step(q, p, s, x), None => None })
{ assert(d.push(x).drop_last() =~= d); }
proof fn render_none(q: Seq<u8>, p: Seq<u8>, d: Seq<Piece>, e: Seq<Piece>)
    requires render(q, p, d) is None ensures render(q, p, d + e) is None decreases e.len()
{ if e.len() == 0 { assert(d + e =~= d); } else { render_none(q, p, d, e.drop_last()); assert((d + e).drop_last() =~= d + e.drop_last()); } }
/// the property: each token is that of its piece; a piece of text that is not a placeholder yields the same token whatever the
/// parameters are, and the placeholders take the parameters in their order, each where the one before ended
pub open spec fn lexed(q: Seq<u8>, p: Seq<u8>) -> Option<(Seq<TokV>, int)> { render(q, p, pieces(q, 0)) }
/// lemma: the tokens of the text itself do not depend on the parameters, and there is exactly one token per piece
proof fn no_injection(q: Seq<u8>, p1: Seq<u8>, p2: Seq<u8>, d: Seq<Piece>, k: int)
    requires render(q, p1, d) is Some, render(q, p2, d) is Some, 0 <= k < d.len(), !(d[k] is Hole)
    ensures toks(render(q, p1, d)).len() == d.len(), toks(render(q, p2, d)).len() == d.len(), toks(render(q, p1, d))[k] == toks(render(q, p2, d))[k]
    decreases d.len()
{
    let e = d.drop_last();
    render_len(q, p1, d); render_len(q, p2, d); render_len(q, p1, e); render_len(q, p2, e);
    if k < e.len() { assert(e[k] == d[k]); no_injection(q, p1, p2, e, k); }
}
proof fn render_len(q: Seq<u8>, p: Seq<u8>, d: Seq<Piece>)
    requires render(q, p, d) is Some ensures toks(render(q, p, d)).len() == d.len() decreases d.len()
{ if d.len() > 0 { render_len(q, p, d.drop_last()); } }
pub open spec fn toks(o: Option<(Seq<TokV>, int)>) -> Seq<TokV> { match o { Some((t, _)) => t, None => Seq::empty() } }
pub open spec fn lexer_ok(l: Lexer, d: Seq<Piece>, p: Seq<u8>, c: int) -> bool {
    let q = l.token_buffer.buf();
    match l.last_error { None => render(q, p, d) == Some((views(l.tokens@), c)), Some(_) => render(q, p, d) is None }
}
'''
LQ = "final(self).token_buffer == old(self).token_buffer"
def h(k, extra=""):
    return """
    requires old({0}).param_buffer.wf(), old({0}).l.last_error is None, 1 <= old({0}).param_buffer.cur(), old({0}).param_buffer.buf()[old({0}).param_buffer.cur() - 1] == %d,
        old({0}).param_buffer.buf().len() - old({0}).param_buffer.cur() >= room(%d)
    ensures final({0}).l.token_buffer == old({0}).l.token_buffer, final({0}).param_buffer.wf(), final({0}).param_buffer.buf() == old({0}).param_buffer.buf(),
        match param(old({0}).param_buffer.buf(), old({0}).param_buffer.cur() - 1) {{
            Some((v, c)) => final({0}).l.last_error is None && final({0}).param_buffer.cur() == c && views(final({0}).l.tokens@) == views(old({0}).l.tokens@).push(pv_tok(v)),
            None => final({0}).l.last_error is Some,
        }}""" % (k, k)
VARS = None
def handler(k, **kw):
    # the parameter's name is whatever the source calls it
    src, f = find(LX, "SCAN_PARAM::%d" % k, ("fn",))
    v = f["closure"]["params"][0]
    kw = {a: (b.replace("$s", v) if isinstance(b, str) else {x: y.replace("$s", v) for x, y in b.items()} if isinstance(b, dict) else [(x, y.replace("$s", v)) for x, y in b] if isinstance(b, list) else b) for a, b in kw.items()}
    hi = kw.pop("hints", {}); hi["start"] = "broadcast use views_push;" + hi.get("start", "")
    return Fn(LX, "SCAN_PARAM::%d" % k, params=["&mut SecureLexer"], of=8, spec=kw.pop("spec", h(k)).format(v), hints=hi, **kw)
try:
    NSCAN = find(LX, "SCAN_PARAM::0", ("fn",))[1]["closure"]["of"]
except Exception:
    NSCAN = 8
SUBS = [(r"\bint\b", "vp_int"), (r"\bSCAN_PARAM\.len\(\)", "%dusize" % NSCAN)]
UINT = """requires old(self).wf(), old(self).buf().len() > 0 %s
    ensures """ + KEEP + """, match r {
        Some(v) => uint_at(old(self).buf(), old(self).cur()) == Some((v, final(self).cur())),
        None => uint_at(old(self).buf(), old(self).cur()) is None && final(self).cur() == old(self).cur(),
    }"""
ITEMS = [
 Ty(RW, "Token", sub=[(r"Ident\(Ident<'a>\),\s*#\[cfg\(test\)\]\s*(///[^\n]*\n\s*)*IgnorableComma,", "Ident(Ident<'a>),")]), Ty(LX, "Lexer"), Ty(LX, "SecureLexer"), Raw(SPEC4)] + SCANNER + [
 Fn(SC, "Scanner::deref_cursor", external="raw pointer read; Kani harness leaf_next_byte", spec="requires self.wf(), self.cur() < self.buf().len() ensures r == self.buf()[self.cur()]"),
 Fn(SC, "Scanner::rounded_cursor_value", spec="requires self.wf(), self.buf().len() > 0 ensures r == self.buf()[if self.cur() < self.buf().len() { self.cur() } else { self.buf().len() - 1 }]"),
 Fn(SC, "Scanner::rounded_cursor_not_eof_equals", header="impl<'a> Scanner<'a, u8>", sub=[(r"where\s+T: PartialEq,", ""), (r"\bT\b", "u8"), (r"v_t\.eq\(v\)", "v_t == *v")],
    spec="requires self.wf(), self.buf().len() > 0 ensures r == (self.cur() < self.buf().len() && self.buf()[self.cur()] == v_t)", closures={0: "|$0: &u8| -> (r: bool) ensures r == (v_t == *$0)"}),
 Fn(SC, "Scanner::trim_ahead", spec="""requires old(self).wf(), old(self).buf().len() > 0, forall|b: u8| f.requires((b,)), forall|b: u8, r: bool| f.ensures((b,), r) ==> r == blank(b)
    ensures %s, final(self).cur() == blank_end(old(self).buf(), old(self).cur())""" % KEEP,
    closures={0: "|$0: &u8| -> (r: bool) ensures r == blank(*$0)"},
    loops={0: """invariant self.wf(), self.buf() == old(self).buf(), self.buf().len() > 0, 0 <= self.cur(), blank_end(self.buf(), self.cur()) == blank_end(old(self).buf(), old(self).cur()),
        forall|b: u8| f.requires((b,)), forall|b: u8, r: bool| f.ensures((b,), r) ==> r == blank(b)
      decreases self.buf().len() - self.cur()"""}),
 Fn(SC, "Scanner::try_next_ascii_u64_lf_separated_or", spec=UINT % ", RESTORE_CURSOR", closures={0: "|$0: &u8| -> (r: bool) ensures r == (*$0 == 10)"},
    hints={("stmt", 4): """proof { let b = old(self).buf(); let i = old(self).cur(); let c = self.cur();
        if okay { if lf { uint_yes(b, i, c); } else { assert forall|k: int| !int_at(b, i, k) by { if int_at(b, i, k) { assert(is_digit(b[k]) || k >= c); } } uint_no(b, i); } }
        else { assert(ext(b, b)); assert forall|k: int| !int_at(b, i, k) by { if int_at(b, i, k) { bad_int_final(b, b, i, k); } } uint_no(b, i); } }"""}),
 Fn(SC, "Scanner::try_next_ascii_u64_lf_separated_or_restore_cursor", spec=UINT % ""),
 Fn(SC, "Scanner::try_next_ascii_i64_stop_at", spec="""
    requires old(self).wf(), 0 <= old(self).cur() < old(self).buf().len(), forall|b: u8| stop_if.requires((b,)), forall|b: u8, r: bool| stop_if.ensures((b,), r) ==> r == (b == 10)
    ensures %s, ({ let b = old(self).buf(); let i = old(self).cur(); let s = sint_start(b, i); let c = final(self).cur();
        if r.0 { s < c && digits(b, s, c) && r.1 == sint_val(b, i, c) && (c == b.len() || b[c] == 10) } else { sint_at(b, i) is None } })""" % KEEP,
    closures={0: "|$0: &u8| -> (r: bool) ensures r == (*$0 != 10)"},
    loops={0: """invariant_except_break
            self.wf(), self.buf() == old(self).buf(), 0 <= old(self).cur() < self.buf().len(), sint_start(self.buf(), old(self).cur()) <= self.cur(),
            direction_negative == (sint_start(self.buf(), old(self).cur()) > old(self).cur()),
            okay ==> digits(self.buf(), sint_start(self.buf(), old(self).cur()), self.cur()) && ret == sint_val(self.buf(), old(self).cur(), self.cur()),
            okay && self.cur() == sint_start(self.buf(), old(self).cur()) ==> self.cur() < self.buf().len() && is_digit(self.buf()[self.cur()]),
            !okay ==> sint_at(self.buf(), old(self).cur()) is None,
            forall|b: u8| stop_if.requires((b,)), forall|b: u8, r: bool| stop_if.ensures((b,), r) ==> r == (b == 10),
        ensures
            self.wf(), self.buf() == old(self).buf(),
            okay ==> sint_start(self.buf(), old(self).cur()) < self.cur() && digits(self.buf(), sint_start(self.buf(), old(self).cur()), self.cur()) && ret == sint_val(self.buf(), old(self).cur(), self.cur())
                && (self.cur() == self.buf().len() || self.buf()[self.cur()] == 10),
            !okay ==> sint_at(self.buf(), old(self).cur()) is None,
        decreases self.buf().len() - self.cur()"""},
    hints={("loop", 0, "before"): """proof { let b = self.buf(); let i = old(self).cur(); let s = sint_start(b, i);
            if !okay { lf_bounds(b, s); if s < b.len() && lf(b, s) > s && digits(b, s, lf(b, s)) { assert(is_digit(b[s])); } } }""",
      ("loop", 0, "start"): """proof { let b = self.buf(); let i = old(self).cur(); let s = sint_start(b, i); let c = self.cur(); let x = b[c];
            assert(x & 0x0F == x - 48 || !(48 <= x <= 57)) by (bit_vector);
            assert(x & 0x0F <= 15) by (bit_vector);
            assert(x != 10);
            assert(num(b, 0, s, c + 1) == num(b, 0, s, c) * 10 + (b[c] - 48));
            num_mono(b, 0, s, s, c);
            if !is_digit(x) || !(-0x8000_0000_0000_0000 <= sint_val(b, i, c + 1) <= 0x7fff_ffff_ffff_ffff) { assert(sint_bad(b, i)); sint_bad_final(b, i); }
            assert(digits(b, s, c)); }"""}),
 Fn(SC, "Scanner::try_next_ascii_i64_separated_by", spec="""requires old(self).wf(), 0 <= old(self).cur() < old(self).buf().len(), STOP_BYTE == 10
    ensures %s, ({ let b = old(self).buf(); let i = old(self).cur(); if r.0 { sint_at(b, i) == Some((r.1, final(self).cur())) } else { sint_at(b, i) is None } })""" % KEEP,
    closures={0: "|$0: u8| -> (r: bool) ensures r == ($0 == 10)"},
    hints={("stmt", 2): """proof { let b = old(self).buf(); let i = old(self).cur(); let s = sint_start(b, i); let c = self.cur();
        if okay { assert forall|x: int| s <= x < c implies #[trigger] b[x] != 10 by { assert(is_digit(b[x])); } lf_past(b, s, c); } }"""}),
 # ---- the lexer
 Fn(LX, "Lexer::new", spec="ensures r.token_buffer.buf() == src@, r.token_buffer.cur() == 0, r.token_buffer.wf(), r.tokens@.len() == 0, r.last_error is None"),
 Fn(LX, "Lexer::set_error", spec="ensures %s, final(self).tokens == old(self).tokens, final(self).last_error is Some" % LQ),
 Fn(LX, "Lexer::push_token", sig_sub=[("impl Into<Token<'a>>", "impl VpInto<'a>")], sub=[(r"\bt\.into\(\)", "t.vp_into()")], hints={"start": "broadcast use views_push;"},
    spec="ensures %s, final(self).last_error == old(self).last_error, final(self).tokens@ == old(self).tokens@.push(t.tok()), views(final(self).tokens@) == views(old(self).tokens@).push(t.tok().v())" % LQ),
 Fn(LX, "Lexer::no_error", spec="ensures r == (self.last_error is None)"),
 Fn(LX, "Lexer::scan_ident", sub=[(r"let s = self\.token_buffer\.cursor_ptr\(\);", "let s = self.token_buffer.cursor();"),
      (r"slice::from_raw_parts\(\s*s,\s*self\.token_buffer\.current_buffer\(\)\.as_ptr\(\)\.offset_from\(s\) as usize,\s*\)", "vp_between(self.token_buffer.inner_buffer(), s, self.token_buffer.cursor())")],
    closures={0: "|$0: &u8| -> (r: bool) ensures r == word_char(*$0)"},
    spec="""requires old(self).token_buffer.wf(), old(self).token_buffer.buf().len() > 0
    ensures final(self).token_buffer.wf(), final(self).token_buffer.buf() == old(self).token_buffer.buf(), final(self).tokens == old(self).tokens, final(self).last_error == old(self).last_error,
      final(self).token_buffer.cur() == word_end(old(self).token_buffer.buf(), old(self).token_buffer.cur()), r@ == old(self).token_buffer.buf().subrange(old(self).token_buffer.cur(), final(self).token_buffer.cur())""",
    loops={0: """invariant self.token_buffer.wf(), self.token_buffer.buf() == old(self).token_buffer.buf(), self.token_buffer.buf().len() > 0, self.tokens == old(self).tokens, self.last_error == old(self).last_error,
        s == old(self).token_buffer.cur(), s <= self.token_buffer.cur(), word_end(self.token_buffer.buf(), s as int) == word_end(self.token_buffer.buf(), self.token_buffer.cur())
      decreases self.token_buffer.buf().len() - self.token_buffer.cur()"""}),
 Fn(LX, "Lexer::scan_ident_or_keyword", sub=[(r"\bs\.eq_ignore_ascii_case\(b\"true\"\)", "vp_eq_ignore_case(s, &[116u8, 114, 117, 101])"), (r"\bs\.eq_ignore_ascii_case\(b\"false\"\)", "vp_eq_ignore_case(s, &[102u8, 97, 108, 115, 101])"), (r"\bkw\.into\(\)", "kw.vp_into()")],
    hints={"start": "broadcast use views_push; assert(seq![116u8, 114, 117, 101] =~= [116u8, 114, 117, 101]@); assert(seq![102u8, 97, 108, 115, 101] =~= [102u8, 97, 108, 115, 101]@);"},
    spec="""requires old(self).token_buffer.wf(), old(self).token_buffer.buf().len() > 0
    ensures final(self).token_buffer.wf(), final(self).token_buffer.buf() == old(self).token_buffer.buf(), final(self).last_error == old(self).last_error,
      final(self).token_buffer.cur() == word_end(old(self).token_buffer.buf(), old(self).token_buffer.cur()),
      views(final(self).tokens@) == views(old(self).tokens@).push(word_tok(old(self).token_buffer.buf().subrange(old(self).token_buffer.cur(), final(self).token_buffer.cur())))"""),
 Fn(LX, "Lexer::scan_byte", spec="""requires old(self).token_buffer.wf(), old(self).token_buffer.cur() < old(self).token_buffer.buf().len(), old(self).last_error is None
    ensures final(self).token_buffer.wf(), final(self).token_buffer.buf() == old(self).token_buffer.buf(), match sym_of(byte) {
      Some(s) => final(self).last_error is None && final(self).token_buffer.cur() == old(self).token_buffer.cur() + 1 && views(final(self).tokens@) == views(old(self).tokens@).push(TokV::Sym(s)),
      None => final(self).last_error is Some && final(self).token_buffer.cur() == old(self).token_buffer.cur() }"""),
 Fn(LX, "Lexer::trim_ahead", spec="""requires old(self).token_buffer.wf(), old(self).token_buffer.buf().len() > 0
    ensures final(self).token_buffer.wf(), final(self).token_buffer.buf() == old(self).token_buffer.buf(), final(self).tokens == old(self).tokens, final(self).last_error == old(self).last_error,
      final(self).token_buffer.cur() == blank_end(old(self).token_buffer.buf(), old(self).token_buffer.cur())""", closures={0: "|$0: u8| -> (r: bool) ensures r == blank($0)"}),
 # ---- parameters
 handler(0, sub=[(r"Token!\[null\]", "vp_token_null()")]),
 handler(1), handler(2), handler(3),
 handler(4, sub=[(r"core::str::from_utf8\(&$s\.param_buffer\.inner_buffer\(\)\[start\.\.cursor\]\)\s*\.map\(core::str::FromStr::from_str\)".replace("$s", r"\w+"), "vp_parse_float($s.param_buffer.inner_buffer(), start, cursor)")],
    loops={0: """invariant $s.l == old($s).l, $s.l.last_error is None, $s.param_buffer.wf(), $s.param_buffer.buf() == old($s).param_buffer.buf(), start == old($s).param_buffer.cur(), 1 <= start <= $s.param_buffer.cur(), $s.param_buffer.buf()[start - 1] == 4,
        $s.param_buffer.buf().len() - start >= 2, lf($s.param_buffer.buf(), start as int) == lf($s.param_buffer.buf(), $s.param_buffer.cur())
      decreases $s.param_buffer.buf().len() - $s.param_buffer.cur()"""}, hints={("loop", 0, "start"): "broadcast use views_push;"}),
 handler(5), handler(6, sub=[(r"match \w+\s*\.param_buffer\s*\.try_next_variable_block\(size_of_body as usize\)\s*\.map\(core::str::from_utf8\)", "match vp_opt_utf8($s.param_buffer.try_next_variable_block(size_of_body as usize))"), (r"\bs\.to_owned\(\)", "vp_to_owned(s)")]),
 handler(7, spec="""ensures final({0}).l.token_buffer == old({0}).l.token_buffer, final({0}).param_buffer == old({0}).param_buffer, final({0}).l.last_error is Some"""),
 Const(LX, "SCAN_PARAM_EXPECT"),
 Fn(LX, "SecureLexer::new_with_segments", spec="ensures r.l.token_buffer.buf() == q@, r.l.token_buffer.cur() == 0, r.l.token_buffer.wf(), r.l.tokens@.len() == 0, r.l.last_error is None, r.param_buffer.buf() == p@, r.param_buffer.cur() == 0, r.param_buffer.wf()"),
 Fn(LX, "SecureLexer::lex", spec="""requires self.l.token_buffer.cur() == 0, self.l.token_buffer.wf(), self.l.tokens@.len() == 0, self.l.last_error is None, self.param_buffer.cur() == 0, self.param_buffer.wf()
    ensures match r { Ok(t) => lexed(self.l.token_buffer.buf(), self.param_buffer.buf()) is Some && views(t@) == toks(lexed(self.l.token_buffer.buf(), self.param_buffer.buf())), Err(_) => lexed(self.l.token_buffer.buf(), self.param_buffer.buf()) is None }"""),
 Fn(LX, "SecureLexer::_lex", spec="""requires self.l.token_buffer.cur() == 0, self.l.token_buffer.wf(), self.l.tokens@.len() == 0, self.l.last_error is None, self.param_buffer.cur() == 0, self.param_buffer.wf()
    ensures match r { Ok(t) => lexed(self.l.token_buffer.buf(), self.param_buffer.buf()) is Some && views(t@) == toks(lexed(self.l.token_buffer.buf(), self.param_buffer.buf())), Err(_) => lexed(self.l.token_buffer.buf(), self.param_buffer.buf()) is None }""",
    sub=[(r"target_code\.min\(ecc_code as u8\)", "vp_min_u8(target_code, ecc_code as u8)"), (r"impossible!\(\)", "vp_unreachable()"),
      (r"SCAN_PARAM\[final_target\]\(&mut self\)", "match final_target { " + " ".join("%d => SCAN_PARAM_%d(&mut vp_self)," % (i, i) for i in range(NSCAN)) + " _ => vp_unreachable() }")],
    hints={"start": "let ghost q = self.l.token_buffer.buf(); let ghost p = self.param_buffer.buf(); let ghost mut done: Seq<Piece> = Seq::empty(); proof { assert(views(self.l.tokens@) =~= Seq::<TokV>::empty()); assert(done + pieces(q, 0) =~= pieces(q, 0)); }",
      ("loop", 0, "start"): "proof { assert(forall|x: u8| #[trigger] (x | 0u8) == x) by (bit_vector); assert(forall|x: u8| #[trigger] (0u8 | x) == x) by (bit_vector); } let ghost i0 = vp_self.l.token_buffer.cur(); proof { blanks_skipped(q, i0); blanks_skipped(q, i0 + 1); word_end_grows(q, i0); word_end_grows(q, i0 + 1); assert(word_start(q[i0]) ==> word_char(q[i0])); assert(word_start(q[i0]) ==> word_end(q, i0) == word_end(q, i0 + 1)); assert(blank(q[i0]) ==> blank_end(q, i0) == blank_end(q, i0 + 1)); }",
      ("loop", 0, "end"): """proof {
          if !blank(q[i0]) {
              let x = piece(q, i0);
              render_push(q, p, done, x);
              assert(done + (seq![x] + pieces(q, after(q, i0))) =~= done.push(x) + pieces(q, after(q, i0)));
              if render(q, p, done.push(x)) is None { render_none(q, p, done.push(x), pieces(q, after(q, i0))); }
              done = done.push(x);
          }
      }""",
      ("loop", 0, "after"): "proof { if vp_self.l.last_error is None { assert(done + pieces(q, vp_self.l.token_buffer.cur()) =~= done); } }"},
    loops={0: """invariant vp_self.l.token_buffer.wf(), vp_self.l.token_buffer.buf() == q, vp_self.param_buffer.wf(), vp_self.param_buffer.buf() == p, 0 <= vp_self.l.token_buffer.cur(), 0 <= vp_self.param_buffer.cur(),
        q == self.l.token_buffer.buf(), p == self.param_buffer.buf(),
        vp_self.l.last_error is None ==> done + pieces(q, vp_self.l.token_buffer.cur()) == pieces(q, 0) && render(q, p, done) == Some((views(vp_self.l.tokens@), vp_self.param_buffer.cur())),
        vp_self.l.last_error is Some ==> lexed(q, p) is None
      decreases (if vp_self.l.last_error is None { 1int } else { 0 }), q.len() - vp_self.l.token_buffer.cur()"""}),
]
