//@include shims.vrs
//@include slice_spec.vrs
//@include text_shim.vrs
//@include index_shim.vrs
verus! {
// ---------------------------------------------------------------- positions, once more
pub proof fn off_step(s: Seq<char>, k: int) requires 0 <= k < s.len() ensures off(s, k + 1) == off(s, k) + u8len(s[k]) {}
/// a position within a part of a text is that position within the text, less where the part starts
pub broadcast proof fn off_sub(s: Seq<char>, a: int, b: int, j: int)
    requires 0 <= a <= b <= s.len(), 0 <= j <= b - a
    ensures #[trigger] off(s.subrange(a, b), j) == off(s, a + j) - off(s, a)
    decreases j
{ if j > 0 { off_sub(s, a, b, j - 1); assert(s.subrange(a, b)[j - 1] == s[a + j - 1]); } }
pub broadcast proof fn sub_sub(s: Seq<char>, a: int, b: int, i: int, j: int)
    requires 0 <= a <= b <= s.len(), 0 <= i <= j <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(i, j) == s.subrange(a + i, a + j)
{ assert(s.subrange(a, b).subrange(i, j) =~= s.subrange(a + i, a + j)); }
pub open spec fn ascii(s: Seq<char>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 0x80 }
pub broadcast proof fn off_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), ascii(s, k)
    ensures #[trigger] off(s, k) == k
    decreases k
{ if k > 0 { off_ascii(s, k - 1); } }

/// a part of a part
pub proof fn part_of(t: Seq<char>, lo: int, hi: int, a: int, b: int)
    requires is_off(t, lo), is_off(t, hi), lo <= hi, is_off(t.subrange(at(t, lo), at(t, hi)), a), is_off(t.subrange(at(t, lo), at(t, hi)), b), a <= b
    ensures ({ let s = t.subrange(at(t, lo), at(t, hi));
        &&& 0 <= at(t, lo) <= at(t, hi) <= t.len() && off(t, at(t, lo)) == lo && off(t, at(t, hi)) == hi && off(s, s.len() as int) == hi - lo
        &&& is_off(t, lo + a) && is_off(t, lo + b) && 0 <= at(s, a) <= at(s, b) <= s.len() && off(s, at(s, a)) == a && off(s, at(s, b)) == b && b <= hi - lo
        &&& lo + b <= off(t, t.len() as int)
        &&& t.subrange(at(t, lo + a), at(t, lo + b)) == s.subrange(at(s, a), at(s, b)) }),
{
    let i = at(t, lo); let j = at(t, hi); let s = t.subrange(i, j);
    let k = at(s, a); let m = at(s, b);
    if j < i { off_mono(t, j, i); }
    if m < k { off_mono(s, m, k); }
    off_sub(t, i, j, k); off_sub(t, i, j, m); off_sub(t, i, j, j - i);
    if m < s.len() { off_mono(s, m, s.len() as int); }
    if j < t.len() { off_mono(t, j, t.len() as int); }
    at_off(t, i + k); at_off(t, i + m);
    sub_sub(t, i, j, k, m);
}

// ---------------------------------------------------------------- string literals
pub open spec fn first_at(s: Seq<char>, c: char, q: int) -> bool { 0 <= q < s.len() && s[q] == c && forall|i: int| 0 <= i < q ==> #[trigger] s[i] != c }
pub open spec fn last_at(s: Seq<char>, c: char, q: int) -> bool { 0 <= q < s.len() && s[q] == c && forall|i: int| q < i < s.len() ==> #[trigger] s[i] != c }
/// r, then any number of #, then the quote
pub open spec fn raw_prefix(t: Seq<char>, h: int) -> bool { 0 <= h && h + 1 < t.len() && t[0] == 'r' && t[h + 1] == '"' && forall|i: int| 1 <= i <= h ==> #[trigger] t[i] == '#' }
/// the closing quote: nothing behind it but the # of a raw literal and the suffix, which have no quote
/// a string literal as written: opening and closing quote are two different ones
pub open spec fn lit_ok(t: Seq<char>) -> bool {
    &&& t.len() > 0 && (t[0] == '"' || exists|h: int| raw_prefix(t, h))
    &&& forall|p: int, q: int| #[trigger] first_at(t, '"', p) && #[trigger] last_at(t, '"', q) ==> p < q
}
/// what stands between its quotes
pub open spec fn content(t: Seq<char>, s: Seq<char>) -> bool { forall|p: int, q: int| #[trigger] first_at(t, '"', p) && #[trigger] last_at(t, '"', q) ==> s == t.subrange(p + 1, q) }
pub proof fn quotes(t: Seq<char>)
    requires lit_ok(t)
    ensures t.contains('"'),
        forall|p: int| #[trigger] first_at(t, '"', p) ==> off(t, p) == p && off(t, p + 1) == p + 1 && is_off(t, p + 1),
        forall|p: int, q: int| #[trigger] first_at(t, '"', p) && #[trigger] last_at(t, '"', q) ==> off(t, p + 1) <= off(t, q) <= off(t, t.len() as int) && is_off(t, off(t, q)) && is_off(t, p + 1),
        forall|p: int, q: int| #[trigger] first_at(t, '"', p) && #[trigger] first_at(t, '"', q) ==> p == q,
        forall|p: int, q: int| #[trigger] last_at(t, '"', p) && #[trigger] last_at(t, '"', q) ==> p == q,
{
    if t[0] != '"' { let h = choose|h: int| raw_prefix(t, h); assert(t[h + 1] == '"'); }
    assert forall|p: int| #[trigger] first_at(t, '"', p) implies off(t, p) == p && off(t, p + 1) == p + 1 && is_off(t, p + 1) by { lit_head(t, p); }
    assert forall|p: int, q: int| #[trigger] first_at(t, '"', p) && #[trigger] last_at(t, '"', q) implies off(t, p + 1) <= off(t, q) <= off(t, t.len() as int) && is_off(t, off(t, q)) && is_off(t, p + 1) by {
        lit_head(t, p); off_mono(t, q, t.len() as int); if p + 1 < q { off_mono(t, p + 1, q); } assert(off(t, p + 1) == p + 1);
    }
}
pub proof fn lit_head(t: Seq<char>, p: int) requires lit_ok(t), first_at(t, '"', p) ensures off(t, p) == p, off(t, p + 1) == p + 1
{
    if t[0] != '"' { let h = choose|h: int| raw_prefix(t, h); assert(p == h + 1) by { if p < h + 1 { assert(p == 0 || t[p] == '#'); } } }
    assert(ascii(t, p));
    off_ascii(t, p);
}

// ---------------------------------------------------------------- std and proc_macro, as far as needed
#[verifier::external_body] #[derive(Debug)] pub struct FmtError { x: usize }
/// writing into a String: it is appended to and cannot fail
#[verifier::external_body] pub fn vx_write(to: &mut String, t: VxText) -> (r: Result<(), FmtError>) ensures r is Ok, final(to)@ == old(to)@ + t@ { unimplemented!() }
pub trait VxStr: VxCs {
    fn vx_len(&self) -> (r: usize) ensures r == off(self.cs(), self.cs().len() as int);
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures r is Some <==> self.cs().contains(c), r is Some ==> exists|q: int| #[trigger] first_at(self.cs(), c, q) && r->0 == off(self.cs(), q);
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures r is Some <==> self.cs().contains(c), r is Some ==> exists|q: int| #[trigger] last_at(self.cs(), c, q) && r->0 == off(self.cs(), q);
    fn vx_repeat(&self, n: usize) -> (r: String) ensures self.cs().len() == 1 ==> r@ == pad(Seq::empty(), self.cs()[0], n as int);
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.cs().len() > 0 && self.cs()[0] == c);
    fn vx_chars(&self) -> (r: VxChars) ensures r.s() == self.cs(), r.k() == 0;
}
impl VxStr for str {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars) { unimplemented!() }
}
impl VxStr for String {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars) { unimplemented!() }
}
impl<'a, T: VxStr + ?Sized> VxStr for &'a T {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars) { unimplemented!() }
}
#[verifier::external_body] pub struct VxChars { x: usize }
impl VxChars {
    pub uninterp spec fn s(&self) -> Seq<char>;
    pub uninterp spec fn k(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).s() == old(self).s(), 0 <= old(self).k() < old(self).s().len() ==> r == Some(old(self).s()[old(self).k()]) && final(self).k() == old(self).k() + 1, old(self).k() >= old(self).s().len() ==> r is None && final(self).k() == old(self).k()
    { unimplemented!() }
}
pub trait VxRangeLen { fn vx_len(&self) -> (r: usize); fn vx_clone(&self) -> (r: Self) where Self: Sized; }
impl VxRangeLen for std::ops::Range<usize> {
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r == (if self.start <= self.end { self.end - self.start } else { 0 }) { unimplemented!() }
    #[verifier::external_body] fn vx_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// an argument of `slice`: what RangeBounds tells about it
pub enum VxBound { Included(usize), Excluded(usize), Unbounded }
pub struct VxRange { pub start: VxBound, pub end: VxBound }
impl VxRange {
    pub fn start_bound(&self) -> (r: &VxBound) ensures *r == self.start { &self.start }
    pub fn end_bound(&self) -> (r: &VxBound) ensures *r == self.end { &self.end }
}
/// columns that a text takes when shown (crate unicode-width)
pub uninterp spec fn width(s: Seq<char>) -> nat;
pub struct UnicodeWidthStr {}
impl UnicodeWidthStr { #[verifier::external_body] pub fn width<T: VxStr + ?Sized>(s: &T) -> (r: usize) ensures r == width(s.cs()), r <= 0x7fff_ffff { unimplemented!() } }
pub uninterp spec fn width_cjk(s: Seq<char>) -> nat;
impl UnicodeWidthStr { #[verifier::external_body] pub fn width_cjk<T: VxStr + ?Sized>(s: &T) -> (r: usize) ensures r == width_cjk(s.cs()), r <= 0x7fff_ffff { unimplemented!() } }
pub trait VxWidth { fn width(&self) -> (r: usize); }
impl VxWidth for str { #[verifier::external_body] fn width(&self) -> (r: usize) ensures r == width(self.cs()), r <= 0x7fff_ffff { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { x: usize }
#[verifier::external_body] pub struct Literal { x: usize }
impl Literal {
    pub uninterp spec fn place(&self) -> Span;
    /// where bytes a to b of the token are, if the compiler tells (stable ones do not)
    pub uninterp spec fn part(&self, a: int, b: int) -> Option<Span>;
    #[verifier::external_body] pub fn string(s: &str) -> (r: Literal) { unimplemented!() }
    #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures final(self).place() == s { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.place() { unimplemented!() }
    #[verifier::external_body] pub fn subspan(&self, g: std::ops::Range<usize>) -> (r: Option<Span>) ensures r == self.part(g.start as int, g.end as int) { unimplemented!() }
}
#[verifier::external_body] pub struct TokenStream { x: usize }
impl TokenStream {
    pub uninterp spec fn written(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.written(), off(r@, r@.len() as int) <= usize::MAX { unimplemented!() }
}
/// a string literal of the program
#[verifier::external_body] pub struct LitStr { x: usize }
impl LitStr {
    pub uninterp spec fn written(&self) -> Seq<char>;
    pub uninterp spec fn place(&self) -> Span;
    #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r.written() == self.written(), lit_ok(self.written()) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == self.place() { unimplemented!() }
}
#[verifier::external_body] pub struct Error { x: usize }
impl Error {
    pub uninterp spec fn place(&self) -> Span;
    pub uninterp spec fn msg(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<M: VxShow>(s: Span, m: M) -> (r: Error) ensures r.place() == s, r.msg() == m.shown() { unimplemented!() }
    #[verifier::external_body] pub fn new_spanned<M: VxShow>(l: &Literal, m: M) -> (r: Error) ensures r.place() == l.place(), r.msg() == m.shown() { unimplemented!() }
}
/// n times c behind s
pub open spec fn pad(s: Seq<char>, c: char, n: int) -> Seq<char> decreases n { if n <= 0 { s } else { pad(s, c, n - 1).push(c) } }
pub open spec fn shown(msg: Seq<char>, lit: Seq<char>) -> Seq<char> { msg + seq![':', '\n'] + seq!['A', 't', ' '] + lit + seq!['\n'] }
pub broadcast proof fn pad_rep(m: Seq<char>, c: char, n: int) ensures #[trigger] (m + pad(Seq::empty(), c, n)) == pad(m, c, n) decreases n
{ if n > 0 { pad_rep(m, c, n - 1); assert(m + pad(Seq::empty(), c, n) =~= (m + pad(Seq::empty(), c, n - 1)).push(c)); } else { assert(m + Seq::<char>::empty() =~= m); } }
/// the message, then the literal as written, then a line that underlines s, which starts at character a of it
pub open spec fn drawn(msg: Seq<char>, lit: Seq<char>, a: int, s: Seq<char>) -> Seq<char> {
    pad(pad(shown(msg, lit), ' ', 3int + width(lit.subrange(0, a))), '^', width(s) as int)
}
pub mod code {
use super::*;
use VxBound::*;
broadcast use {off_inj, off_less, at_off, off_sub, sub_sub, pad_rep, off_ascii, add_add, none_add, add_one};
pub type Result<T, E = Error> = std::result::Result<T, E>;

//@item sscanf_macro/src/str_lit.rs struct StrLit pub~=>~ struct~StrLit=>pub~struct~StrLit
//@item sscanf_macro/src/str_lit.rs struct StrLitSlice pub~=>~ struct~StrLitSlice=>pub~struct~StrLitSlice
impl StrLit {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { lit_ok(self.text@) && off(self.text@, self.text@.len() as int) <= usize::MAX }
    pub closed spec fn t(&self) -> Seq<char> { self.text@ }
    pub closed spec fn place(&self) -> Span { self.span_provider.place() }
    pub closed spec fn part(&self, a: int, b: int) -> Option<Span> { self.span_provider.part(a, b) }
    pub open spec fn raw(&self) -> bool { self.t().len() > 0 && self.t()[0] == 'r' }
}
impl<'a> StrLitSlice<'a> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { is_off(self.src.t(), self.range.start as int) && is_off(self.src.t(), self.range.end as int) && self.range.start <= self.range.end }
    pub closed spec fn whole(&self) -> StrLit { *self.src }
    pub closed spec fn lo(&self) -> int { self.range.start as int }
    pub closed spec fn hi(&self) -> int { self.range.end as int }
    pub open spec fn s(&self) -> Seq<char> { self.whole().t().subrange(at(self.whole().t(), self.lo()), at(self.whole().t(), self.hi())) }
    pub open spec fn raw(&self) -> bool { self.whole().raw() }
}
/// an error about s: there if the compiler can point at it, underlined in the message if not
pub open spec fn about(e: Error, s: StrLitSlice, msg: Seq<char>) -> bool {
    match s.whole().part(s.lo(), s.hi()) {
        Some(p) => e.place() == p && e.msg() == msg,
        None => e.place() == s.whole().place() && e.msg() == drawn(msg, s.whole().t(), at(s.whole().t(), s.lo()), s.s()),
    }
}

//@fn sscanf_macro/src/str_lit.rs StrLit::new
//@flag props=C01 C02 C03 C04 C20
//@flag param=0 LitStr
//@ensures
    res.t() == $0.written(), res.place() == $0.place(),
//@end

//@fn sscanf_macro/src/str_lit.rs StrLit::is_raw
//@flag props=C01 C02 C03 C04 C20
//@flag rename_method=starts_with=>vx_starts_with
//@ensures
    res == self.raw(),
//@end

//@fn sscanf_macro/src/str_lit.rs StrLit::to_slice
//@flag props=C01 C02 C03 C04 C20
//@flag rename_method=find=>vx_find
//@flag rename_method=rfind=>vx_rfind
//@flag rename_method=len=>vx_len
//@ensures
    res.whole() == *self, content(self.t(), res.s()),
//@begin
    proof { use_type_invariant(self); quotes(self.t()); }
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::text
//@flag props=C01 C02 C03 C04 C20
//@flag str_index
//@flag rename_method=clone=>vx_clone
//@ensures
    res@ == self.s(),
//@begin
    proof { use_type_invariant(self); }
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::is_raw
//@flag props=C01 C02 C03 C04 C20
//@ensures
    res == self.raw(),
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::slice
//@flag props=C01 C02 C03 C04 C20
//@flag str_index
//@flag generics=
//@flag param=0 VxRange
//@flag rename_method=clone=>vx_clone
//@flag rename_method=len=>vx_len
//@flag rename_method=chars=>vx_chars
//@requires
    match $0.start { Excluded(_) => false, _ => true },
    match $0.end { Included(b) => incl_ok(self.s(), first($0), b as int), Excluded(b) => cut_ok(self.s(), first($0), b as int), Unbounded => from_ok(self.s(), first($0)) },
//@ensures
    res.whole() == self.whole(), res.lo() == self.lo() + first($0),
    match $0.end {
        Included(b) => incl_end(self.s(), b as int, res.hi() - self.lo()) && incl_is(self.s(), first($0), b as int, res.s()),
        Excluded(b) => res.hi() == self.lo() + b && cut_is(self.s(), first($0), b as int, res.s()),
        Unbounded => res.hi() == self.lo() + off(self.s(), self.s().len() as int) && from_is(self.s(), first($0), res.s()),
    },
//@begin
    proof { use_type_invariant(self); use_type_invariant(self.src); cut_at(self.s(), $0); part_of(self.src.t(), self.lo(), self.hi(), first($0), last(self.s(), $0));  }
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::span
//@flag props=C20
//@flag rename_method=clone=>vx_clone
//@ensures
    res == (match self.whole().part(self.lo(), self.hi()) { Some(p) => p, None => self.whole().place() }),
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::err
//@flag props=C20
//@ensures
    res is Err, about(res->Err_0, *self, $0@),
//@end

//@fn sscanf_macro/src/str_lit.rs StrLitSlice::error
//@flag props=C20
//@flag generics=<U: VxShow>
//@flag text
//@flag str_index
//@flag rename_method=clone=>vx_clone
//@ensures
    about(res, *self, $0.shown()),
//@begin
    proof { use_type_invariant(self); }
//@role m = init String::new() | callarg Error::new_spanned 1
//@flag reveal_lits
//@flag loops_optional
//@flag rename_method=len=>vx_len
//@flag rename_method=repeat=>vx_repeat
//@loop 0
    invariant
        vx_i0 <= vx_e0, $m@ =~= pad(shown($0.shown(), self.whole().t()), ' ', vx_i0 as int),
    decreases vx_e0 - vx_i0,
//@loop 1
    invariant
        vx_i1 <= vx_e1, $m@ =~= pad(pad(shown($0.shown(), self.whole().t()), ' ', 3int + width(self.whole().t().subrange(0, at(self.whole().t(), self.lo())))), '^', vx_i1 as int),
    decreases vx_e1 - vx_i1,
//@end
// the three ways the parsers cut a literal, with the contracts that the other units assume (slice_shim.vrs)
impl<'a> StrLitSlice<'a> {
    pub fn slice_excl(&self, a: usize, b: usize) -> (r: StrLitSlice<'a>)
      requires cut_ok(self.s(), a as int, b as int)
      ensures r.lo() == self.lo() + a, r.hi() == self.lo() + b, r.raw() == self.raw(), cut_is(self.s(), a as int, b as int, r.s())
    { self.slice(VxRange { start: Included(a), end: Excluded(b) }) }
    pub fn slice_incl(&self, a: usize, b: usize) -> (r: StrLitSlice<'a>)
      requires incl_ok(self.s(), a as int, b as int)
      ensures r.lo() == self.lo() + a, incl_end(self.s(), b as int, r.hi() - self.lo()), r.raw() == self.raw(), incl_is(self.s(), a as int, b as int, r.s())
    { self.slice(VxRange { start: Included(a), end: Included(b) }) }
    pub fn slice_from(&self, a: usize) -> (r: StrLitSlice<'a>)
      requires from_ok(self.s(), a as int)
      ensures r.lo() == self.lo() + a, r.hi() == self.lo() + off(self.s(), self.s().len() as int), r.raw() == self.raw(), from_is(self.s(), a as int, r.s())
    { self.slice(VxRange { start: Included(a), end: Unbounded }) }
}
pub open spec fn last(s: Seq<char>, r: VxRange) -> int { match r.end { Included(b) => off(s, at(s, b as int) + 1), Excluded(b) => b as int, Unbounded => off(s, s.len() as int) } }
pub proof fn cut_at(s: Seq<char>, r: VxRange)
    requires match r.end { Included(b) => incl_ok(s, first(r), b as int), Excluded(b) => cut_ok(s, first(r), b as int), Unbounded => from_ok(s, first(r)) }
    ensures is_off(s, first(r)), is_off(s, last(s, r)), first(r) < last(s, r),
        match r.end { Included(b) => 0 <= at(s, b as int) < s.len() && off(s, at(s, b as int)) == b && last(s, r) == b + u8len(s[at(s, b as int)]), _ => true },
{
    match r.end {
        Included(b) => { let k = choose|k: int| 0 <= k < s.len() && #[trigger] off(s, k) == b; at_off(s, k); off_step(s, k); assert(off(s, k + 1) == last(s, r)); },
        Excluded(b) => {},
        Unbounded => { assert(off(s, s.len() as int) == last(s, r)); },
    }
}
pub open spec fn first(r: VxRange) -> int { match r.start { Included(a) => a as int, _ => 0 } }
} // mod code
} // verus!
fn main() {}
