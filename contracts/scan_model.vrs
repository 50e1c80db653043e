// The runtime side: contracts of regex, of the FromScanf / RegexRepresentation traits and of the std
// functions that emitted code calls (all trusted here; the contracts of derived implementations are the
// obligations of the unit).
verus! {
/// one character of a regex text, or the whole regex of a type
pub enum Sym { C(char), T(int) }
/// what a capture group captured: byte range in the input, and the text
pub struct Txt { pub lo: int, pub hi: int, pub s: Seq<char> }
pub type Grp = Option<Txt>;
/// where in the input a string slice lies
pub uninterp spec fn place(s: &str) -> (int, int);

/// errors, as far as their source() chain and type names go
pub enum ErrV { Leaf(int), Int, MissingPrefix, FilterNone(Seq<char>), Scan(Seq<char>, Box<ErrV>), Std(Seq<char>, Box<ErrV>) }


/// number of capture groups that the regex of a type contains
pub uninterp spec fn groups_of(tid: int) -> int;
/// number of capture groups in a regex text: every `(` that is neither escaped nor followed by `?`, and those of the types
pub open spec fn caps(s: Seq<Sym>, i: int) -> int decreases s.len() + 1 - i {
    if i < 0 || i >= s.len() { 0 } else { match s[i] {
        Sym::T(t) => groups_of(t) + caps(s, i + 1),
        Sym::C(c) => if c == '\\' { caps(s, i + 2) } else if c == '(' && !(i + 1 < s.len() && s[i + 1] == Sym::C('?')) { 1 + caps(s, i + 1) } else { caps(s, i + 1) },
    } }
}
/// the whole regex matches the input
pub uninterp spec fn matches(rx: Seq<Sym>, input: Seq<char>) -> bool;
/// groups that a match of this regex can report
pub uninterp spec fn legal(rx: Seq<Sym>, g: Seq<Grp>) -> bool;
/// the groups that matching this input reports
pub uninterp spec fn groups(rx: Seq<Sym>, input: Seq<char>) -> Seq<Grp>;

pub mod sscanf {
use super::*;
pub use super::sscanf as errors;
pub use super::sscanf as regex;
pub use super::sscanf as const_format;

pub struct Rx { pub v: Ghost<Seq<Sym>> }
impl Rx {
    pub open spec fn view(&self) -> Seq<Sym> { self.v@ }
    pub fn empty() -> (r: Rx) ensures r@ == Seq::<Sym>::empty() { Rx { v: Ghost(Seq::empty()) } }
    #[verifier::external_body] pub fn copy(&self) -> (r: Rx) ensures r@ == self@ { unimplemented!() }
    pub fn ch(&mut self, c: char) ensures final(self)@ == old(self)@.push(Sym::C(c)) { self.v = Ghost(self.v@.push(Sym::C(c))); }
    pub fn push(&mut self, r: Rx) ensures final(self)@ == old(self)@ + r@, r@.len() == 1 ==> final(self)@ == old(self)@.push(r@[0])
    { proof { if r.v@.len() == 1 { assert(self.v@ + r.v@ =~= self.v@.push(r.v@[0])); } } self.v = Ghost(self.v@ + r.v@); }
}

#[verifier::external_body] pub struct Match<'t> { x: &'t str }
impl<'t> Match<'t> {
    pub uninterp spec fn txt(&self) -> Txt;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.txt().s, place(r) == (self.txt().lo, self.txt().hi) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(X)] pub struct Ph<X> { x: X }
#[verifier::external_body] pub struct SubCaptureMatches<'c, 't> { x: &'c str, y: &'t str }
impl<'c, 't> SubCaptureMatches<'c, 't> {
    pub uninterp spec fn g(&self) -> Seq<Grp>;
    pub uninterp spec fn k(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.k() <= self.g().len() <= usize::MAX }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Option<Match<'t>>>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).g() == old(self).g(),
            old(self).k() < old(self).g().len() ==> final(self).k() == old(self).k() + 1 && r is Some && (match old(self).g()[old(self).k()] { Some(t) => r->0 is Some && (r->0)->0.txt() == t, None => r->0 is None }),
            old(self).k() >= old(self).g().len() ==> final(self).k() == old(self).k() && r is None,
    { unimplemented!() }
    #[verifier::external_body] pub fn nth(&mut self, n: usize) -> (r: Option<Option<Match<'t>>>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).g() == old(self).g(),
            old(self).k() + n < old(self).g().len() ==> final(self).k() == old(self).k() + n + 1 && r is Some,
            old(self).k() + n >= old(self).g().len() ==> final(self).k() == old(self).g().len() && r is None,
    { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.g().len() - self.k() { unimplemented!() }
}
#[verifier::external_body] pub struct Captures<'t> { x: &'t str }
impl<'t> Captures<'t> {
    pub uninterp spec fn g(&self) -> Seq<Grp>;
    #[verifier::external_body] pub fn iter<'c>(&'c self) -> (r: SubCaptureMatches<'c, 't>) ensures r.g() == self.g(), r.k() == 0, r.wf() { unimplemented!() }
}
#[verifier::external_body] pub struct RegexError { x: usize }
#[verifier::external] impl core::fmt::Debug for RegexError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external_body] pub struct Regex { x: usize }
impl Regex {
    pub uninterp spec fn rx(&self) -> Seq<Sym>;
    #[verifier::external_body] pub fn new(r: Rx) -> (res: Result<Regex, RegexError>) ensures res is Ok, res->Ok_0.rx() == r@ { unimplemented!() }
    #[verifier::external_body] pub fn captures_len(&self) -> (r: usize) ensures r == 1 + caps(self.rx(), 0) { unimplemented!() }
    #[verifier::external_body] pub fn captures<'t>(&self, input: &'t str) -> (r: Option<Captures<'t>>)
        ensures r is Some <==> matches(self.rx(), input@),
            r is Some ==> r->0.g() == groups(self.rx(), input@) && legal(self.rx(), r->0.g()) && r->0.g().len() == 1 + caps(self.rx(), 0) && r->0.g().len() <= usize::MAX,
    { unimplemented!() }
}

// ---------------------------------------------------------------- errors
pub trait EV { spec fn ev(self) -> ErrV; }
#[verifier::external_body] pub struct DynErr { x: usize }
impl DynErr { pub uninterp spec fn ev(self) -> ErrV; pub fn as_ref(&self) -> (r: &DynErr) ensures *r == *self { self } }
impl EV for DynErr { open spec fn ev(self) -> ErrV { self.ev() } }
/// a borrowed error, as source() hands it out
#[verifier::external_body] pub struct DynRef<'a> { x: &'a usize }
impl<'a> DynRef<'a> { pub uninterp spec fn ev(self) -> ErrV; }
#[verifier::external_body] pub fn vx_dyn<'a, E: EV>(e: &'a E) -> (r: DynRef<'a>) ensures r.ev() == e.ev() { unimplemented!() }
#[verifier::external_body] pub fn vx_into_box<E: EV>(e: E) -> (r: DynErr) ensures r.ev() == e.ev() { unimplemented!() }
impl EV for IntErr { open spec fn ev(self) -> ErrV { ErrV::Int } }
pub enum MissingPrefixError { Hex, Octal, Binary }
impl EV for MissingPrefixError { open spec fn ev(self) -> ErrV { ErrV::MissingPrefix } }
pub struct FilterMapNoneError { pub field_name: &'static str }
impl EV for FilterMapNoneError { open spec fn ev(self) -> ErrV { ErrV::FilterNone(self.field_name@) } }
pub struct FromScanfFailedError { pub type_name: &'static str, pub error: DynErr }
impl EV for FromScanfFailedError { open spec fn ev(self) -> ErrV { ErrV::Scan(self.type_name@, Box::new(self.error.ev())) } }
pub enum Error { MatchFailed, ParsingFailed(DynErr) }
#[verifier::external_body] pub struct LeafErr { x: usize }
impl EV for LeafErr { uninterp spec fn ev(self) -> ErrV; }

// ---------------------------------------------------------------- the traits, as contracts
pub trait RegexRepresentation {
    spec fn tid() -> int;
    fn REGEX() -> (r: Rx) ensures r@ == seq![Sym::T(Self::tid())];
}
pub trait FromScanf<'t>: Sized + RegexRepresentation {
    type Err: EV;
    /// declared number of captures
    spec fn n() -> int;
    /// groups that the regex of the type, in its own group, can report
    spec fn shape(g: Seq<Grp>) -> bool;
    /// value, or error, for such groups
    spec fn conv(g: Seq<Grp>) -> Result<Self, ErrV>;
    fn NUM_CAPTURES() -> (r: usize) ensures r == Self::n(), 1 <= r <= 0xffff, r == 1 + groups_of(Self::tid());
    fn from_matches(src: &mut SubCaptureMatches<'_, 't>) -> (res: Result<Self, Self::Err>)
        requires old(src).wf(), old(src).k() + Self::n() <= old(src).g().len(), Self::shape(old(src).g().subrange(old(src).k(), old(src).k() + Self::n())),
        ensures final(src).wf(), final(src).g() == old(src).g(),
            match Self::conv(old(src).g().subrange(old(src).k(), old(src).k() + Self::n())) {
                Ok(v) => res is Ok && res->Ok_0 == v && final(src).k() == old(src).k() + Self::n(),
                Err(e) => res is Err && res->Err_0.ev() == e,
            };
}
pub trait Default: Sized { spec fn dflt() -> Self; fn default() -> (r: Self) ensures r == Self::dflt(); }
pub trait From<A>: Sized { spec fn frm(a: A) -> Self; fn from(a: A) -> (r: Self) ensures r == Self::frm(a); }
pub trait TryFrom<A>: Sized { type Error: EV; spec fn tfrm(a: A) -> Result<Self, ErrV>;
    fn try_from(a: A) -> (r: Result<Self, Self::Error>) ensures match Self::tfrm(a) { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0.ev() == e }; }
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }

#[verifier::external_body] pub fn vx_str_get_full<'t>(s: &'t str) -> (r: Option<&'t str>) ensures r is Some, r->0 == s { unimplemented!() }
}
use sscanf::*;
pub broadcast proof fn sub_sub(s: Seq<Grp>, a: int, b: int, c: int, d: int) requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub open spec fn is_str(r: &str, t: Txt) -> bool { r@ == t.s && place(r) == (t.lo, t.hi) }
} // verus!
