// Shared specifications and shims (trusted: bodies of std / proc_macro types that Verus cannot read).
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- byte offsets of characters (UTF-8)
pub open spec fn u8len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn off(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + u8len(s[k - 1]) } }
pub open spec fn is_off(s: Seq<char>, n: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == n }
pub proof fn off_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures off(s, a) < off(s, b)
    decreases b - a
{ if a < b - 1 { off_mono(s, a, b - 1); } }
pub broadcast proof fn off_inj(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), #[trigger] off(s, a) == #[trigger] off(s, b)
    ensures a == b
{ if a < b { off_mono(s, a, b); } else if b < a { off_mono(s, b, a); } }
pub broadcast proof fn off_less(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures #[trigger] off(s, a) < #[trigger] off(s, b)
{ off_mono(s, a, b); }

/// the character position of a byte position
pub open spec fn at(s: Seq<char>, n: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == n }
pub broadcast proof fn at_off(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures #[trigger] at(s, off(s, k)) == k { assert(off(s, at(s, off(s, k))) == off(s, k)); off_inj(s, at(s, off(s, k)), k); }

// ---------------------------------------------------------------- panics
/// a reachable panic is a failed precondition
#[verifier::external_body] pub fn vx_panic() -> ! requires false { panic!() }
#[verifier::external_body] pub fn vx_assert(b: bool) requires b { assert!(b) }
/// text of a message: only where it is reported matters here
#[verifier::external_body] pub fn vx_fmt() -> String { unimplemented!() }

pub fn box_ref<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { &**b }
// ---------------------------------------------------------------- str / char / String
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn str_starts_with_char(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@[0] == c), r ==> off(a@, 1) == u8len(c) { a.starts_with(c) }
#[verifier::external_body] pub fn str_ends_with_char(a: &str, c: char) -> (r: bool) ensures r == (a@.len() > 0 && a@.last() == c), r ==> off(a@, a@.len() - 1) == off(a@, a@.len() as int) - u8len(c) { a.ends_with(c) }
#[verifier::external_body] pub fn str_strip_prefix_char<'b>(a: &'b str, c: char) -> (r: Option<&'b str>) ensures r is Some <==> (a@.len() > 0 && a@[0] == c), r is Some ==> r->0@ == a@.subrange(1, a@.len() as int) { a.strip_prefix(c) }
#[verifier::external_body] pub fn str_strip_prefix_str<'b>(a: &'b str, p: &str) -> (r: Option<&'b str>) ensures r is Some <==> (a@.len() >= p@.len() && forall|i: int| 0 <= i < p@.len() ==> a@[i] == #[trigger] p@[i]), r is Some && p@.len() > 0 ==> a@[0] == p@[0], r is Some ==> r->0@ == a@.skip(p@.len() as int) && r->0@ == a@.subrange(p@.len() as int, a@.len() as int) { a.strip_prefix(p) }
#[verifier::external_body] pub fn string_from(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body] pub fn string_push_str(s: &mut String, a: &str) ensures final(s)@ == old(s)@ + a@, a@.len() == 1 ==> final(s)@ == old(s)@.push(a@[0]), a@.len() == 2 ==> final(s)@ == old(s)@.push(a@[0]).push(a@[1]) { s.push_str(a) }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == off(s@, s@.len() as int);
#[verifier::external_body] pub fn char_len_utf8(c: char) -> (r: usize) ensures r == u8len(c) { c.len_utf8() }
pub open spec fn digit(c: char) -> Option<int> {
    if '0' <= c && c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c && c <= 'z' { Some(c as int - 'a' as int + 10) } else if 'A' <= c && c <= 'Z' { Some(c as int - 'A' as int + 10) } else { None }
}
/// value of digits (std: "an optional + sign followed by digits")
pub open spec fn num(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0int) } else { match (num(s.drop_last(), radix), digit(s.last())) { (Some(a), Some(d)) => if d < radix { Some(a * radix + d) } else { None }, _ => None } }
}
pub open spec fn unsigned(s: Seq<char>, radix: int, max: int) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if d.len() == 0 { None } else { match num(d, radix) { Some(n) => if n <= max { Some(n) } else { None }, None => None } }
}
#[verifier::external_body] pub struct IntErr { x: usize }
#[verifier::external_body] pub fn u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, IntErr>)
    requires 2 <= radix <= 36
    ensures match unsigned(s@, radix as int, 0xffff_ffff) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }
{ unimplemented!() }
#[verifier::external_body] pub fn str_parse_u8(s: &str) -> (r: Result<u8, IntErr>)
    ensures match unsigned(s@, 10, 255) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }
{ unimplemented!() }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(x), None => b });
// to_string of a String or char, String::from and into of a &str
#[verifier::external_body] pub broadcast proof fn vx_to_string_string(s: &String, res: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, res) ==> s@ == res@ {}
#[verifier::external_body] pub broadcast proof fn vx_to_string_char(s: &char, res: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(s, res) ==> res@ == seq![*s] {}
#[verifier::external_body] pub broadcast proof fn vx_from_str_ok() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec() {}
#[verifier::external_body] pub broadcast proof fn vx_from_str(s: &str) ensures (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s))@ == s@ {}
pub broadcast group vx_text { vx_to_string_string, vx_to_string_char, vx_from_str_ok, vx_from_str }
/// the pieces of a format!(..) that is stored
pub trait VxShown { spec fn shown_text(&self) -> Seq<char>; fn vx_shown(&self) -> (r: &str) ensures r@ == self.shown_text(); }
impl VxShown for String { open spec fn shown_text(&self) -> Seq<char> { self@ } fn vx_shown(&self) -> (r: &str) { self.as_str() } }
impl VxShown for str { open spec fn shown_text(&self) -> Seq<char> { self@ } fn vx_shown(&self) -> (r: &str) { self } }
impl VxShown for &str { open spec fn shown_text(&self) -> Seq<char> { (**self)@ } fn vx_shown(&self) -> (r: &str) { *self } }
impl VxShown for &String { open spec fn shown_text(&self) -> Seq<char> { (**self)@ } fn vx_shown(&self) -> (r: &str) { self.as_str() } }
pub trait VxEmpty: Sized { spec fn is_empty_of(&self) -> bool; }
impl VxEmpty for String { open spec fn is_empty_of(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> VxEmpty for Vec<T> { open spec fn is_empty_of(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> VxEmpty for Option<T> { open spec fn is_empty_of(&self) -> bool { *self is None } }
#[verifier::external_body] pub fn vx_mem_take<T: VxEmpty>(dest: &mut T) -> (r: T) ensures r == *old(dest), final(dest).is_empty_of() { unimplemented!() }
pub open spec fn is_scalar(n: int) -> bool { 0 <= n < 0xd800 || 0xe000 <= n < 0x11_0000 }
pub assume_specification [std::char::from_u32] (n: u32) -> (r: Option<char>) ensures r is Some <==> is_scalar(n as int), r is Some ==> r->0 as u32 == n;

// ---------------------------------------------------------------- Peekable<CharIndices>
#[verifier::external_body]
pub struct PeekIter { x: usize }
impl PeekIter {
    pub uninterp spec fn s(&self) -> Seq<char>;
    pub uninterp spec fn k(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.k() <= self.s().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s() == old(self).s(),
            old(self).k() >= old(self).s().len() ==> r is None && final(self).k() == old(self).k(),
            old(self).k() < old(self).s().len() ==> r is Some && (r->0).0 == off(old(self).s(), old(self).k()) && (r->0).1 == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s() == old(self).s(), final(self).k() == old(self).k(),
            old(self).k() >= old(self).s().len() ==> r is None,
            old(self).k() < old(self).s().len() ==> r is Some && (r->0).0 == off(old(self).s(), old(self).k()) && (r->0).1 == old(self).s()[old(self).k()],
    { unimplemented!() }
}
} // verus!
