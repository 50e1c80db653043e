verus! {
// ---------------------------------------------------------------- slices of texts
pub trait VxCs { spec fn cs(&self) -> Seq<char>; }
impl VxCs for str { open spec fn cs(&self) -> Seq<char> { self@ } }
impl VxCs for String { open spec fn cs(&self) -> Seq<char> { self@ } }
impl<'a, T: VxCs + ?Sized> VxCs for &'a T { open spec fn cs(&self) -> Seq<char> { (**self).cs() } }
// slices by byte positions: anything that is no position of a character is a panic
#[verifier::external_body] pub fn vx_str_to<'a, T: VxCs + ?Sized>(s: &'a T, b: usize) -> (r: &'a str) requires is_off(s.cs(), b as int) ensures r@ == s.cs().subrange(0, at(s.cs(), b as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_from<'a, T: VxCs + ?Sized>(s: &'a T, a: usize) -> (r: &'a str) requires is_off(s.cs(), a as int) ensures r@ == s.cs().subrange(at(s.cs(), a as int), s.cs().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_cut<'a, T: VxCs + ?Sized>(s: &'a T, a: usize, b: usize) -> (r: &'a str) requires is_off(s.cs(), a as int), is_off(s.cs(), b as int), a <= b ensures r@ == s.cs().subrange(at(s.cs(), a as int), at(s.cs(), b as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_range<'a, T: VxCs + ?Sized>(s: &'a T, g: std::ops::Range<usize>) -> (r: &'a str) requires is_off(s.cs(), g.start as int), is_off(s.cs(), g.end as int), g.start <= g.end ensures r@ == s.cs().subrange(at(s.cs(), g.start as int), at(s.cs(), g.end as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_str_get<'a, T: VxCs + ?Sized>(s: &'a T, a: usize, b: usize) -> (r: Option<&'a str>) ensures r is Some <==> (is_off(s.cs(), a as int) && is_off(s.cs(), b as int) && a <= b), r is Some ==> r->0@ == s.cs().subrange(at(s.cs(), a as int), at(s.cs(), b as int)) { unimplemented!() }
} // verus!
