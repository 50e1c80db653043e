verus! {
// ---------------------------------------------------------------- texts put together by format! and its like
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
/// what format! and its like put together, piece by piece
#[verifier::external_body] pub struct VxText { x: String }
impl VxText {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: VxText) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: VxText) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: VxShow + ?Sized>(self, t: &T) -> (r: VxText) ensures r@ == self@ + t.shown() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub broadcast proof fn add_add(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn none_add(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn add_one(a: Seq<char>, c: char) ensures #[trigger] a.push(c) == a + seq![c] { assert(a.push(c) =~= a + seq![c]); }
} // verus!
