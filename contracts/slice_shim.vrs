verus! {
// ---------------------------------------------------------------- StrLitSlice: its contract (proved in unit str_lit)
#[verifier::external_body]
pub struct StrLitSlice<'a> { x: &'a str }
impl<'a> StrLitSlice<'a> {
    pub uninterp spec fn s(&self) -> Seq<char>;
    pub uninterp spec fn raw(&self) -> bool;
    pub uninterp spec fn lo(&self) -> int;   // byte range within the literal
    pub uninterp spec fn hi(&self) -> int;
    #[verifier::external_body] pub fn is_raw(&self) -> (r: bool) ensures r == self.raw() { unimplemented!() }
    #[verifier::external_body] pub fn text(&self) -> (r: &str) ensures r@ == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn char_iter(&self) -> (r: PeekIter) ensures r.s() == self.s(), r.k() == 0, r.wf() { unimplemented!() }
    #[verifier::external_body] pub fn slice_excl(&self, a: usize, b: usize) -> (r: StrLitSlice<'a>)
      requires cut_ok(self.s(), a as int, b as int)
      ensures r.lo() == self.lo() + a, r.hi() == self.lo() + b, r.raw() == self.raw(), cut_is(self.s(), a as int, b as int, r.s())
    { unimplemented!() }
    #[verifier::external_body] pub fn slice_incl(&self, a: usize, b: usize) -> (r: StrLitSlice<'a>)
      requires incl_ok(self.s(), a as int, b as int)
      ensures r.lo() == self.lo() + a, incl_end(self.s(), b as int, r.hi() - self.lo()), r.raw() == self.raw(), incl_is(self.s(), a as int, b as int, r.s())
    { unimplemented!() }
    #[verifier::external_body] pub fn slice_from(&self, a: usize) -> (r: StrLitSlice<'a>)
      requires from_ok(self.s(), a as int)
      ensures r.lo() == self.lo() + a, r.hi() == self.lo() + off(self.s(), self.s().len() as int), r.raw() == self.raw(), from_is(self.s(), a as int, r.s())
    { unimplemented!() }
    #[verifier::external_body] pub fn err<T, M>(&self, m: M) -> (r: Result<T, Error>) ensures r is Err, r->Err_0.lo() == self.lo(), r->Err_0.hi() == self.hi() { unimplemented!() }
    #[verifier::external_body] pub fn error<M>(&self, m: M) -> (r: Error) ensures r.lo() == self.lo(), r.hi() == self.hi() { unimplemented!() }
}
#[verifier::external_body]
pub struct Error { x: usize }
impl Error {
    pub uninterp spec fn lo(&self) -> int;
    pub uninterp spec fn hi(&self) -> int;
}
} // verus!
