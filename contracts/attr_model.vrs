// Model of what the attribute code uses of syn, quote and std's HashMap (trusted), and the documented
// meaning of the attributes of one item.
verus! {
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[verifier::external_body] #[derive(Debug)] pub struct Error { x: usize }
/// some error; its text and place are not looked at here
#[verifier::external_body] pub fn vx_err() -> Error { unimplemented!() }
#[verifier::external_body] pub struct Tok { x: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { x: usize }
/// a literal with this content, written with the escapes it needs
pub uninterp spec fn fresh(t: Seq<char>) -> syn::LitStr;
#[verifier::external_body] pub struct TokenStream { x: usize }
impl TokenStream {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, t: TokenStream) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: TokenStream) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
}
#[verifier::external_body] pub fn vx_quote() -> TokenStream { unimplemented!() }
pub trait ToTokens { spec fn toks(&self) -> Seq<Tok>; fn to_token_stream(&self) -> (r: TokenStream) ensures r@ == self.toks(); }
impl<T: ToTokens> ToTokens for &T { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
impl<T: ToTokens> ToTokens for Option<T> { open spec fn toks(&self) -> Seq<Tok> { match *self { Some(x) => x.toks(), None => Seq::empty() } } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
/// quote! { #x }
#[verifier::external_body] pub fn vx_tokens<T: ToTokens>(x: &T) -> (r: TokenStream) ensures r@ == x.toks() { unimplemented!() }
/// moving the elements of a vector out, each once
pub fn vx_seq<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
#[verifier::external_body] pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub fn vx_str_in(v: &[&str], s: &&str) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i]@ == s@ {
    let mut i: usize = 0;
    while i < v.len() invariant 0 <= i <= v@.len(), forall|j: int| 0 <= j < i ==> #[trigger] v@[j]@ != s@, decreases v@.len() - i { if str_eq(v[i], *s) { assert(v@[i as int]@ == s@); return true; } i += 1; }
    false
}
// ---------------------------------------------------------------- syn
/// what syn parses at the start of some tokens, and what is left. (Deterministic, total: a syn parser.)
pub trait Parse: Sized { spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)>; }
pub trait Peek: Sized { spec fn peeked(t: Seq<Tok>) -> bool; }
#[verifier::external_body] pub struct TokComma { x: usize }
#[verifier::external_body] pub struct TokEq { x: usize }
#[verifier::external_body] pub struct TokAnd { x: usize }
pub uninterp spec fn p_comma(t: Seq<Tok>) -> Option<(TokComma, Seq<Tok>)>;
pub uninterp spec fn p_eq(t: Seq<Tok>) -> Option<(TokEq, Seq<Tok>)>;
pub uninterp spec fn p_lit(t: Seq<Tok>) -> Option<(syn::LitStr, Seq<Tok>)>;
pub uninterp spec fn p_ident(t: Seq<Tok>) -> Option<(syn::Ident, Seq<Tok>)>;
pub uninterp spec fn p_expr(t: Seq<Tok>) -> Option<(syn::Expr, Seq<Tok>)>;
pub uninterp spec fn p_type(t: Seq<Tok>) -> Option<(syn::Type, Seq<Tok>)>;
pub uninterp spec fn p_own_type(t: Seq<Tok>) -> Option<(Type, Seq<Tok>)>;
impl Parse for TokComma { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_comma(t) } }
impl Parse for TokEq { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_eq(t) } }
impl Parse for syn::LitStr { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_lit(t) } }
impl Parse for syn::Ident { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_ident(t) } }
impl Parse for syn::Expr { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_expr(t) } }
impl Parse for syn::Type { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_type(t) } }
impl Parse for Type { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_own_type(t) } }
impl Parse for TokenStream { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { Some((stream(t), Seq::empty())) } }
impl Parse for StrLit { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { match p_lit(t) { Some((l, r)) => Some((strlit(l), r)), None => None } } }
impl Peek for TokComma { open spec fn peeked(t: Seq<Tok>) -> bool { p_comma(t) is Some } }
impl Peek for TokEq { open spec fn peeked(t: Seq<Tok>) -> bool { p_eq(t) is Some } }
impl Peek for syn::LitStr { open spec fn peeked(t: Seq<Tok>) -> bool { p_lit(t) is Some } }
impl Peek for syn::Ident { open spec fn peeked(t: Seq<Tok>) -> bool { p_ident(t) is Some } }
/// a parser takes at least one token; a string literal alone is an expression
#[verifier::external_body] pub proof fn parser_laws()
    ensures forall|t: Seq<Tok>| #[trigger] p_comma(t) is Some ==> (p_comma(t)->0).1.len() < t.len(),
        forall|t: Seq<Tok>| #[trigger] p_eq(t) is Some ==> (p_eq(t)->0).1.len() < t.len(),
        forall|t: Seq<Tok>| #[trigger] p_lit(t) is Some ==> (p_lit(t)->0).1.len() < t.len(),
        forall|t: Seq<Tok>| #[trigger] p_ident(t) is Some ==> (p_ident(t)->0).1.len() < t.len(),
        forall|t: Seq<Tok>| #[trigger] p_expr(t) is Some ==> (p_expr(t)->0).1.len() < t.len(),
        forall|t: Seq<Tok>| #[trigger] p_type(t) is Some ==> (p_type(t)->0).1.len() < t.len(),
        forall|l: syn::LitStr| p_expr(#[trigger] l.toks()) == Some((lit_expr(l), Seq::<Tok>::empty())),
{}
pub uninterp spec fn stream(t: Seq<Tok>) -> TokenStream;
#[verifier::external_body] pub broadcast proof fn stream_view(t: Seq<Tok>) ensures #[trigger] stream(t)@ == t {}
pub uninterp spec fn lit_expr(l: syn::LitStr) -> syn::Expr;
pub uninterp spec fn strlit(l: syn::LitStr) -> StrLit;
pub struct ParseBuffer { pub x: usize }
impl ParseBuffer {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn peek<T: Peek>(&self) -> (r: bool) ensures r == T::peeked(self@) { unimplemented!() }
    #[verifier::external_body] pub fn lookahead1(&self) -> (r: Lookahead) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn fork(&self) -> (r: ParseBuffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: Parse>(&mut self) -> (r: Result<T>) ensures match T::parsed(old(self)@) { Some((v, rest)) => r == Ok::<T, Error>(v) && final(self)@ == rest, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn error(&self) -> Error { unimplemented!() }
}
#[verifier::external_body] pub struct Lookahead { x: usize }
impl Lookahead {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn peek<T: Peek>(&self) -> (r: bool) ensures r == T::peeked(self@) { unimplemented!() }
    #[verifier::external_body] pub fn error(&self) -> Error { unimplemented!() }
}
pub mod syn {
    use super::*;
    pub use super::{Error, Result};
    #[verifier::external_body] pub struct LitStr { x: usize }
    impl LitStr { #[verifier::external_body] pub fn new(t: &str, p: Span) -> (r: LitStr) ensures r == fresh(t@), r.s() == t@, !r.raw() { unimplemented!() } pub uninterp spec fn s(&self) -> Seq<char>; pub uninterp spec fn raw(&self) -> bool; #[verifier::external_body] pub fn value(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() } }
    #[verifier::external_body] pub struct Ident { x: usize }
    impl Ident { pub uninterp spec fn s(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() } }
    #[verifier::external_body] pub struct Type { x: usize }
    impl Type { #[verifier::external_body] pub fn clone(&self) -> (r: Type) ensures r == *self { unimplemented!() } }
    #[verifier::external_body] pub struct Other { x: usize }
    pub struct PatType { pub ty: Box<Type> }
    pub enum Pat { Type(PatType), Other(Other) }
    pub struct Params { pub v: Vec<Pat> }
    impl Params {
        pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
        pub fn first(&self) -> (r: Option<&Pat>) ensures match r { Some(p) => self.v@.len() > 0 && *p == self.v@[0], None => self.v@.len() == 0 } { if self.v.len() == 0 { None } else { Some(&self.v[0]) } }
        pub fn iter(&self) -> (r: &Vec<Pat>) ensures *r == self.v { &self.v }
    }
    pub struct ExprClosure { pub inputs: Params, pub rest: Other }
    pub enum Expr { Closure(ExprClosure), Verbatim(TokenStream), Other(Other) }
    #[verifier::external_body] pub struct Path { x: usize }
    impl Path { pub uninterp spec fn is(&self, s: Seq<char>) -> bool; #[verifier::external_body] pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == self.is(s@) { unimplemented!() } }
    pub struct MetaList { pub path: Path, pub tokens: TokenStream }
    impl MetaList {
        #[verifier::external_body] pub fn parse_args<T: Parse>(&self) -> (r: Result<T>) ensures match T::parsed(self.tokens@) { Some((v, rest)) => if rest.len() == 0 { r == Ok::<T, Error>(v) } else { r is Err }, None => r is Err } { unimplemented!() }
        /// Punctuated::parse_terminated_with(Attribute::parse) on all tokens between the parentheses
        #[verifier::external_body] pub fn parse_args_with<A: Attr>(&self, p: ArgParser<A>) -> (r: Result<Vec<super::Attribute<A>>>) ensures match r { Ok(v) => args_of::<A>(self.tokens@) == Some(args_seq(v@)), Err(_) => args_of::<A>(self.tokens@) is None } { unimplemented!() }
    }
    pub struct MetaNameValue { pub path: Path, pub value: Expr }
    pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
    pub struct Attribute { pub meta: Meta }
    impl Attribute {
        pub open spec fn spath(&self) -> Path { match self.meta { Meta::Path(p) => p, Meta::List(l) => l.path, Meta::NameValue(n) => n.path } }
        pub fn path(&self) -> (r: &Path) ensures *r == self.spath() { match &self.meta { Meta::Path(p) => p, Meta::List(l) => &l.path, Meta::NameValue(n) => &n.path } }
    }
    #[verifier::external_body] pub fn parse2<T: Parse>(t: TokenStream) -> (r: Result<T>) ensures match whole::<T>(t@) { Some(v) => r == Ok::<T, Error>(v), None => r is Err } { unimplemented!() }
}
/// the tokens are one T and nothing else
pub open spec fn whole<T: Parse>(t: Seq<Tok>) -> Option<T> { match T::parsed(t) { Some((v, rest)) => if rest.len() == 0 { Some(v) } else { None }, None => None } }
pub uninterp spec fn lit_toks(x: syn::LitStr) -> Seq<Tok>;
pub uninterp spec fn ident_toks(x: syn::Ident) -> Seq<Tok>;
pub uninterp spec fn type_toks(x: syn::Type) -> Seq<Tok>;
pub uninterp spec fn other_toks(x: syn::Expr) -> Seq<Tok>;
impl ToTokens for syn::LitStr { open spec fn toks(&self) -> Seq<Tok> { lit_toks(*self) } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
impl ToTokens for syn::Ident { open spec fn toks(&self) -> Seq<Tok> { ident_toks(*self) } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
impl ToTokens for syn::Type { open spec fn toks(&self) -> Seq<Tok> { type_toks(*self) } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
impl syn::Type { #[verifier::external_body] pub fn into_token_stream(self) -> (r: TokenStream) ensures r == stream(type_toks(self)) { unimplemented!() } }
impl ToTokens for syn::Expr { open spec fn toks(&self) -> Seq<Tok> { match *self { syn::Expr::Verbatim(t) => t@, _ => other_toks(*self) } } #[verifier::external_body] fn to_token_stream(&self) -> (r: TokenStream) { unimplemented!() } }
// ---------------------------------------------------------------- the crate's own types
#[verifier::external_body] pub struct StrLit { x: usize }
impl StrLit {
    pub uninterp spec fn raw(&self) -> bool;
    #[verifier::external_body] pub fn new(l: syn::LitStr) -> (r: StrLit) ensures r == strlit(l), r.raw() == l.raw() { unimplemented!() }
    #[verifier::external_body] pub fn is_raw(&self) -> (r: bool) ensures r == self.raw() { unimplemented!() }
}
#[verifier::external_body] pub struct Type { x: usize }
impl Type { pub uninterp spec fn inner(&self) -> syn::Type; #[verifier::external_body] pub fn into_inner(self) -> (r: syn::Type) ensures r == self.inner() { unimplemented!() } }
// ---------------------------------------------------------------- HashMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r { Entry::Occupied(e) => old(self)@.dom().contains(k) && final(self)@ == old(self)@, Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.map() == old(self)@ && e.key() == k && e.fin() == final(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), match r { Some(x) => old(self)@.dom().contains(k) && x == old(self)@[k], None => !old(self)@.dom().contains(k) } { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self@.dom().contains(*k) && *x == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    /// the values, in some order
    #[verifier::external_body] pub fn into_values(self) -> (r: VxList<V>)
        ensures r@.len() == self@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> exists|k: K| self@.dom().contains(k) && #[trigger] r@[i] == #[trigger] self@[k], forall|k: K| self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == #[trigger] self@[k] { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct OccupiedEntry<'a, K, V> { x: &'a mut HashMap<K, V> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VacantEntry<'a, K, V> { x: &'a mut HashMap<K, V> }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    pub uninterp spec fn map(&self) -> Map<K, V>;
    pub uninterp spec fn key(&self) -> K;
    #[verifier::external_body] pub fn insert(self, v: V) ensures self.fin() == self.map().insert(self.key(), v) { unimplemented!() }
}
pub trait Collected<T>: Sized { spec fn same(&self, s: Seq<T>) -> bool; fn of(v: Vec<T>) -> (r: Self) ensures r.same(v@); }
impl<T> Collected<T> for Vec<T> { open spec fn same(&self, s: Seq<T>) -> bool { self@ == s } fn of(v: Vec<T>) -> (r: Self) { v } }
/// values on their way from one collection to another
pub struct VxList<T> { pub v: Vec<T> }
impl<T> VxList<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn collect<C: Collected<T>>(self) -> (r: C) ensures r.same(self@) { C::of(self.v) }
    pub fn next(self) -> (r: Option<T>) ensures match r { Some(x) => self@.len() > 0 && x == self@[0], None => self@.len() == 0 } { if self.v.len() == 0 { None } else { Some(vx_take(&self.v, 0)) } }
}
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VxList<T>) ensures r@ == v@ { VxList { v } }
// ---------------------------------------------------------------- convert_case
#[derive(Clone, Copy)]
pub enum Case { Lower, Upper, Flat, UpperFlat, Pascal, Camel, Snake, ScreamingSnake, Kebab, UpperKebab, Title, Toggle, Alternating, UpperSnake, Cobol, Train, UpperCamel }
#[verifier::external_body] pub proof fn same_cases() ensures forall|s: Seq<char>| #[trigger] in_case(s, Case::UpperSnake) == in_case(s, Case::ScreamingSnake), forall|s: Seq<char>| #[trigger] in_case(s, Case::Cobol) == in_case(s, Case::UpperKebab), forall|s: Seq<char>| #[trigger] in_case(s, Case::UpperCamel) == in_case(s, Case::Pascal) {}
pub uninterp spec fn in_case(s: Seq<char>, c: Case) -> Seq<char>;
#[verifier::external_body] pub fn vx_to_case(s: &str, c: Case) -> (r: &'static str) ensures r@ == in_case(s@, c) { unimplemented!() }
#[verifier::external_body] pub proof fn flat_insensitive() ensures in_case(seq!['C', 'a', 's', 'e', 'I', 'n', 's', 'e', 'n', 's', 'i', 't', 'i', 'v', 'e'], Case::Flat) == seq!['c', 'a', 's', 'e', 'i', 'n', 's', 'e', 'n', 's', 'i', 't', 'i', 'v', 'e'] {}
} // verus!
