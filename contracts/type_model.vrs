// What ty.rs uses of syn (trusted model), and the documented spellings of str and Cow<str>.
verus! {
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[verifier::external_body] #[derive(Debug)] pub struct Error { x: usize }
#[verifier::external_body] pub fn vx_err() -> Error { unimplemented!() }
/// a token: an identifier, `::`, or anything else
pub ghost enum Tok { Id(Seq<char>), Colon2, Other(int) }
#[verifier::external_body] pub struct TokenStream { x: usize }
/// the text of tokens. Trusted: texts are equal exactly when the tokens are (reading the text gives the tokens back)
pub uninterp spec fn printed(t: Seq<Tok>) -> Seq<char>;
#[verifier::external_body] pub broadcast proof fn printed_inj(a: Seq<Tok>, b: Seq<Tok>) ensures #[trigger] printed(a) == #[trigger] printed(b) ==> a == b {}
pub uninterp spec fn lexed(s: Seq<char>) -> Option<Seq<Tok>>;
impl TokenStream {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == printed(self@) { unimplemented!() }
    #[verifier::external_body] pub fn with_span(self, s: Span) -> (r: TokenStream) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_id(self, s: &str) -> (r: TokenStream) ensures r@ == self@.push(Tok::Id(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_colon2(self) -> (r: TokenStream) ensures r@ == self@.push(Tok::Colon2) { unimplemented!() }
}
#[verifier::external_body] pub struct Span { x: usize }
#[verifier::external_body] pub fn str_parse_TokenStream(s: &str) -> (r: Result<TokenStream>) ensures match lexed(s@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err } { unimplemented!() }
pub trait VxClone: Sized { spec fn same(&self, o: &Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.same(&r); }
impl<T: VxClone> VxClone for Option<T> { open spec fn same(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, _ => false } } fn vx_clone(&self) -> (r: Self) { match self { Some(a) => Some(a.vx_clone()), None => None } } }
pub mod syn {
    use super::*;
    pub use super::{Error, Result};
    #[verifier::external_body] pub struct Ident { x: usize }
    impl Ident { pub uninterp spec fn s(&self) -> Seq<char>; }
    #[verifier::external_body] pub struct Lifetime { x: usize }
    impl VxClone for Lifetime { open spec fn same(&self, o: &Self) -> bool { *o == *self } #[verifier::external_body] fn vx_clone(&self) -> (r: Lifetime) { unimplemented!() } }
    #[verifier::external_body] pub struct Other { x: usize }
    pub enum GenericArgument { Lifetime(Lifetime), Type(Type), Other(Other) }
    pub struct AngleBracketedGenericArguments { pub args: Punctuated<GenericArgument>, pub rest: Other }
    pub enum PathArguments { None, AngleBracketed(AngleBracketedGenericArguments), Parenthesized(Other) }
    pub struct PathSegment { pub ident: Ident, pub arguments: PathArguments }
    pub struct Path { pub leading_colon: Option<Other>, pub segments: Punctuated<PathSegment> }
    pub struct TypePath { pub qself: Option<Other>, pub path: Path }
    pub struct TypeReference { pub lifetime: Option<Lifetime>, pub mutability: Option<Other>, pub elem: Box<Type> }
    pub enum Type { Path(TypePath), Reference(TypeReference), Other(Other) }
    #[verifier::external_body] pub fn parse2<T: Own>(t: TokenStream) -> (r: Result<T>) ensures match own_whole(t@) { Some(ty) => r is Ok && (r->Ok_0).made_of(ty), None => r is Err } { unimplemented!() }
    pub struct Punctuated<T> { pub v: Vec<T> }
    impl<T> Punctuated<T> { pub fn iter(&self) -> (r: Iter<'_, T>) ensures r@ == self.v@ { Iter { v: &self.v, i: 0 } } }
    pub struct Iter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
    impl<'a, T> Iter<'a, T> {
        /// what is left
        pub open spec fn view(&self) -> Seq<T> { if self.i <= self.v@.len() { self.v@.skip(self.i as int) } else { Seq::empty() } }
        pub fn next(&mut self) -> (r: Option<&'a T>) ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
        { if self.i < self.v.len() { let r = &self.v[self.i]; self.i += 1; assert(self@ =~= old(self)@.skip(1)); Some(r) } else { None } }
    }
    impl<'a, T> VxClone for Iter<'a, T> { open spec fn same(&self, o: &Self) -> bool { *o == *self } fn vx_clone(&self) -> (r: Iter<'a, T>) { Iter { v: self.v, i: self.i } } }
}
/// names bound in get_cow_str_path
pub type Iter<'a> = syn::Iter<'a, syn::PathSegment>;
#[verifier::external_body] pub fn vx_ident_eq(a: &syn::Ident, b: &str) -> (r: bool) ensures r == (a.s() == b@) { unimplemented!() }

// ---------------------------------------------------------------- tokens of a path (trusted: syn's ToTokens)
pub uninterp spec fn qself_toks(t: syn::TypePath) -> Seq<Tok>;
pub uninterp spec fn args_toks(a: syn::PathArguments) -> Seq<Tok>;
pub open spec fn plain(t: Seq<Tok>) -> bool { forall|i: int| 0 <= i < t.len() ==> !(#[trigger] t[i] is Other) }
/// a qualified path begins with `<`; arguments are written with brackets, no arguments as nothing
#[verifier::external_body] pub proof fn tok_laws()
    ensures forall|t: syn::TypePath| t.qself is Some ==> !plain(#[trigger] qself_toks(t)),
        forall|a: syn::PathArguments| a is None ==> #[trigger] args_toks(a) == Seq::<Tok>::empty(),
        forall|a: syn::PathArguments| !(a is None) ==> !plain(#[trigger] args_toks(a)),
{}
pub open spec fn seg_toks(s: Seq<syn::PathSegment>, n: int) -> Seq<Tok> decreases n {
    if n <= 0 { Seq::empty() } else { seg_toks(s, n - 1) + (if n > 1 { seq![Tok::Colon2] } else { Seq::empty() }) + seq![Tok::Id(s[n - 1].ident.s())] + args_toks(s[n - 1].arguments) }
}
impl syn::TypePath {
    pub open spec fn segs(&self) -> Seq<syn::PathSegment> { self.path.segments.v@ }
    pub open spec fn toks(&self) -> Seq<Tok> { if self.qself is Some { qself_toks(*self) } else { (if self.path.leading_colon is Some { seq![Tok::Colon2] } else { Seq::empty() }) + seg_toks(self.segs(), self.segs().len() as int) } }
    #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r@ == self.toks() { unimplemented!() }
}
// ---------------------------------------------------------------- documented spellings
pub open spec fn n_str() -> Seq<char> { seq!['s', 't', 'r'] }
pub open spec fn n_std() -> Seq<char> { seq!['s', 't', 'd'] }
pub open spec fn n_core() -> Seq<char> { seq!['c', 'o', 'r', 'e'] }
pub open spec fn n_alloc() -> Seq<char> { seq!['a', 'l', 'l', 'o', 'c'] }
pub open spec fn n_primitive() -> Seq<char> { seq!['p', 'r', 'i', 'm', 'i', 't', 'i', 'v', 'e'] }
pub open spec fn n_borrow() -> Seq<char> { seq!['b', 'o', 'r', 'r', 'o', 'w'] }
pub open spec fn n_cow() -> Seq<char> { seq!['C', 'o', 'w'] }
/// a segment that is just this name
pub open spec fn bare(s: syn::PathSegment, n: Seq<char>) -> bool { s.ident.s() == n && s.arguments is None }
/// str, primitive::str, {std,core}::primitive::str, ::{std,core}::primitive::str
pub open spec fn str_path(t: syn::TypePath) -> bool {
    let s = t.segs();
    t.qself is None && (
        s.len() == 1 && t.path.leading_colon is None && bare(s[0], n_str())
        || s.len() == 2 && t.path.leading_colon is None && bare(s[0], n_primitive()) && bare(s[1], n_str())
        || s.len() == 3 && (bare(s[0], n_std()) || bare(s[0], n_core())) && bare(s[1], n_primitive()) && bare(s[2], n_str()))
}
/// str, or a shared reference to it (with its lifetime)
pub open spec fn str_type(t: syn::Type) -> Option<Option<syn::Lifetime>> {
    match t {
        syn::Type::Path(p) => if str_path(p) { Some(None) } else { None },
        syn::Type::Reference(r) => match *r.elem { syn::Type::Path(p) => if r.mutability is None && str_path(p) { Some(r.lifetime) } else { None }, _ => None },
        _ => None,
    }
}
pub open spec fn is_str_arg(a: syn::GenericArgument) -> bool { match a { syn::GenericArgument::Type(syn::Type::Path(p)) => str_path(p), _ => false } }
/// exactly Cow<str> or Cow<'a, str>
pub open spec fn cow_seg(s: Seq<syn::PathSegment>) -> Option<Option<syn::Lifetime>> {
    if s.len() == 1 && s[0].ident.s() == n_cow() { match s[0].arguments {
        syn::PathArguments::AngleBracketed(b) => { let a = b.args.v@;
            if a.len() == 1 && is_str_arg(a[0]) { Some(None) } else if a.len() == 2 && is_str_arg(a[1]) { match a[0] { syn::GenericArgument::Lifetime(l) => Some(Some(l)), _ => None } } else { None } },
        _ => None } } else { None }
}
pub open spec fn cow_mod(s: Seq<syn::PathSegment>) -> Option<Option<syn::Lifetime>> { if s.len() > 0 && bare(s[0], n_borrow()) { cow_seg(s.skip(1)) } else { None } }
pub open spec fn cow_root(s: Seq<syn::PathSegment>) -> Option<Option<syn::Lifetime>> { if s.len() > 0 && (bare(s[0], n_std()) || bare(s[0], n_alloc())) { cow_mod(s.skip(1)) } else { None } }
/// Cow, borrow::Cow, {std,alloc}::borrow::Cow, ::{std,alloc}::borrow::Cow
pub open spec fn cow_path(t: syn::TypePath) -> Option<Option<syn::Lifetime>> {
    let s = t.segs();
    if t.qself is Some { None } else if t.path.leading_colon is Some { cow_root(s) } else if cow_root(s) is Some { cow_root(s) } else if cow_mod(s) is Some { cow_mod(s) } else { cow_seg(s) }
}
pub open spec fn cow_type(t: syn::Type) -> Option<Option<syn::Lifetime>> { match t { syn::Type::Path(p) => cow_path(p), _ => None } }
pub open spec fn kind_of(t: syn::Type) -> TypeKind { match str_type(t) { Some(l) => TypeKind::Str(l), None => match cow_type(t) { Some(l) => TypeKind::CowStr(l), None => TypeKind::Other } } }

// ---------------------------------------------------------------- is_str_path
/// one of the first n
pub open spec fn among(v: Seq<TokenStream>, n: int, x: Seq<Tok>) -> bool decreases n { n > 0 && (v[n - 1]@ == x || among(v, n - 1, x)) }
pub proof fn among_mono(v: Seq<TokenStream>, m: int, n: int, x: Seq<Tok>) requires 0 <= m <= n, among(v, m, x) ensures among(v, n, x) decreases n - m { if m < n { among_mono(v, m, n - 1, x); } }
pub proof fn plain_sub(a: Seq<Tok>, b: Seq<Tok>) requires plain(a + b) ensures plain(a), plain(b)
{
    assert forall|i: int| 0 <= i < a.len() implies !(#[trigger] a[i] is Other) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies !(#[trigger] b[i] is Other) by { assert((a + b)[a.len() + i] == b[i]); }
}
pub open spec fn no_args(s: Seq<syn::PathSegment>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).arguments is None }
pub proof fn segs_plain(s: Seq<syn::PathSegment>, n: int) requires 0 <= n <= s.len() ensures plain(seg_toks(s, n)) == no_args(s, n), no_args(s, n) ==> seg_toks(s, n).len() == (if n == 0 { 0int } else { 2 * n - 1 }) decreases n
{
    tok_laws();
    if n > 0 {
        segs_plain(s, n - 1);
        let a = seg_toks(s, n - 1); let b = if n > 1 { seq![Tok::Colon2] } else { Seq::<Tok>::empty() }; let c = seq![Tok::Id(s[n - 1].ident.s())]; let d = args_toks(s[n - 1].arguments);
        assert(seg_toks(s, n) == a + b + c + d);
        if plain(a + b + c + d) { plain_sub(a + b + c, d); plain_sub(a + b, c); plain_sub(a, b); }
        if no_args(s, n) { assert(s[n - 1].arguments is None); assert(no_args(s, n - 1)); assert(a + b + c + d =~= a + b + c); }
    }
}
pub open spec fn lead(t: syn::TypePath) -> Seq<Tok> { if t.path.leading_colon is Some { seq![Tok::Colon2] } else { Seq::<Tok>::empty() } }
/// the spellings, as tokens
pub open spec fn six(i: int) -> Seq<Tok> {
    if i == 0 { seq![Tok::Id(n_str())] } else if i == 1 { seq![Tok::Id(n_primitive()), Tok::Colon2, Tok::Id(n_str())] }
    else if i == 2 { seq![Tok::Id(n_std()), Tok::Colon2, Tok::Id(n_primitive()), Tok::Colon2, Tok::Id(n_str())] }
    else if i == 3 { seq![Tok::Colon2, Tok::Id(n_std()), Tok::Colon2, Tok::Id(n_primitive()), Tok::Colon2, Tok::Id(n_str())] }
    else if i == 4 { seq![Tok::Id(n_core()), Tok::Colon2, Tok::Id(n_primitive()), Tok::Colon2, Tok::Id(n_str())] }
    else { seq![Tok::Colon2, Tok::Id(n_core()), Tok::Colon2, Tok::Id(n_primitive()), Tok::Colon2, Tok::Id(n_str())] }
}
pub open spec fn is_six(x: Seq<Tok>) -> bool { x == six(0) || x == six(1) || x == six(2) || x == six(3) || x == six(4) || x == six(5) }
pub proof fn str_toks(t: syn::TypePath) ensures str_path(t) == is_six(t.toks())
{
    tok_laws();
    let s = t.segs(); let n = s.len() as int; let x = t.toks();
    if t.qself is Some { if is_six(x) { assert(plain(x)); } }
    else {
        segs_plain(s, n);
        let st = seg_toks(s, n);
        assert(x == lead(t) + st);
        if is_six(x) { assert(plain(x)); plain_sub(lead(t), st); }
        if plain(st) {
            assert(no_args(s, n));
            if n <= 3 {
                reveal_with_fuel(seg_toks, 4);
                if n == 1 { assert(s[0].arguments is None); assert(st =~= seq![Tok::Id(s[0].ident.s())]); }
                if n == 2 { assert(s[0].arguments is None && s[1].arguments is None); assert(st =~= seq![Tok::Id(s[0].ident.s()), Tok::Colon2, Tok::Id(s[1].ident.s())]); }
                if n == 3 { assert(s[0].arguments is None && s[1].arguments is None && s[2].arguments is None); assert(st =~= seq![Tok::Id(s[0].ident.s()), Tok::Colon2, Tok::Id(s[1].ident.s()), Tok::Colon2, Tok::Id(s[2].ident.s())]); }
                if t.path.leading_colon is Some {
                    if n == 1 { assert(x =~= seq![Tok::Colon2, Tok::Id(s[0].ident.s())]); }
                    if n == 2 { assert(x =~= seq![Tok::Colon2, Tok::Id(s[0].ident.s()), Tok::Colon2, Tok::Id(s[1].ident.s())]); }
                    if n == 3 { assert(x =~= seq![Tok::Colon2, Tok::Id(s[0].ident.s()), Tok::Colon2, Tok::Id(s[1].ident.s()), Tok::Colon2, Tok::Id(s[2].ident.s())]); }
                } else { assert(x =~= st); }
                assert(x.len() == (if t.path.leading_colon is Some { 1int } else { 0 }) + st.len());
                if is_six(x) { split(x, t); }
            } else { if is_six(x) { assert(x.len() <= 6); assert(st.len() >= 7); } }
        }
    }
}
pub proof fn split(x: Seq<Tok>, t: syn::TypePath) requires is_six(x), t.qself is None, t.segs().len() <= 3, t.toks() == x, no_args(t.segs(), t.segs().len() as int) ensures str_path(t)
{
    let s = t.segs(); let n = s.len() as int;
    reveal_with_fuel(seg_toks, 4);
    tok_laws();
    if n >= 1 { assert(s[0].arguments is None); }
    if n >= 2 { assert(s[1].arguments is None); }
    if n >= 3 { assert(s[2].arguments is None); }
    let l = lead(t).len() as int;
    if l == 1 { assert(x[0] == Tok::Colon2); }
    if n >= 1 { assert(x[l] == Tok::Id(s[0].ident.s())); }
    if n >= 2 { assert(x[l + 2] == Tok::Id(s[1].ident.s())); }
    if n >= 3 { assert(x[l + 4] == Tok::Id(s[2].ident.s())); }
    assert(x.len() == l + (if n == 0 { 0int } else { 2 * n - 1 }));
}
// ---------------------------------------------------------------- parsing
//@item sscanf_macro/src/ty.rs enum TypeKind
/// a piece of the format string: any (its own contract is in the format string's unit)
#[verifier::external_body] pub struct StrLitSlice<'a> { x: &'a str }
impl<'a> StrLitSlice<'a> {
    pub uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body] pub fn text(&self) -> (r: &str) ensures r@ == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
//@item sscanf_macro/src/ty.rs enum TypeSource
//@item sscanf_macro/src/ty.rs struct Type
pub trait Parse: Sized { spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)>; }
pub trait Peek: Sized { spec fn peeked(t: Seq<Tok>) -> bool; }
#[verifier::external_body] pub struct TokAnd { x: usize }
pub uninterp spec fn p_and(t: Seq<Tok>) -> bool;
pub uninterp spec fn p_reference(t: Seq<Tok>) -> Option<(syn::TypeReference, Seq<Tok>)>;
pub uninterp spec fn p_path(t: Seq<Tok>) -> Option<(syn::TypePath, Seq<Tok>)>;
impl Peek for TokAnd { open spec fn peeked(t: Seq<Tok>) -> bool { p_and(t) } }
impl Parse for syn::TypeReference { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_reference(t) } }
impl Parse for syn::TypePath { open spec fn parsed(t: Seq<Tok>) -> Option<(Self, Seq<Tok>)> { p_path(t) } }
impl syn::TypeReference { pub fn into_type(self) -> (r: syn::Type) ensures r == syn::Type::Reference(self) { syn::Type::Reference(self) } }
impl syn::TypePath { pub fn into_type(self) -> (r: syn::Type) ensures r == syn::Type::Path(self) { syn::Type::Path(self) } }
pub struct ParseBuffer { pub x: usize }
impl ParseBuffer {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn peek<T: Peek>(&self) -> (r: bool) ensures r == T::peeked(self@) { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: Parse>(&mut self) -> (r: Result<T>) ensures match T::parsed(old(self)@) { Some((v, rest)) => r == Ok::<T, Error>(v) && final(self)@ == rest, None => r is Err } { unimplemented!() }
}
/// the types that are taken: a path, or `&str` without a lifetime
pub open spec fn own_at(t: Seq<Tok>) -> Option<(syn::Type, Seq<Tok>)> {
    if p_and(t) { match p_reference(t) { None => None, Some((r, rest)) => if str_type(syn::Type::Reference(r)) == Some(None::<syn::Lifetime>) { Some((syn::Type::Reference(r), rest)) } else { None } } }
    else { match p_path(t) { None => None, Some((p, rest)) => Some((syn::Type::Path(p), rest)) } }
}
pub open spec fn own_type(t: Seq<Tok>, res: Result<Type<'_>>, rest: Seq<Tok>) -> bool {
    match own_at(t) { None => res is Err, Some((ty, r)) => match res { Ok(x) => x.ty == ty && x.kind == kind_of(ty) && x.source is External && rest == r, Err(_) => false } }
}
/// the tokens are one type and nothing else
pub open spec fn own_whole(t: Seq<Tok>) -> Option<syn::Type> { match own_at(t) { Some((ty, rest)) => if rest.len() == 0 { Some(ty) } else { None }, None => None } }
/// Parse for Type, by its own contract
pub trait Own: Sized { spec fn made_of(self, ty: syn::Type) -> bool; }
impl<'a> Own for Type<'a> { open spec fn made_of(self, ty: syn::Type) -> bool { self.ty == ty && self.kind == kind_of(ty) && self.source is External } }
}
