// Model of what the macro functions use of syn and quote (trusted), and the documented meaning of a
// format with its types. Tokens are looked at as the data that is pasted into them, in order: the fixed
// text of a quote! is not part of it (the emitted code of the units emitted_* is).
verus! {
/// what is pasted into a piece of code
pub ghost enum Tok { Id(Seq<char>), Colon2, Part(PartV), Cap(CapV), Match(MatchV), Raw(int), Lt(Seq<char>), Fail }
/// one piece of a regex: literal text, the REGEX of a type, or a text for this placeholder
pub ghost enum PartV { Lit(Seq<char>), Ty(syn::Type), Custom(Seq<char>) }
/// number of capture groups: one, or NUM_CAPTURES of a type
pub ghost enum CapV { One, Ty(syn::Type) }
pub ghost enum ConvV { Str, CowStr, Ty(syn::Type), Custom(Seq<Tok>) }
/// what turns the captures of a placeholder into a value
pub ghost struct MatchV { pub ty: syn::Type, pub caps: CapV, pub conv: ConvV }

#[verifier::external_body] pub struct TokenStream { x: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { x: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct FullSpan { x: usize }
impl FullSpan {
    #[verifier::external_body] pub fn from_spanned<T>(t: &T) -> FullSpan { unimplemented!() }
    #[verifier::external_body] pub fn from_span(s: Span) -> FullSpan { unimplemented!() }
    #[verifier::external_body] pub fn apply(self, a: TokenStream, b: TokenStream) -> (r: TokenStream) ensures r@ == a@ + b@ { unimplemented!() }
}
impl<'a> StrLitSlice<'a> { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl TokenStream {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn with_span(self, s: Span) -> (r: TokenStream) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, t: TokenStream) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_id(self, s: &str) -> (r: TokenStream) ensures r@ == self@.push(Tok::Id(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_colon2(self) -> (r: TokenStream) ensures r@ == self@.push(Tok::Colon2) { unimplemented!() }
    #[verifier::external_body] pub fn vx_add<T: ToTokens>(self, x: &T) -> (r: TokenStream) ensures r@ == self@ + x.toks() { unimplemented!() }
}
/// what is pasted for a value
pub trait ToTokens { spec fn toks(&self) -> Seq<Tok>; }
impl ToTokens for TokenStream { open spec fn toks(&self) -> Seq<Tok> { self@ } }
impl<T: ToTokens> ToTokens for &T { open spec fn toks(&self) -> Seq<Tok> { (**self).toks() } }
impl<T: ToTokens> ToTokens for Vec<T> { open spec fn toks(&self) -> Seq<Tok> { flat(self@, self@.len() as int) } }
pub open spec fn flat<T: ToTokens>(v: Seq<T>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { flat(v, n - 1) + v[n - 1].toks() } }
pub uninterp spec fn raw_toks<T>(t: T) -> Seq<Tok>;
pub trait VxClone: Sized { spec fn same(&self, o: &Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.same(&r); }
impl VxClone for String { open spec fn same(&self, o: &Self) -> bool { o@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: String) { unimplemented!() } }
impl VxClone for syn::Type { open spec fn same(&self, o: &Self) -> bool { *o == *self } #[verifier::external_body] fn vx_clone(&self) -> (r: syn::Type) { unimplemented!() } }
impl VxClone for TokenStream { open spec fn same(&self, o: &Self) -> bool { o@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: TokenStream) { unimplemented!() } }
impl<'a> VxClone for StrLitSlice<'a> { open spec fn same(&self, o: &Self) -> bool { o.s() == self.s() && o.lo() == self.lo() && o.hi() == self.hi() && o.raw() == self.raw() } #[verifier::external_body] fn vx_clone(&self) -> (r: StrLitSlice<'a>) { unimplemented!() } }
/// derived Clone of Type (its format slice: same place)
impl<'a> VxClone for Type<'a> { open spec fn same(&self, o: &Self) -> bool { o.ty == self.ty && o.kind == self.kind } #[verifier::external_body] fn vx_clone(&self) -> (r: Type<'a>) { unimplemented!() } }
pub trait VxInto { spec fn text(&self) -> Seq<char>; fn vx_into(self) -> (r: String) where Self: Sized ensures r@ == self.text(); }
impl VxInto for &str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxInto for &String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn str_parse_usize(s: &str) -> (r: Result<usize, IntErr>)
    ensures match unsigned(s@, 10, usize::MAX as int) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }
{ unimplemented!() }
#[verifier::external_body] pub struct StrLit { x: usize }
impl StrLit { pub uninterp spec fn slice(&self) -> StrLitSlice<'_>; #[verifier::external_body] pub fn to_slice(&self) -> (r: StrLitSlice<'_>) ensures r == self.slice() { unimplemented!() } }
#[verifier::external_body] pub fn string_insert(s: &mut String, i: usize, c: char) requires i == 0 ensures final(s)@ == seq![c] + old(s)@ { unimplemented!() }
#[verifier::external_body] pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ unimplemented!() }
pub mod syn {
    use super::*;
    pub use super::syn_more::*;
    #[verifier::external_body] pub struct Ident { x: usize }
    impl Ident { pub uninterp spec fn s(&self) -> Seq<char>; }
    pub struct Lifetime { pub ident: Ident }
    pub type Result<T> = std::result::Result<T, Error>;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { x: usize }
    #[verifier::external_body] pub struct Type { x: usize }
    #[verifier::external_body] pub struct Expr { x: usize }
    impl ToTokens for Expr { open spec fn toks(&self) -> Seq<Tok> { raw_toks(*self) } }
    impl Type { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
    /// tokens that are the name str
    #[verifier::external_body] pub fn parse2(t: TokenStream) -> (r: Result<Type>) ensures t@ == seq![Tok::Id(seq!['s', 't', 'r'])] ==> r is Ok && r->Ok_0 == str_ty() { unimplemented!() }
    impl ToTokens for Type { open spec fn toks(&self) -> Seq<Tok> { raw_toks(*self) } }
}
/// the type `str`
pub uninterp spec fn str_ty() -> syn::Type;
//@item sscanf_macro/src/ty.rs enum TypeKind
//@item sscanf_macro/src/ty.rs enum TypeSource
//@item sscanf_macro/src/ty.rs struct Type
//@item sscanf_macro/src/regex_parts.rs enum NumCaptures
//@item sscanf_macro/src/regex_parts.rs enum RegexPart
//@item sscanf_macro/src/regex_parts.rs enum Converter
//@item sscanf_macro/src/regex_parts.rs struct Matcher
//@item sscanf_macro/src/regex_parts.rs struct RegexParts
//@item sscanf_macro/src/lib.rs struct ScanfInner
//@item sscanf_macro/src/lib.rs struct Scanf
//@item sscanf_macro/src/error.rs struct ErrorBuilder
impl<'a> ToTokens for Type<'a> { open spec fn toks(&self) -> Seq<Tok> { raw_toks(self.ty) } }
pub open spec fn part_view(p: RegexPart) -> PartV { match p { RegexPart::Literal(s) => PartV::Lit(s@), RegexPart::FromType(t, _) => PartV::Ty(t), RegexPart::Custom(s) => PartV::Custom(s@) } }
pub open spec fn cap_view(c: NumCaptures) -> CapV { match c { NumCaptures::One => CapV::One, NumCaptures::FromType(t, _) => CapV::Ty(t) } }
pub open spec fn conv_view(c: Converter) -> ConvV { match c { Converter::Str => ConvV::Str, Converter::CowStr => ConvV::CowStr, Converter::FromType(t, _) => ConvV::Ty(t), Converter::Custom(t) => ConvV::Custom(t@) } }
pub open spec fn match_view(m: Matcher) -> MatchV { MatchV { ty: m.ty, caps: cap_view(m.num_captures), conv: conv_view(m.converter) } }
pub open spec fn parts_view(v: Seq<RegexPart>) -> Seq<PartV> { Seq::new(v.len(), |i: int| part_view(v[i])) }
pub open spec fn matches_view(v: Seq<Matcher>) -> Seq<MatchV> { Seq::new(v.len(), |i: int| match_view(v[i])) }
pub open spec fn caps_view(v: Seq<NumCaptures>) -> Seq<CapV> { Seq::new(v.len(), |i: int| cap_view(v[i])) }
pub broadcast proof fn parts_push(v: Seq<RegexPart>, p: RegexPart) ensures #[trigger] parts_view(v.push(p)) == parts_view(v).push(part_view(p)) { assert(parts_view(v.push(p)) =~= parts_view(v).push(part_view(p))); }
pub broadcast proof fn matches_push(v: Seq<Matcher>, p: Matcher) ensures #[trigger] matches_view(v.push(p)) == matches_view(v).push(match_view(p)) { assert(matches_view(v.push(p)) =~= matches_view(v).push(match_view(p))); }
pub broadcast proof fn caps_push(v: Seq<NumCaptures>, p: NumCaptures) ensures #[trigger] caps_view(v.push(p)) == caps_view(v).push(cap_view(p)) { assert(caps_view(v.push(p)) =~= caps_view(v).push(cap_view(p))); }
// what is pasted for them (their to_tokens: one piece of code each, about itself)
impl ToTokens for RegexPart { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Part(part_view(*self))] } }
impl ToTokens for NumCaptures { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Cap(cap_view(*self))] } }
impl ToTokens for Matcher { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Match(match_view(*self))] } }
impl VxClone for NumCaptures { open spec fn same(&self, o: &Self) -> bool { cap_view(*o) == cap_view(*self) } #[verifier::external_body] fn vx_clone(&self) -> (r: NumCaptures) { unimplemented!() } }
pub open spec fn part_toks(v: Seq<PartV>) -> Seq<Tok> { Seq::new(v.len(), |i: int| Tok::Part(v[i])) }
pub open spec fn cap_toks(v: Seq<CapV>) -> Seq<Tok> { Seq::new(v.len(), |i: int| Tok::Cap(v[i])) }
pub open spec fn match_toks(v: Seq<MatchV>) -> Seq<Tok> { Seq::new(v.len(), |i: int| Tok::Match(v[i])) }
pub proof fn flat_parts(v: Seq<RegexPart>, n: int) requires 0 <= n <= v.len() ensures flat(v, n) == part_toks(parts_view(v.take(n))) decreases n
{ if n > 0 { flat_parts(v, n - 1); assert(v.take(n) =~= v.take(n - 1).push(v[n - 1])); } assert(flat(v, n) =~= part_toks(parts_view(v.take(n)))); }
pub proof fn flat_caps(v: Seq<NumCaptures>, n: int) requires 0 <= n <= v.len() ensures flat(v, n) == cap_toks(caps_view(v.take(n))) decreases n
{ if n > 0 { flat_caps(v, n - 1); assert(v.take(n) =~= v.take(n - 1).push(v[n - 1])); } assert(flat(v, n) =~= cap_toks(caps_view(v.take(n)))); }
pub proof fn flat_matches(v: Seq<Matcher>, n: int) requires 0 <= n <= v.len() ensures flat(v, n) == match_toks(matches_view(v.take(n))) decreases n
{ if n > 0 { flat_matches(v, n - 1); assert(v.take(n) =~= v.take(n - 1).push(v[n - 1])); } assert(flat(v, n) =~= match_toks(matches_view(v.take(n)))); }

pub broadcast proof fn all_parts_toks(v: Vec<RegexPart>) ensures #[trigger] v.toks() == part_toks(parts_view(v@)) { flat_parts(v@, v@.len() as int); assert(v@.take(v@.len() as int) =~= v@); }
pub broadcast proof fn all_caps_toks(v: Vec<NumCaptures>) ensures #[trigger] v.toks() == cap_toks(caps_view(v@)) { flat_caps(v@, v@.len() as int); assert(v@.take(v@.len() as int) =~= v@); }
pub broadcast proof fn all_matches_toks(v: Vec<Matcher>) ensures #[trigger] v.toks() == match_toks(matches_view(v@)) { flat_matches(v@, v@.len() as int); assert(v@.take(v@.len() as int) =~= v@); }
pub broadcast proof fn empty_add(s: Seq<Tok>) ensures #[trigger] (Seq::<Tok>::empty() + s) == s { assert(Seq::<Tok>::empty() + s =~= s); }
// ---------------------------------------------------------------- one placeholder
/// the type a text stands for (unit types: from_str), and how a type is taken (unit types: kind_of)
#[verifier::external_body] pub struct Lex { x: usize }
pub uninterp spec fn lexed(s: Seq<char>) -> Option<Seq<Lex>>;
pub open spec fn type_of_text(s: Seq<char>) -> Option<syn::Type> { match lexed(s) { Some(t) => own_whole(t), None => None } }
pub uninterp spec fn kind_of(t: syn::Type) -> TypeKind;
/// number of bits of a primitive integer that is written by its name
pub open spec fn bits(s: Seq<char>) -> Option<int> {
    if s == seq!['u', '8'] || s == seq!['i', '8'] { Some(8int) }
    else if s == seq!['u', '1', '6'] || s == seq!['i', '1', '6'] { Some(16int) }
    else if s == seq!['u', '3', '2'] || s == seq!['i', '3', '2'] { Some(32int) }
    else if s == seq!['u', '6', '4'] || s == seq!['i', '6', '4'] { Some(64int) }
    else if s == seq!['u', '1', '2', '8'] || s == seq!['i', '1', '2', '8'] { Some(128int) }
    else if s == seq!['u', 's', 'i', 'z', 'e'] || s == seq!['i', 's', 'i', 'z', 'e'] { Some(usize::BITS as int) }
    else { None }
}
pub uninterp spec fn type_text(t: syn::Type) -> Seq<char>;
/// regex and conversion of a radix placeholder (units emitted_radix_*: for each of the types and options)
pub uninterp spec fn radix_re(radix: int, p: PrefixPolicy, t: syn::Type) -> Seq<char>;
pub uninterp spec fn radix_conv(radix: int, p: PrefixPolicy, t: syn::Type) -> Seq<Tok>;
pub ghost struct TyV { pub ty: syn::Type, pub kind: TypeKind }
pub open spec fn ty_view(t: Type) -> TyV { TyV { ty: t.ty, kind: t.kind } }
pub open spec fn tys_view(v: Seq<Type>) -> Seq<TyV> { Seq::new(v.len(), |i: int| ty_view(v[i])) }
pub broadcast proof fn tys_push(v: Seq<Type>, p: Type) ensures #[trigger] tys_view(v.push(p)) == tys_view(v).push(ty_view(p)) { assert(tys_view(v.push(p)) =~= tys_view(v).push(ty_view(p))); }
pub broadcast proof fn tys_none(v: Seq<Type>) ensures v.len() == 0 ==> #[trigger] tys_view(v) == Seq::<TyV>::empty() { if v.len() == 0 { assert(tys_view(v) =~= Seq::<TyV>::empty()); } }
pub open spec fn is_text(t: TyV) -> bool { !(t.kind is Other) }
/// the regex of a placeholder for a type: its own, the one of a radix, or the type's; None: an error
pub open spec fn ph_part(p: PhV, t: TyV) -> Option<PartV> {
    match p.cfg {
        None => Some(PartV::Ty(if is_text(t) { str_ty() } else { t.ty })),
        Some(c) => match c.kind {
            OptV::Regex(r) => Some(PartV::Custom(r)),
            OptV::Radix(n, pol) => if bits(type_text(t.ty)) is Some { Some(PartV::Custom(radix_re(n, pol, t.ty))) } else { None },
            OptV::Hashtag => None,
        },
    }
}
/// the conversion of a placeholder for a type
pub open spec fn ph_match(p: PhV, t: TyV) -> MatchV {
    MatchV { ty: t.ty, caps: if is_text(t) { CapV::One } else { CapV::Ty(t.ty) },
        conv: match t.kind { TypeKind::Str(_) => ConvV::Str, TypeKind::CowStr(_) => ConvV::CowStr,
            TypeKind::Other => match p.cfg { Some(c) => match c.kind { OptV::Radix(n, pol) => ConvV::Custom(radix_conv(n, pol, t.ty)), _ => ConvV::Ty(t.ty) }, None => ConvV::Ty(t.ty) } } }
}
/// the first n texts and placeholders of a format, each placeholder in its place
pub open spec fn parts_upto(texts: Seq<Seq<char>>, phs: Seq<PhV>, tys: Seq<TyV>, n: int) -> Seq<PartV> decreases n {
    if n <= 0 { Seq::empty() } else { parts_upto(texts, phs, tys, n - 1).push(PartV::Lit(texts[n - 1])).push(ph_part(phs[n - 1], tys[n - 1])->0) }
}
pub open spec fn matches_of(phs: Seq<PhV>, tys: Seq<TyV>, n: int) -> Seq<MatchV> { Seq::new(n as nat, |i: int| ph_match(phs[i], tys[i])) }
pub open spec fn ph_ok(phs: Seq<PhV>, tys: Seq<TyV>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] ph_part(phs[i], tys[i])) is Some }
/// the pieces of the whole regex
pub open spec fn all_parts(texts: Seq<Seq<char>>, phs: Seq<PhV>, tys: Seq<TyV>) -> Seq<PartV> { parts_upto(texts, phs, tys, phs.len() as int).push(PartV::Lit(texts.last())) }
/// one for the whole match, then each placeholder's
pub open spec fn caps_of(m: Seq<MatchV>) -> Seq<CapV> { Seq::new(m.len() + 1, |i: int| if i == 0 { CapV::One } else { m[i - 1].caps }) }
/// every placeholder's type and conversion; every placeholder's number of groups
pub open spec fn same_convs(m: Seq<MatchV>, phs: Seq<PhV>, tys: Seq<TyV>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).ty == ph_match(phs[i], tys[i]).ty && m[i].conv == ph_match(phs[i], tys[i]).conv }
pub open spec fn same_caps(m: Seq<MatchV>, phs: Seq<PhV>, tys: Seq<TyV>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).caps == ph_match(phs[i], tys[i]).caps }
pub broadcast proof fn joined(m: Seq<MatchV>, phs: Seq<PhV>, tys: Seq<TyV>, n: int) requires #[trigger] same_convs(m, phs, tys, n), #[trigger] same_caps(m, phs, tys, n) ensures m == matches_of(phs, tys, n)
{ assert forall|i: int| 0 <= i < n implies m[i] == matches_of(phs, tys, n)[i] by { assert(m[i].ty == ph_match(phs[i], tys[i]).ty); assert(m[i].caps == ph_match(phs[i], tys[i]).caps); } assert(m =~= matches_of(phs, tys, n)); }

// ---------------------------------------------------------------- the types of the placeholders of sscanf!
/// how many of the first i placeholders have no name
pub open spec fn unnamed(phs: Seq<PhV>, i: int) -> int decreases i { if i <= 0 { 0 } else { unnamed(phs, i - 1) + (if phs[i - 1].ident is None { 1int } else { 0 }) } }
/// the parameter placeholder i takes, if it takes one
pub open spec fn param_of(phs: Seq<PhV>, i: int) -> Option<int> { match phs[i].ident { None => Some(unnamed(phs, i)), Some(n) => unsigned(n.2, 10, usize::MAX as int) } }
/// the type of placeholder i; None: an error
pub open spec fn type_at(phs: Seq<PhV>, i: int, given: Seq<TyV>) -> Option<TyV> {
    match param_of(phs, i) {
        Some(k) => if 0 <= k < given.len() { Some(given[k]) } else { None },
        None => match type_of_text((phs[i].ident->0).2) { Some(t) => Some(TyV { ty: t, kind: kind_of(t) }), None => None },
    }
}
pub open spec fn types_of(phs: Seq<PhV>, given: Seq<TyV>, n: int) -> Seq<TyV> { Seq::new(n as nat, |i: int| type_at(phs, i, given)->0) }
pub open spec fn types_ok(phs: Seq<PhV>, given: Seq<TyV>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] type_at(phs, i, given)) is Some }
/// parameter k is taken by one of the first n placeholders
pub open spec fn taken(phs: Seq<PhV>, k: int, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] param_of(phs, i) == Some(k) }
pub open spec fn all_taken(phs: Seq<PhV>, m: int) -> bool { forall|k: int| 0 <= k < m ==> #[trigger] taken(phs, k, phs.len() as int) }
pub proof fn unnamed_bound(phs: Seq<PhV>, i: int) requires 0 <= i <= phs.len() ensures 0 <= unnamed(phs, i) <= i decreases i { if i > 0 { unnamed_bound(phs, i - 1); } }
/// the format between ^ and $
pub open spec fn anchored(t: Seq<Seq<char>>) -> Seq<Seq<char>> { let a = t.update(0, seq!['^'] + t[0]); a.update(a.len() - 1, a.last().push('$')) }
/// one more text than placeholders
pub proof fn one_more(s: Seq<char>, raw: bool, esc: bool, base: int, k: int, parts: Seq<Seq<char>>, cur: Seq<char>, phs: Seq<PhV>)
    requires parts.len() == phs.len()
    ensures match format_from(s, raw, esc, base, k, parts, cur, phs) { Fmt::Ok(t, p) => t.len() == p.len() + 1, _ => true }
    decreases s.len() - k
{
    if k < 0 || k >= s.len() { }
    else if s[k] == '{' {
        if k + 1 < s.len() && s[k + 1] == '{' { one_more(s, raw, esc, base, k + 2, parts, literal(cur, '{', esc), phs) }
        else { match placeholder_at(s, raw, k, base) { PhRes::Err(a, b) => {}, PhRes::Ok(p, k2) => if k < k2 <= s.len() { one_more(s, raw, esc, base, k2, parts.push(cur.push('(')), seq![')'], phs.push(p)) } } }
    }
    else if s[k] == '}' { if k + 1 < s.len() && s[k + 1] == '}' { one_more(s, raw, esc, base, k + 2, parts, literal(cur, '}', esc), phs) } }
    else if s[k] == '\\' && !raw {
        let (c, k2) = escape_at(s, k + 1);
        if k < k2 <= s.len() { one_more(s, raw, esc, base, k2, parts, match c { Some(c) => literal(cur, c, esc), None => cur }, phs) }
    }
    else { one_more(s, raw, esc, base, k + 1, parts, literal(cur, s[k], esc), phs) }
}
/// what the tokens of an error are
pub uninterp spec fn etoks(e: Error) -> Seq<Tok>;
pub open spec fn is_error(t: Seq<Tok>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Fail }
/// every error is one or more compile_error! (their constructors: syn::Error::to_compile_error; ErrorBuilder below)
#[verifier::external_body] pub broadcast proof fn error_tokens(e: Error) ensures is_error(#[trigger] etoks(e)) { }
/// some error more
pub open spec fn grown(a: Seq<Tok>, b: Seq<Tok>) -> bool { b.len() > a.len() && (a.len() == 0 || is_error(a) ==> is_error(b)) }
pub proof fn taken_step(phs: Seq<PhV>, n: int) requires 0 <= n < phs.len() ensures forall|k: int| #[trigger] taken(phs, k, n + 1) == (taken(phs, k, n) || param_of(phs, n) == Some(k)) {
    assert forall|k: int| #[trigger] taken(phs, k, n + 1) == (taken(phs, k, n) || param_of(phs, n) == Some(k)) by {
        if taken(phs, k, n + 1) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] param_of(phs, i) == Some(k); if i < n { assert(param_of(phs, i) == Some(k)); } }
        if taken(phs, k, n) { let i = choose|i: int| 0 <= i < n && #[trigger] param_of(phs, i) == Some(k); assert(param_of(phs, i) == Some(k)); }
    }
}
pub proof fn types_step(phs: Seq<PhV>, given: Seq<TyV>, n: int) requires 0 <= n < phs.len()
    ensures types_ok(phs, given, n + 1) == (types_ok(phs, given, n) && type_at(phs, n, given) is Some), types_of(phs, given, n + 1) == types_of(phs, given, n).push(type_at(phs, n, given)->0)
{ if types_ok(phs, given, n) && type_at(phs, n, given) is Some { assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] type_at(phs, i, given)) is Some by { if i < n { } } }
  if types_ok(phs, given, n + 1) { assert(type_at(phs, n, given) is Some); }
  assert(types_of(phs, given, n + 1) =~= types_of(phs, given, n).push(type_at(phs, n, given)->0)); }
#[verifier::external_body] pub fn vx_error_of(t: TokenStream) -> (r: Error) requires is_error(t@) ensures etoks(r) == t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_error_at<T, M>(t: T, m: M) -> Error { unimplemented!() }
#[verifier::external_body] pub fn vx_error_new<M>(t: Span, m: M) -> Error { unimplemented!() }
#[verifier::external_body] pub fn vx_error_tokens(e: Error) -> (r: TokenStream) ensures r@ == etoks(e) { unimplemented!() }
#[verifier::external_body] pub fn vx_take_tokens(t: &mut TokenStream) -> (r: TokenStream) ensures r@ == old(t)@, final(t)@ == Seq::<Tok>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
/// a pasted piece of code as the macro's result
pub trait VxTokens { spec fn out(&self) -> Seq<Tok>; fn vx_tokens(self) -> (r: TokenStream) where Self: Sized ensures r@ == self.out(); }
impl VxTokens for TokenStream { open spec fn out(&self) -> Seq<Tok> { self@ } fn vx_tokens(self) -> (r: TokenStream) { self } }
impl VxTokens for Error { open spec fn out(&self) -> Seq<Tok> { etoks(*self) } fn vx_tokens(self) -> (r: TokenStream) { vx_error_tokens(self) } }
pub open spec fn fmt_of(s: StrLitSlice, esc: bool) -> Fmt { format_from(s.s(), s.raw(), esc, s.lo(), 0, Seq::empty(), Seq::empty(), Seq::empty()) }
/// what the regex of a format and its types is made of: the pieces in order, then the numbers of groups
pub open spec fn regex_toks(texts: Seq<Seq<char>>, phs: Seq<PhV>, tys: Seq<TyV>) -> Seq<Tok> { part_toks(all_parts(texts, phs, tys)) + cap_toks(caps_of(matches_of(phs, tys, phs.len() as int))) }
/// what is accepted: every placeholder has a type, every type a placeholder, every option fits its type
pub open spec fn accepted(phs: Seq<PhV>, given: Seq<TyV>) -> bool { let n = phs.len() as int;
    types_ok(phs, given, n) && all_taken(phs, given.len() as int) && ph_ok(phs, types_of(phs, given, n), n) }
pub ghost enum Code { Err, Ok(Seq<Seq<char>>, Seq<PhV>, Seq<TyV>) }
pub open spec fn code_of(fmt: StrLitSlice, g: Seq<TyV>, esc: bool) -> Code {
    match fmt_of(fmt, esc) {
        Fmt::Err(_, _) => Code::Err,
        Fmt::Ok(t, p) => if accepted(p, g) { Code::Ok(anchored(t), p, types_of(p, g, p.len() as int)) } else { Code::Err },
    }
}
// ---------------------------------------------------------------- what the macros are called with
#[verifier::external_body] pub fn vx_err() -> syn::Error { unimplemented!() }
#[verifier::external_body] pub struct TokComma { x: usize }
pub uninterp spec fn p_comma(t: Seq<Lex>) -> Option<Seq<Lex>>;
pub uninterp spec fn p_lit(t: Seq<Lex>) -> Option<(StrLit, Seq<Lex>)>;
pub uninterp spec fn p_expr(t: Seq<Lex>) -> Option<(syn::Expr, Seq<Lex>)>;
pub uninterp spec fn own_at(t: Seq<Lex>) -> Option<(syn::Type, Seq<Lex>)>;
pub open spec fn own_whole(t: Seq<Lex>) -> Option<syn::Type> { match own_at(t) { Some((ty, rest)) => if rest.len() == 0 { Some(ty) } else { None }, None => None } }
/// a parser that takes its input or fails: what it makes of it, and what is left
pub trait Parse: Sized { spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool; }
impl Parse for TokComma { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match p_comma(t) { Some(k) => r is Ok && rest == k, None => r is Err } } }
impl Parse for StrLit { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match p_lit(t) { Some((x, k)) => r is Ok && r->Ok_0 == x && rest == k, None => r is Err } } }
impl Parse for syn::Expr { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match p_expr(t) { Some((x, k)) => r is Ok && r->Ok_0 == x && rest == k, None => r is Err } } }
impl<'a> Parse for Type<'a> { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match own_at(t) { Some((x, k)) => r is Ok && (r->Ok_0).ty == x && (r->Ok_0).kind == kind_of(x) && rest == k, None => r is Err } } }
impl Parse for ScanfInner { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match inner_args(t) { Some((f, ty)) => r is Ok && (r->Ok_0).fmt == f && tys_view((r->Ok_0).type_tokens@) == ty && rest.len() == 0, None => r is Err } } }
impl Parse for Scanf { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match scan_args(t) { Some((e, f, ty)) => r is Ok && (r->Ok_0).src_str == e && (r->Ok_0).inner.fmt == f && tys_view((r->Ok_0).inner.type_tokens@) == ty && rest.len() == 0, None => r is Err } } }
pub open spec fn as_ty(t: syn::Type) -> TyV { TyV { ty: t, kind: kind_of(t) } }
/// types, each followed by a comma except maybe the last (syn: parse_terminated)
pub open spec fn types_from(t: Seq<Lex>, acc: Seq<TyV>) -> Option<Seq<TyV>> decreases t.len() {
    if t.len() == 0 { Some(acc) } else { match own_at(t) { None => None, Some((ty, k)) => if k.len() == 0 { Some(acc.push(as_ty(ty))) } else { match p_comma(k) { None => None, Some(k2) => if k2.len() < t.len() { types_from(k2, acc.push(as_ty(ty))) } else { None } } } } }
}
/// format [, types]
pub open spec fn inner_args(t: Seq<Lex>) -> Option<(StrLit, Seq<TyV>)> {
    if t.len() == 0 { None } else { match p_lit(t) { None => None, Some((f, k)) => if k.len() == 0 { Some((f, Seq::empty())) } else { match p_comma(k) { None => None, Some(k2) => match types_from(k2, Seq::empty()) { None => None, Some(v) => Some((f, v)) } } } } }
}
/// input, format [, types]
pub open spec fn scan_args(t: Seq<Lex>) -> Option<(syn::Expr, StrLit, Seq<TyV>)> {
    if t.len() == 0 { None } else { match p_expr(t) { None => None, Some((e, k)) => if k.len() == 0 { None } else { match p_comma(k) { None => None, Some(k2) => if k2.len() == 0 { None } else { match inner_args(k2) { None => None, Some((f, v)) => Some((e, f, v)) } } } } } }
}
pub struct ParseBuffer { pub x: usize }
impl ParseBuffer {
    pub uninterp spec fn view(&self) -> Seq<Lex>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn parse<T: Parse>(&mut self) -> (r: syn::Result<T>) ensures T::parses(old(self)@, r, final(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn parse_types(&mut self) -> (r: syn::Result<VxTypes>) ensures match types_from(old(self)@, Seq::empty()) { Some(v) => r is Ok && tys_view((r->Ok_0).v@) == v && final(self)@.len() == 0, None => r is Err } { unimplemented!() }
}
pub struct VxTypes { pub v: Vec<Type<'static>> }
impl VxTypes { pub fn into_iter(self) -> (r: VxTypes) ensures r == self { self } pub fn collect(self) -> (r: Vec<Type<'static>>) ensures r == self.v { self.v } }
impl TokenStream { pub uninterp spec fn lex(&self) -> Seq<Lex>; }
/// parse_macro_input!: parses everything or returns the error's tokens
#[verifier::external_body] pub fn vx_macro_input<T: Parse>(t: TokenStream) -> (r: std::result::Result<T, TokenStream>)
    ensures match r { Ok(x) => exists|rest: Seq<Lex>| rest.len() == 0 && #[trigger] T::parses(t.lex(), syn::Result::<T>::Ok(x), rest),
        Err(e) => is_error(e@) && exists|q: syn::Result<T>, rest: Seq<Lex>| (q is Err || rest.len() > 0) && #[trigger] T::parses(t.lex(), q, rest) }
{ unimplemented!() }
/// what sscanf! and sscanf_unescaped! paste: the regex's pieces and numbers of groups, the input, then what makes the values
pub open spec fn is_scan(out: Seq<Tok>, t: Seq<Lex>, esc: bool) -> bool {
    match scan_args(t) { None => is_error(out), Some((e, f, ty)) => is_scan_of(out, e, f.slice(), ty, esc) }
}
pub open spec fn is_scan_of(out: Seq<Tok>, e: syn::Expr, f: StrLitSlice, ty: Seq<TyV>, esc: bool) -> bool {
    match code_of(f, ty, esc) { Code::Err => is_error(out), Code::Ok(tx, p, tys) => out == regex_toks(tx, p, tys) + raw_toks(e) + match_toks(matches_of(p, tys, p.len() as int)) }
}
/// what sscanf_get_regex! pastes
pub open spec fn is_get_regex(out: Seq<Tok>, t: Seq<Lex>) -> bool {
    match inner_args(t) { None => is_error(out), Some((f, ty)) => match code_of(f.slice(), ty, true) { Code::Err => is_error(out), Code::Ok(tx, p, tys) => out == regex_toks(tx, p, tys) } }
}
} // verus!
