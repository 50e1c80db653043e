// What derive.rs uses of syn and std (trusted model), and the documented meaning of #[derive(FromScanf)].
verus! {
pub mod syn_more {
    use super::*;
    #[verifier::external_body] pub struct Attribute { x: usize }
    #[verifier::external_body] pub struct VxBody { x: usize }
    impl VxBody { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
    pub struct ExprClosure { pub body: VxBody }
    #[verifier::external_body] pub struct DataUnion { x: usize }
    impl ToTokens for ExprClosure { open spec fn toks(&self) -> Seq<Tok> { raw_toks(*self) } }
    pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<syn::Ident>, pub ty: syn::Type }
    /// the fields of a struct or variant, in order
    pub struct Fields { pub v: Vec<Field> }
    impl Fields {
        pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.v@.len() == 0) { self.v.len() == 0 }
    }
    pub struct Variant { pub attrs: Vec<Attribute>, pub ident: syn::Ident, pub fields: Fields }
    pub struct DataStruct { pub fields: Fields }
    pub struct DataEnum { pub variants: Vec<Variant> }
    impl syn::Ident {
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.s() { unimplemented!() }
        pub uninterp spec fn bare(&self) -> Seq<char>;
        /// without r#
        #[verifier::external_body] pub fn unraw(&self) -> (r: syn::Ident) ensures r.s() == self.bare() { unimplemented!() }
    }
    impl ToTokens for syn::Ident { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Id(self.s())] } }
    #[verifier::external_body] pub struct LitStr { x: usize }
    pub uninterp spec fn fresh(s: Seq<char>) -> LitStr;
    impl LitStr { #[verifier::external_body] pub fn new(s: &str, p: Span) -> (r: LitStr) ensures r == fresh(s@) { unimplemented!() } }
    // generics: the parameters and bounds that are added; what was there is the same everywhere
    #[verifier::external_body] pub struct GenericParam { x: usize }
    #[verifier::external_body] pub struct WherePredicate { x: usize }
    pub struct VxPunct<T> { pub v: Vec<T> }
    impl<T> VxPunct<T> { pub fn push(&mut self, x: T) ensures final(self).v@ == old(self).v@.push(x) { self.v.push(x) } }
    pub struct WhereClause { pub predicates: VxPunct<WherePredicate> }
    pub struct Generics { pub params: VxPunct<GenericParam>, pub wc: WhereClause }
    impl Generics {
        pub fn make_where_clause(&mut self) -> (r: &mut WhereClause) ensures *r == old(self).wc, final(self).wc == *final(r), final(self).params == old(self).params { &mut self.wc }
        #[verifier::external_body] pub fn split_for_impl(&self) -> (r: (ImplGenerics, TypeGenerics, Option<WhereTokens>)) ensures r.0.of() == *self, r.1.of() == *self, r.2.toks() == where_toks(*self) { unimplemented!() }
    }
    #[verifier::external_body] pub struct ImplGenerics { x: usize }
    #[verifier::external_body] pub struct TypeGenerics { x: usize }
    #[verifier::external_body] pub struct WhereTokens { x: usize }
    impl ImplGenerics { pub uninterp spec fn of(&self) -> Generics; }
    impl TypeGenerics { pub uninterp spec fn of(&self) -> Generics; }
    /// the parameters with their bounds, their names alone, the where clause
    pub uninterp spec fn impl_toks(g: Generics) -> Seq<Tok>;
    pub uninterp spec fn name_toks(g: Generics) -> Seq<Tok>;
    pub uninterp spec fn where_toks(g: Generics) -> Seq<Tok>;
    impl ToTokens for ImplGenerics { open spec fn toks(&self) -> Seq<Tok> { impl_toks(self.of()) } }
    impl ToTokens for TypeGenerics { open spec fn toks(&self) -> Seq<Tok> { name_toks(self.of()) } }
    impl ToTokens for WhereTokens { uninterp spec fn toks(&self) -> Seq<Tok>; }
    pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
    pub struct DeriveInput { pub attrs: Vec<Attribute>, pub vis: usize, pub ident: syn::Ident, pub generics: Generics, pub data: Data }
    impl syn::Lifetime { #[verifier::external_body] pub fn new(s: &str, p: Span) -> (r: syn::Lifetime) ensures s@ == seq!['\''] + r.ident.s() { unimplemented!() } }
}
impl Span { #[verifier::external_body] pub fn call_site() -> Span { unimplemented!() } }
impl TokenStream { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
impl<T: ToTokens> ToTokens for Option<T> { open spec fn toks(&self) -> Seq<Tok> { match *self { Some(x) => x.toks(), None => Seq::empty() } } }
impl ToTokens for syn::Lifetime { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Lt(self.ident.s())] } }
impl VxClone for syn::Lifetime { open spec fn same(&self, o: &Self) -> bool { *o == *self } #[verifier::external_body] fn vx_clone(&self) -> (r: syn::Lifetime) { unimplemented!() } }
impl VxClone for syn::Generics { open spec fn same(&self, o: &Self) -> bool { *o == *self } #[verifier::external_body] fn vx_clone(&self) -> (r: syn::Generics) { unimplemented!() } }
impl VxClone for syn::Ident { open spec fn same(&self, o: &Self) -> bool { *o == *self } #[verifier::external_body] fn vx_clone(&self) -> (r: syn::Ident) { unimplemented!() } }
/// a parameter 'a; a bound 'a: 'b
pub uninterp spec fn lt_param(a: Seq<char>) -> syn::GenericParam;
pub uninterp spec fn lt_bound(a: Seq<char>, b: Seq<char>) -> syn::WherePredicate;
#[verifier::external_body] pub fn vx_parse1(a: &syn::Lifetime) -> (r: syn::GenericParam) ensures r == lt_param(a.ident.s()) { unimplemented!() }
#[verifier::external_body] pub fn vx_parse2(a: &syn::Lifetime, b: &syn::Lifetime) -> (r: syn::WherePredicate) ensures r == lt_bound(a.ident.s(), b.ident.s()) { unimplemented!() }
pub fn vx_ident_eq(i: &syn::Ident, s: &str) -> (r: bool) ensures r == (i.s() == s@) { let t = i.to_string(); str_eq(t.as_str(), s) }
#[verifier::external_body] pub fn vx_replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { unimplemented!() }
// ---------------------------------------------------------------- sequences
/// moving the elements of a sequence out, each once
pub trait VxSeq { type Item; spec fn items(&self) -> Seq<Self::Item>; fn vx_vec(self) -> (r: Vec<Self::Item>) where Self: Sized ensures r@ == self.items(); }
impl<T> VxSeq for Vec<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } fn vx_vec(self) -> (r: Vec<T>) { self } }
impl VxSeq for syn::Fields { type Item = syn::Field; open spec fn items(&self) -> Seq<syn::Field> { self.v@ } fn vx_vec(self) -> (r: Vec<syn::Field>) { self.v } }
pub fn vx_seq<S: VxSeq>(v: S) -> (r: Vec<S::Item>) ensures r@ == v.items() { v.vx_vec() }
#[verifier::external_body] pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
/// adding all of another collection
pub trait VxExtend: Sized { spec fn joined(a: Self, b: Self, r: Self) -> bool; fn vx_add_all(&mut self, o: Self) ensures Self::joined(*old(self), o, *final(self)); }
impl<T> VxExtend for Vec<T> { open spec fn joined(a: Self, b: Self, r: Self) -> bool { r@ == a@ + b@ } #[verifier::external_body] fn vx_add_all(&mut self, o: Self) { unimplemented!() } }
impl VxExtend for HashSet<syn::Lifetime> { open spec fn joined(a: Self, b: Self, r: Self) -> bool { r@ == a@.union(b@) } #[verifier::external_body] fn vx_add_all(&mut self, o: Self) { unimplemented!() } }
pub fn vx_extend<T: VxExtend>(d: &mut T, o: T) ensures T::joined(*old(d), o, *final(d)) { d.vx_add_all(o) }
/// texts as keys
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: Vec<(K, V)> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(x) => self@.dom().contains(k@) && *x == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
}
/// lifetimes by their names; in no particular order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct HashSet<T> { x: Vec<T> }
impl HashSet<syn::Lifetime> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: syn::Lifetime) -> (r: bool) ensures final(self)@ == old(self)@.insert(v.ident.s()) { unimplemented!() }
}
pub open spec fn lists(v: Seq<syn::Lifetime>, s: Set<Seq<char>>) -> bool { (forall|i: int| 0 <= i < v.len() ==> s.contains((#[trigger] v[i]).ident.s())) && (forall|n: Seq<char>| #[trigger] s.contains(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).ident.s() == n) }
impl VxSeq for HashSet<syn::Lifetime> { type Item = syn::Lifetime; uninterp spec fn items(&self) -> Seq<syn::Lifetime>; #[verifier::external_body] fn vx_vec(self) -> (r: Vec<syn::Lifetime>) { unimplemented!() } }
#[verifier::external_body] pub broadcast proof fn set_items(s: HashSet<syn::Lifetime>) ensures lists(#[trigger] s.items(), s@) {}
#[verifier::external_body] pub fn vx_list(s: &HashSet<syn::Lifetime>) -> (r: &Vec<syn::Lifetime>) ensures r@ == s.items() { unimplemented!() }
/// keys that things are sorted by
pub trait VxKey { spec fn key(&self) -> int; }
impl VxKey for usize { open spec fn key(&self) -> int { *self as int } }
impl VxKey for Option<usize> { open spec fn key(&self) -> int { match *self { None => -1, Some(x) => x as int } } }
/// p has each of 0..n once
pub open spec fn perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && p.no_duplicates() }
pub open spec fn sorted(p: Seq<int>, k: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> k[#[trigger] p[i]] <= k[#[trigger] p[j]] }
pub open spec fn keys_of<K: VxKey>(k: Seq<K>) -> Seq<int> { Seq::new(k.len(), |i: int| k[i].key()) }
pub open spec fn key_at<K: VxKey>(k: Seq<K>, j: int) -> int { k[j].key() }
pub open spec fn permuted<T>(p: Seq<int>, v: Seq<T>) -> Seq<T> { Seq::new(p.len(), |i: int| v[p[i]]) }
#[verifier::external_body] pub fn vx_sort_by_keys<T, K: VxKey>(v: &mut Vec<T>, k: &Vec<K>) requires k@.len() == old(v)@.len()
    ensures exists|p: Seq<int>| #[trigger] perm(p, k@.len() as int) && sorted(p, keys_of(k@)) && final(v)@ == permuted(p, old(v)@)
{ unimplemented!() }
/// how a number is written
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait VxDisplay { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisplay for syn::Ident { open spec fn shown(&self) -> Seq<char> { self.s() } fn vx_to_string(&self) -> (r: String) { self.to_string() } }
pub mod proc_macro2 {
    use super::*;
    #[verifier::external_body] pub struct Literal { x: usize }
    impl Literal {
        pub uninterp spec fn s(&self) -> Seq<char>;
        #[verifier::external_body] pub fn usize_unsuffixed(i: usize) -> (r: Literal) ensures r.s() == dec(i as int) { unimplemented!() }
        #[verifier::external_body] pub fn set_span(&mut self, s: Span) ensures final(self).s() == old(self).s() { unimplemented!() }
    }
    impl ToTokens for Literal { open spec fn toks(&self) -> Seq<Tok> { seq![Tok::Id(self.s())] } }
}
// ---------------------------------------------------------------- attributes (unit attributes: what is accepted, with which kind)
//@item sscanf_macro/src/attribute/struct.rs enum StructAttributeKind
//@item sscanf_macro/src/attribute/field.rs enum FieldAttributeKind
//@item sscanf_macro/src/attribute/variant.rs enum VariantAttributeKind
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AutoGenKind { x: usize }
//@item sscanf_macro/src/attribute/enum.rs enum EnumAttributeKind
pub ghost enum AttrRes<K> { Bad, No, One(K) }
pub uninterp spec fn struct_attr(a: Seq<syn::Attribute>) -> AttrRes<StructAttributeKind>;
pub uninterp spec fn enum_attr(a: Seq<syn::Attribute>) -> AttrRes<EnumAttributeKind>;
pub uninterp spec fn variant_attr(a: Seq<syn::Attribute>) -> AttrRes<VariantAttributeKind>;
pub uninterp spec fn field_attr(a: Seq<syn::Attribute>, ty: syn::Type) -> AttrRes<FieldAttributeKind>;
pub struct StructAttribute { pub src: TokenStream, pub kind: StructAttributeKind }
pub struct EnumAttribute { pub src: TokenStream, pub kind: EnumAttributeKind }
pub struct VariantAttribute { pub src: TokenStream, pub kind: VariantAttributeKind }
pub struct FieldAttribute { pub src: TokenStream, pub kind: FieldAttributeKind }
impl StructAttribute {
    #[verifier::external_body] pub fn from_attrs(a: Vec<syn::Attribute>) -> (r: Result<Option<StructAttribute>>) ensures match struct_attr(a@) { AttrRes::Bad => r is Err, AttrRes::No => r is Ok && r->Ok_0 is None, AttrRes::One(k) => r is Ok && r->Ok_0 is Some && (r->Ok_0)->0.kind == k } { unimplemented!() }
    pub fn new(src: TokenStream, kind: StructAttributeKind) -> (r: StructAttribute) ensures r.kind == kind { StructAttribute { src, kind } }
}
impl EnumAttribute { #[verifier::external_body] pub fn from_attrs(a: Vec<syn::Attribute>) -> (r: Result<Option<EnumAttribute>>) ensures match enum_attr(a@) { AttrRes::Bad => r is Err, AttrRes::No => r is Ok && r->Ok_0 is None, AttrRes::One(k) => r is Ok && r->Ok_0 is Some && (r->Ok_0)->0.kind == k } { unimplemented!() } }
impl VariantAttribute { #[verifier::external_body] pub fn from_attrs(a: Vec<syn::Attribute>) -> (r: Result<Option<VariantAttribute>>) ensures match variant_attr(a@) { AttrRes::Bad => r is Err, AttrRes::No => r is Ok && r->Ok_0 is None, AttrRes::One(k) => r is Ok && r->Ok_0 is Some && (r->Ok_0)->0.kind == k } { unimplemented!() } }
impl FieldAttribute { #[verifier::external_body] pub fn from_attrs_with(a: Vec<syn::Attribute>, ty: &syn::Type) -> (r: Result<Option<FieldAttribute>>) ensures match field_attr(a@, *ty) { AttrRes::Bad => r is Err, AttrRes::No => r is Ok && r->Ok_0 is None, AttrRes::One(k) => r is Ok && r->Ok_0 is Some && (r->Ok_0)->0.kind == k } { unimplemented!() } }
/// the format of a variant that autogen makes from its name
pub uninterp spec fn autogen_kind(k: AutoGenKind, name: Seq<char>) -> StructAttributeKind;
impl AutoGenKind { #[verifier::external_body] pub fn create_struct_attr(&self, ident: &str, src: TokenStream) -> (r: StructAttribute) ensures r.kind == autogen_kind(*self, ident@) { unimplemented!() } }
pub uninterp spec fn strlit_of(l: syn::LitStr) -> StrLit;
impl StrLit { #[verifier::external_body] pub fn new(l: syn::LitStr) -> (r: StrLit) ensures r == strlit_of(l) { unimplemented!() } }
// ---------------------------------------------------------------- the fields
/// a field: its name if it has one, its type, its attribute
pub ghost struct FieldIn { pub name: Option<Seq<char>>, pub ty: syn::Type, pub attr: AttrRes<FieldAttributeKind> }
pub open spec fn field_in(f: syn::Field) -> FieldIn { FieldIn { name: match f.ident { Some(i) => Some(i.s()), None => None }, ty: f.ty, attr: field_attr(f.attrs@, f.ty) } }
pub open spec fn fields_in(v: Seq<syn::Field>) -> Seq<FieldIn> { Seq::new(v.len(), |i: int| field_in(v[i])) }
pub open spec fn attrs_ok(fs: Seq<FieldIn>, n: int) -> bool decreases n { n <= 0 || attrs_ok(fs, n - 1) && !(fs[n - 1].attr is Bad) }
pub proof fn attrs_bad(fs: Seq<FieldIn>, k: int, n: int) requires k <= n, !attrs_ok(fs, k) ensures !attrs_ok(fs, n) decreases n - k { if k < n { attrs_bad(fs, k, n - 1); } }
/// the type that is read for it: its own, or the one of map / from
pub open spec fn read_ty(f: FieldIn) -> syn::Type { match f.attr { AttrRes::One(FieldAttributeKind::Map { mapper, ty, filters }) => ty, AttrRes::One(FieldAttributeKind::From { ty, tries }) => ty, _ => f.ty } }
pub open spec fn is_default(f: FieldIn) -> bool { f.attr matches AttrRes::One(FieldAttributeKind::Default(_)) }
/// how it is written: its name, or its number
pub open spec fn label(f: FieldIn, i: int) -> Seq<char> { match f.name { Some(n) => n, None => dec(i) } }
/// the field a placeholder's name means: a field's name or its number
pub open spec fn named_field(fs: Seq<FieldIn>, s: Seq<char>, n: int) -> Option<int> decreases n {
    if n <= 0 { None } else if s == dec(n - 1) || fs[n - 1].name == Some(s) { Some(n - 1) } else { named_field(fs, s, n - 1) }
}
pub ghost enum From { No, Default, Ph(int) }
/// where the value of each field is from, and which field each placeholder is for
pub ghost struct St { pub ok: bool, pub src: Seq<From>, pub to: Seq<int> }
pub open spec fn start(fs: Seq<FieldIn>, m: int) -> St { St { ok: true, src: Seq::new(fs.len(), |i: int| if is_default(fs[i]) { From::Default } else { From::No }), to: Seq::new(m as nat, |i: int| 0int) } }
/// first the placeholders with a name: each is for a field that has no value yet
pub open spec fn name_step(s: St, fs: Seq<FieldIn>, phs: Seq<PhV>, p: int) -> St {
    match phs[p].ident {
        None => s,
        Some(nm) => match named_field(fs, nm.2, fs.len() as int) { None => St { ok: false, ..s }, Some(j) => take_step(s, j, p) },
    }
}
/// placeholder p is for field j
pub open spec fn take_step(s: St, j: int, p: int) -> St { if s.src[j] is No { St { ok: s.ok, src: s.src.update(j, From::Ph(p)), to: s.to.update(p, j) } } else { St { ok: false, src: s.src, to: s.to } } }
#[verifier::opaque] pub open spec fn with_names(fs: Seq<FieldIn>, phs: Seq<PhV>, k: int) -> St decreases k { if k <= 0 { start(fs, phs.len() as int) } else { name_step(with_names(fs, phs, k - 1), fs, phs, k - 1) } }
/// the first field from i on that has no value
pub open spec fn free(src: Seq<From>, i: int) -> int decreases src.len() - i { if i < 0 || i >= src.len() || src[i] is No { i } else { free(src, i + 1) } }
/// then the others, each for the first field that has no value
pub open spec fn free_step(s: St, phs: Seq<PhV>, p: int) -> St { match phs[p].ident { Some(_) => s, None => { let j = free(s.src, 0); if j < s.src.len() { take_step(s, j, p) } else { St { ok: false, src: s.src, to: s.to } } } } }
#[verifier::opaque] pub open spec fn with_all(fs: Seq<FieldIn>, phs: Seq<PhV>, k: int) -> St decreases k { if k <= 0 { with_names(fs, phs, phs.len() as int) } else { free_step(with_all(fs, phs, k - 1), phs, k - 1) } }
/// every field has a value
pub open spec fn full(src: Seq<From>) -> bool { free(src, 0) == src.len() }
/// the types of the placeholders
pub open spec fn ph_tys(fs: Seq<FieldIn>, to: Seq<int>) -> Seq<TyV> { Seq::new(to.len(), |p: int| as_ty(read_ty(fs[to[p]]))) }
pub ghost enum Derived { Err, Ok(Seq<Seq<char>>, Seq<PhV>, Seq<TyV>, Seq<From>) }
/// what the format of a struct or variant and its fields give: the texts, the placeholders, their types, where each field's value is from
pub open spec fn derived(fs: Seq<FieldIn>, f: Fmt) -> Derived {
    match f { Fmt::Err(_, _) => Derived::Err, Fmt::Ok(texts, phs) => {
        let s = with_all(fs, phs, phs.len() as int); let tys = ph_tys(fs, s.to);
        if attrs_ok(fs, fs.len() as int) && s.ok && full(s.src) && ph_ok(phs, tys, phs.len() as int) { Derived::Ok(texts, phs, tys, s.src) } else { Derived::Err }
    } }
}
/// the format of a struct or variant: the one given, or {} for the only field
pub open spec fn struct_fmt(k: StructAttributeKind, n: int) -> Fmt {
    match k { StructAttributeKind::Format { value, escape } => fmt_of(value.slice(), escape), StructAttributeKind::Transparent => if n == 1 { fmt_of(strlit_of(syn::fresh(seq!['{', '}'])).slice(), true) } else { Fmt::Err(0, 0) } }
}
/// what is pasted for a field's value
pub open spec fn value_toks(f: FieldIn, src: From, ms: Seq<MatchV>) -> Seq<Tok> {
    match src { From::Ph(p) => seq![Tok::Match(ms[p])], _ => match f.attr { AttrRes::One(FieldAttributeKind::Default(Some(e))) => raw_toks(e), _ => Seq::empty() } }
}
/// and with its conversion
pub open spec fn conv_toks(f: FieldIn, v: Seq<Tok>, name: Seq<char>) -> Seq<Tok> {
    match f.attr {
        AttrRes::One(FieldAttributeKind::From { ty, tries }) => raw_toks(f.ty) + raw_toks(ty) + v,
        AttrRes::One(FieldAttributeKind::Map { mapper, ty, filters }) => { let a = raw_toks(ty) + raw_toks(f.ty) + raw_toks(mapper) + v; if filters { a.push(Tok::Id(name)) } else { a } },
        _ => v,
    }
}
pub open spec fn entry(fs: Seq<FieldIn>, src: Seq<From>, ms: Seq<MatchV>, i: int) -> Seq<Tok> { seq![Tok::Id(label(fs[i], i))] + conv_toks(fs[i], value_toks(fs[i], src[i], ms), label(fs[i], i)) }
pub open spec fn entries(fs: Seq<FieldIn>, src: Seq<From>, ms: Seq<MatchV>, ord: Seq<int>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { entries(fs, src, ms, ord, n - 1) + entry(fs, src, ms, ord[n - 1]) } }
/// every field once; those that are read, in the order of their placeholders
pub open spec fn reads_in_order(src: Seq<From>, ord: Seq<int>) -> bool { perm(ord, src.len() as int) && forall|i: int, j: int| 0 <= i < j < ord.len() && src[#[trigger] ord[i]] is Ph && src[#[trigger] ord[j]] is Ph ==> src[ord[i]]->Ph_0 <= src[ord[j]]->Ph_0 }
pub open spec fn makes(t: Seq<Tok>, fs: Seq<FieldIn>, src: Seq<From>, ms: Seq<MatchV>) -> bool { exists|ord: Seq<int>| #[trigger] reads_in_order(src, ord) && t == entries(fs, src, ms, ord, ord.len() as int) }
/// the lifetimes of the strs that are read
pub open spec fn lt_of(k: TypeKind) -> Option<syn::Lifetime> { match k { TypeKind::Str(l) => l, TypeKind::CowStr(l) => l, TypeKind::Other => None } }
pub open spec fn lifetimes(fs: Seq<FieldIn>, n: int) -> Set<Seq<char>> decreases n {
    if n <= 0 { Set::empty() } else { let s = lifetimes(fs, n - 1); if is_default(fs[n - 1]) { s } else { match lt_of(kind_of(read_ty(fs[n - 1]))) { Some(l) => s.insert(l.ident.s()), None => s } } }
}
// ---------------------------------------------------------------- what the code has of it
pub open spec fn named_ok(m: Map<Seq<char>, usize>, fs: Seq<FieldIn>, s: Seq<char>, n: int) -> bool { match named_field(fs, s, n) { Some(j) => m.dom().contains(s) && m[s] == j, None => !m.dom().contains(s) } }
pub open spec fn map_is(m: Map<Seq<char>, usize>, fs: Seq<FieldIn>, n: int) -> bool { forall|s: Seq<char>| #![trigger m.dom().contains(s)] named_ok(m, fs, s, n) }
pub open spec fn read_all(src: Seq<From>, n: int) -> bool decreases n { n <= 0 || read_all(src, n - 1) && !(src[n - 1] is No) }
pub proof fn read_idx(src: Seq<From>, n: int) ensures read_all(src, n) == (forall|j: int| 0 <= j < n ==> !(#[trigger] src[j] is No)) decreases n { if n > 0 { read_idx(src, n - 1); assert(read_all(src, n) ==> !(src[n - 1] is No)); } }
pub proof fn read_upd(src: Seq<From>, j: int, x: From) requires 0 <= j < src.len(), read_all(src, j), !(x is No) ensures read_all(src.update(j, x), j + 1) { read_idx(src, j); read_idx(src.update(j, x), j + 1); }
/// the first field without a value is known
pub proof fn free_at(src: Seq<From>, k: int) requires 0 <= k <= src.len(), read_all(src, k), k == src.len() || src[k] is No ensures free(src, 0) == k { read_idx(src, k); free_is(src, 0, k); }
/// what holds of the state after any number of placeholders
pub open spec fn st_wf(s: St, fs: Seq<FieldIn>, m: int) -> bool { s.src.len() == fs.len() && s.to.len() == m && (forall|j: int| 0 <= j < s.src.len() && #[trigger] s.src[j] is Ph ==> 0 <= s.src[j]->Ph_0 < m) }
pub proof fn names_wf(fs: Seq<FieldIn>, phs: Seq<PhV>, k: int) requires 0 <= k <= phs.len()
    ensures with_names(fs, phs, k) == (if k <= 0 { start(fs, phs.len() as int) } else { name_step(with_names(fs, phs, k - 1), fs, phs, k - 1) }),
        st_wf(with_names(fs, phs, k), fs, phs.len() as int), with_names(fs, phs, k).ok ==> forall|p: int| 0 <= p < k && phs[p].ident is Some ==> 0 <= #[trigger] with_names(fs, phs, k).to[p] < fs.len() decreases k
{ reveal(with_names); if k > 0 { names_wf(fs, phs, k - 1); match phs[k - 1].ident { Some(nm) => { named_in(fs, nm.2, fs.len() as int); } None => {} } } }
pub proof fn named_in(fs: Seq<FieldIn>, s: Seq<char>, n: int) requires 0 <= n ensures match named_field(fs, s, n) { Some(j) => 0 <= j < n, None => true } decreases n { if n > 0 { named_in(fs, s, n - 1); } }
pub proof fn free_is(src: Seq<From>, i: int, k: int) requires 0 <= i <= k <= src.len(), forall|j: int| i <= j < k ==> !(#[trigger] src[j] is No), k == src.len() || src[k] is No ensures free(src, i) == k decreases k - i { if i < k { assert(!(src[i] is No)); free_is(src, i + 1, k); } }
pub proof fn free_in(src: Seq<From>, i: int) requires 0 <= i <= src.len() ensures i <= free(src, i) <= src.len(), forall|j: int| i <= j < free(src, i) ==> !(#[trigger] src[j] is No), free(src, i) < src.len() ==> src[free(src, i)] is No decreases src.len() - i { if i < src.len() && !(src[i] is No) { free_in(src, i + 1); } }
pub proof fn all_wf(fs: Seq<FieldIn>, phs: Seq<PhV>, k: int) requires 0 <= k <= phs.len()
    ensures with_all(fs, phs, k) == (if k <= 0 { with_names(fs, phs, phs.len() as int) } else { free_step(with_all(fs, phs, k - 1), phs, k - 1) }),
        st_wf(with_all(fs, phs, k), fs, phs.len() as int), with_all(fs, phs, k).ok ==> (forall|p: int| 0 <= p < phs.len() && (p < k || phs[p].ident is Some) ==> 0 <= #[trigger] with_all(fs, phs, k).to[p] < fs.len()) decreases k
{ reveal(with_all); if k <= 0 { names_wf(fs, phs, phs.len() as int); } else { all_wf(fs, phs, k - 1); free_in(with_all(fs, phs, k - 1).src, 0); } }
pub proof fn flat_same<T: ToTokens>(a: Seq<T>, b: Seq<T>, n: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures flat(a, n) == flat(b, n) decreases n { if n > 0 { flat_same(a, b, n - 1); } }
pub broadcast proof fn flat_push(v: Seq<TokenStream>, x: TokenStream) ensures #[trigger] flat(v.push(x), v.push(x).len() as int) == flat(v, v.len() as int) + x.toks() { flat_same(v, v.push(x), v.len() as int); assert(v.push(x)[v.len() as int] == x); }
pub proof fn order_of(src: Seq<From>, ord: Seq<int>, keys: Seq<int>) requires perm(ord, src.len() as int), keys.len() == src.len(), sorted(ord, keys), forall|i: int| 0 <= i < src.len() && #[trigger] src[i] is Ph ==> keys[i] == src[i]->Ph_0 ensures reads_in_order(src, ord) { }
// ---------------------------------------------------------------- lifetimes
/// the lifetime of the text that is read: 'static if a field needs it, otherwise a new one that outlives each of them
pub open spec fn merged(s: Set<Seq<char>>, g: syn::Generics, lt: Seq<char>, g2: syn::Generics) -> bool {
    if s.contains(seq!['s', 't', 'a', 't', 'i', 'c']) { lt == seq!['s', 't', 'a', 't', 'i', 'c'] && g2 == g }
    else { g2.params.v@ == g.params.v@.push(lt_param(lt)) && bounds_added(s, lt, g.wc.predicates.v@, g2.wc.predicates.v@) }
}
/// one bound for each
pub open spec fn bounds_added(s: Set<Seq<char>>, lt: Seq<char>, a: Seq<syn::WherePredicate>, b: Seq<syn::WherePredicate>) -> bool { exists|v: Seq<syn::Lifetime>| #[trigger] lists(v, s) && b == bounds(a, lt, v, v.len() as int) }
pub open spec fn bounds(a: Seq<syn::WherePredicate>, lt: Seq<char>, v: Seq<syn::Lifetime>, n: int) -> Seq<syn::WherePredicate> decreases n { if n <= 0 { a } else { bounds(a, lt, v, n - 1).push(lt_bound(lt, v[n - 1].ident.s())) } }
pub open spec fn named_static(s: Seq<syn::Lifetime>, f: Option<&syn::Lifetime>) -> bool { match f { Some(x) => s.contains(*x) && x.ident.s() == seq!['s', 't', 'a', 't', 'i', 'c'], None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).ident.s() != seq!['s', 't', 'a', 't', 'i', 'c'] } }
// ---------------------------------------------------------------- structs
pub open spec fn list_toks(phs: Seq<PhV>, tys: Seq<TyV>) -> Seq<Tok> { cap_toks(caps_of(matches_of(phs, tys, phs.len() as int))) }
pub open spec fn struct_derived(fs: Seq<FieldIn>, a: AttrRes<StructAttributeKind>) -> Derived { match a { AttrRes::One(k) => derived(fs, struct_fmt(k, fs.len() as int)), _ => Derived::Err } }
/// the two impls: the regex, then how the value is made
pub open spec fn struct_toks(g: syn::Generics, g2: syn::Generics, lt: Seq<char>, parts: Seq<Tok>, caps: Seq<Tok>, f: Seq<Tok>) -> Seq<Tok> {
    syn::impl_toks(g) + syn::name_toks(g) + syn::where_toks(g) + parts + (syn::impl_toks(g2) + seq![Tok::Lt(lt)] + syn::name_toks(g) + syn::where_toks(g2) + caps + seq![Tok::Lt(lt)] + f)
}
pub open spec fn struct_is(out: Seq<Tok>, g: syn::Generics, fs: Seq<FieldIn>, d: Derived) -> bool {
    match d { Derived::Err => false, Derived::Ok(tx, p, ty, src) => exists|f: Seq<Tok>, lt: Seq<char>, g2: syn::Generics| #[trigger] makes(f, fs, src, matches_of(p, ty, p.len() as int)) && #[trigger] merged(lifetimes(fs, fs.len() as int), g, lt, g2)
        && out == struct_toks(g, g2, lt, part_toks(all_parts(tx, p, ty)), list_toks(p, ty), f) }
}
// ---------------------------------------------------------------- enums
pub ghost struct VarIn { pub id: Seq<char>, pub bare: Seq<char>, pub fields: Seq<FieldIn>, pub attr: AttrRes<VariantAttributeKind> }
pub open spec fn var_in(v: syn::Variant) -> VarIn { VarIn { id: v.ident.s(), bare: v.ident.bare(), fields: fields_in(v.fields.v@), attr: variant_attr(v.attrs@) } }
pub open spec fn vars_in(v: Seq<syn::Variant>) -> Seq<VarIn> { Seq::new(v.len(), |i: int| var_in(v[i])) }
pub open spec fn auto_of(a: AttrRes<EnumAttributeKind>) -> Option<AutoGenKind> { match a { AttrRes::One(EnumAttributeKind::AutoGen(k)) => Some(k), _ => None } }
pub ghost enum VarUse { Bad, Skip, Use(Derived) }
/// a variant is left out (skip, or nothing says how it is written), or has a format of its own or the one autogen makes of its name
pub open spec fn var_use(v: VarIn, auto: Option<AutoGenKind>) -> VarUse {
    let k = match v.attr {
        AttrRes::Bad => return_bad(),
        AttrRes::One(VariantAttributeKind::Skip) => AttrRes::No,
        AttrRes::One(VariantAttributeKind::StructLike(k)) => AttrRes::One(k),
        AttrRes::No => match auto { None => AttrRes::No, Some(a) => if v.fields.len() > 0 { AttrRes::Bad } else { AttrRes::One(autogen_kind(a, v.bare)) } },
    };
    match k { AttrRes::Bad => VarUse::Bad, AttrRes::No => VarUse::Skip, AttrRes::One(k) => match derived(v.fields, struct_fmt(k, v.fields.len() as int)) { Derived::Err => VarUse::Bad, d => VarUse::Use(d) } }
}
pub open spec fn return_bad() -> AttrRes<StructAttributeKind> { AttrRes::Bad }
/// the regex, the groups and the values of an enum, after some of its variants
pub ghost struct EnumSt { pub ok: bool, pub parts: Seq<PartV>, pub caps: Seq<CapV>, pub used: Seq<int>, pub lts: Set<Seq<char>> }
pub open spec fn enum_step(s: EnumSt, v: VarIn, auto: Option<AutoGenKind>, i: int) -> EnumSt {
    match var_use(v, auto) {
        VarUse::Bad => EnumSt { ok: false, ..s }, VarUse::Skip => s,
        VarUse::Use(Derived::Err) => s,
        VarUse::Use(Derived::Ok(tx, p, ty, src)) => EnumSt { ok: s.ok,
            parts: (s.parts.push(PartV::Lit(if s.used.len() == 0 { seq!['('] } else { seq!['|', '('] })) + all_parts(tx, p, ty)).push(PartV::Lit(seq![')'])),
            caps: s.caps + caps_of(matches_of(p, ty, p.len() as int)), used: s.used.push(i), lts: s.lts.union(lifetimes(v.fields, v.fields.len() as int)) },
    }
}
#[verifier::opaque] pub open spec fn enum_upto(vs: Seq<VarIn>, auto: Option<AutoGenKind>, n: int) -> EnumSt decreases n {
    if n <= 0 { EnumSt { ok: true, parts: seq![PartV::Lit(seq!['(', '?', ':'])], caps: seq![CapV::One], used: Seq::empty(), lts: Set::empty() } } else { enum_step(enum_upto(vs, auto, n - 1), vs[n - 1], auto, n - 1) }
}
pub proof fn enum_next(vs: Seq<VarIn>, auto: Option<AutoGenKind>, n: int) ensures enum_upto(vs, auto, n) == (if n <= 0 { EnumSt { ok: true, parts: seq![PartV::Lit(seq!['(', '?', ':'])], caps: seq![CapV::One], used: Seq::empty(), lts: Set::empty() } } else { enum_step(enum_upto(vs, auto, n - 1), vs[n - 1], auto, n - 1) }) { reveal(enum_upto); }
pub proof fn enum_bad(vs: Seq<VarIn>, auto: Option<AutoGenKind>, n: int, k: int) requires n <= k, !enum_upto(vs, auto, n).ok ensures !enum_upto(vs, auto, k).ok decreases k - n { enum_next(vs, auto, n); enum_next(vs, auto, k); if n < k { enum_bad(vs, auto, n, k - 1); } }
/// the code of a variant that is used: its groups, its name, its fields
pub open spec fn ctor(v: VarIn, auto: Option<AutoGenKind>, f: Seq<Tok>) -> Seq<Tok> { match var_use(v, auto) { VarUse::Use(Derived::Ok(tx, p, ty, src)) => list_toks(p, ty) + seq![Tok::Id(v.id)] + f, _ => Seq::empty() } }
pub open spec fn makes_variant(f: Seq<Tok>, v: VarIn, auto: Option<AutoGenKind>) -> bool { match var_use(v, auto) { VarUse::Use(Derived::Ok(tx, p, ty, src)) => makes(f, v.fields, src, matches_of(p, ty, p.len() as int)), _ => true } }
pub open spec fn ctors(vs: Seq<VarIn>, auto: Option<AutoGenKind>, used: Seq<int>, f: Seq<Seq<Tok>>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::empty() } else { ctors(vs, auto, used, f, n - 1) + ctor(vs[used[n - 1]], auto, f[n - 1]) } }
pub proof fn ctors_same(vs: Seq<VarIn>, auto: Option<AutoGenKind>, u: Seq<int>, u2: Seq<int>, f: Seq<Seq<Tok>>, f2: Seq<Seq<Tok>>, n: int)
    requires 0 <= n <= u.len(), u.len() == f.len(), u2.len() > u.len(), f2.len() > f.len(), forall|i: int| 0 <= i < n ==> u[i] == u2[i] && f[i] == f2[i] ensures ctors(vs, auto, u, f, n) == ctors(vs, auto, u2, f2, n) decreases n { if n > 0 { ctors_same(vs, auto, u, u2, f, f2, n - 1); } }
pub open spec fn made(vs: Seq<VarIn>, auto: Option<AutoGenKind>, used: Seq<int>, f: Seq<Seq<Tok>>) -> bool { f.len() == used.len() && forall|i: int| 0 <= i < f.len() ==> makes_variant(#[trigger] f[i], vs[used[i]], auto) }
pub open spec fn enum_ok(vs: Seq<VarIn>, a: AttrRes<EnumAttributeKind>) -> bool { let s = enum_upto(vs, auto_of(a), vs.len() as int); !(a is Bad) && s.ok && s.used.len() > 0 }
pub open spec fn enum_is(out: Seq<Tok>, g: syn::Generics, vs: Seq<VarIn>, a: AttrRes<EnumAttributeKind>) -> bool {
    let s = enum_upto(vs, auto_of(a), vs.len() as int);
    exists|f: Seq<Seq<Tok>>, lt: Seq<char>, g2: syn::Generics| #[trigger] made(vs, auto_of(a), s.used, f) && #[trigger] merged(s.lts, g, lt, g2)
        && out == struct_toks(g, g2, lt, part_toks(s.parts.push(PartV::Lit(seq![')']))), cap_toks(s.caps), ctors(vs, auto_of(a), s.used, f, s.used.len() as int))
}
// ---------------------------------------------------------------- what the derive macro is called with
pub uninterp spec fn p_derive(t: Seq<Lex>) -> Option<(syn::DeriveInput, Seq<Lex>)>;
impl Parse for syn::DeriveInput { open spec fn parses(t: Seq<Lex>, r: syn::Result<Self>, rest: Seq<Lex>) -> bool { match p_derive(t) { Some((x, k)) => r is Ok && r->Ok_0 == x && rest == k, None => r is Err } } }
pub open spec fn derive_fails(t: Seq<Lex>) -> bool {
    match p_derive(t) { None => true, Some((d, rest)) => rest.len() > 0 || match d.data {
        syn::Data::Struct(s) => struct_derived(fields_in(s.fields.v@), struct_attr(d.attrs@)) is Err,
        syn::Data::Enum(e) => !enum_ok(vars_in(e.variants@), enum_attr(d.attrs@)),
        syn::Data::Union(_) => true,
    } }
}
pub open spec fn is_derived(out: Seq<Tok>, d: syn::DeriveInput) -> bool {
    match d.data {
        syn::Data::Struct(s) => struct_is(out, d.generics, fields_in(s.fields.v@), struct_derived(fields_in(s.fields.v@), struct_attr(d.attrs@))),
        syn::Data::Enum(e) => enum_is(out, d.generics, vars_in(e.variants@), enum_attr(d.attrs@)),
        syn::Data::Union(_) => false,
    }
}
pub broadcast proof fn fmt_more(l: StrLitSlice, esc: bool) ensures match #[trigger] fmt_of(l, esc) { Fmt::Ok(t, p) => t.len() == p.len() + 1, _ => true } { one_more(l.s(), l.raw(), esc, l.lo(), 0, Seq::empty(), Seq::empty(), Seq::empty()); }
pub proof fn full_is(src: Seq<From>) ensures full(src) <==> read_all(src, src.len() as int) { read_idx(src, src.len() as int); free_in(src, 0); if read_all(src, src.len() as int) { free_is(src, 0, src.len() as int); } }
/// one more name
pub proof fn map_step(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, fs: Seq<FieldIn>, i: int)
    requires map_is(m, fs, i), forall|s: Seq<char>| #![trigger m2.dom().contains(s)] m2.dom().contains(s) == (s == dec(i) || fs[i].name == Some(s) || m.dom().contains(s)) && m2[s] == (if s == dec(i) || fs[i].name == Some(s) { i } else { m[s] as int }), i >= 0
    ensures map_is(m2, fs, i + 1)
{ assert forall|s: Seq<char>| #![trigger m2.dom().contains(s)] named_ok(m2, fs, s, i + 1) by { let b = m.dom().contains(s); let r = named_field(fs, s, i); named_in(fs, s, i); assert(named_ok(m, fs, s, i)); assert(m2.dom().contains(s) == (s == dec(i) || fs[i].name == Some(s) || m.dom().contains(s))); assert(m2[s] == (if s == dec(i) || fs[i].name == Some(s) { i } else { m[s] as int })); assert(named_field(fs, s, i + 1) == (if s == dec(i) || fs[i].name == Some(s) { Some(i) } else { r })); } }
pub open spec fn to_in(s: St, n: int) -> bool { forall|p: int| 0 <= p < s.to.len() ==> 0 <= #[trigger] s.to[p] < n }
/// fs has the state s after some placeholders
pub open spec fn to_is(to: Seq<usize>, s: St) -> bool { to.len() == s.to.len() && forall|p: int| 0 <= p < to.len() ==> #[trigger] to[p] == s.to[p] }
pub mod dv {
use super::*;
//@item sscanf_macro/src/derive.rs struct Field
//@item sscanf_macro/src/derive.rs enum FieldIdent
//@item sscanf_macro/src/derive.rs enum ValueSource
//@item sscanf_macro/src/derive.rs struct ValueConversion
//@item sscanf_macro/src/derive.rs enum ValueConversionMethod
pub open spec fn source_is(v: Option<ValueSource>, f: FieldIn, src: From) -> bool {
    match src { From::No => v is None, From::Ph(p) => v matches Some(ValueSource::Placeholder(q)) && q == p,
        From::Default => v matches Some(ValueSource::Default { def, src }) && f.attr == AttrRes::One(FieldAttributeKind::Default(def)) }
}
pub open spec fn conv_is(c: Option<ValueConversion>, f: FieldIn) -> bool {
    match f.attr {
        AttrRes::One(FieldAttributeKind::Map { mapper, ty, filters }) => c is Some && c->0.from == ty && c->0.to == f.ty && c->0.with == (if filters { ValueConversionMethod::FilterMap(mapper) } else { ValueConversionMethod::Map(mapper) }),
        AttrRes::One(FieldAttributeKind::From { ty, tries }) => c is Some && c->0.from == ty && c->0.to == f.ty && c->0.with == (if tries { ValueConversionMethod::TryFrom } else { ValueConversionMethod::From }),
        _ => c is None,
    }
}
impl ToTokens for FieldIdent { open spec fn toks(&self) -> Seq<Tok> { match *self { FieldIdent::Named(i) => i.toks(), FieldIdent::Index(l) => l.toks() } } }
pub open spec fn field_is(x: Field, f: FieldIn, i: int, src: From) -> bool { x.ident.toks() == seq![Tok::Id(label(f, i))] && ty_view(x.ty) == as_ty(read_ty(f)) && source_is(x.value_source, f, src) && conv_is(x.conversion, f) }
pub open spec fn fields_are(v: Seq<Field>, fs: Seq<FieldIn>, src: Seq<From>) -> bool { v.len() == src.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> field_is(v[i], fs[i], i, src[i]) }
}
} // verus!
