//@include shims.vrs
//@include attr_model.vrs
//@include text_shim.vrs
verus! {
// ---------------------------------------------------------------- the documented table
pub trait Attr: Copy + Sized + 'static {
    /// the attributes of this kind of item, and their names
    spec fn kinds() -> Seq<Self>;
    spec fn name(self) -> Seq<char>;
    /// takes a type where other attributes take an expression
    spec fn typed(self) -> bool;
    fn all() -> (r: &'static [Self]) ensures r@ == Self::kinds();
    fn as_str(&self) -> (r: &'static str) ensures r@ == self.name();
    proof fn law() ensures forall|i: int, j: int| 0 <= i < j < Self::kinds().len() ==> (#[trigger] Self::kinds()[i]).name() != (#[trigger] Self::kinds()[j]).name(), forall|k: Self| #[trigger] Self::kinds().contains(k), forall|k: Self| #[trigger] k.typed() <==> (k.name() == n_from() || k.name() == n_try_from());
}
pub open spec fn n_format() -> Seq<char> { seq!['f', 'o', 'r', 'm', 'a', 't'] }
pub open spec fn n_format_unescaped() -> Seq<char> { seq!['f', 'o', 'r', 'm', 'a', 't', '_', 'u', 'n', 'e', 's', 'c', 'a', 'p', 'e', 'd'] }
pub open spec fn n_transparent() -> Seq<char> { seq!['t', 'r', 'a', 'n', 's', 'p', 'a', 'r', 'e', 'n', 't'] }
pub open spec fn n_skip() -> Seq<char> { seq!['s', 'k', 'i', 'p'] }
pub open spec fn n_autogen() -> Seq<char> { seq!['a', 'u', 't', 'o', 'g', 'e', 'n'] }
pub open spec fn n_autogenerate() -> Seq<char> { seq!['a', 'u', 't', 'o', 'g', 'e', 'n', 'e', 'r', 'a', 't', 'e'] }
pub open spec fn n_default() -> Seq<char> { seq!['d', 'e', 'f', 'a', 'u', 'l', 't'] }
pub open spec fn n_map() -> Seq<char> { seq!['m', 'a', 'p'] }
pub open spec fn n_filter_map() -> Seq<char> { seq!['f', 'i', 'l', 't', 'e', 'r', '_', 'm', 'a', 'p'] }
pub open spec fn n_from() -> Seq<char> { seq!['f', 'r', 'o', 'm'] }
pub open spec fn n_try_from() -> Seq<char> { seq!['t', 'r', 'y', '_', 'f', 'r', 'o', 'm'] }
/// the attribute with this name
pub open spec fn named<A: Attr>(s: Seq<char>) -> Option<A> { if exists|i: int| 0 <= i < A::kinds().len() && (#[trigger] A::kinds()[i]).name() == s { Some(choose|a: A| A::kinds().contains(a) && #[trigger] a.name() == s) } else { None } }
pub proof fn named_at<A: Attr>(i: int) requires 0 <= i < A::kinds().len() ensures named::<A>(A::kinds()[i].name()) == Some(A::kinds()[i])
{
    A::law();
    let s = A::kinds()[i].name();
    let a = choose|a: A| A::kinds().contains(a) && #[trigger] a.name() == s;
    assert(A::kinds().contains(A::kinds()[i]));
    let j = choose|j: int| 0 <= j < A::kinds().len() && A::kinds()[j] == a;
    assert(j == i);
}
/// an attribute argument: which, and its value
pub struct Arg<A> { pub kind: A, pub value: Option<syn::Expr> }
/// one argument at the start of t: a bare string literal, a name, or `name = value`
pub open spec fn arg_at<A: Attr>(t: Seq<Tok>) -> Option<(Arg<A>, Seq<Tok>)> {
    match p_lit(t) {
        Some((l, r)) => match named::<A>(if l.raw() { n_format_unescaped() } else { n_format() }) { Some(kind) => Some((Arg { kind, value: Some(lit_expr(l)) }, r)), None => None },
        None => match p_ident(t) { None => None, Some((id, r)) => match named::<A>(id.s()) { None => None, Some(kind) =>
            if r.len() == 0 || p_comma(r) is Some { Some((Arg { kind, value: None }, r)) }
            else { match p_eq(r) { None => None, Some((_, r2)) =>
                if r2.len() == 0 { None }
                else if kind.typed() && p_type(r2) is Some { Some((Arg { kind, value: Some(type_expr((p_type(r2)->0).0)) }, (p_type(r2)->0).1)) }
                else { match p_expr(r2) { Some((x, r3)) => Some((Arg { kind, value: Some(x) }, r3)), None => None } } } },
        } },
    }
}
pub open spec fn type_expr(t: syn::Type) -> syn::Expr { syn::Expr::Verbatim(stream(type_toks(t))) }
/// arguments separated by commas, one may be at the end
pub open spec fn args_of<A: Attr>(t: Seq<Tok>) -> Option<Seq<Arg<A>>> decreases t.len() {
    if t.len() == 0 { Some(Seq::empty()) } else { match arg_at::<A>(t) { None => None, Some((a, r)) =>
        if r.len() == 0 { Some(seq![a]) } else { match p_comma(r) { None => None, Some((_, r2)) => if r2.len() >= t.len() { None } else { match args_of::<A>(r2) { None => None, Some(v) => Some(seq![a] + v) } } } } } }
}
pub open spec fn sscanf_name() -> Seq<char> { seq!['s', 's', 'c', 'a', 'n', 'f'] }
/// all arguments of the sscanf attributes among the first n attributes of an item; None: malformed
pub open spec fn args_upto<A: Attr>(v: Seq<syn::Attribute>, n: int) -> Option<Seq<Arg<A>>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match args_upto::<A>(v, n - 1) { None => None, Some(a) =>
        if !v[n - 1].spath().is(sscanf_name()) { Some(a) } else { match v[n - 1].meta { syn::Meta::List(l) => match args_of::<A>(l.tokens@) { Some(b) => Some(a + b), None => None }, _ => None } } } }
}
pub open spec fn distinct<A>(v: Seq<Arg<A>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).kind != (#[trigger] v[j]).kind }
/// the documented meaning of the attributes of an item: nothing, or the one argument; Err: a compile error
pub enum Item<A> { None, One(Arg<A>), Bad }
pub open spec fn item_of<A: Attr>(v: Seq<syn::Attribute>) -> Item<A> {
    match args_upto::<A>(v, v.len() as int) { None => Item::Bad, Some(a) => if a.len() == 0 { Item::None } else if a.len() == 1 { Item::One(a[0]) } else { Item::Bad } }
}
/// once malformed or duplicated, always so
pub proof fn upto_mono<A: Attr>(v: Seq<syn::Attribute>, m: int, n: int) requires 0 <= m <= n
    ensures args_upto::<A>(v, m) is None ==> args_upto::<A>(v, n) is None, args_upto::<A>(v, m) is Some && args_upto::<A>(v, n) is Some ==> (args_upto::<A>(v, m)->0).is_prefix_of(args_upto::<A>(v, n)->0)
    decreases n
{ if m < n { upto_mono::<A>(v, m, n - 1); } }
pub proof fn no_args<A: Attr>() ensures args_of::<A>(Seq::empty()) == Some(Seq::<Arg<A>>::empty()) {}
//@item sscanf_macro/src/attribute.rs struct Attribute
pub open spec fn arg_of<A: Attr>(a: Attribute<A>) -> Arg<A> { Arg { kind: a.kind, value: a.value } }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct ArgParser<A> { a: std::marker::PhantomData<A> }
#[verifier::external_body] pub fn attr_parser<A: Attr>() -> ArgParser<A> { unimplemented!() }
#[verifier::external_body] pub fn vx_sort<A: Attr>(v: &mut Vec<Attribute<A>>) ensures final(v)@.len() == old(v)@.len(), old(v)@.len() <= 1 ==> final(v)@ == old(v)@ { }

pub mod attr {
use super::*;
//@item !expanded enum All
#[derive(Clone, Copy)]
//@item !expanded enum Struct
#[derive(Clone, Copy)]
//@item !expanded enum Variant
#[derive(Clone, Copy)]
//@item !expanded enum Enum
#[derive(Clone, Copy)]
//@item !expanded enum Field
//@fn !expanded attr::All::as_str
//@flag props=C17
//@ensures
    res@ == all_name(*self),
//@flag reveal_lits
//@end
//@fn !expanded attr::Struct::as_str
//@flag props=C17
//@ensures
    res@ == Attr::name(*self),
//@end
//@fn !expanded attr::Variant::as_str
//@flag props=C17
//@ensures
    res@ == Attr::name(*self),
//@end
//@fn !expanded attr::Enum::as_str
//@flag props=C17
//@ensures
    res@ == Attr::name(*self),
//@end
//@fn !expanded attr::Field::as_str
//@flag props=C17
//@ensures
    res@ == Attr::name(*self),
//@end
}
pub open spec fn all_name(a: attr::All) -> Seq<char> { match a { attr::All::Format => n_format(), attr::All::FormatUnescaped => n_format_unescaped(), attr::All::Transparent => n_transparent(), attr::All::Skip => n_skip(), attr::All::AutoGen => n_autogen(), attr::All::AutoGenerate => n_autogenerate(), attr::All::Default => n_default(), attr::All::Map => n_map(), attr::All::FilterMap => n_filter_map(), attr::All::From => n_from(), attr::All::TryFrom => n_try_from() } }
impl Attr for attr::Struct {
    open spec fn kinds() -> Seq<Self> { seq![attr::Struct::Format, attr::Struct::FormatUnescaped, attr::Struct::Transparent] }
    open spec fn name(self) -> Seq<char> { match self { attr::Struct::Format => n_format(), attr::Struct::FormatUnescaped => n_format_unescaped(), attr::Struct::Transparent => n_transparent() } }
    open spec fn typed(self) -> bool { false }
//@fn !expanded Attr@Struct::all free
//@flag props=C17
//@flag in_impl
//@flag inline_consts
//@end
//@fn !expanded Attr@Struct::as_str free
//@flag props=C17
//@flag in_impl
//@end
    proof fn law() {
        assert forall|k: Self| #[trigger] Self::kinds().contains(k) by { assert(Self::kinds()[0] == attr::Struct::Format); assert(Self::kinds()[1] == attr::Struct::FormatUnescaped); assert(Self::kinds()[2] == attr::Struct::Transparent); }
        assert(n_format().len() == 6);        assert(n_format_unescaped().len() == 16);        assert(n_transparent().len() == 11);        assert(n_skip().len() == 4);        assert(n_autogen().len() == 7);        assert(n_autogenerate().len() == 12);        assert(n_default().len() == 7);        assert(n_map().len() == 3);        assert(n_filter_map().len() == 10);        assert(n_from().len() == 4);        assert(n_try_from().len() == 8);
        assert(n_from()[0] == 'f'); assert(n_skip()[0] == 's');
    }
}
impl Attr for attr::Variant {
    open spec fn kinds() -> Seq<Self> { seq![attr::Variant::Format, attr::Variant::FormatUnescaped, attr::Variant::Transparent, attr::Variant::Skip] }
    open spec fn name(self) -> Seq<char> { match self { attr::Variant::Format => n_format(), attr::Variant::FormatUnescaped => n_format_unescaped(), attr::Variant::Transparent => n_transparent(), attr::Variant::Skip => n_skip() } }
    open spec fn typed(self) -> bool { false }
//@fn !expanded Attr@Variant::all free
//@flag props=C17
//@flag in_impl
//@flag inline_consts
//@end
//@fn !expanded Attr@Variant::as_str free
//@flag props=C17
//@flag in_impl
//@end
    proof fn law() {
        assert forall|k: Self| #[trigger] Self::kinds().contains(k) by { assert(Self::kinds()[0] == attr::Variant::Format); assert(Self::kinds()[1] == attr::Variant::FormatUnescaped); assert(Self::kinds()[2] == attr::Variant::Transparent); assert(Self::kinds()[3] == attr::Variant::Skip); }
        assert(n_format().len() == 6);        assert(n_format_unescaped().len() == 16);        assert(n_transparent().len() == 11);        assert(n_skip().len() == 4);        assert(n_autogen().len() == 7);        assert(n_autogenerate().len() == 12);        assert(n_default().len() == 7);        assert(n_map().len() == 3);        assert(n_filter_map().len() == 10);        assert(n_from().len() == 4);        assert(n_try_from().len() == 8);
        assert(n_from()[0] == 'f'); assert(n_skip()[0] == 's');
    }
}
impl Attr for attr::Enum {
    open spec fn kinds() -> Seq<Self> { seq![attr::Enum::AutoGen, attr::Enum::AutoGenerate] }
    open spec fn name(self) -> Seq<char> { match self { attr::Enum::AutoGen => n_autogen(), attr::Enum::AutoGenerate => n_autogenerate() } }
    open spec fn typed(self) -> bool { false }
//@fn !expanded Attr@Enum::all free
//@flag props=C17
//@flag in_impl
//@flag inline_consts
//@end
//@fn !expanded Attr@Enum::as_str free
//@flag props=C17
//@flag in_impl
//@end
    proof fn law() {
        assert forall|k: Self| #[trigger] Self::kinds().contains(k) by { assert(Self::kinds()[0] == attr::Enum::AutoGen); assert(Self::kinds()[1] == attr::Enum::AutoGenerate); }
        assert(n_format().len() == 6);        assert(n_format_unescaped().len() == 16);        assert(n_transparent().len() == 11);        assert(n_skip().len() == 4);        assert(n_autogen().len() == 7);        assert(n_autogenerate().len() == 12);        assert(n_default().len() == 7);        assert(n_map().len() == 3);        assert(n_filter_map().len() == 10);        assert(n_from().len() == 4);        assert(n_try_from().len() == 8);
        assert(n_from()[0] == 'f'); assert(n_skip()[0] == 's');
    }
}
impl Attr for attr::Field {
    open spec fn kinds() -> Seq<Self> { seq![attr::Field::Default, attr::Field::Map, attr::Field::FilterMap, attr::Field::From, attr::Field::TryFrom] }
    open spec fn name(self) -> Seq<char> { match self { attr::Field::Default => n_default(), attr::Field::Map => n_map(), attr::Field::FilterMap => n_filter_map(), attr::Field::From => n_from(), attr::Field::TryFrom => n_try_from() } }
    open spec fn typed(self) -> bool { matches!(self, attr::Field::From | attr::Field::TryFrom) }
//@fn !expanded Attr@Field::all free
//@flag props=C17
//@flag in_impl
//@flag inline_consts
//@end
//@fn !expanded Attr@Field::as_str free
//@flag props=C17
//@flag in_impl
//@end
    proof fn law() {
        assert forall|k: Self| #[trigger] Self::kinds().contains(k) by { assert(Self::kinds()[0] == attr::Field::Default); assert(Self::kinds()[1] == attr::Field::Map); assert(Self::kinds()[2] == attr::Field::FilterMap); assert(Self::kinds()[3] == attr::Field::From); assert(Self::kinds()[4] == attr::Field::TryFrom); }
        assert(n_format().len() == 6);        assert(n_format_unescaped().len() == 16);        assert(n_transparent().len() == 11);        assert(n_skip().len() == 4);        assert(n_autogen().len() == 7);        assert(n_autogenerate().len() == 12);        assert(n_default().len() == 7);        assert(n_map().len() == 3);        assert(n_filter_map().len() == 10);        assert(n_from().len() == 4);        assert(n_try_from().len() == 8);
        assert(n_from()[0] == 'f'); assert(n_skip()[0] == 's');
    }
}
pub open spec fn not_found<A: Attr>(f: Option<&A>, n: int, s: Seq<char>) -> bool { f is None && forall|i: int| 0 <= i < n ==> (#[trigger] A::kinds()[i]).name() != s }
pub open spec fn found<A: Attr>(f: Option<&A>, s: Seq<char>) -> bool { match f { Some(a) => exists|i: int| 0 <= i < A::kinds().len() && #[trigger] A::kinds()[i] == *a && a.name() == s, None => forall|i: int| 0 <= i < A::kinds().len() ==> (#[trigger] A::kinds()[i]).name() != s } }
pub open spec fn args_seq<A: Attr>(v: Seq<Attribute<A>>) -> Seq<Arg<A>> { Seq::new(v.len(), |i: int| arg_of(v[i])) }
/// before the last attribute
pub open spec fn upto0<A: Attr>(v: Seq<syn::Attribute>, n: int) -> Seq<Arg<A>> { args_upto::<A>(v, n - 1)->0 }
/// the map has exactly these arguments
pub open spec fn holds<A: Attr>(m: Map<A, Attribute<A>>, v: Seq<Arg<A>>) -> bool {
    &&& forall|k: A| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kind == k
    &&& forall|i: int| 0 <= i < v.len() ==> arg_of(m[(#[trigger] v[i]).kind]) == v[i]
}
pub broadcast proof fn add_nothing<A: Attr>(a: Seq<Arg<A>>) ensures #[trigger] (a + Seq::<Arg<A>>::empty()) == a { assert(a + Seq::<Arg<A>>::empty() =~= a); }
pub proof fn mono_all<A: Attr>(v: Seq<syn::Attribute>) ensures forall|m: int| 0 <= m <= v.len() ==> (#[trigger] args_upto::<A>(v, m) is None ==> args_upto::<A>(v, v.len() as int) is None) && (args_upto::<A>(v, m) is Some && args_upto::<A>(v, v.len() as int) is Some ==> (args_upto::<A>(v, m)->0).is_prefix_of(args_upto::<A>(v, v.len() as int)->0))
{ assert forall|m: int| 0 <= m <= v.len() implies (#[trigger] args_upto::<A>(v, m) is None ==> args_upto::<A>(v, v.len() as int) is None) && (args_upto::<A>(v, m) is Some && args_upto::<A>(v, v.len() as int) is Some ==> (args_upto::<A>(v, m)->0).is_prefix_of(args_upto::<A>(v, v.len() as int)->0)) by { upto_mono::<A>(v, m, v.len() as int); } }
/// what one more argument does to the map
pub proof fn one_more<A: Attr>(m: Map<A, Attribute<A>>, v0: Seq<Arg<A>>, v: Seq<Attribute<A>>, i: int)
    requires 0 <= i < v.len(), holds(m, v0 + args_seq(v.take(i))), distinct(v0 + args_seq(v.take(i))),
    ensures !m.dom().contains(v[i].kind) ==> holds(m.insert(v[i].kind, v[i]), v0 + args_seq(v.take(i + 1))) && distinct(v0 + args_seq(v.take(i + 1))),
        m.dom().contains(v[i].kind) ==> !distinct(v0 + args_seq(v)),
{
    let a = v0 + args_seq(v.take(i)); let b = v0 + args_seq(v.take(i + 1)); let c = v0 + args_seq(v);
    assert(b =~= a.push(arg_of(v[i])));
    if m.dom().contains(v[i].kind) {
        let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).kind == v[i].kind;
        assert(c[j] == a[j]); assert(c[a.len() as int] == arg_of(v[i]));
    } else {
        assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).kind != v[i].kind by { }
        let m2 = m.insert(v[i].kind, v[i]);
        assert forall|k: A| #[trigger] m2.dom().contains(k) <==> exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).kind == k by {
            if m.dom().contains(k) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).kind == k; assert(b[j].kind == k); }
            if k == v[i].kind { assert(b[a.len() as int].kind == k); }
            if exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).kind == k { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).kind == k; if j < a.len() { assert(a[j].kind == k); } }
        }
        assert forall|j: int, l: int| 0 <= j < l < b.len() implies (#[trigger] b[j]).kind != (#[trigger] b[l]).kind by { if l < a.len() { assert(a[j].kind != a[l].kind); } else { assert(a[j].kind != v[i].kind); } }
    }
}
pub proof fn dup_stays<A: Attr>(v: Seq<Arg<A>>, w: Seq<Arg<A>>) requires !distinct(v), v.is_prefix_of(w) ensures !distinct(w)
{ let (i, j) = choose|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]).kind == (#[trigger] v[j]).kind; assert(w[i] == v[i] && w[j] == v[j]); }
pub broadcast proof fn take_zero<A: Attr>(v0: Seq<Arg<A>>, v: Seq<Attribute<A>>) ensures #[trigger] (v0 + args_seq(v.take(0))) == v0 { assert(v0 + args_seq(v.take(0)) =~= v0); }
pub broadcast proof fn take_all<A: Attr>(v: Seq<Attribute<A>>) ensures #[trigger] v.take(v.len() as int) == v { assert(v.take(v.len() as int) =~= v); }

// ---------------------------------------------------------------- what an argument stands for
/// the kinds of an item, made from an argument; `takes(a, d, None)`: not accepted
pub trait FromAttribute<A: Attr, Data>: Sized {
    spec fn takes(a: Arg<A>, d: Data, r: Option<Self>) -> bool;
    fn from_attribute(attr: Attribute<A>, data: Data) -> (r: Result<Self>) ensures Self::takes(arg_of(attr), data, made(r));
}
pub open spec fn made<T>(r: Result<T>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
//@item sscanf_macro/src/attribute/struct.rs enum StructAttributeKind
//@item sscanf_macro/src/attribute/variant.rs enum VariantAttributeKind
//@item sscanf_macro/src/attribute/field.rs enum FieldAttributeKind
//@item sscanf_macro/src/attribute/enum.rs enum EnumAttributeKind
#[derive(Clone, Copy)]
//@item !expanded enum AutoGenKind
/// the value of an argument, as a T
pub open spec fn as_a<T: Parse>(v: Option<syn::Expr>) -> Option<T> { match v { Some(x) => whole::<T>(x.toks()), None => None } }
pub open spec fn struct_kind(a: Arg<attr::Struct>) -> Option<StructAttributeKind> { match a.kind {
    attr::Struct::Format => match as_a::<StrLit>(a.value) { Some(value) => Some(StructAttributeKind::Format { value, escape: true }), None => None },
    attr::Struct::FormatUnescaped => match as_a::<StrLit>(a.value) { Some(value) => Some(StructAttributeKind::Format { value, escape: false }), None => None },
    attr::Struct::Transparent => if a.value is None { Some(StructAttributeKind::Transparent) } else { None },
} }
pub open spec fn variant_kind(a: Arg<attr::Variant>) -> Option<VariantAttributeKind> {
    if a.kind == attr::Variant::Skip { if a.value is None { Some(VariantAttributeKind::Skip) } else { None } }
    else {
        let k = match a.kind { attr::Variant::Format => attr::Struct::Format, attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped, _ => attr::Struct::Transparent };
        match struct_kind(Arg { kind: k, value: a.value }) { Some(s) => Some(VariantAttributeKind::StructLike(s)), None => None }
    }
}
pub open spec fn field_kind(a: Arg<attr::Field>) -> Option<FieldAttributeKind> { match a.kind {
    attr::Field::Default => Some(FieldAttributeKind::Default(a.value)),
    attr::Field::Map | attr::Field::FilterMap => match as_a::<syn::Expr>(a.value) {
        Some(syn::Expr::Closure(c)) => if c.inputs.v@.len() == 1 { match c.inputs.v@[0] { syn::Pat::Type(t) => Some(FieldAttributeKind::Map { mapper: c, ty: *t.ty, filters: a.kind == attr::Field::FilterMap }), _ => None } } else { None },
        _ => None },
    attr::Field::From | attr::Field::TryFrom => match as_a::<Type>(a.value) { Some(t) => Some(FieldAttributeKind::From { ty: t.inner(), tries: a.kind == attr::Field::TryFrom }), None => None },
} }
pub open spec fn cased(s: Seq<char>) -> Option<AutoGenKind> {
    if s == seq!['l', 'o', 'w', 'e', 'r', ' ', 'c', 'a', 's', 'e'] { Some(AutoGenKind::LowerCase) }
    else if s == seq!['U', 'P', 'P', 'E', 'R', ' ', 'C', 'A', 'S', 'E'] { Some(AutoGenKind::UpperCase) }
    else if s == seq!['l', 'o', 'w', 'e', 'r', 'c', 'a', 's', 'e'] { Some(AutoGenKind::FlatCase) }
    else if s == seq!['U', 'P', 'P', 'E', 'R', 'C', 'A', 'S', 'E'] { Some(AutoGenKind::UpperFlatCase) }
    else if s == seq!['P', 'a', 's', 'c', 'a', 'l', 'C', 'a', 's', 'e'] { Some(AutoGenKind::PascalCase) }
    else if s == seq!['c', 'a', 'm', 'e', 'l', 'C', 'a', 's', 'e'] { Some(AutoGenKind::CamelCase) }
    else if s == seq!['s', 'n', 'a', 'k', 'e', '_', 'c', 'a', 's', 'e'] { Some(AutoGenKind::SnakeCase) }
    else if s == seq!['S', 'C', 'R', 'E', 'A', 'M', 'I', 'N', 'G', '_', 'S', 'N', 'A', 'K', 'E', '_', 'C', 'A', 'S', 'E'] { Some(AutoGenKind::ScreamingSnakeCase) }
    else if s == seq!['k', 'e', 'b', 'a', 'b', '-', 'c', 'a', 's', 'e'] { Some(AutoGenKind::KebabCase) }
    else if s == seq!['S', 'C', 'R', 'E', 'A', 'M', 'I', 'N', 'G', '-', 'K', 'E', 'B', 'A', 'B', '-', 'C', 'A', 'S', 'E'] { Some(AutoGenKind::ScreamingKebabCase) }
    else if s == seq!['C', 'a', 's', 'e', 'S', 'e', 'n', 's', 'i', 't', 'i', 'v', 'e'] { Some(AutoGenKind::CaseSensitive) }
    else if s == n_insensitive() { Some(AutoGenKind::CaseInsensitive) }
    else { None }
}
pub open spec fn n_insensitive() -> Seq<char> { seq!['C', 'a', 's', 'e', 'I', 'n', 's', 'e', 'n', 's', 'i', 't', 'i', 'v', 'e'] }
/// the documented names; that other spellings of CaseInsensitive are taken too is left open
pub open spec fn autogen_named(s: Seq<char>, r: Option<AutoGenKind>) -> bool { r == cased(s) || cased(s) is None && r == Some(AutoGenKind::CaseInsensitive) && in_case(s, Case::Flat) == seq!['c', 'a', 's', 'e', 'i', 'n', 's', 'e', 'n', 's', 'i', 't', 'i', 'v', 'e'] }
pub open spec fn enum_kind(a: Arg<attr::Enum>, r: Option<EnumAttributeKind>) -> bool {
    match a.value {
        None => r == Some(EnumAttributeKind::AutoGen(AutoGenKind::CaseSensitive)),
        Some(_) => match as_a::<syn::LitStr>(a.value) { None => r is None, Some(l) => match r { None => autogen_named(l.s(), None), Some(EnumAttributeKind::AutoGen(k)) => autogen_named(l.s(), Some(k)) } },
    }
}
pub mod code {
use super::*;
broadcast use {stream_view, add_nothing, take_zero, take_all};
//@fn sscanf_macro/src/attribute.rs find_match free
//@flag props=C17
//@ensures
    match named::<A>($0@) { Some(a) => res == Ok::<A, Error>(a), None => res is Err },
//@flag err_suffix
//@flag owned_loops
//@flag quote
//@loop 0
    invariant_except_break
        not_found::<A>(vx_f, vx_i0 as int, $0@), vx_i0 <= vx_v0_0@.len(),
    invariant
        vx_v0_0@ == A::kinds(),
    ensures
        found::<A>(vx_f, $0@),
    decreases vx_v0_0@.len() - vx_i0,
//@begin
    proof { assert forall|i: int| 0 <= i < A::kinds().len() implies named::<A>((#[trigger] A::kinds()[i]).name()) == Some(A::kinds()[i]) by { named_at::<A>(i); } }
//@end

//@fn sscanf_macro/src/attribute.rs Attribute::parse
//@flag props=C17
//@ensures
    match arg_at::<A>(old($0)@) { Some((a, rest)) => res is Ok && arg_of(res->Ok_0) == a && final($0)@ == rest, None => res is Err },
//@flag err_suffix
//@flag owned_loops
//@flag quote
//@flag type=ParseStream=>&mut ParseBuffer
//@flag method_ref=contains=>vx_str_in
//@role kind_name = init ~FormatUnescaped
//@loop 0
    invariant_except_break
        not_found::<A>(vx_f, vx_i0 as int, $kind_name@), vx_i0 <= vx_v0_0@.len(),
    invariant
        vx_v0_0@ == A::kinds(),
    ensures
        found::<A>(vx_f, $kind_name@),
    decreases vx_v0_0@.len() - vx_i0,
//@begin
    let ghost t0 = old($0)@;
    proof { parser_laws(); A::law(); assert forall|i: int| 0 <= i < A::kinds().len() implies named::<A>((#[trigger] A::kinds()[i]).name()) == Some(A::kinds()[i]) by { named_at::<A>(i); } }
//@end

//@fn sscanf_macro/src/attribute.rs Attribute::value_as
//@flag props=C17
//@ensures
    match self.value { Some(v) => match whole::<T>(v.toks()) { Some(x) => res == Ok::<T, Error>(x), None => res is Err }, None => res is Err },
//@flag err_suffix
//@flag quote
//@end

//@fn sscanf_macro/src/attribute.rs find_attrs free
//@flag props=C17
//@ensures
    match args_upto::<A>($0@, $0@.len() as int) { None => res is Err, Some(v) => if distinct(v) { res is Ok && holds(res->Ok_0@, v) } else { res is Err } },
//@flag err_suffix
//@flag owned_loops
//@flag quote
//@role m=recv entry
//@loop 0
    invariant
        vx_v0_0@ == $0@, vx_i0 <= $0@.len(),
        args_upto::<A>($0@, vx_i0 as int) is Some, distinct(args_upto::<A>($0@, vx_i0 as int)->0), holds($m@, args_upto::<A>($0@, vx_i0 as int)->0),
    decreases vx_v0_0@.len() - vx_i0,
//@loop 1
    invariant
        1 <= vx_i0 <= $0@.len(), vx_i1 <= vx_v1_0@.len(),
        args_upto::<A>($0@, vx_i0 as int) == Some(upto0::<A>($0@, vx_i0 as int) + args_seq(vx_v1_0@)), distinct(upto0::<A>($0@, vx_i0 as int) + args_seq(vx_v1_0@.take(vx_i1 as int))), holds($m@, upto0::<A>($0@, vx_i0 as int) + args_seq(vx_v1_0@.take(vx_i1 as int))),
    decreases vx_v1_0@.len() - vx_i1,
//@begin
    proof { mono_all::<A>($0@); }
//@loop_begin 1
    proof { one_more::<A>($m@, upto0::<A>($0@, vx_i0 as int), vx_v1_0@, vx_i1 as int); if args_upto::<A>($0@, $0@.len() as int) is Some && !distinct(args_upto::<A>($0@, vx_i0 as int)->0) { dup_stays::<A>(args_upto::<A>($0@, vx_i0 as int)->0, args_upto::<A>($0@, $0@.len() as int)->0); } }
//@flag reveal_lits
//@end

/// the number of arguments is the number of entries
pub proof fn count<A: Attr>(m: Map<A, Attribute<A>>, v: Seq<Arg<A>>) requires holds(m, v), distinct(v) ensures m.dom().len() == v.len(), v.len() == 1 ==> m.dom().contains(v[0].kind)
{
    let ks = Seq::new(v.len(), |i: int| v[i].kind);
    assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by { if i < j { assert(v[i].kind != v[j].kind); } else { assert(v[j].kind != v[i].kind); } }
    ks.unique_seq_to_set();
    assert(m.dom() =~= ks.to_set()) by {
        assert forall|k: A| m.dom().contains(k) <==> ks.to_set().contains(k) by {
            if m.dom().contains(k) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kind == k; assert(ks[i] == k); assert(ks.contains(k)); }
            if ks.to_set().contains(k) { assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(v[i].kind == k); }
        }
    }
    if v.len() == 1 { assert(v[0].kind == v[0].kind); }
}
pub proof fn only<A: Attr>(m: Map<A, Attribute<A>>, v: Seq<Arg<A>>, k: A) requires holds(m, v), v.len() == 1, m.dom().contains(k) ensures k == v[0].kind, arg_of(m[k]) == v[0]
{ let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kind == k; assert(i == 0); }

//@fn sscanf_macro/src/attribute.rs expect_one free
//@flag props=C17
//@ensures
    $0@.dom().len() == 0 ==> res == Ok::<Option<Attribute<A>>, Error>(None),
    $0@.dom().len() == 1 ==> res is Ok && res->Ok_0 is Some && exists|k: A| #[trigger] $0@.dom().contains(k) && $0@[k] == res->Ok_0->0,
    $0@.dom().len() > 1 ==> res is Err,
//@flag err_suffix
//@flag quote
//@flag method_mut0=sort_by_key=>vx_sort
//@flag method_mut0=sort_unstable_by_key=>vx_sort
//@flag method_mut0=sort_by=>vx_sort
//@flag method=into_iter=>vx_into_iter
//@end

impl FromAttribute<attr::Struct, ()> for StructAttributeKind {
    open spec fn takes(a: Arg<attr::Struct>, d: (), r: Option<Self>) -> bool { r == struct_kind(a) }
//@fn sscanf_macro/src/attribute/struct.rs FromAttribute@StructAttributeKind::from_attribute free
//@flag props=C17
//@flag in_impl
//@flag err_suffix
//@flag quote
//@end
}
impl FromAttribute<attr::Variant, ()> for VariantAttributeKind {
    open spec fn takes(a: Arg<attr::Variant>, d: (), r: Option<Self>) -> bool { r == variant_kind(a) }
//@fn sscanf_macro/src/attribute/variant.rs FromAttribute@VariantAttributeKind::from_attribute free
//@flag props=C17
//@flag in_impl
//@flag err_suffix
//@flag quote
//@end
}
impl<'a> FromAttribute<attr::Field, &'a syn::Type> for FieldAttributeKind {
    open spec fn takes(a: Arg<attr::Field>, d: &'a syn::Type, r: Option<Self>) -> bool { r == field_kind(a) }
//@fn sscanf_macro/src/attribute/field.rs FromAttribute@FieldAttributeKind::from_attribute free
//@flag props=C17
//@flag in_impl
//@flag err_suffix
//@flag quote
//@end
}
impl FromAttribute<attr::Enum, ()> for EnumAttributeKind {
    open spec fn takes(a: Arg<attr::Enum>, d: (), r: Option<Self>) -> bool { enum_kind(a, r) }
//@fn sscanf_macro/src/attribute/enum.rs FromAttribute@EnumAttributeKind::from_attribute free
//@flag props=C13 C17
//@flag in_impl
//@flag err_suffix
//@flag quote
//@end
}
//@fn !expanded AutoGenKind::from_str
//@flag props=C13 C17
//@ensures
    autogen_named($0@, made(res)),
//@flag err_suffix
//@flag method=to_case=>vx_to_case
//@flag reveal_lits
//@begin
    proof { flat_insensitive(); }
//@end
//@fn !expanded AutoGenKind::from_attr
//@flag props=C13 C17
//@ensures
    match $0.value { None => res == Ok::<AutoGenKind, Error>(AutoGenKind::CaseSensitive), Some(_) => match as_a::<syn::LitStr>($0.value) { None => res is Err, Some(l) => autogen_named(l.s(), made(res)) } },
//@flag err_suffix
//@flag quote
//@end

//@item sscanf_macro/src/attribute.rs struct SingleAttributeContainer
//@fn sscanf_macro/src/attribute.rs SingleAttributeContainer::new
//@flag props=C17
//@flag keep_where
//@ensures
    res.kind == $1,
//@end
//@fn sscanf_macro/src/attribute.rs SingleAttributeContainer::from_attrs_with
//@flag props=C17
//@flag keep_where
//@ensures
    match item_of::<A>($0@) { Item::None => res is Ok && res->Ok_0 is None, Item::Bad => res is Err, Item::One(a) => match res { Ok(None) => false, Ok(Some(c)) => Kind::takes(a, $1, Some(c.kind)), Err(_) => Kind::takes(a, $1, None) } },
//@begin
    proof { let n = $0@.len() as int; if args_upto::<A>($0@, n) is Some && distinct(args_upto::<A>($0@, n)->0) { let v = args_upto::<A>($0@, n)->0; assert forall|m: Map<A, Attribute<A>>| holds(m, v) implies #[trigger] m.dom().len() == v.len() && forall|k: A| v.len() == 1 && #[trigger] m.dom().contains(k) ==> arg_of(m[k]) == v[0] by { count(m, v); assert forall|k: A| v.len() == 1 && #[trigger] m.dom().contains(k) implies arg_of(m[k]) == v[0] by { only(m, v, k); } } } }
//@end
/// the format of a variant without one: made from its name
pub open spec fn generated(k: AutoGenKind, name: Seq<char>) -> Seq<char> { match k {
    AutoGenKind::LowerCase => in_case(name, Case::Lower),
    AutoGenKind::UpperCase => in_case(name, Case::Upper),
    AutoGenKind::FlatCase => in_case(name, Case::Flat),
    AutoGenKind::UpperFlatCase => in_case(name, Case::UpperFlat),
    AutoGenKind::PascalCase => in_case(name, Case::Pascal),
    AutoGenKind::CamelCase => in_case(name, Case::Camel),
    AutoGenKind::SnakeCase => in_case(name, Case::Snake),
    AutoGenKind::ScreamingSnakeCase => in_case(name, Case::ScreamingSnake),
    AutoGenKind::KebabCase => in_case(name, Case::Kebab),
    AutoGenKind::ScreamingKebabCase => in_case(name, Case::UpperKebab),
    AutoGenKind::CaseSensitive => name,
    AutoGenKind::CaseInsensitive => seq!['(', '?', 'i', ':'] + name + seq![')'],
} }
pub type StructAttribute = SingleAttributeContainer<attr::Struct, StructAttributeKind>;
//@fn !expanded AutoGenKind::create_struct_attr
//@flag props=C13
//@flag text
//@flag reveal_lits
//@flag method=to_case=>vx_to_case
//@ensures
    match res.kind { StructAttributeKind::Format { value, escape } => made_of(value, generated(*self, $0@)) && escape == !(*self is CaseInsensitive), _ => false },
//@begin
    broadcast use add_one;
    proof { same_cases(); }
//@end
/// the text is a literal of its own, with this content
pub open spec fn made_of(v: StrLit, t: Seq<char>) -> bool { v == strlit(fresh(t)) }
}
}
fn main() {}
