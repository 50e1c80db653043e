// The runtime of the crate (src/): the shortcut from_str, the implementation for types with FromStr, the errors, the wrappers.
verus! {
/// std's FromStr, as a contract: a function of the text
pub trait FromStr: Sized { type Err: EV; spec fn parse_s(s: Seq<char>) -> Result<Self, ErrV>; }
#[verifier::external_body] pub fn vx_parse<T: FromStr>(s: &str) -> (r: Result<T, T::Err>)
    ensures match T::parse_s(s@) { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0.ev() == e } { unimplemented!() }
/// std::any::type_name
pub uninterp spec fn tname<T>() -> Seq<char>;
#[verifier::external_body] pub fn vx_type_name<T>() -> (r: &'static str) ensures r@ == tname::<T>() { unimplemented!() }
//@item src/errors.rs struct FromStrFailedError where~<~T~as~FromStr~>~::~Err~:~error~::~Error~+~'static~,=> <~T~as~FromStr~>~::~Err=>T::Err
impl<T: FromStr> EV for FromStrFailedError<T> { open spec fn ev(self) -> ErrV { ErrV::Std(self.type_name@, Box::new(self.error.ev())) } }

// ---------------------------------------------------------------- errors: the chain and the texts
/// a piece of a message: a character, or what another error prints
pub enum Out { C(char), E(ErrV) }
pub trait Disp { spec fn disp(&self) -> Seq<Out>; }
pub open spec fn txt(s: Seq<char>) -> Seq<Out> { s.map_values(|c: char| Out::C(c)) }
impl Disp for &'static str { open spec fn disp(&self) -> Seq<Out> { txt((*self)@) } }
/// every error prints itself
impl<E: EV> Disp for E { open spec fn disp(&self) -> Seq<Out> { seq![Out::E(self.ev())] } }
impl<'a, E: EV> EV for &'a E { open spec fn ev(self) -> ErrV { (*self).ev() } }
#[verifier::external_body] pub struct Formatter { x: usize }
pub struct FmtErr;
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<Out>;
    #[verifier::external_body] pub fn lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + txt(s@) { unimplemented!() }
    #[verifier::external_body] pub fn arg<D: Disp>(&mut self, d: &D) ensures final(self)@ == old(self)@ + d.disp() { unimplemented!() }
}
/// part occurs in the message
pub open spec fn has(m: Seq<Out>, part: Seq<Out>) -> bool { exists|i: int| 0 <= i && i + part.len() <= m.len() && #[trigger] m.subrange(i, i + part.len()) == part }
pub broadcast proof fn has_more(a: Seq<Out>, b: Seq<Out>, p: Seq<Out>) ensures has(a, p) ==> #[trigger] has(a + b, p) { if has(a, p) { let i = choose|i: int| 0 <= i && i + p.len() <= a.len() && #[trigger] a.subrange(i, i + p.len()) == p; assert((a + b).subrange(i, i + p.len()) =~= p); } }
pub broadcast proof fn has_last(a: Seq<Out>, b: Seq<Out>) ensures #[trigger] has(a + b, b) { assert((a + b).subrange(a.len() as int, (a.len() + b.len()) as int) =~= b); }

pub mod errors_code { use super::*;
broadcast use {has_more, has_last};
//@fn src/errors.rs Error@Error::source free
//@flag runtime
//@flag dyn_some
//@flag props=C14
//@flag generics=<'a>
//@flag self_param=&'a crate::sscanf::Error
//@flag returns=Option<DynRef<'a>>
//@ensures
    match $0 { crate::sscanf::Error::MatchFailed => res is None, crate::sscanf::Error::ParsingFailed(e) => res is Some && res->0.ev() == e.ev() }, // [C14]
//@end
//@fn src/errors.rs Error@FromStrFailedError::source as source_from_str free
//@flag runtime
//@flag dyn_some
//@flag props=C14
//@flag generics=<'a, T: FromStr>
//@flag self_param=&'a FromStrFailedError<T>
//@flag returns=Option<DynRef<'a>>
//@ensures
    res is Some && res->0.ev() == $0.error.ev(), // [C14]
//@end
//@fn src/errors.rs Error@FromScanfFailedError::source as source_from_scanf free
//@flag runtime
//@flag dyn_some
//@flag props=C14
//@flag generics=<'a>
//@flag self_param=&'a crate::sscanf::FromScanfFailedError
//@flag returns=Option<DynRef<'a>>
//@ensures
    res is Some && res->0.ev() == $0.error.ev(), // [C14]
//@end
//@fn src/errors.rs Display@Error::fmt as fmt_Error free
//@flag runtime
//@flag props=C14
//@flag generics=
//@flag self_param=&crate::sscanf::Error
//@flag path=fmt::Formatter<'_>=>Formatter
//@flag path=fmt::Result=>Result<(), FmtErr>
//@ensures
    res is Ok, match $0 { crate::sscanf::Error::MatchFailed => true, crate::sscanf::Error::ParsingFailed(e) => has(final($1)@, seq![Out::E(e.ev())]) }, // [C14]
//@end
//@fn src/errors.rs Display@FromStrFailedError::fmt as fmt_FromStrFailedError free
//@flag runtime
//@flag props=C14
//@flag generics=<T: FromStr>
//@flag self_param=&FromStrFailedError<T>
//@flag path=fmt::Formatter<'_>=>Formatter
//@flag path=fmt::Result=>Result<(), FmtErr>
//@ensures
    res is Ok, has(final($1)@, txt($0.type_name@)), has(final($1)@, seq![Out::E($0.error.ev())]), // [C14]
//@end
//@fn src/errors.rs Display@FromScanfFailedError::fmt as fmt_FromScanfFailedError free
//@flag runtime
//@flag props=C14
//@flag generics=
//@flag self_param=&crate::sscanf::FromScanfFailedError
//@flag path=fmt::Formatter<'_>=>Formatter
//@flag path=fmt::Result=>Result<(), FmtErr>
//@ensures
    res is Ok, has(final($1)@, txt($0.type_name@)), has(final($1)@, seq![Out::E($0.error.ev())]), // [C14]
//@end
//@fn src/errors.rs Display@FilterMapNoneError::fmt as fmt_FilterMapNoneError free
//@flag runtime
//@flag props=C14
//@flag generics=
//@flag self_param=&crate::sscanf::FilterMapNoneError
//@flag path=fmt::Formatter<'_>=>Formatter
//@flag path=fmt::Result=>Result<(), FmtErr>
//@ensures
    res is Ok, has(final($1)@, txt($0.field_name@)), // [C14]
//@end
//@fn src/errors.rs FromStrFailedError::new as new_from_str_failed free
//@flag runtime
//@flag props=C14 C15
//@flag generics=<T: FromStr>
//@flag path=std::any::type_name::<T>=>vx_type_name::<T>
//@flag path=<T as FromStr>::Err=>T::Err
//@flag returns=FromStrFailedError<T>
//@flag path=Self=>FromStrFailedError
//@ensures
    res.type_name@ == tname::<T>(), res.error == $0, // [C14 C15]
//@end
}

// ---------------------------------------------------------------- the implementation for types with FromStr
pub open spec fn std_err<T>(e: ErrV) -> ErrV { ErrV::Std(tname::<T>(), Box::new(e)) }
pub mod blanket_code { use super::*; use super::errors_code::*;
//@fn src/from_scanf.rs FromScanf<'t>@T::NUM_CAPTURES as blanket_num_captures free
//@flag runtime
//@flag props=C11
//@ensures
    res == 1, // [C11]
//@end
//@fn src/from_scanf.rs FromScanf<'t>@T::from_matches as blanket_from_matches free
//@flag runtime
//@flag props=C07 C08 C11 C14 C15 C18
//@flag generics=<'t, T: FromStr>
//@flag path=Self::Err::new=>new_from_str_failed::<T>
//@flag path=Self::Err=>FromStrFailedError<T>
//@flag path=Self=>T
//@flag path=regex::SubCaptureMatches<'_,'t>=>crate::sscanf::SubCaptureMatches<'_, 't>
//@flag call_method=parse=>vx_parse
//@requires
    old($0).wf(), old($0).k() < old($0).g().len(), old($0).g()[old($0).k()] is Some,
//@ensures
    final($0).wf(), final($0).g() == old($0).g(), final($0).k() == old($0).k() + 1, // [C11]
    match T::parse_s(old($0).g()[old($0).k()]->0.s) { Ok(v) => res is Ok && res->Ok_0 == v, Err(e) => res is Err && res->Err_0.ev() == std_err::<T>(e) },
//@end
//@fn src/from_scanf.rs FromScanf<'t>@T::from_str as blanket_from_str free
//@flag runtime
//@flag props=C15
//@flag generics=<'t, T: FromStr>
//@flag path=Self::Err::new=>new_from_str_failed::<T>
//@flag path=Self=>T
//@flag call=Box::new=>crate::sscanf::vx_into_box
//@flag call_method=parse=>vx_parse
//@ensures
    match T::parse_s($0@) { Ok(v) => res is Ok && res->Ok_0 == v, Err(e) => res is Err && res->Err_0 is ParsingFailed && res->Err_0->ParsingFailed_0.ev() == std_err::<T>(e) }, // [C15]
//@end
}

// ---------------------------------------------------------------- the shortcut T::from_str
pub open spec fn rx_short<'t, S: FromScanf<'t>>() -> Seq<Sym> { Seq::<Sym>::empty().push(Sym::C('^')).push(Sym::C('(')).push(Sym::C('?')).push(Sym::C(':')).push(Sym::T(S::tid())).push(Sym::C(')')).push(Sym::C('$')) }
pub open spec fn rx_macro<'t, S: FromScanf<'t>>() -> Seq<Sym> { Seq::<Sym>::empty().push(Sym::C('^')).push(Sym::C('(')).push(Sym::T(S::tid())).push(Sym::C(')')).push(Sym::C('$')) }
/// trusted: what regex says about `^(?:T)$` and `^(T)$`: they match the same inputs, and group 0 of the one is group 1 of the other
#[verifier::external_body] pub broadcast proof fn short_like_macro<'t, S: FromScanf<'t>>(s: Seq<char>)
    ensures (#[trigger] matches(rx_short::<S>(), s)) == matches(rx_macro::<S>(), s), matches(rx_short::<S>(), s) ==> groups(rx_short::<S>(), s) == groups(rx_macro::<S>(), s).skip(1) {}
/// trusted: the groups inside `(T)` are groups that T can report; NUM_CAPTURES counts the group of the type itself
#[verifier::external_body] pub proof fn macro_shape<'t, S: FromScanf<'t>>(s: Seq<char>) requires matches(rx_macro::<S>(), s) ensures S::n() >= 1, groups(rx_macro::<S>(), s).len() == 1 + S::n(), S::shape(groups(rx_macro::<S>(), s).skip(1)) {}
/// what sscanf!(s, "{S}") yields
pub open spec fn parsed<'t, S: FromScanf<'t>>(s: Seq<char>, r: Result<S, crate::sscanf::Error>) -> bool {
    if !matches(rx_macro::<S>(), s) { r is Err && r->Err_0 is MatchFailed }
    else { match S::conv(groups(rx_macro::<S>(), s).skip(1)) { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0 is ParsingFailed && r->Err_0->ParsingFailed_0.ev() == e } }
}
pub mod short_code { use super::*;
broadcast use short_like_macro;
//@fn src/from_scanf.rs FromScanf::from_str as default_from_str free
//@flag runtime
//@flag props=C15
//@flag generics=<'t, S: FromScanf<'t>>
//@flag path=Self=>S
//@flag path=Self::REGEX=>S::REGEX()
//@flag path=Self::from_matches=>S::from_matches
//@flag call=Box::new=>crate::sscanf::vx_into_box
//@flag call=Regex::new=>regex_new_ref
//@flag and_then=result
//@begin
    proof { if matches(rx_macro::<S>(), src@) { macro_shape::<S>(src@); let g = groups(rx_macro::<S>(), src@).skip(1); assert(g.subrange(0, g.len() as int) =~= g); } }
//@concat
    proof { assert(vx_r@ =~= rx_short::<S>()); } // [SHAPE]
//@ensures
    parsed::<S>($0@, res), // [C15]
//@end
}
#[verifier::external_body] pub fn regex_new_ref(r: &crate::sscanf::Rx) -> (res: Result<crate::sscanf::Regex, crate::sscanf::RegexError>) ensures res is Ok, res->Ok_0.rx() == r@ { unimplemented!() }

// ---------------------------------------------------------------- the deprecated wrappers
//@item src/types.rs struct FullF32
//@item src/types.rs struct FullF64
//@item src/types.rs struct HexNumber
/// std: == on floats
pub uninterp spec fn feq32(a: f32, b: f32) -> bool;
pub uninterp spec fn feq64(a: f64, b: f64) -> bool;
pub trait VxEq: Sized { spec fn same(a: Self, b: Self) -> bool; fn vx_eq(&self, o: &Self) -> (r: bool) ensures r == Self::same(*self, *o); }
impl VxEq for f32 { open spec fn same(a: f32, b: f32) -> bool { feq32(a, b) } #[verifier::external_body] fn vx_eq(&self, o: &Self) -> bool { unimplemented!() } }
impl VxEq for f64 { open spec fn same(a: f64, b: f64) -> bool { feq64(a, b) } #[verifier::external_body] fn vx_eq(&self, o: &Self) -> bool { unimplemented!() } }
impl VxEq for usize { open spec fn same(a: usize, b: usize) -> bool { a == b } fn vx_eq(&self, o: &Self) -> bool { *self == *o } }
impl EV for () { open spec fn ev(self) -> ErrV { ErrV::Int } }
pub struct FloatErr; impl EV for FloatErr { uninterp spec fn ev(self) -> ErrV; }
impl FromStr for f32 { type Err = FloatErr; uninterp spec fn parse_s(s: Seq<char>) -> Result<f32, ErrV>; }
impl FromStr for f64 { type Err = FloatErr; uninterp spec fn parse_s(s: Seq<char>) -> Result<f64, ErrV>; }
#[verifier::external_body] pub fn usize_from_str_radix(s: &str, radix: u32) -> (r: Result<usize, IntErr>) requires 2 <= radix <= 36 ensures match std_parse(s@, radix as int, 0, 0xffff_ffff_ffff_ffff) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err } { unimplemented!() }
/// the value of hex digits with an optional prefix
pub open spec fn hex_val(s: Seq<char>) -> int { num(if has_pfx(s, 'x') { s.skip(2) } else { s }, 16)->0 }
pub mod wrapper_code { use super::*;
//@fn src/types.rs FromStr@FullF32::from_str as from_str_FullF32 free
//@flag runtime
//@flag props=C18
//@flag path=Self::Err=>FloatErr
//@flag path=Self=>FullF32
//@flag call_method=parse=>vx_parse::<f32>
//@flag map=result
//@ensures
    match <f32 as FromStr>::parse_s($0@) { Ok(v) => res is Ok && res->Ok_0.0 == v, Err(e) => res is Err && res->Err_0.ev() == e }, // [C18]
//@end
//@fn src/types.rs FromStr@FullF64::from_str as from_str_FullF64 free
//@flag runtime
//@flag props=C18
//@flag path=Self::Err=>FloatErr
//@flag path=Self=>FullF64
//@flag call_method=parse=>vx_parse::<f64>
//@flag map=result
//@ensures
    match <f64 as FromStr>::parse_s($0@) { Ok(v) => res is Ok && res->Ok_0.0 == v, Err(e) => res is Err && res->Err_0.ev() == e }, // [C18]
//@end
//@fn src/types.rs FromStr@HexNumber::from_str as from_str_HexNumber free
//@flag runtime
//@flag props=C18
//@flag path=Self::Err=>IntErr
//@flag path=Self=>HexNumber
//@flag path=usize::from_str_radix=>usize_from_str_radix
//@requires
    hex_text($0@),
//@begin
    proof { let d = if has_pfx($0@, 'x') { $0@.skip(2) } else { $0@ }; num_some(d, 16); assert(is_digit(d[0], 16)); assert(unsign(d, false) == d); if $0@.len() >= 2 { assert($0@.subrange(2, $0@.len() as int) =~= $0@.skip(2)); } }
//@ensures
    if hex_val($0@) <= 0xffff_ffff_ffff_ffff { res is Ok && res->Ok_0.0 as int == hex_val($0@) } else { res is Err }, // [C18]
//@end
//@fn src/types.rs Deref@FullF32::deref as deref_FullF32 free
//@flag runtime
//@flag props=C18
//@flag self_param=&FullF32
//@flag returns=&f32
//@ensures
    *res == $0.0, // [C18]
//@end
//@fn src/types.rs DerefMut@FullF32::deref_mut as deref_mut_FullF32 free
//@flag runtime
//@flag props=C18
//@flag self_param=&mut FullF32
//@flag returns=&mut f32
//@ensures
    *res == old($0).0, final($0).0 == *final(res), // [C18]
//@end
//@fn src/types.rs PartialEq<f32>@FullF32::eq as eq_FullF32_f32 free
//@flag runtime
//@flag props=C18
//@flag self_param=&FullF32
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <f32 as VxEq>::same($0.0, *$1), // [C18]
//@end
//@fn src/types.rs PartialEq<FullF32>@f32::eq as eq_f32_FullF32 free
//@flag runtime
//@flag props=C18
//@flag self_param=&f32
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <f32 as VxEq>::same(*$0, $1.0), // [C18]
//@end
//@fn src/types.rs Deref@FullF64::deref as deref_FullF64 free
//@flag runtime
//@flag props=C18
//@flag self_param=&FullF64
//@flag returns=&f64
//@ensures
    *res == $0.0, // [C18]
//@end
//@fn src/types.rs DerefMut@FullF64::deref_mut as deref_mut_FullF64 free
//@flag runtime
//@flag props=C18
//@flag self_param=&mut FullF64
//@flag returns=&mut f64
//@ensures
    *res == old($0).0, final($0).0 == *final(res), // [C18]
//@end
//@fn src/types.rs PartialEq<f64>@FullF64::eq as eq_FullF64_f64 free
//@flag runtime
//@flag props=C18
//@flag self_param=&FullF64
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <f64 as VxEq>::same($0.0, *$1), // [C18]
//@end
//@fn src/types.rs PartialEq<FullF64>@f64::eq as eq_f64_FullF64 free
//@flag runtime
//@flag props=C18
//@flag self_param=&f64
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <f64 as VxEq>::same(*$0, $1.0), // [C18]
//@end
//@fn src/types.rs Deref@HexNumber::deref as deref_HexNumber free
//@flag runtime
//@flag props=C18
//@flag self_param=&HexNumber
//@flag returns=&usize
//@ensures
    *res == $0.0, // [C18]
//@end
//@fn src/types.rs DerefMut@HexNumber::deref_mut as deref_mut_HexNumber free
//@flag runtime
//@flag props=C18
//@flag self_param=&mut HexNumber
//@flag returns=&mut usize
//@ensures
    *res == old($0).0, final($0).0 == *final(res), // [C18]
//@end
//@fn src/types.rs PartialEq<usize>@HexNumber::eq as eq_HexNumber_usize free
//@flag runtime
//@flag props=C18
//@flag self_param=&HexNumber
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <usize as VxEq>::same($0.0, *$1), // [C18]
//@end
//@fn src/types.rs PartialEq<HexNumber>@usize::eq as eq_usize_HexNumber free
//@flag runtime
//@flag props=C18
//@flag self_param=&usize
//@flag rename_method=eq=>vx_eq
//@ensures
    res == <usize as VxEq>::same(*$0, $1.0), // [C18]
//@end
}
} // verus!
