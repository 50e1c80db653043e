//! `syn`, with `parse_macro_input!` working on the stand-in `proc_macro::TokenStream`.
pub use real_syn::*;
#[doc(hidden)]
pub fn __parse<T: real_syn::parse::Parse>(t: fake_pm::TokenStream) -> real_syn::Result<T> { real_syn::parse2(t.0) }
#[doc(hidden)]
pub fn __err(e: real_syn::Error) -> fake_pm::TokenStream { fake_pm::TokenStream(e.to_compile_error()) }
#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => { match $crate::__parse::<$ty>($t) { Ok(d) => d, Err(e) => return $crate::__err(e) } };
    ($t:ident with $p:path) => { match $crate::parse::Parser::parse2($p, $t.0) { Ok(d) => d, Err(e) => return $crate::__err(e) } };
    ($t:ident) => { $crate::parse_macro_input!($t as _) };
}
