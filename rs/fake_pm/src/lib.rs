//! Stand-in for the compiler's `proc_macro` crate, so that the macro crate's own sources can be
//! called as ordinary functions (outside of rustc). A newtype over proc_macro2's token stream.
use std::fmt;
#[derive(Clone, Default)]
pub struct TokenStream(pub proc_macro2::TokenStream);
impl TokenStream {
    pub fn new() -> Self { TokenStream(proc_macro2::TokenStream::new()) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}
impl From<proc_macro2::TokenStream> for TokenStream { fn from(t: proc_macro2::TokenStream) -> Self { TokenStream(t) } }
impl From<TokenStream> for proc_macro2::TokenStream { fn from(t: TokenStream) -> Self { t.0 } }
impl fmt::Display for TokenStream { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl fmt::Debug for TokenStream { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl std::str::FromStr for TokenStream {
    type Err = proc_macro2::LexError;
    fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(TokenStream) }
}
impl quote::ToTokens for TokenStream { fn to_tokens(&self, t: &mut proc_macro2::TokenStream) { t.extend(self.0.clone()) } }
