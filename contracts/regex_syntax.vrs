verus! {
/// the characters regex-syntax documents as meta characters
pub open spec fn is_meta(c: char) -> bool {
    c == '\\' || c == '.' || c == '+' || c == '*' || c == '?' || c == '(' || c == ')' || c == '|' || c == '[' || c == ']' || c == '{' || c == '}' || c == '^' || c == '$' || c == '#' || c == '&' || c == '-' || c == '~'
}
pub mod regex_syntax {
    use vstd::prelude::*;
    use super::*;
    // the dependency's own source, not a shim
//@fn @regex_syntax/src/lib.rs is_meta_character
//@ensures
        res == is_meta(c),
//@end
    pub struct Parser {}
    #[verifier::external_body] pub struct RegexError { x: usize }
    impl Parser {
        pub fn new() -> Parser { Parser {} }
        #[verifier::external_body] pub fn parse(&mut self, s: &String) -> (r: Result<hir::Hir, RegexError>)
            ensures match super::re_parse(s@) { Some(h) => r is Ok && r->Ok_0 == h, None => r is Err }
        { unimplemented!() }
    }
    pub mod hir {
        use vstd::prelude::*;
        #[verifier::external_body] pub struct Literal { x: usize }
        #[verifier::external_body] pub struct Class { x: usize }
        #[verifier::external_body] pub struct Anchor { x: usize }
        #[verifier::external_body] pub struct WordBoundary { x: usize }
        pub struct Hir { pub kind: HirKind }
        impl Hir { pub fn kind(&self) -> (r: &HirKind) ensures *r == self.kind { &self.kind } }
//@item @regex_syntax/src/hir/mod.rs enum HirKind
//@item @regex_syntax/src/hir/mod.rs struct Group
//@item @regex_syntax/src/hir/mod.rs enum GroupKind
        pub struct Repetition { pub greedy: bool, pub hir: Box<Hir> }
    }
}
pub open spec fn has_capture(h: regex_syntax::hir::Hir) -> bool decreases h, 0int {
    match h.kind {
        regex_syntax::hir::HirKind::Group(g) => !(g.kind is NonCapturing) || has_capture(*g.hir),
        regex_syntax::hir::HirKind::Repetition(r) => has_capture(*r.hir),
        regex_syntax::hir::HirKind::Concat(c) => exists|i: int| 0 <= i < c.len() && has_capture(#[trigger] c[i]),
        regex_syntax::hir::HirKind::Alternation(c) => exists|i: int| 0 <= i < c.len() && has_capture(#[trigger] c[i]),
        _ => false,
    }
}
} // verus!
