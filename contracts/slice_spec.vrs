verus! {
// ---------------------------------------------------------------- parts of a literal, by byte positions within it
/// from byte a to byte b of the text s
pub open spec fn cut_ok(s: Seq<char>, a: int, b: int) -> bool { is_off(s, a) && is_off(s, b) && a < b }
pub open spec fn cut_is(s: Seq<char>, a: int, b: int, t: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] off(s, i) == a && #[trigger] off(s, j) == b ==> t == s.subrange(i, j) }
/// including the character that starts at byte b
pub open spec fn incl_ok(s: Seq<char>, a: int, b: int) -> bool { is_off(s, a) && (exists|k: int| 0 <= k < s.len() && #[trigger] off(s, k) == b) && a <= b }
pub open spec fn incl_end(s: Seq<char>, b: int, e: int) -> bool { forall|k: int| 0 <= k < s.len() && #[trigger] off(s, k) == b ==> e == off(s, k + 1) }
pub open spec fn incl_is(s: Seq<char>, a: int, b: int, t: Seq<char>) -> bool { forall|i: int, k: int| 0 <= i <= k < s.len() && #[trigger] off(s, i) == a && #[trigger] off(s, k) == b ==> t == s.subrange(i, k + 1) }
/// up to the end
pub open spec fn from_ok(s: Seq<char>, a: int) -> bool { is_off(s, a) && a < off(s, s.len() as int) }
pub open spec fn from_is(s: Seq<char>, a: int, t: Seq<char>) -> bool { forall|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == a ==> t == s.subrange(i, s.len() as int) }
} // verus!
