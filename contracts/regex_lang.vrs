// Regular expressions as terms (what regex-syntax parses a regex text to), and their language.
verus! {
pub enum Re { Eps, Cls(Seq<(u32, u32)>), Cat(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Rep(Box<Re>, nat, Option<nat>), Cap(Box<Re>), Start, End, Other }
pub open spec fn in_cls(c: Seq<(u32, u32)>, x: char) -> bool { exists|i: int| 0 <= i < c.len() && #[trigger] in_range(c[i], x) }
pub open spec fn in_range(r: (u32, u32), x: char) -> bool { r.0 <= x as u32 <= r.1 }
/// the strings a regex matches as a whole. (`Start` and `End` only occur around the whole regex and are taken off before;
/// what is not described here matches nothing.)
pub open spec fn lang(r: Re, s: Seq<char>) -> bool decreases r, 0int {
    match r {
        Re::Eps => s.len() == 0,
        Re::Cls(c) => s.len() == 1 && in_cls(c, s[0]),
        Re::Cat(a, b) => exists|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(*a, s.take(k)) && lang(*b, s.skip(k)),
        Re::Alt(a, b) => lang(*a, s) || lang(*b, s),
        Re::Rep(a, lo, hi) => exists|n: int| #[trigger] cut(n) && lo <= n && (hi is Some ==> n <= hi->0) && rep(*a, n, s),
        Re::Cap(a) => lang(*a, s),
        _ => false,
    }
}
pub open spec fn cut(k: int) -> bool { true }
/// n times in a row
pub open spec fn rep(a: Re, n: int, s: Seq<char>) -> bool decreases a, n + 1 {
    if n <= 0 { s.len() == 0 } else { exists|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(a, s.take(k)) && rep(a, n - 1, s.skip(k)) }
}
/// the number of capture groups
pub open spec fn re_caps(r: Re) -> int decreases r { match r { Re::Cat(a, b) => re_caps(*a) + re_caps(*b), Re::Alt(a, b) => re_caps(*a) + re_caps(*b), Re::Rep(a, _, _) => re_caps(*a), Re::Cap(a) => 1 + re_caps(*a), _ => 0 } }
pub open spec fn all_in(c: Seq<(u32, u32)>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> in_cls(c, #[trigger] s[i]) }

pub proof fn rep_cls(c: Seq<(u32, u32)>, n: int, s: Seq<char>)
    requires n >= 0
    ensures rep(Re::Cls(c), n, s) <==> s.len() == n && all_in(c, s)
    decreases n
{
    if n > 0 {
        if rep(Re::Cls(c), n, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(Re::Cls(c), s.take(k)) && rep(Re::Cls(c), n - 1, s.skip(k));
            rep_cls(c, n - 1, s.skip(k));
            assert(k == 1); assert(s.take(1)[0] == s[0]);
            assert forall|i: int| 0 <= i < s.len() implies in_cls(c, #[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        }
        if s.len() == n && all_in(c, s) {
            rep_cls(c, n - 1, s.skip(1));
            assert forall|i: int| 0 <= i < s.skip(1).len() implies in_cls(c, #[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
            assert(s.take(1)[0] == s[0]); assert(in_cls(c, s[0]));
            assert(cut(1) && lang(Re::Cls(c), s.take(1)) && rep(Re::Cls(c), n - 1, s.skip(1)));
        }
    }
}
/// `[c]{lo,hi}`
pub proof fn lang_rep_cls(c: Seq<(u32, u32)>, lo: nat, hi: Option<nat>, s: Seq<char>)
    ensures lang(Re::Rep(Box::new(Re::Cls(c)), lo, hi), s) <==> lo <= s.len() && (hi is Some ==> s.len() <= hi->0) && all_in(c, s)
{
    let r = Re::Rep(Box::new(Re::Cls(c)), lo, hi);
    if lang(r, s) { let n = choose|n: int| #[trigger] cut(n) && lo <= n && (hi is Some ==> n <= hi->0) && rep(Re::Cls(c), n, s); rep_cls(c, n, s); }
    if lo <= s.len() && (hi is Some ==> s.len() <= hi->0) && all_in(c, s) { rep_cls(c, s.len() as int, s); assert(cut(s.len() as int) && rep(Re::Cls(c), s.len() as int, s)); }
}
/// `a?`
pub proof fn lang_opt(a: Re, s: Seq<char>)
    ensures lang(Re::Rep(Box::new(a), 0, Some(1nat)), s) <==> s.len() == 0 || lang(a, s)
{
    let r = Re::Rep(Box::new(a), 0, Some(1nat));
    if lang(r, s) {
        let n = choose|n: int| #[trigger] cut(n) && 0 <= n && n <= 1 && rep(a, n, s);
        if n == 1 { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(a, s.take(k)) && rep(a, 0, s.skip(k)); assert(s.take(k) =~= s); }
    }
    if s.len() == 0 { assert(cut(0) && rep(a, 0, s)); }
    if lang(a, s) { assert(s.take(s.len() as int) =~= s); assert(cut(s.len() as int) && rep(a, 0, s.skip(s.len() as int))); assert(cut(1) && rep(a, 1, s)); }
}
} // verus!
