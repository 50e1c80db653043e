// The languages of the REGEX constants of std types.
verus! {
// ---------------------------------------------------------------- classes
pub open spec fn los_ge(c: Seq<(u32, u32)>, n: int, m: u32) -> bool decreases n { n <= 0 || (c[n - 1].0 >= m && los_ge(c, n - 1, m)) }
pub proof fn los_ge_all(c: Seq<(u32, u32)>, n: int, m: u32, i: int) requires los_ge(c, n, m), 0 <= i < n ensures c[i].0 >= m decreases n { if i < n - 1 { los_ge_all(c, n - 1, m, i); } }
/// what is needed of a class of digits
pub open spec fn dig_class(c: Seq<(u32, u32)>) -> bool { (forall|x: char| '0' <= x && x <= '9' ==> #[trigger] in_cls(c, x)) && (forall|x: char| #[trigger] in_cls(c, x) ==> x as u32 >= 48) }
pub proof fn dig_class_ok(c: Seq<(u32, u32)>) requires c.len() > 0, c[0] == (48u32, 57u32), los_ge(c, c.len() as int, 48) ensures dig_class(c)
{
    assert forall|x: char| '0' <= x && x <= '9' implies #[trigger] in_cls(c, x) by { assert(in_range(c[0], x)); }
    assert forall|x: char| #[trigger] in_cls(c, x) implies x as u32 >= 48 by { let i = choose|i: int| 0 <= i < c.len() && #[trigger] in_range(c[i], x); los_ge_all(c, c.len() as int, 48, i); }
}
pub open spec fn all_ascii_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
pub proof fn ascii_in(c: Seq<(u32, u32)>, s: Seq<char>) requires dig_class(c), all_ascii_digits(s) ensures all_in(c, s) { assert forall|i: int| 0 <= i < s.len() implies in_cls(c, #[trigger] s[i]) by { assert('0' <= s[i] && s[i] <= '9'); } }
pub proof fn lang_cat(a: Re, b: Re, s: Seq<char>, k: int) requires 0 <= k <= s.len(), lang(a, s.take(k)), lang(b, s.skip(k)) ensures lang(Re::Cat(Box::new(a), Box::new(b)), s) { assert(cut(k)); }

// ---------------------------------------------------------------- integers
pub open spec fn int_re(signed: bool, d: Seq<(u32, u32)>, n: nat) -> Re { Re::Cat(Box::new(re_sign(signed)), Box::new(Re::Rep(Box::new(Re::Cls(d)), 1, Some(n)))) }
pub open spec fn nz_cls() -> Seq<(u32, u32)> { seq![(49u32, 57u32)] }
pub open spec fn nz_re(signed: bool, d: Seq<(u32, u32)>, n: nat) -> Re { Re::Cat(Box::new(re_sign(signed)), Box::new(Re::Cat(Box::new(Re::Cls(nz_cls())), Box::new(Re::Rep(Box::new(Re::Cls(d)), 0, Some(n)))))) }
pub open spec fn int_text(s: Seq<char>, signed: bool, d: Seq<(u32, u32)>, n: int) -> bool { let b = unsign(s, signed); 1 <= b.len() <= n && all_in(d, b) }
pub open spec fn nz_text(s: Seq<char>, signed: bool, d: Seq<(u32, u32)>, n: int) -> bool { let b = unsign(s, signed); 1 <= b.len() <= n + 1 && '1' <= b[0] && b[0] <= '9' && all_in(d, b.skip(1)) }
pub proof fn lang_int(signed: bool, d: Seq<(u32, u32)>, n: nat, s: Seq<char>) requires dig_class(d) ensures lang(int_re(signed, d, n), s) <==> int_text(s, signed, d, n as int)
{
    let t = Re::Rep(Box::new(Re::Cls(d)), 1, Some(n));
    assert forall|x: Seq<char>| #[trigger] lang(t, x) implies x.len() > 0 && x[0] != '+' && x[0] != '-' by { lang_rep_cls(d, 1, Some(n), x); assert(in_cls(d, x[0])); }
    lang_signed(signed, t, s); lang_rep_cls(d, 1, Some(n), unsign(s, signed));
}
pub proof fn lang_nz(signed: bool, d: Seq<(u32, u32)>, n: nat, s: Seq<char>) requires dig_class(d) ensures lang(nz_re(signed, d, n), s) <==> nz_text(s, signed, d, n as int)
{
    let r = Re::Rep(Box::new(Re::Cls(d)), 0, Some(n)); let t = Re::Cat(Box::new(Re::Cls(nz_cls())), Box::new(r));
    assert forall|x: Seq<char>| lang(t, x) <==> #[trigger] nz_body(x, d, n as int) by {
        if x.len() > 0 { if '1' <= x[0] && x[0] <= '9' { assert(in_range(nz_cls()[0], x[0])); } assert(x.take(1)[0] == x[0]); lang_rep_cls(d, 0, Some(n), x.skip(1)); }
        if lang(t, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] cut(k) && lang(Re::Cls(nz_cls()), x.take(k)) && lang(r, x.skip(k)); assert(k == 1); }
        if nz_body(x, d, n as int) { lang_cat(Re::Cls(nz_cls()), r, x, 1); }
    }
    assert forall|x: Seq<char>| #[trigger] lang(t, x) implies x.len() > 0 && x[0] != '+' && x[0] != '-' by { assert(nz_body(x, d, n as int)); }
    lang_signed(signed, t, s);
    assert(lang(t, unsign(s, signed)) <==> nz_body(unsign(s, signed), d, n as int));
}
pub open spec fn nz_body(b: Seq<char>, d: Seq<(u32, u32)>, n: int) -> bool { 1 <= b.len() <= n + 1 && '1' <= b[0] && b[0] <= '9' && all_in(d, b.skip(1)) }
/// std: Display of an integer (plus: with a leading `+`)
pub open spec fn display(v: int, plus: bool) -> Seq<char> { written(v, 10, false, plus, seq![]) }
pub proof fn display_parts(v: int, signed: bool, n: int, plus: bool, lo: int, hi: int)
    requires lo <= v <= hi, (if v < 0 { -v } else { v }) < pow(10, n), n >= 1, v < 0 ==> signed, signed == (lo < 0)
    ensures ({ let s = display(v, plus); let b = unsign(s, signed); 1 <= b.len() <= n && all_ascii_digits(b) && std_parse(s, 10, lo, hi) == Some(v) && (v != 0 ==> b[0] != '0') && s.len() > 0 })
{
    let s = display(v, plus); let b = unsign(s, signed); let a = if v < 0 { -v } else { v };
    value_numeral(v, signed, Pfx::Never, 10, n, false, plus, false, false);
    assert(numeral(s, signed, Pfx::Never, 10, n)); numeral_parts(s, signed, Pfx::Never, 10, n);
    assert forall|i: int| 0 <= i < b.len() implies '0' <= #[trigger] b[i] && b[i] <= '9' by { assert(is_digit(b[i], 10)); }
    let d = to_digits(a, 10, false);
    digits_numeral(a, 10, n, false);
    if v < 0 || plus { assert(s.skip(1) =~= d); } else { assert(s =~= d); assert(is_digit(d[0], 10)); }
    if v != 0 { first_nonzero(a); }
}
proof fn first_nonzero(v: int) requires v > 0 ensures to_digits(v, 10, false).len() > 0, to_digits(v, 10, false)[0] != '0' decreases v
{ if v >= 10 { assert(0 < v / 10 < v) by (nonlinear_arith) requires v >= 10; first_nonzero(v / 10); } }
pub proof fn int_round_trip(v: int, signed: bool, d: Seq<(u32, u32)>, n: nat, plus: bool, lo: int, hi: int)
    requires dig_class(d), lo <= v <= hi, (if v < 0 { -v } else { v }) < pow(10, n as int), n >= 1, signed == (lo < 0), lo <= 0
    ensures lang(int_re(signed, d, n), display(v, plus)), std_parse(display(v, plus), 10, lo, hi) == Some(v)
{ display_parts(v, signed, n as int, plus, lo, hi); ascii_in(d, unsign(display(v, plus), signed)); lang_int(signed, d, n, display(v, plus)); }
pub proof fn nz_round_trip(v: int, signed: bool, d: Seq<(u32, u32)>, n: nat, plus: bool, lo: int, hi: int)
    requires dig_class(d), lo <= v <= hi, v != 0, (if v < 0 { -v } else { v }) < pow(10, n as int + 1), signed == (lo < 0), lo <= 0
    ensures lang(nz_re(signed, d, n), display(v, plus)), std_parse(display(v, plus), 10, lo, hi) == Some(v)
{
    display_parts(v, signed, n as int + 1, plus, lo, hi);
    let b = unsign(display(v, plus), signed);
    assert('0' <= b[0] && b[0] <= '9');
    assert forall|i: int| 0 <= i < b.skip(1).len() implies '0' <= #[trigger] b.skip(1)[i] && b.skip(1)[i] <= '9' by { assert(b.skip(1)[i] == b[i + 1]); assert('0' <= b[i + 1] && b[i + 1] <= '9'); }
    ascii_in(d, b.skip(1)); lang_nz(signed, d, n, display(v, plus));
}

// ---------------------------------------------------------------- words
pub open spec fn low(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn ci_cls(c: char) -> Seq<(u32, u32)> { seq![((c as u32 - 32) as u32, (c as u32 - 32) as u32), (c as u32, c as u32)] }
pub open spec fn one_cls(c: char) -> Seq<(u32, u32)> { seq![(c as u32, c as u32)] }
pub open spec fn word_cls(c: char, ci: bool) -> Seq<(u32, u32)> { if ci { ci_cls(c) } else { one_cls(c) } }
pub open spec fn word_re(w: Seq<char>, ci: bool, i: int) -> Re decreases w.len() - i { if i >= w.len() - 1 { Re::Cls(word_cls(w[w.len() - 1], ci)) } else { Re::Cat(Box::new(Re::Cls(word_cls(w[i], ci))), Box::new(word_re(w, ci, i + 1))) } }
/// s is w, ci: in any letter case (w in lower case)
pub open spec fn is_word(s: Seq<char>, w: Seq<char>, ci: bool) -> bool { s.len() == w.len() && forall|i: int| 0 <= i < s.len() ==> w[i] == (if ci { low(#[trigger] s[i]) } else { s[i] }) }
pub open spec fn lower_word(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> 'a' <= #[trigger] w[i] && w[i] <= 'z' }
proof fn in_word_cls(c: char, x: char, ci: bool) requires 'a' <= c && c <= 'z' ensures in_cls(word_cls(c, ci), x) <==> c == (if ci { low(x) } else { x })
{ let q = word_cls(c, ci); if x == c { assert(in_range(q[if ci { 1 } else { 0 }], x)); } if ci && low(x) == c && x != c { assert(in_range(q[0], x)); } }
pub proof fn lang_word_at(w: Seq<char>, ci: bool, i: int, s: Seq<char>) requires lower_word(w), 0 <= i < w.len() ensures lang(word_re(w, ci, i), s) <==> is_word(s, w.skip(i), ci) decreases w.len() - i
{
    let c = w[i];
    let t = word_re(w, ci, i);
    assert('a' <= w[i] && w[i] <= 'z');
    if s.len() > 0 { in_word_cls(c, s[0], ci); assert(s.take(1)[0] == s[0]); }
    if i == w.len() - 1 { assert(w.skip(i)[0] == c); }
    else {
        let u = word_re(w, ci, i + 1);
        assert(w.skip(i)[0] == c);
        if s.len() > 0 {
            lang_word_at(w, ci, i + 1, s.skip(1));
            assert forall|j: int| 0 <= j < w.len() - i - 1 implies #[trigger] w.skip(i + 1)[j] == w.skip(i)[j + 1] by {}
            if is_word(s, w.skip(i), ci) { assert forall|j: int| 0 <= j < s.skip(1).len() implies w.skip(i + 1)[j] == (if ci { low(#[trigger] s.skip(1)[j]) } else { s.skip(1)[j] }) by { assert(s.skip(1)[j] == s[j + 1]); assert(w.skip(i)[j + 1] == w.skip(i + 1)[j]); } lang_cat(Re::Cls(word_cls(c, ci)), u, s, 1); }
        }
        if lang(t, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(Re::Cls(word_cls(c, ci)), s.take(k)) && lang(u, s.skip(k));
            assert(k == 1);
            assert forall|j: int| 0 <= j < s.len() implies w.skip(i)[j] == (if ci { low(#[trigger] s[j]) } else { s[j] }) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); assert(w.skip(i)[j] == w.skip(i + 1)[j - 1]); } }
        }
    }
}
pub proof fn lang_word(w: Seq<char>, ci: bool, s: Seq<char>) requires lower_word(w), w.len() > 0 ensures lang(word_re(w, ci, 0), s) <==> is_word(s, w, ci) { lang_word_at(w, ci, 0, s); assert(w.skip(0) =~= w); }

pub open spec fn w_true() -> Seq<char> { seq!['t', 'r', 'u', 'e'] }
pub open spec fn w_false() -> Seq<char> { seq!['f', 'a', 'l', 's', 'e'] }
pub open spec fn bool_re() -> Re { Re::Alt(Box::new(word_re(w_true(), false, 0)), Box::new(word_re(w_false(), false, 0))) }
pub proof fn lang_bool(s: Seq<char>) ensures lang(bool_re(), s) <==> is_word(s, w_true(), false) || is_word(s, w_false(), false) { lang_word(w_true(), false, s); lang_word(w_false(), false, s); }

// ---------------------------------------------------------------- char, String, str, PathBuf
pub open spec fn dot_cls() -> Seq<(u32, u32)> { seq![(0u32, 9u32), (11u32, 1114111u32)] }
pub proof fn in_dot(x: char) ensures in_cls(dot_cls(), x) <==> x != '\n' { let q = dot_cls(); if (x as u32) < 10 { assert(in_range(q[0], x)); } if x as u32 > 10 { assert(in_range(q[1], x)); } }
pub proof fn lang_dot(s: Seq<char>) ensures lang(Re::Cls(dot_cls()), s) <==> s.len() == 1 && s[0] != '\n' { if s.len() == 1 { in_dot(s[0]); } }
pub proof fn lang_dots(s: Seq<char>) ensures lang(Re::Rep(Box::new(Re::Cls(dot_cls())), 1, None), s) <==> s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n'
{
    lang_rep_cls(dot_cls(), 1, None, s);
    assert forall|x: char| #[trigger] in_cls(dot_cls(), x) <==> x != '\n' by { in_dot(x); }
    if all_in(dot_cls(), s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(in_cls(dot_cls(), s[i])); } }
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' { assert forall|i: int| 0 <= i < s.len() implies in_cls(dot_cls(), #[trigger] s[i]) by { } }
}

// ---------------------------------------------------------------- floats: https://doc.rust-lang.org/std/primitive.f32.html#grammar
pub open spec fn w_inf() -> Seq<char> { seq!['i', 'n', 'f'] }
pub open spec fn w_infinity() -> Seq<char> { seq!['i', 'n', 'f', 'i', 'n', 'i', 't', 'y'] }
pub open spec fn w_nan() -> Seq<char> { seq!['n', 'a', 'n'] }
pub open spec fn digits1(s: Seq<char>) -> bool { s.len() >= 1 && all_ascii_digits(s) }
/// Exp ::= 'e' Sign? Digit+ (in any case)
pub open spec fn exp_text(s: Seq<char>) -> bool { s.len() >= 1 && (s[0] == 'e' || s[0] == 'E') && digits1(unsign(s.skip(1), true)) }
/// Digit+ | Digit+ '.' Digit* | Digit* '.' Digit+
pub open spec fn mantissa(s: Seq<char>) -> bool { digits1(s) || exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == '.' && all_ascii_digits(s.take(j)) && all_ascii_digits(s.skip(j + 1)) && s.len() >= 2 }
pub open spec fn number(s: Seq<char>) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && mantissa(s.take(k)) && (k == s.len() || exp_text(s.skip(k))) }
pub open spec fn float_text(s: Seq<char>) -> bool { let b = unsign(s, true); is_word(b, w_inf(), true) || is_word(b, w_infinity(), true) || is_word(b, w_nan(), true) || number(b) }

pub open spec fn dot1() -> Re { Re::Cls(seq![(46u32, 46u32)]) }
pub open spec fn e_cls() -> Seq<(u32, u32)> { seq![(69u32, 69u32), (101u32, 101u32)] }
pub open spec fn ds(d: Seq<(u32, u32)>, lo: nat) -> Re { Re::Rep(Box::new(Re::Cls(d)), lo, None) }
pub open spec fn mant_re(d: Seq<(u32, u32)>) -> Re {
    Re::Alt(Box::new(ds(d, 1)), Box::new(Re::Alt(Box::new(Re::Cat(Box::new(ds(d, 1)), Box::new(Re::Cat(Box::new(dot1()), Box::new(ds(d, 0)))))), Box::new(Re::Cat(Box::new(ds(d, 0)), Box::new(Re::Cat(Box::new(dot1()), Box::new(ds(d, 1)))))))))
}
pub open spec fn exp_re(d: Seq<(u32, u32)>) -> Re { Re::Cat(Box::new(Re::Cls(e_cls())), Box::new(Re::Cat(Box::new(re_sign(true)), Box::new(ds(d, 1))))) }
pub open spec fn num_re(d: Seq<(u32, u32)>) -> Re { Re::Cat(Box::new(mant_re(d)), Box::new(Re::Rep(Box::new(exp_re(d)), 0, Some(1)))) }
pub open spec fn float_re(d: Seq<(u32, u32)>) -> Re {
    Re::Cat(Box::new(re_sign(true)), Box::new(Re::Alt(Box::new(word_re(w_inf(), true, 0)), Box::new(Re::Alt(Box::new(word_re(w_infinity(), true, 0)), Box::new(Re::Alt(Box::new(word_re(w_nan(), true, 0)), Box::new(num_re(d)))))))))
}
proof fn lang_ds(d: Seq<(u32, u32)>, lo: nat, s: Seq<char>) requires dig_class(d), all_ascii_digits(s), s.len() >= lo ensures lang(ds(d, lo), s) { lang_rep_cls(d, lo, None, s); ascii_in(d, s); }
proof fn lang_dot1(s: Seq<char>) requires s.len() == 1, s[0] == '.' ensures lang(dot1(), s) { assert(in_range(seq![(46u32, 46u32)][0], s[0])); }
pub proof fn lang_alt(a: Re, b: Re, s: Seq<char>) ensures lang(Re::Alt(Box::new(a), Box::new(b)), s) <==> lang(a, s) || lang(b, s) {}
proof fn mant_ok(d: Seq<(u32, u32)>, s: Seq<char>) requires dig_class(d), mantissa(s) ensures lang(mant_re(d), s)
{
    let m1 = Re::Cat(Box::new(ds(d, 1)), Box::new(Re::Cat(Box::new(dot1()), Box::new(ds(d, 0))))); let m2 = Re::Cat(Box::new(ds(d, 0)), Box::new(Re::Cat(Box::new(dot1()), Box::new(ds(d, 1)))));
    lang_alt(m1, m2, s); lang_alt(ds(d, 1), Re::Alt(Box::new(m1), Box::new(m2)), s);
    if digits1(s) { lang_ds(d, 1, s); }
    else {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == '.' && all_ascii_digits(s.take(j)) && all_ascii_digits(s.skip(j + 1)) && s.len() >= 2;
        let r = s.skip(j);
        assert(r.take(1)[0] == '.'); lang_dot1(r.take(1)); assert(r.skip(1) =~= s.skip(j + 1));
        if j >= 1 { lang_ds(d, 1, s.take(j)); lang_ds(d, 0, s.skip(j + 1)); lang_cat(dot1(), ds(d, 0), r, 1); lang_cat(ds(d, 1), Re::Cat(Box::new(dot1()), Box::new(ds(d, 0))), s, j); }
        else { lang_ds(d, 0, s.take(j)); lang_ds(d, 1, s.skip(j + 1)); lang_cat(dot1(), ds(d, 1), r, 1); lang_cat(ds(d, 0), Re::Cat(Box::new(dot1()), Box::new(ds(d, 1))), s, j); }
    }
}
proof fn signed_ok(t: Re, s: Seq<char>) requires lang(t, unsign(s, true)) ensures lang(Re::Cat(Box::new(re_sign(true)), Box::new(t)), s)
{
    let k = s.len() - unsign(s, true).len();
    if k == 1 { assert(s.take(1)[0] == s[0]); }
    lang_sign(true, s.take(k)); assert(s.skip(k) =~= unsign(s, true)); lang_cat(re_sign(true), t, s, k);
}
proof fn exp_ok(d: Seq<(u32, u32)>, s: Seq<char>) requires dig_class(d), exp_text(s) ensures lang(exp_re(d), s)
{
    lang_ds(d, 1, unsign(s.skip(1), true)); signed_ok(ds(d, 1), s.skip(1));
    assert(s.take(1)[0] == s[0]);
    let q = e_cls(); if s[0] == 'E' { assert(in_range(q[0], s[0])); } else { assert(in_range(q[1], s[0])); }
    lang_cat(Re::Cls(e_cls()), Re::Cat(Box::new(re_sign(true)), Box::new(ds(d, 1))), s, 1);
}
pub proof fn float_ok(d: Seq<(u32, u32)>, s: Seq<char>) requires dig_class(d), float_text(s) ensures lang(float_re(d), s)
{
    let b = unsign(s, true);
    lang_word(w_inf(), true, b); lang_word(w_infinity(), true, b); lang_word(w_nan(), true, b);
    if number(b) {
        let k = choose|k: int| 0 <= k <= b.len() && #[trigger] cut(k) && mantissa(b.take(k)) && (k == b.len() || exp_text(b.skip(k)));
        mant_ok(d, b.take(k));
        lang_opt(exp_re(d), b.skip(k));
        if k < b.len() { exp_ok(d, b.skip(k)); }
        lang_cat(mant_re(d), Re::Rep(Box::new(exp_re(d)), 0, Some(1)), b, k);
    }
    let a3 = Re::Alt(Box::new(word_re(w_nan(), true, 0)), Box::new(num_re(d))); let a2 = Re::Alt(Box::new(word_re(w_infinity(), true, 0)), Box::new(a3));
    lang_alt(word_re(w_nan(), true, 0), num_re(d), b); lang_alt(word_re(w_infinity(), true, 0), a3, b); lang_alt(word_re(w_inf(), true, 0), a2, b);
    signed_ok(Re::Alt(Box::new(word_re(w_inf(), true, 0)), Box::new(Re::Alt(Box::new(word_re(w_infinity(), true, 0)), Box::new(Re::Alt(Box::new(word_re(w_nan(), true, 0)), Box::new(num_re(d))))))), s);
}
/// std: the texts Display and LowerExp produce for floats: -? (inf | NaN | D+ (. D+)? (e -? D+)?)
pub open spec fn float_shown(s: Seq<char>) -> bool {
    let b = if s.len() > 0 && s[0] == '-' { s.skip(1) } else { s };
    b =~= w_inf() || b =~= seq!['N', 'a', 'N'] || exists|m: Seq<char>, e: Seq<char>| b == #[trigger] (m + e) && mantissa(m) && (e.len() == 0 || e[0] == 'e' && (digits1(e.skip(1)) || e.len() > 1 && e[1] == '-' && digits1(e.skip(2))))
}
pub proof fn shown_in_grammar(s: Seq<char>) requires float_shown(s) ensures float_text(s)
{
    let b = if s.len() > 0 && s[0] == '-' { s.skip(1) } else { s };
    let u = unsign(s, true);
    if b =~= w_inf() { if s.len() == 3 { assert(s[0] == w_inf()[0]); } assert(is_word(b, w_inf(), true)); assert(u == b); }
    else if b =~= seq!['N', 'a', 'N'] { assert(b[0] == 'N'); assert(is_word(b, w_nan(), true)); assert(u == b); }
    else {
        let (m, e) = choose|m: Seq<char>, e: Seq<char>| b == #[trigger] (m + e) && mantissa(m) && (e.len() == 0 || e[0] == 'e' && (digits1(e.skip(1)) || e.len() > 1 && e[1] == '-' && digits1(e.skip(2))));
        assert(m.len() > 0 && b[0] == m[0]);
        assert(m[0] == '.' || '0' <= m[0] && m[0] <= '9') by { if !digits1(m) { let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == '.' && all_ascii_digits(m.take(j)) && all_ascii_digits(m.skip(j + 1)) && m.len() >= 2; if j > 0 { assert(m.take(j)[0] == m[0]); } } }
        assert(u == b);
        let k = m.len() as int;
        assert(b.take(k) =~= m); assert(b.skip(k) =~= e);
        if e.len() > 0 { if digits1(e.skip(1)) { assert(e.skip(1)[0] == e[1]); assert('0' <= e.skip(1)[0]); assert(unsign(e.skip(1), true) == e.skip(1)); } else { assert(e.skip(1)[0] == '-'); assert(e.skip(1).skip(1) =~= e.skip(2)); } assert(exp_text(e)); }
        assert(cut(k)); assert(number(b));
    }
}

// ---------------------------------------------------------------- HexNumber
pub open spec fn hex_cls() -> Seq<(u32, u32)> { dig_cls(16) }
pub open spec fn hex1() -> Re { Re::Rep(Box::new(Re::Cls(seq![(48u32, 57u32), (65u32, 70u32), (97u32, 102u32)])), 1, None) }
pub open spec fn hex_re() -> Re { Re::Alt(Box::new(Re::Cat(Box::new(re_zero()), Box::new(Re::Cat(Box::new(Re::Cls(two_cls('x'))), Box::new(hex1()))))), Box::new(hex1())) }
pub open spec fn hexdigs(s: Seq<char>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i], 16) }
/// one or more hex digits with an optional prefix
pub open spec fn hex_text(s: Seq<char>) -> bool { hexdigs(if has_pfx(s, 'x') { s.skip(2) } else { s }) }
proof fn lang_hex1(s: Seq<char>) ensures lang(hex1(), s) <==> hexdigs(s)
{
    let c = seq![(48u32, 57u32), (65u32, 70u32), (97u32, 102u32)];
    assert(c =~= dig_cls(16));
    lang_rep_cls(c, 1, None, s);
    if all_in(c, s) { assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i], 16) by { in_dig(16, s[i]); assert(in_cls(c, s[i])); } }
    if hexdigs(s) { assert forall|i: int| 0 <= i < s.len() implies in_cls(c, #[trigger] s[i]) by { in_dig(16, s[i]); assert(is_digit(s[i], 16)); } }
}
pub proof fn lang_hex(x: Seq<char>) ensures lang(hex_re(), x) <==> hex_text(x)
{
    let c = 'x'; let d = hex1(); let u = Re::Cat(Box::new(Re::Cls(two_cls(c))), Box::new(d)); let t = Re::Cat(Box::new(re_zero()), Box::new(u));
    lang_hex1(x);
    if lang(t, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] cut(k) && lang(re_zero(), x.take(k)) && lang(u, x.skip(k));
        assert(x.take(1)[0] == x[0]); in_zero(x[0]);
        let y = x.skip(1);
        let j = choose|j: int| 0 <= j <= y.len() && #[trigger] cut(j) && lang(Re::Cls(two_cls(c)), y.take(j)) && lang(d, y.skip(j));
        assert(y.take(1)[0] == y[0] && y[0] == x[1]); in_two(c, x[1]); assert(y.skip(1) =~= x.skip(2)); lang_hex1(x.skip(2));
    }
    if has_pfx(x, c) {
        let y = x.skip(1);
        lang_hex1(x.skip(2));
        assert(x.take(1)[0] == x[0]); in_zero(x[0]); assert(y.take(1)[0] == y[0] && y[0] == x[1]); in_two(c, x[1]); assert(y.skip(1) =~= x.skip(2));
        if hexdigs(x.skip(2)) { lang_cat(Re::Cls(two_cls(c)), d, y, 1); lang_cat(re_zero(), u, x, 1); }
        if hexdigs(x) { assert(is_digit(x[1], 16)); }
    }
}
} // verus!
