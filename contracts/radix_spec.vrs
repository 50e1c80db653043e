// What a radix placeholder means: its numerals, their values, and std's from_str_radix.
verus! {
pub enum Pfx { Never, Optional(char), Forced(char) }
pub open spec fn upper(c: char) -> char { if c == 'x' { 'X' } else if c == 'o' { 'O' } else if c == 'b' { 'B' } else { c } }
/// a numeral without its sign
pub open spec fn unsign(s: Seq<char>, signed: bool) -> Seq<char> { if s.len() > 0 && (s[0] == '+' || signed && s[0] == '-') { s.skip(1) } else { s } }
pub open spec fn has_pfx(b: Seq<char>, p: char) -> bool { b.len() >= 2 && b[0] == '0' && (b[1] == p || b[1] == upper(p)) }
pub open spec fn is_digit(c: char, r: int) -> bool { digit(c) is Some && digit(c)->0 < r }
/// between one and n digits of base r
pub open spec fn digs(s: Seq<char>, r: int, n: int) -> bool { 1 <= s.len() <= n && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i], r) }
/// the digits of a numeral: without sign and prefix
pub open spec fn digits_of(s: Seq<char>, signed: bool, p: Pfx) -> Seq<char> {
    let b = unsign(s, signed);
    match p { Pfx::Never => b, Pfx::Optional(c) => if has_pfx(b, c) { b.skip(2) } else { b }, Pfx::Forced(c) => b.skip(2) }
}
/// the texts a radix placeholder matches
pub open spec fn numeral(s: Seq<char>, signed: bool, p: Pfx, r: int, n: int) -> bool {
    (p is Forced ==> has_pfx(unsign(s, signed), p->Forced_0)) && digs(digits_of(s, signed, p), r, n)
}
/// the value of a numeral
pub open spec fn num_val(s: Seq<char>, signed: bool, p: Pfx, r: int) -> int { let v = num(digits_of(s, signed, p), r)->0; if s.len() > 0 && s[0] == '-' { -v } else { v } }

/// std: T::from_str_radix
pub open spec fn std_parse(s: Seq<char>, r: int, min: int, max: int) -> Option<int> {
    let b = unsign(s, min < 0);
    if b.len() == 0 || num(b, r) is None { None } else { let n = num(b, r)->0; let v = if s[0] == '-' { -n } else { n }; if min <= v <= max { Some(v) } else { None } }
}

// ---------------------------------------------------------------- numerals and digits
pub broadcast proof fn num_digs(s: Seq<char>, r: int, n: int) requires #[trigger] digs(s, r, n), r >= 2 ensures num(s, r) is Some, num(s, r)->0 >= 0 { num_some(s, r); }
pub proof fn num_some(s: Seq<char>, r: int) requires r >= 2, forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i], r) ensures num(s, r) is Some, num(s, r)->0 >= 0 decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i], r) by { assert(s.drop_last()[i] == s[i]); } num_some(s.drop_last(), r); assert(num(s.drop_last(), r)->0 * r >= 0) by (nonlinear_arith) requires num(s.drop_last(), r)->0 >= 0, r >= 2; } }
/// what the emitted conversions parse, in terms of the numeral
pub broadcast proof fn numeral_parts(s: Seq<char>, signed: bool, p: Pfx, r: int, n: int)
    requires #[trigger] numeral(s, signed, p, r, n), 2 <= r <= 36
    ensures
        digits_of(s, signed, p).len() >= 1, num(digits_of(s, signed, p), r) is Some, num(digits_of(s, signed, p), r)->0 >= 0,
        unsign(digits_of(s, signed, p), true) == digits_of(s, signed, p), unsign(digits_of(s, signed, p), false) == digits_of(s, signed, p),
        digits_of(s, signed, p)[0] != '-', digits_of(s, signed, p)[0] != '+',
        s.len() > 0, !signed ==> s[0] != '-',
        unsign(s, signed).len() > 0,
        unsign(unsign(s, signed), false) == unsign(s, signed), unsign(unsign(s, signed), true) == unsign(s, signed), unsign(s, signed)[0] != '-', unsign(s, signed)[0] != '+',
{
    let d = digits_of(s, signed, p);
    num_some(d, r);
    assert(is_digit(d[0], r));
}
pub broadcast proof fn after_first(a: Seq<char>, d: Seq<char>) requires a.len() == 1 ensures (#[trigger] (a + d)).skip(1) == d, (a + d)[0] == a[0] { assert((a + d).skip(1) =~= d); }
pub broadcast group numerals { numeral_parts, after_first }
pub open spec fn pow(b: int, n: int) -> int decreases n { if n <= 0 { 1 } else { b * pow(b, n - 1) } }
/// digits of a value, in lower or upper case
pub open spec fn dig_char(d: int, up: bool) -> char { if d < 10 { ('0' as int + d) as char } else if up { ('A' as int + d - 10) as char } else { ('a' as int + d - 10) as char } }
pub open spec fn to_digits(v: int, r: int, up: bool) -> Seq<char> decreases v via to_digits_dec { if v < r || r < 2 { seq![dig_char(v, up)] } else { to_digits(v / r, r, up).push(dig_char(v % r, up)) } }
#[via_fn] proof fn to_digits_dec(v: int, r: int, up: bool) { if !(v < r || r < 2) { assert(0 <= v / r < v) by (nonlinear_arith) requires v >= r, r >= 2; } }
pub open spec fn has_pfx_or_not(p: Pfx, c: char) -> bool { p == Pfx::Optional(c) || p == Pfx::Forced(c) }
proof fn dig_is(d: int, up: bool) requires 0 <= d < 36 ensures digit(dig_char(d, up)) == Some(d) {}
pub proof fn digits_numeral(v: int, r: int, n: int, up: bool)
    requires 0 <= v < pow(r, n), 2 <= r <= 36, n >= 1
    ensures digs(to_digits(v, r, up), r, n), num(to_digits(v, r, up), r) == Some(v)
    decreases n
{
    if v < r {
        assert(to_digits(v, r, up).len() == 1);
        let s = to_digits(v, r, up);
        assert(s.drop_last() =~= Seq::<char>::empty());
        dig_is(v, up);
        assert(s.last() == s[0]);
        assert(num(s.drop_last(), r) == Some(0int));
    } else {
        assert(n > 1) by { if n == 1 { reveal_with_fuel(pow, 3); assert(pow(r, 0) == 1); assert(pow(r, 1) == r * pow(r, 0)); assert(r * 1 == r) by (nonlinear_arith); } }
        assert(pow(r, n) == r * pow(r, n - 1));
        assert(0 <= v / r < pow(r, n - 1) && v / r < v && 0 <= v % r < r && v / r * r + v % r == v) by (nonlinear_arith) requires v < r * pow(r, n - 1), v >= r, r >= 2;
        digits_numeral(v / r, r, n - 1, up);
        let h = to_digits(v / r, r, up); let c = dig_char(v % r, up); let s = h.push(c);
        assert(to_digits(v, r, up) == s); assert(s.drop_last() =~= h); assert(s.last() == c);
        dig_is(v % r, up);
        assert(num(s, r) == Some(v / r * r + v % r));
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i], r) by { if i < h.len() { assert(s[i] == h[i]); } }
    }
}
/// every value of the type, written in the base, is a numeral that has this value
pub open spec fn written(v: int, r: int, up: bool, plus: bool, pre: Seq<char>) -> Seq<char> {
    (if v < 0 { seq!['-'] } else if plus { seq!['+'] } else { seq![] }) + pre + to_digits(if v < 0 { -v } else { v }, r, up)
}
pub proof fn value_numeral(v: int, signed: bool, p: Pfx, r: int, n: int, up: bool, plus: bool, upp: bool, with: bool)
    requires
        v < 0 ==> signed, (if v < 0 { -v } else { v }) < pow(r, n), 2 <= r <= 36, n >= 1,
        p is Never ==> !with, p is Forced ==> with,
        p is Optional ==> !is_digit(p->Optional_0, r) && !is_digit(upper(p->Optional_0), r),
    ensures ({ let c = if p is Optional { p->Optional_0 } else { p->Forced_0 }; let s = written(v, r, up, plus, if with { seq!['0', if upp { upper(c) } else { c }] } else { seq![] }); numeral(s, signed, p, r, n) && num_val(s, signed, p, r) == v })
{
    let a = if v < 0 { -v } else { v };
    digits_numeral(a, r, n, up);
    let c = if p is Optional { p->Optional_0 } else { p->Forced_0 };
    let pre = if with { seq!['0', if upp { upper(c) } else { c }] } else { seq![] };
    let d = to_digits(a, r, up);
    let s = written(v, r, up, plus, pre);
    assert(is_digit(d[0], r));
    let b = pre + d;
    if v < 0 || plus { assert(s.skip(1) =~= b); } else { assert(s =~= b); assert(s[0] == b[0]); if with { assert(b[0] == '0'); } else { assert(b[0] == d[0]); } }
    assert(unsign(s, signed) == b);
    if with { assert(b.skip(2) =~= d); assert(has_pfx(b, c)); } else { assert(b =~= d); if d.len() >= 2 { assert(is_digit(d[1], r)); } }
    assert(digits_of(s, signed, p) == d);
    if v >= 0 { if plus { assert(s[0] == '+'); } }
}
/// a character that is not a digit of the base never is, and no non-ASCII character ever is
pub broadcast proof fn numeral_chars(s: Seq<char>, signed: bool, p: Pfx, r: int, n: int, i: int)
    requires #[trigger] numeral(s, signed, p, r, n), 0 <= i < s.len(), 2 <= r <= 36
    ensures ({ let c = #[trigger] s[i]; is_digit(c, r) || (i == 0 && (c == '+' || signed && c == '-')) || (i <= 2 && !(p is Never) && (has_pfx_or_not(p, c) || has_pfx_or_not(p, lower(c)))) })
{
    let b = unsign(s, signed); let d = digits_of(s, signed, p);
    let o = s.len() - d.len();
    if i >= o { assert(s[i] == d[i - o]); }
    else if o == 0 {}
    else { if b.len() < s.len() { if i > 0 { assert(b[i - 1] == s[i]); } } }
    assert(is_digit('0', r));
}
pub open spec fn lower(c: char) -> char { if c == 'X' { 'x' } else if c == 'O' { 'o' } else if c == 'B' { 'b' } else { c } }

// ---------------------------------------------------------------- the regexes
pub open spec fn sign_cls(signed: bool) -> Seq<(u32, u32)> { if signed { seq![(43u32, 43u32), (45u32, 45u32)] } else { seq![(43u32, 43u32)] } }
pub open spec fn dig_cls(r: int) -> Seq<(u32, u32)> { if r <= 10 { seq![(48u32, (47 + r) as u32)] } else { seq![(48u32, 57u32), (65u32, (54 + r) as u32), (97u32, (86 + r) as u32)] } }
pub open spec fn two_cls(c: char) -> Seq<(u32, u32)> { if c == 'x' { seq![(88u32, 88u32), (120u32, 120u32)] } else if c == 'o' { seq![(79u32, 79u32), (111u32, 111u32)] } else { seq![(66u32, 66u32), (98u32, 98u32)] } }
pub open spec fn re_digs(r: int, n: nat) -> Re { Re::Rep(Box::new(Re::Cls(dig_cls(r))), 1, Some(n)) }
pub open spec fn re_sign(signed: bool) -> Re { Re::Rep(Box::new(Re::Cls(sign_cls(signed))), 0, Some(1)) }
pub open spec fn re_zero() -> Re { Re::Cls(seq![(48u32, 48u32)]) }
pub open spec fn radix_re(signed: bool, p: Pfx, r: int, n: nat) -> Re {
    let d = re_digs(r, n);
    match p {
        Pfx::Never => Re::Cat(Box::new(re_sign(signed)), Box::new(d)),
        Pfx::Optional(c) => Re::Cat(Box::new(re_sign(signed)), Box::new(Re::Cat(Box::new(Re::Rep(Box::new(Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c))))), 0, Some(1))), Box::new(d)))),
        Pfx::Forced(c) => Re::Cat(Box::new(re_sign(signed)), Box::new(Re::Cat(Box::new(re_zero()), Box::new(Re::Cat(Box::new(Re::Cls(two_cls(c))), Box::new(d)))))),
    }
}
pub proof fn in_sign(signed: bool, c: char) ensures in_cls(sign_cls(signed), c) <==> c == '+' || signed && c == '-' {
    let q = sign_cls(signed);
    if c == '+' { assert(in_range(q[0], c)); } if signed && c == '-' { assert(in_range(q[1], c)); }
}
pub proof fn in_dig(r: int, c: char) requires 2 <= r <= 36 ensures in_cls(dig_cls(r), c) <==> is_digit(c, r) {
    let q = dig_cls(r);
    if is_digit(c, r) { if '0' <= c && c <= '9' { assert(in_range(q[0], c)); } else if 'A' <= c && c <= 'Z' { assert(in_range(q[1], c)); } else { assert(in_range(q[2], c)); } }
}
pub proof fn in_two(p: char, c: char) requires p == 'x' || p == 'o' || p == 'b' ensures in_cls(two_cls(p), c) <==> c == p || c == upper(p) {
    let q = two_cls(p);
    if c == p { assert(in_range(q[1], c)); } if c == upper(p) { assert(in_range(q[0], c)); }
}
pub proof fn lang_digs(r: int, n: nat, s: Seq<char>) requires 2 <= r <= 36 ensures lang(re_digs(r, n), s) <==> digs(s, r, n as int) {
    lang_rep_cls(dig_cls(r), 1, Some(n), s);
    if all_in(dig_cls(r), s) { assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i], r) by { in_dig(r, s[i]); assert(in_cls(dig_cls(r), s[i])); } }
    if digs(s, r, n as int) { assert forall|i: int| 0 <= i < s.len() implies in_cls(dig_cls(r), #[trigger] s[i]) by { in_dig(r, s[i]); assert(is_digit(s[i], r)); } }
}
pub proof fn lang_sign(signed: bool, s: Seq<char>) ensures lang(re_sign(signed), s) <==> s.len() == 0 || s.len() == 1 && (s[0] == '+' || signed && s[0] == '-') {
    lang_opt(Re::Cls(sign_cls(signed)), s);
    if s.len() == 1 { in_sign(signed, s[0]); }
}
/// a regex that cannot start with a sign, after an optional sign
pub proof fn lang_signed(signed: bool, t: Re, s: Seq<char>)
    requires forall|x: Seq<char>| #[trigger] lang(t, x) ==> x.len() > 0 && x[0] != '+' && x[0] != '-'
    ensures lang(Re::Cat(Box::new(re_sign(signed)), Box::new(t)), s) <==> lang(t, unsign(s, signed))
{
    let r = Re::Cat(Box::new(re_sign(signed)), Box::new(t));
    if lang(r, s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] cut(k) && lang(re_sign(signed), s.take(k)) && lang(t, s.skip(k));
        lang_sign(signed, s.take(k));
        if k == 0 { assert(s.skip(0) =~= s); } else { assert(s.take(1)[0] == s[0]); }
    }
    if lang(t, unsign(s, signed)) {
        let k = s.len() - unsign(s, signed).len();
        lang_sign(signed, s.take(k));
        assert(s.skip(0) =~= s);
        if k == 1 { assert(s.take(1)[0] == s[0]); }
        assert(cut(k));
    }
}
/// the regex of a radix placeholder matches exactly its numerals
pub proof fn lang_radix(signed: bool, p: Pfx, r: int, n: nat, s: Seq<char>)
    requires 2 <= r <= 36, match p { Pfx::Never => true, Pfx::Optional(c) => (c == 'x' || c == 'o' || c == 'b') && !is_digit(c, r) && !is_digit(upper(c), r), Pfx::Forced(c) => c == 'x' || c == 'o' || c == 'b' },
    ensures lang(radix_re(signed, p, r, n), s) <==> numeral(s, signed, p, r, n as int)
{
    let d = re_digs(r, n);
    let b = unsign(s, signed);
    match p {
        Pfx::Never => {
            assert forall|x: Seq<char>| #[trigger] lang(d, x) implies x.len() > 0 && x[0] != '+' && x[0] != '-' by { lang_digs(r, n, x); assert(is_digit(x[0], r)); }
            lang_signed(signed, d, s); lang_digs(r, n, b);
        }
        Pfx::Optional(c) => {
            let z = Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c)))); let t = Re::Cat(Box::new(Re::Rep(Box::new(z), 0, Some(1))), Box::new(d));
            assert forall|x: Seq<char>| lang(t, x) <==> #[trigger] optd(x, c, r, n as int) by { lang_optd(x, c, r, n); }
            assert forall|x: Seq<char>| #[trigger] lang(t, x) implies x.len() > 0 && x[0] != '+' && x[0] != '-' by { assert(optd(x, c, r, n as int)); if !has_pfx(x, c) { assert(is_digit(x[0], r)); } }
            lang_signed(signed, t, s);
            assert(lang(t, b) <==> optd(b, c, r, n as int));
        }
        Pfx::Forced(c) => {
            let t = Re::Cat(Box::new(re_zero()), Box::new(Re::Cat(Box::new(Re::Cls(two_cls(c))), Box::new(d))));
            assert forall|x: Seq<char>| lang(t, x) <==> #[trigger] forced(x, c, r, n as int) by { lang_forced(x, c, r, n); }
            assert forall|x: Seq<char>| #[trigger] lang(t, x) implies x.len() > 0 && x[0] != '+' && x[0] != '-' by { assert(forced(x, c, r, n as int)); }
            lang_signed(signed, t, s);
            assert(lang(t, b) <==> forced(b, c, r, n as int));
        }
    }
}
pub open spec fn optd(x: Seq<char>, c: char, r: int, n: int) -> bool { digs(if has_pfx(x, c) { x.skip(2) } else { x }, r, n) }
pub open spec fn forced(x: Seq<char>, c: char, r: int, n: int) -> bool { has_pfx(x, c) && digs(x.skip(2), r, n) }
pub proof fn in_zero(c: char) ensures in_cls(seq![(48u32, 48u32)], c) <==> c == '0' { if c == '0' { assert(in_range(seq![(48u32, 48u32)][0], c)); } }
proof fn lang_z(x: Seq<char>, c: char) requires c == 'x' || c == 'o' || c == 'b'
    ensures lang(Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c)))), x) <==> x.len() == 2 && has_pfx(x, c)
{
    let z = Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c))));
    if lang(z, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] cut(k) && lang(re_zero(), x.take(k)) && lang(Re::Cls(two_cls(c)), x.skip(k)); assert(x.take(1)[0] == x[0] && x.skip(1)[0] == x[1]); in_zero(x[0]); in_two(c, x[1]); }
    if x.len() == 2 && has_pfx(x, c) { assert(x.take(1)[0] == x[0] && x.skip(1)[0] == x[1]); in_zero(x[0]); in_two(c, x[1]); assert(cut(1) && lang(re_zero(), x.take(1)) && lang(Re::Cls(two_cls(c)), x.skip(1))); }
}
proof fn lang_optd(x: Seq<char>, c: char, r: int, n: nat)
    requires 2 <= r <= 36, c == 'x' || c == 'o' || c == 'b', !is_digit(c, r), !is_digit(upper(c), r)
    ensures lang(Re::Cat(Box::new(Re::Rep(Box::new(Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c))))), 0, Some(1))), Box::new(re_digs(r, n))), x) <==> optd(x, c, r, n as int)
{
    let z = Re::Cat(Box::new(re_zero()), Box::new(Re::Cls(two_cls(c)))); let o = Re::Rep(Box::new(z), 0, Some(1)); let d = re_digs(r, n); let t = Re::Cat(Box::new(o), Box::new(d));
    if lang(t, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] cut(k) && lang(o, x.take(k)) && lang(d, x.skip(k));
        lang_opt(z, x.take(k)); lang_z(x.take(k), c); lang_digs(r, n, x.skip(k));
        if k == 0 { assert(x.skip(0) =~= x); if x.len() >= 2 { assert(is_digit(x[1], r)); } } else { assert(x.take(2)[0] == x[0] && x.take(2)[1] == x[1]); }
    }
    if optd(x, c, r, n as int) {
        let k: int = if has_pfx(x, c) { 2 } else { 0 };
        assert(x.skip(0) =~= x);
        lang_opt(z, x.take(k)); lang_z(x.take(k), c); lang_digs(r, n, x.skip(k));
        if k == 2 { assert(x.take(2)[0] == x[0] && x.take(2)[1] == x[1]); }
        assert(cut(k) && lang(o, x.take(k)) && lang(d, x.skip(k)));
    }
}
proof fn lang_forced(x: Seq<char>, c: char, r: int, n: nat)
    requires 2 <= r <= 36, c == 'x' || c == 'o' || c == 'b'
    ensures lang(Re::Cat(Box::new(re_zero()), Box::new(Re::Cat(Box::new(Re::Cls(two_cls(c))), Box::new(re_digs(r, n))))), x) <==> forced(x, c, r, n as int)
{
    let d = re_digs(r, n); let u = Re::Cat(Box::new(Re::Cls(two_cls(c))), Box::new(d)); let t = Re::Cat(Box::new(re_zero()), Box::new(u));
    if lang(t, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] cut(k) && lang(re_zero(), x.take(k)) && lang(u, x.skip(k));
        assert(x.take(1)[0] == x[0]); in_zero(x[0]);
        let y = x.skip(1);
        let j = choose|j: int| 0 <= j <= y.len() && #[trigger] cut(j) && lang(Re::Cls(two_cls(c)), y.take(j)) && lang(d, y.skip(j));
        assert(y.take(1)[0] == y[0] && y[0] == x[1]); in_two(c, x[1]); assert(y.skip(1) =~= x.skip(2)); lang_digs(r, n, x.skip(2));
    }
    if forced(x, c, r, n as int) {
        let y = x.skip(1);
        assert(x.take(1)[0] == x[0]); in_zero(x[0]); assert(y.take(1)[0] == y[0] && y[0] == x[1]); in_two(c, x[1]); assert(y.skip(1) =~= x.skip(2)); lang_digs(r, n, x.skip(2));
        assert(cut(1) && lang(Re::Cls(two_cls(c)), y.take(1)) && lang(d, y.skip(1)));
        assert(cut(1) && lang(re_zero(), x.take(1)) && lang(u, x.skip(1)));
    }
}
} // verus!
