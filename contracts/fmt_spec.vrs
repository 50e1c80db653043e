verus! {
// ---------------------------------------------------------------- what the documentation says about format strings
/// an error about the bytes lo..hi of the format
pub enum Name { Closed(int), Colon(int), Open }
/// where the type/name part that starts at character k ends: first `}` or first single `:`
pub open spec fn name_end(s: Seq<char>, k: int) -> Name decreases s.len() - k {
    if k < 0 || k >= s.len() { Name::Open }
    else if s[k] == '}' { Name::Closed(k) }
    else if s[k] == ':' { if k + 1 < s.len() && s[k + 1] == ':' { name_end(s, k + 2) } else { Name::Colon(k) } }
    else { name_end(s, k + 1) }
}
pub enum Re { End(int, Seq<char>), Dangling(int), Open }
/// a custom regex from character k on: only `\/` is rewritten; a non-raw literal writes `\` as `\\`
pub open spec fn regex_from(s: Seq<char>, raw: bool, k: int, out: Seq<char>) -> Re decreases s.len() - k {
    if k < 0 || k >= s.len() { Re::Open }
    else if s[k] == '/' { Re::End(k, out) }
    else if s[k] != '\\' { regex_from(s, raw, k + 1, out.push(s[k])) }
    else if !raw && k + 1 >= s.len() { Re::Dangling(k) }
    else if !raw && s[k + 1] != '\\' { regex_from(s, raw, k + 2, out.push('\\').push(s[k + 1])) }
    else {
        let b = if raw { k + 1 } else { k + 2 };
        if b >= s.len() { Re::Dangling(k) }
        else if s[b] == '/' { regex_from(s, raw, b + 1, out.push('/')) }
        else if s[b] != '\\' { regex_from(s, raw, b + 1, out.push('\\').push(s[b])) }
        else if raw { regex_from(s, raw, b + 1, out.push('\\').push('\\')) }
        else if b + 1 >= s.len() { Re::Dangling(b) }
        else if s[b + 1] == '\\' { regex_from(s, raw, b + 2, out.push('\\').push('\\')) }
        else { regex_from(s, raw, b + 2, out.push('\\').push('\\').push(s[b + 1])) }
    }
}
pub enum OptV { Radix(int, PrefixPolicy), Regex(Seq<char>), Hashtag }
pub struct CfgV { pub kind: OptV, pub lo: int, pub hi: int }
pub struct PhV { pub lo: int, pub hi: int, pub ident: Option<(int, int, Seq<char>)>, pub cfg: Option<CfgV> }

/// the option table
pub open spec fn opt_kind(t: Seq<char>) -> Option<OptV> {
    if t == seq!['#'] { Some(OptV::Hashtag) }
    else if t == seq!['x'] { Some(OptV::Radix(16, PrefixPolicy::Optional(PrefixKind::Hex))) }
    else if t == seq!['o'] { Some(OptV::Radix(8, PrefixPolicy::Optional(PrefixKind::Octal))) }
    else if t == seq!['b'] { Some(OptV::Radix(2, PrefixPolicy::Optional(PrefixKind::Binary))) }
    else if t == seq!['#', 'x'] || t == seq!['x', '#'] { Some(OptV::Radix(16, PrefixPolicy::Forced(PrefixKind::Hex))) }
    else if t == seq!['#', 'o'] || t == seq!['o', '#'] { Some(OptV::Radix(8, PrefixPolicy::Forced(PrefixKind::Octal))) }
    else if t == seq!['#', 'b'] || t == seq!['b', '#'] { Some(OptV::Radix(2, PrefixPolicy::Forced(PrefixKind::Binary))) }
    else if t.len() > 0 && t[0] == 'r' && t.last() != '#' {
        match unsigned(t.subrange(1, t.len() as int), 10, 255) { Some(n) => if 2 <= n <= 36 { Some(OptV::Radix(n, PrefixPolicy::Never)) } else { None }, None => None }
    } else { None }
}
pub open spec fn first_close(s: Seq<char>, k: int) -> Option<int> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if s[k] == '}' { Some(k) } else { first_close(s, k + 1) }
}
/// regex-syntax: what a regex parses to
pub uninterp spec fn re_parse(s: Seq<char>) -> Option<regex_syntax::hir::Hir>;

/// character positions from `a` up to (not including) `b`
pub enum OptRes { Ok(OptV, int, int, int), Err(int, int) }
pub open spec fn radix_from(s: Seq<char>, k: int, open: int) -> OptRes {
    match first_close(s, k + 1) {
        None => OptRes::Err(open, s.len() as int),
        Some(f) => match opt_kind(s.subrange(k, f)) { Some(o) => OptRes::Ok(o, k, f, f), None => OptRes::Err(k, f) },
    }
}
pub open spec fn option_from(s: Seq<char>, raw: bool, k: int, open: int) -> OptRes {
    let n = s.len() as int;
    if k >= n { OptRes::Err(open, n) }
    else if s[k] == '}' { OptRes::Err(k, k + 1) }
    else if s[k] == '/' {
        match regex_from(s, raw, k + 1, Seq::empty()) {
            Re::Open => OptRes::Err(k, n),
            Re::Dangling(i) => OptRes::Err(i, n),
            Re::End(e, re) =>
                if e + 1 >= n { OptRes::Err(open, n) }
                else if s[e + 1] != '}' { OptRes::Err(e + 1, e + 2) }
                else { match re_parse(re) { None => OptRes::Err(k, e + 1), Some(h) => if has_capture(h) { OptRes::Err(k, e + 1) } else { OptRes::Ok(OptV::Regex(re), k, e + 1, e + 1) } } },
        }
    } else { radix_from(s, k, open) }
}
pub enum PhRes { Ok(PhV, int), Err(int, int) }
/// a placeholder whose `{` is at `open`; base: where the format starts in the literal
#[verifier::opaque] pub open spec fn placeholder_at(s: Seq<char>, raw: bool, open: int, base: int) -> PhRes {
    let k = open + 1;
    let id = |e: int| if e > k { Some((base + off(s, k), base + off(s, e), s.subrange(k, e))) } else { None::<(int, int, Seq<char>)> };
    match name_end(s, k) {
        Name::Open => PhRes::Err(open, s.len() as int),
        Name::Closed(e) =>
            if e > k && s[k] == '/' && s[e - 1] == '/' { PhRes::Err(k, e) }
            else { PhRes::Ok(PhV { lo: base + off(s, open), hi: base + off(s, e + 1), ident: id(e), cfg: None }, e + 1) },
        Name::Colon(e) => match option_from(s, raw, e + 1, open) {
            OptRes::Err(a, b) => PhRes::Err(a, b),
            OptRes::Ok(o, a, b, close) => PhRes::Ok(PhV { lo: base + off(s, open), hi: base + off(s, close + 1), ident: id(e), cfg: Some(CfgV { kind: o, lo: base + off(s, a), hi: base + off(s, b) }) }, close + 1),
        },
    }
}
// escape sequences of a non-raw literal (k: after the backslash). None: not a character (line continuation)
pub open spec fn hex_run(s: Seq<char>, k: int, braced: bool, d: Seq<char>) -> (Option<Seq<char>>, int) decreases s.len() - k {
    if !braced && off(d, d.len() as int) >= 2 { (Some(d), k) }
    else if k < 0 || k >= s.len() { (None, k) }
    else if s[k] == '{' || s[k] == '_' { hex_run(s, k + 1, braced, d) }
    else if s[k] == '}' { (Some(d), k + 1) }
    else { hex_run(s, k + 1, braced, d.push(s[k])) }
}
pub open spec fn skip_ws(s: Seq<char>, k: int) -> int decreases s.len() - k {
    if 0 <= k < s.len() && (s[k] == ' ' || s[k] == '\t' || s[k] == '\n' || s[k] == '\r') { skip_ws(s, k + 1) } else { k }
}
pub open spec fn char_of(n: int) -> char { choose|c: char| #[trigger] (c as u32) == n }
#[verifier::opaque] pub open spec fn escape_at(s: Seq<char>, k: int) -> (Option<char>, int) {
    if k < 0 || k >= s.len() { (None, k) }
    else if s[k] == 'n' { (Some('\n'), k + 1) }
    else if s[k] == 'r' { (Some('\r'), k + 1) }
    else if s[k] == 't' { (Some('\t'), k + 1) }
    else if s[k] == '0' { (Some('\0'), k + 1) }
    else if s[k] == '\n' { (None, skip_ws(s, k + 1)) }
    else if s[k] == 'x' || s[k] == 'u' {
        let (d, k2) = hex_run(s, k + 1, s[k] == 'u', Seq::empty());
        match d { None => (None, k2), Some(d) => match unsigned(d, 16, 0xffff_ffff) { Some(n) => if is_scalar(n) { (Some(char_of(n)), k2) } else { (None, k2) }, None => (None, k2) } }
    }
    else { (Some(s[k]), k + 1) }
}
/// the escape sequences of a string literal that the compiler accepts; k: after the `\\`
pub open spec fn esc_ok(s: Seq<char>, k: int) -> bool {
    &&& 0 <= k < s.len()
    &&& s[k] == 'n' || s[k] == 'r' || s[k] == 't' || s[k] == '0' || s[k] == '\\' || s[k] == '\'' || s[k] == '"' || s[k] == '\n' || s[k] == 'x' || s[k] == 'u'
    &&& s[k] == 'x' ==> k + 2 < s.len() && is_hex(s[k + 1]) && is_hex(s[k + 2])
    &&& s[k] == 'u' ==> k + 1 < s.len() && s[k + 1] == '{' && braces_ok(s, k + 2)
}
pub open spec fn is_hex(c: char) -> bool { '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
pub open spec fn braces_ok(s: Seq<char>, k: int) -> bool decreases s.len() - k { 0 <= k < s.len() && (s[k] == '}' || (is_hex(s[k]) || s[k] == '_') && braces_ok(s, k + 1)) }
pub open spec fn literal(cur: Seq<char>, c: char, esc: bool) -> Seq<char> { if esc && is_meta(c) { cur.push('\\').push(c) } else { cur.push(c) } }
pub enum Fmt { Ok(Seq<Seq<char>>, Seq<PhV>), Err(int, int) }
pub open spec fn format_from(s: Seq<char>, raw: bool, esc: bool, base: int, k: int, parts: Seq<Seq<char>>, cur: Seq<char>, phs: Seq<PhV>) -> Fmt
    decreases s.len() - k
{
    if k < 0 || k >= s.len() { Fmt::Ok(parts.push(cur), phs) }
    else if s[k] == '{' {
        if k + 1 < s.len() && s[k + 1] == '{' { format_from(s, raw, esc, base, k + 2, parts, literal(cur, '{', esc), phs) }
        else { match placeholder_at(s, raw, k, base) {
            PhRes::Err(a, b) => Fmt::Err(base + off(s, a), base + off(s, b)),
            PhRes::Ok(p, k2) => if k < k2 <= s.len() { format_from(s, raw, esc, base, k2, parts.push(cur.push('(')), seq![')'], phs.push(p)) } else { Fmt::Err(0, 0) },
        } }
    }
    else if s[k] == '}' {
        if k + 1 < s.len() && s[k + 1] == '}' { format_from(s, raw, esc, base, k + 2, parts, literal(cur, '}', esc), phs) }
        else { Fmt::Err(base + off(s, k), base + off(s, k + 1)) }
    }
    else if s[k] == '\\' && !raw {
        let (c, k2) = escape_at(s, k + 1);
        if k < k2 <= s.len() { format_from(s, raw, esc, base, k2, parts, match c { Some(c) => literal(cur, c, esc), None => cur }, phs) } else { Fmt::Err(0, 0) }
    }
    else { format_from(s, raw, esc, base, k + 1, parts, literal(cur, s[k], esc), phs) }
}
} // verus!
