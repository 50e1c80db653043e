//! Independent reading of a format literal, written from the documentation (Readme, macro docs).
//! Works on the source text between the quotes.
#[derive(Debug, Clone, PartialEq)]
pub enum Opt {
    Regex(String),
    Radix { radix: u32, prefix: Prefix },
    /// a lone `#`: reserved, always rejected, but only after the types were looked at
    Hash,
    /// text that is not a documented option
    Bad,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Prefix { Never, Optional(char), Forced(char) }

#[derive(Debug, Clone)]
pub struct Ph {
    pub range: (usize, usize),
    pub ident: Option<(usize, usize)>,
    pub opt: Option<(Opt, (usize, usize))>,
}
#[derive(Debug, Clone)]
pub struct Fmt { pub lits: Vec<String>, pub phs: Vec<Ph> }

#[derive(Debug, Clone, PartialEq)]
pub struct RefErr { pub kind: &'static str, pub range: (usize, usize) }
fn err<T>(kind: &'static str, a: usize, b: usize) -> Result<T, RefErr> { Err(RefErr { kind, range: (a, b) }) }

/// Decode one escape of a non-raw literal at `s[i..]` (s[i] == '\\'). Returns (chars, next index).
pub fn escape(s: &str, i: usize) -> (Option<char>, usize) {
    let c = s[i + 1..].chars().next().unwrap();
    match c {
        'n' => (Some('\n'), i + 2), 'r' => (Some('\r'), i + 2), 't' => (Some('\t'), i + 2), '0' => (Some('\0'), i + 2),
        'x' => (char::from_u32(u32::from_str_radix(&s[i + 2..i + 4], 16).unwrap()), i + 4),
        'u' => {
            let e = i + s[i..].find('}').unwrap();
            let d: String = s[i + 3..e].chars().filter(|c| *c != '_').collect();
            (char::from_u32(u32::from_str_radix(&d, 16).unwrap()), e + 1)
        }
        '\n' => {
            let rest = &s[i + 2..];
            let t = rest.trim_start_matches(|c| c == ' ' || c == '\n' || c == '\t' || c == '\r');
            (None, s.len() - t.len())
        }
        c => (Some(c), i + 1 + c.len_utf8()),
    }
}

pub fn radix_option(t: &str) -> Opt {
    let base = |c| match c { 'x' => 16, 'o' => 8, _ => 2 };
    match t {
        "#" => Opt::Hash,
        "x" | "o" | "b" => { let c = t.chars().next().unwrap(); Opt::Radix { radix: base(c), prefix: Prefix::Optional(c) } }
        "#x" | "x#" => Opt::Radix { radix: 16, prefix: Prefix::Forced('x') },
        "#o" | "o#" => Opt::Radix { radix: 8, prefix: Prefix::Forced('o') },
        "#b" | "b#" => Opt::Radix { radix: 2, prefix: Prefix::Forced('b') },
        _ => {
            if let Some(d) = t.strip_prefix('r') {
                if !d.is_empty() && d.len() <= 2 && d.chars().all(|c| c.is_ascii_digit()) {
                    let n: u32 = d.parse().unwrap();
                    if (2..=36).contains(&n) { return Opt::Radix { radix: n, prefix: Prefix::Never }; }
                }
            }
            Opt::Bad
        }
    }
}
/// option texts about which the documentation says nothing definite (accepted or not): skipped
pub fn radix_unspecified(t: &str) -> bool {
    match t.strip_prefix('r') {
        Some(d) => {
            let e = d.strip_prefix('+').unwrap_or(d);
            !e.is_empty() && e.chars().all(|c| c.is_ascii_digit()) && (d != e || e.starts_with('0'))
        }
        None => false,
    }
}

pub fn parse(s: &str, raw: bool) -> Result<Fmt, RefErr> {
    let n = s.len();
    let mut lits = vec![String::new()];
    let mut phs = vec![];
    let mut i = 0;
    while i < n {
        let rest = &s[i..];
        let c = rest.chars().next().unwrap();
        if rest.starts_with("{{") { lits.last_mut().unwrap().push('{'); i += 2; }
        else if rest.starts_with("}}") { lits.last_mut().unwrap().push('}'); i += 2; }
        else if c == '}' { return err("stray", i, i + 1); }
        else if c == '{' {
            let (ph, next) = placeholder(s, i, raw)?;
            phs.push(ph);
            lits.push(String::new());
            i = next;
        }
        else if c == '\\' && !raw {
            let (d, next) = escape(s, i);
            if let Some(d) = d { lits.last_mut().unwrap().push(d); }
            i = next;
        }
        else { lits.last_mut().unwrap().push(c); i += c.len_utf8(); }
    }
    Ok(Fmt { lits, phs })
}

/// a capture group anywhere in the regex as written (the parsed form drops those under `{0}`)
fn has_group(re: &str) -> bool {
    struct V(bool);
    impl regex_syntax::ast::Visitor for V {
        type Output = bool;
        type Err = ();
        fn finish(self) -> Result<bool, ()> { Ok(self.0) }
        fn visit_pre(&mut self, a: &regex_syntax::ast::Ast) -> Result<(), ()> {
            if let regex_syntax::ast::Ast::Group(g) = a { if g.is_capturing() { self.0 = true; } }
            Ok(())
        }
    }
    match regex_syntax::ast::parse::Parser::new().parse(re) { Ok(a) => regex_syntax::ast::visit(&a, V(false)).unwrap(), Err(_) => false }
}

/// every given span is a capture group of its own, and no flag is set anywhere
pub fn plain_groups(re: &str, spans: &[(usize, usize)]) -> bool {
    use regex_syntax::ast::{Ast, GroupKind};
    struct V { groups: Vec<(usize, usize)>, flags: bool }
    impl regex_syntax::ast::Visitor for V {
        type Output = (Vec<(usize, usize)>, bool);
        type Err = ();
        fn finish(self) -> Result<Self::Output, ()> { Ok((self.groups, self.flags)) }
        fn visit_pre(&mut self, a: &Ast) -> Result<(), ()> {
            match a {
                Ast::Flags(_) => self.flags = true,
                Ast::Group(g) => match &g.kind {
                    GroupKind::CaptureIndex(_) => self.groups.push((g.span.start.offset, g.span.end.offset)),
                    GroupKind::NonCapturing(f) if !f.items.is_empty() => self.flags = true,
                    _ => {}
                },
                _ => {}
            }
            Ok(())
        }
    }
    let Ok(a) = regex_syntax::ast::parse::Parser::new().parse(re) else { return false };
    let (groups, flags) = regex_syntax::ast::visit(&a, V { groups: vec![], flags: false }).unwrap();
    !flags && spans.iter().all(|s| groups.contains(s))
}

fn placeholder(s: &str, open: usize, raw: bool) -> Result<(Ph, usize), RefErr> {
    let n = s.len();
    let b = s.as_bytes();
    let mut j = open + 1;
    // type/name part
    loop {
        if j >= n { return err("unclosed", open, n); }
        if b[j] == b'}' || (b[j] == b':' && b.get(j + 1) != Some(&b':')) { break; }
        if b[j] == b':' { j += 2 } else { j += 1 }
    }
    let ident = if j > open + 1 { Some((open + 1, j)) } else { None };
    if b[j] == b'}' {
        if let Some((a, e)) = ident {
            if b[a] == b'/' && b[e - 1] == b'/' { return err("regex without colon", a, e); }
        }
        return Ok((Ph { range: (open, j + 1), ident, opt: None }, j + 1));
    }
    let o = j + 1;
    if o >= n { return err("unclosed", open, n); }
    match b[o] {
        b'}' => err("empty option", o, o + 1),
        b'/' => {
            // split into units: ordinary char, or backslash-escape pair
            let mut re = String::new();
            let mut k = o + 1;
            loop {
                if k >= n { return err("unterminated regex", o, n); }
                let c = s[k..].chars().next().unwrap();
                if c == '/' { break; }
                if c != '\\' { re.push(c); k += c.len_utf8(); continue; }
                // one backslash of the regex: `\` in raw, `\\` in non-raw literals
                if raw || s[k..].starts_with("\\\\") {
                    let start = k;
                    k += if raw { 1 } else { 2 };
                    // what it escapes
                    let Some(d) = s[k..].chars().next() else { return err("regex ends in backslash", start, n) };
                    if d == '/' { re.push('/'); k += 1; }
                    else if d == '\\' && (raw || s[k..].starts_with("\\\\")) { re.push_str("\\\\"); k += if raw { 1 } else { 2 }; }
                    else if d == '\\' {
                        // non-raw: an escaped backslash followed by another string escape, both handed on
                        re.push('\\'); 
                    }
                    else { re.push('\\'); re.push(d); k += d.len_utf8(); }
                } else {
                    // another escape of the string literal, handed to the regex as written
                    let d = s[k + 1..].chars().next().unwrap();
                    re.push('\\'); re.push(d);
                    k += 1 + d.len_utf8();
                }
            }
            let close = k + 1;
            if close >= n { return err("unclosed", open, n); }
            if b[close] != b'}' {
                let w = s[close..].chars().next().unwrap().len_utf8();
                return err("regex not followed by bracket", close, close + w);
            }
            let optr = (o, k + 1);
            // validity is decided at compile time by regex-syntax 0.6, the matching is done by a newer
            // version. Where the two disagree nothing is claimed.
            let old = rs06::Parser::new().parse(&re).is_ok();
            match regex_syntax::Parser::new().parse(&re) {
                Err(_) if !old => return err("invalid regex", optr.0, optr.1),
                Ok(_) if old => if has_group(&re) { return err("capture group", optr.0, optr.1); },
                _ => return err("UNSPECIFIED", optr.0, optr.1),
            }
            Ok((Ph { range: (open, close + 1), ident, opt: Some((Opt::Regex(re), optr)) }, close + 1))
        }
        _ => {
            let Some(d) = s[o..].find('}') else { return err("unclosed", open, n) };
            let close = o + d;
            let opt = radix_option(&s[o..close]);
            if opt == Opt::Bad { return err("bad option", o, close); }
            Ok((Ph { range: (open, close + 1), ident, opt: Some((opt, (o, close))) }, close + 1))
        }
    }
}
