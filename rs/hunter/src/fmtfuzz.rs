//! Fuzzing format literals through the macro entry points and comparing with the reference reading.
use crate::hircmp::{self, Cmp};
use crate::refparse::{self, Opt, Prefix};
use crate::rng::Rng;
use crate::{Found, Report};
use proc_macro2::{TokenStream, TokenTree};
use sscanf::RegexRepresentation;
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TyKind { Int(u32, bool), Str, Cow, Other, Unknown, BadRef, Invalid }
/// type text, what it is, its REGEX
pub fn types() -> Vec<(&'static str, TyKind, Option<&'static str>)> {
    use TyKind::*;
    macro_rules! ints { ($($t:ident $b:literal $s:literal),*) => { vec![$((stringify!($t), Int($b, $s), Some(<$t>::REGEX))),*] } }
    let mut v = ints!(u8 8 false, u16 16 false, u32 32 false, u64 64 false, u128 128 false, usize 64 false,
        i8 8 true, i16 16 true, i32 32 true, i64 64 true, i128 128 true, isize 64 true);
    for t in ["str", "&str", "primitive::str", "std::primitive::str", "::std::primitive::str", "core::primitive::str", "::core::primitive::str", "&std::primitive::str"] { v.push((t, Str, Some(<str>::REGEX))); }
    for t in ["Cow<str>", "std::borrow::Cow<str>", "::std::borrow::Cow<str>", "borrow::Cow<str>", "alloc::borrow::Cow<str>", "Cow<'_, str>", "std::borrow::Cow<'static, std::primitive::str>"] { v.push((t, Cow, Some(<str>::REGEX))); }
    v.push(("String", Other, Some(String::REGEX)));
    v.push(("char", Other, Some(char::REGEX)));
    v.push(("bool", Other, Some(bool::REGEX)));
    v.push(("f32", Other, Some(f32::REGEX)));
    v.push(("f64", Other, Some(f64::REGEX)));
    v.push(("NonZeroU8", Other, Some(std::num::NonZeroU8::REGEX)));
    for t in ["Foo", "a::b::C", "Vec<u8>", "::x::Y", "HashMap<str,  i32>", "std::i32", "core::primitive::u8", "Option<Cow<str>>", "std::String", "Ünï", "r#u8", "my::Cow<str>", "Cow<u8>", "U8", "i", "u", "u9"] { v.push((t, Unknown, None)); }
    for t in ["&u8", "&mut str", "&'a str", "&'static str", "&[u8]"] { v.push((t, BadRef, None)); }
    for t in ["5x", "a b", "[u8]", "(u8)", "é!", "<", "-1", "u8,", "é", "a.b", "\"", "日本", "i32;"] {
        if t == "é" || t == "日本" { continue; }
        if t == "\"" { continue; }
        v.push((t, Invalid, None));
    }
    v
}

pub struct Profile { pub lit: usize, pub brace: usize, pub esc: usize, pub bad: usize, pub custom: usize, pub radix: usize, pub wide: usize, pub ext: usize, pub maxpieces: usize, pub common_types: usize }

pub struct Case { pub token: String, pub body: String, pub raw: bool, pub prefix_len: usize, pub types: Vec<usize>, pub mac: u8 }

fn quote(body: &str, raw: bool, rng: &mut Rng) -> Option<(String, usize)> {
    if raw {
        let mut h = 0;
        while body.contains(&format!("\"{}", "#".repeat(h))) { h += 1; }
        if rng.chance(25) { h += rng.below(3); }
        if body.contains('\r') { return None; }
        let p = "#".repeat(h);
        Some((format!("r{p}\"{body}\"{p}"), 2 + h))
    } else { Some((format!("\"{body}\""), 1)) }
}

fn ch(rng: &mut Rng, wide: usize) -> char {
    let meta = ".+*?()|[]^$/#&-~:,;' <>=!_";
    let odd = "éßſ\u{212A}😀日本\u{301}ÄИ٣\u{a0}＃ｗ±Ω“①\u{200d}";
    if rng.chance(wide) { let v: Vec<char> = odd.chars().collect(); v[rng.below(v.len())] }
    else if rng.chance(50) { let v: Vec<char> = meta.chars().collect(); v[rng.below(v.len())] }
    else { let v: Vec<char> = "abcdxrnu0129 AZK".chars().collect(); v[rng.below(v.len())] }
}

/// one character of literal text as source
fn lit_src(rng: &mut Rng, raw: bool, p: &Profile) -> String {
    if rng.chance(p.esc) {
        if raw { return rng.pick(&["\\", "\"", "\\n", "\\\\", "\t"]).to_string(); }
        return rng.pick(&["\\n", "\\t", "\\r", "\\0", "\\\\", "\\'", "\\\"", "\\x41", "\\x7e", "\\x2E", "\\u{41}", "\\u{1F600}", "\\u{e9}", "\\u{1_0}", "\\x7B", "\\x7d", "\\\n   ", "\\u{7D}", "\\x5c"]).to_string();
    }
    ch(rng, p.wide).to_string()
}

/// a regex that nests: a capture group is to be found wherever it is
fn nested(rng: &mut Rng, p: &Profile, depth: usize) -> String {
    if depth == 0 || rng.chance(15) { return if rng.chance(p.bad / 2) { rng.pick(&["(b)", "(?P<n>x)", "()", "((?:a))"]).to_string() } else { rng.pick(&["a", "b", "[xy]", "", "x+"]).to_string() }; }
    let a = nested(rng, p, depth - 1);
    match rng.below(7) {
        0 => format!("(?:{a})"),
        1 => format!("(?i:{a})"),
        2 => { let b = nested(rng, p, depth - 1); format!("(?:{a}|{b})") }
        3 => { let b = nested(rng, p, depth - 1); format!("{a}c{b}") }
        4 => format!("(?:{a}){}", rng.pick(&["*", "+", "?", "{2}", "{0}", "{1,3}?"])),
        5 => { let b = nested(rng, p, depth - 1); format!("(?:a{a}|{b}|c)") }
        _ => format!("{a}|x"),
    }
}

fn custom_src(rng: &mut Rng, raw: bool, p: &Profile) -> String {
    let mut s = String::from("/");
    let bs = if raw { "\\" } else { "\\\\" };
    for _ in 0..rng.below(6) {
        match rng.below(15) {
            13 => { let t = nested(rng, p, 3); s.push_str(&t); }
            0 => s.push_str(&format!("{bs}d")),
            1 => s.push_str(&format!("{bs}/")),
            2 => s.push_str(&format!("{bs}{bs}")),
            3 => s.push_str("[^m]"),
            4 => s.push_str("a+"),
            5 => s.push_str("b{2}"),
            6 => s.push_str("(?:ab|c)"),
            7 => s.push_str(&format!("{bs}}}")),
            8 => s.push_str(&format!("{bs}(")),
            9 => s.push(ch(rng, p.wide)),
            10 => s.push_str("::}"),
            11 => if raw { s.push('"') } else { s.push_str(rng.pick(&["\\n", "\\t", "\\x41", "\\\""])) },
            12 => s.push_str(&format!("{bs}.")),
            _ => if rng.chance(p.bad) { s.push_str(rng.pick(&["(", "(a)", "[", "/", "*", "(?P<n>x)", ")"])) } else { s.push_str("x?") },
        }
    }
    if rng.chance(p.bad) { for _ in 0..rng.below(4) { s.push_str(bs); } }
    if !rng.chance(p.bad / 2) { s.push('/'); }
    if rng.chance(p.bad / 3) { s.push(ch(rng, p.wide)); }
    s
}

fn radix_src(rng: &mut Rng, p: &Profile) -> String {
    if rng.chance(p.bad) {
        return rng.pick(&["#", "r37", "r1", "r0", "r", "r256", "r-1", "r2 ", "X", "##x", "x##", "#r16", "r16#", "xx", "?", ">5", " x", "x ", "R2", "rx", "d", "#d", "é", "é#", "#é", "0x", "rr2", "r2r", "r036", "r+16", "r99", "B", "oo", "r3６", "r1e1", "r100", "r292"]).to_string();
    }
    match rng.below(4) {
        0 => rng.pick(&["x", "o", "b"]).to_string(),
        1 => rng.pick(&["#x", "#o", "#b", "x#", "o#", "b#"]).to_string(),
        _ => format!("r{}", 2 + rng.below(35)),
    }
}

pub fn gen(rng: &mut Rng, p: &Profile, tys: &[(&'static str, TyKind, Option<&'static str>)]) -> Option<Case> {
    let raw = rng.chance(50);
    let mut body = String::new();
    let mut auto = 0;
    let mut maxidx = 0;
    let ntypes_hint = rng.below(4);
    let pick_ty = |rng: &mut Rng| -> usize { if rng.chance(p.common_types) { rng.below(24.min(tys.len())) } else { rng.below(tys.len()) } };
    if rng.below(100) == 0 {
        // many placeholders, all types used: every index in some order, with repetitions and a few literal parts
        let n = 11 + rng.below(60);
        let mut ids: Vec<String> = vec![String::new(); n];
        for _ in 0..rng.below(20) { let over = usize::from(rng.chance(p.bad / 8)); ids.push(rng.below(n + over).to_string()); }
        if rng.chance(30) { ids = (0..n).map(|i| i.to_string()).collect(); }
        for i in (1..ids.len()).rev() { let j = rng.below(i + 1); ids.swap(i, j) }
        for id in ids { body.push_str(&format!("{{{id}}}{}", rng.pick(&["", " ", ",", "{{", "x."]))); }
        let (token, prefix_len) = quote(&body, raw, rng)?;
        let mut types = vec![];
        while types.len() < n { let k = pick_ty(rng); if !matches!(tys[k].1, TyKind::Invalid | TyKind::BadRef) { types.push(k); } }
        return Some(Case { token, body, raw, prefix_len, types, mac: rng.below(6) as u8 });
    }
    let nextra = if rng.chance(25) { rng.below(4 + p.maxpieces) } else { rng.below(p.maxpieces) };
    for _ in 0..nextra {
        let w = rng.below(p.lit + p.brace + 30);
        if w < p.lit { for _ in 0..1 + rng.below(4) { body.push_str(&lit_src(rng, raw, p)); } }
        else if w < p.lit + p.brace {
            if rng.chance(p.bad) { body.push_str(rng.pick(&["{", "}", "{{{", "}}}", "{{}", "{}}", "{:}", "{a", "{:", "{:x", "{:/", "{/a/}", "{/}", "{//}", "{::}", "{:::}", "{::x}", "{a:}", "{u8::x}", "{u8:::x}"])) }
            else { body.push_str(rng.pick(&["{{", "}}", "{{}}", "}}{{", "{{{{", "}}}}"])) }
        } else {
            body.push('{');
            let id = match rng.below(100) {
                k if k < 40 => { auto += 1; String::new() }
                k if k < 40 + p.ext => { let over = usize::from(rng.chance(p.bad / 2)); let n = rng.below(ntypes_hint.max(1) + over); maxidx = maxidx.max(n + 1); n.to_string() }
                _ => tys[pick_ty(rng)].0.to_string(),
            };
            if id.contains('"') && !raw { return None; }
            body.push_str(&id);
            if rng.chance(p.custom + p.radix) {
                body.push(':');
                let o = if rng.below(p.custom + p.radix) < p.custom { custom_src(rng, raw, p) } else { radix_src(rng, p) };
                body.push_str(&o);
            }
            if !rng.chance(p.bad / 4) { body.push('}'); }
        }
    }
    if rng.chance(p.bad / 2) && !body.is_empty() {
        // random single character edit
        let mut v: Vec<char> = body.chars().collect();
        let i = rng.below(v.len());
        match rng.below(3) { 0 => { v.remove(i); } 1 => v.insert(i, *rng.pick(&[&'{', &'}', &':', &'/', &'\\', &'é'])), _ => v[i] = *rng.pick(&[&'{', &'}', &':', &'/', &'x', &'日']) }
        body = v.into_iter().collect();
    }
    if raw && body.contains('\r') { return None; }
    let (mut token, prefix_len) = quote(&body, raw, rng)?;
    if rng.below(40) == 0 { token.push_str(rng.pick(&["x", "_1", "é", "u32"])); } // a suffix is no part of the text
    // must be a well formed literal for the lexer
    let lexed: TokenStream = token.parse().ok()?;
    if lexed.to_string() != token { return None; }
    if lexed.clone().into_iter().count() != 1 || syn::parse2::<syn::LitStr>(lexed).is_err() { return None; }
    let want = auto.max(maxidx).max(if maxidx > 0 { ntypes_hint } else { 0 });
    let n = if rng.chance(p.bad / 2) { rng.below(want + 2) } else { want };
    let mut types = vec![];
    for _ in 0..n {
        loop {
            let k = pick_ty(rng);
            if !matches!(tys[k].1, TyKind::Invalid | TyKind::BadRef) { types.push(k); break; }
        }
    }
    Some(Case { token, body, raw, prefix_len, types, mac: rng.below(6) as u8 })
}

pub fn digits_needed(bits: u32, radix: u32) -> u32 {
    // number of digits of the largest value of that many bits
    let mut max: u128 = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut n = 0;
    while max > 0 { max /= radix as u128; n += 1; }
    n
}
pub fn radix_regex(bits: u32, signed: bool, radix: u32, prefix: Prefix) -> String {
    let sign = if signed { "[-+]?" } else { "[+]?" };
    let pre = match prefix { Prefix::Never => String::new(), Prefix::Optional(c) => format!("(?:0[{}{}])?", c, c.to_ascii_uppercase()), Prefix::Forced(c) => format!("0[{}{}]", c, c.to_ascii_uppercase()) };
    let digits: String = (0..radix).map(|d| { let c = char::from_digit(d, radix).unwrap(); if c.is_ascii_digit() { c.to_string() } else { format!("{}{}", c, c.to_ascii_uppercase()) } }).collect();
    format!("{sign}{pre}[{digits}]{{1,{}}}", digits_needed(bits, radix))
}
pub fn escape_lit(s: &str) -> String { s.chars().map(|c| format!("\\x{{{:X}}}", c as u32)).collect() }

pub enum Expect {
    Accept { regex: String, ph_types: Vec<usize> },
    /// byte ranges (in the literal body) that are reported; None for errors about a type argument
    Reject { kinds: Vec<(&'static str, Option<(usize, usize)>)> },
    Unspecified,
}

pub fn expect(c: &Case, tys: &[(&'static str, TyKind, Option<&'static str>)], unescaped: bool) -> Expect {
    let f = match refparse::parse(&c.body, c.raw) {
        Err(e) if e.kind == "UNSPECIFIED" => return Expect::Unspecified,
        Err(e) => {
            if e.kind == "bad option" && refparse::radix_unspecified(&c.body[e.range.0..e.range.1]) { return Expect::Unspecified; }
            return Expect::Reject { kinds: vec![(e.kind, Some(e.range))] };
        }
        Ok(f) => f,
    };
    if f.phs.iter().any(|p| matches!(&p.opt, Some((_, r)) if refparse::radix_unspecified(&c.body[r.0..r.1]))) { return Expect::Unspecified; }
    let mut errs = vec![];
    let mut next = 0;
    let mut used = vec![false; c.types.len()];
    let mut resolved: Vec<Option<(usize, Option<(usize, usize)>)>> = vec![];
    for ph in &f.phs {
        match ph.ident {
            None => {
                let n = next; next += 1;
                if n >= c.types.len() { errs.push(("more placeholders than types", Some(ph.range))); resolved.push(None); }
                else { used[n] = true; resolved.push(Some((c.types[n], None))); }
            }
            Some(r) => {
                let t = &c.body[r.0..r.1];
                if !t.is_empty() && t.chars().all(|c| c.is_ascii_digit()) {
                    if t.len() > 1 && t.starts_with('0') { return Expect::Unspecified; }
                    let n = t.parse::<usize>().unwrap_or(usize::MAX);
                    if n >= c.types.len() { errs.push(("type index out of range", Some(r))); resolved.push(None); }
                    else { used[n] = true; resolved.push(Some((c.types[n], None))); }
                } else {
                    match tys.iter().position(|x| x.0 == t) {
                        None => return Expect::Unspecified,
                        Some(k) => match tys[k].1 {
                            TyKind::Invalid | TyKind::BadRef => { errs.push(("invalid type", Some(r))); resolved.push(None); }
                            _ => resolved.push(Some((k, Some(r)))),
                        },
                    }
                }
            }
        }
    }
    for u in &used { if !*u { errs.push(("unused type", None)); } }
    if !errs.is_empty() { return Expect::Reject { kinds: errs }; }
    let mut regex = String::from("^");
    let mut ph_types = vec![];
    let lit = |s: &str| if unescaped { s.to_string() } else { escape_lit(s) };
    let mut known = true;
    let mut groups = vec![];
    for (i, ph) in f.phs.iter().enumerate() {
        regex.push_str(&lit(&f.lits[i]));
        let (k, src) = resolved[i].unwrap();
        ph_types.push(k);
        let open = regex.len();
        regex.push('(');
        match &ph.opt {
            Some((Opt::Hash, r)) => return Expect::Reject { kinds: vec![("bad option", Some(*r))] },
            Some((Opt::Regex(r), _)) => regex.push_str(r),
            Some((Opt::Radix { radix, prefix }, _)) => match tys[k].1 {
                TyKind::Int(bits, signed) => regex.push_str(&radix_regex(bits, signed, *radix, *prefix)),
                _ => return Expect::Reject { kinds: vec![("radix on non integer", src)] },
            },
            Some((Opt::Bad, _)) => unreachable!(),
            None => match tys[k].2 { Some(r) => regex.push_str(r), None => known = false },
        }
        regex.push(')');
        groups.push((open, regex.len()));
    }
    regex.push_str(&lit(f.lits.last().unwrap()));
    regex.push('$');
    // in an unescaped format the text around a placeholder can swallow it (`[{}]`, `\\{}`) or change how it reads (`(?U)`)
    if !known || unescaped && !refparse::plain_groups(&regex, &groups) { regex = String::new(); }
    Expect::Accept { regex, ph_types }
}

/// What the macro produced.
pub enum Actual { Regex(String), AcceptUnreadable, UnknownTypes, Errors(Vec<String>), Panic(String) }

pub fn messages(t: TokenStream) -> Vec<String> {
    let mut out = vec![];
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if id == "compile_error" && p.as_char() == '!' {
                if let Ok(l) = syn::parse2::<syn::LitStr>(g.stream()) { out.push(l.value()); }
            }
        }
    }
    if out.is_empty() { for x in v { if let TokenTree::Group(g) = x { out.extend(messages(g.stream())); } } }
    out
}

/// the arguments of the first `concatcp!(..)`, evaluated with the table of REGEX constants
pub fn eval_concat(t: &TokenStream, consts: &dyn Fn(&str) -> Option<String>) -> Option<Result<String, String>> {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "concatcp" {
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    let args: syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> = syn::parse::Parser::parse2(syn::punctuated::Punctuated::parse_terminated, g.stream()).ok()?;
                    let mut s = String::new();
                    for a in args {
                        match a {
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => s.push_str(&l.value()),
                            syn::Expr::Path(syn::ExprPath { qself: Some(q), .. }) => {
                                let ty = &q.ty;
                                let name = quote::quote!(#ty).to_string();
                                match consts(&name) { Some(r) => s.push_str(&r), None => return Some(Err(name)) }
                            }
                            _ => return None,
                        }
                    }
                    return Some(Ok(s));
                }
            }
        }
    }
    for x in v { if let TokenTree::Group(g) = x { if let Some(r) = eval_concat(&g.stream(), consts) { return Some(r); } } }
    None
}

pub fn invoke(mac: u8, args: &str) -> Result<TokenStream, String> {
    let args: TokenStream = args.parse().map_err(|_| "unlexable".to_string())?;
    let t = fake_pm::TokenStream::from(args);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mac { 0 => lab::sscanf_get_regex(t), 1 => lab::sscanf(t), _ => lab::sscanf_unescaped(t) }));
    match r { Ok(t) => Ok(t.into()), Err(e) => Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) }
}

pub fn run_case(c: &Case, tys: &[(&'static str, TyKind, Option<&'static str>)]) -> (String, bool, Actual) {
    let (mac, unescaped) = match c.mac { 0 | 1 => (0, false), 2 | 3 | 4 => (1, false), _ => (2, true) };
    let mut args = String::new();
    if mac != 0 { args.push_str("input, "); }
    args.push_str(&c.token);
    for t in &c.types { args.push_str(", "); args.push_str(tys[*t].0); }
    let name = ["sscanf_get_regex", "sscanf", "sscanf_unescaped"][mac as usize];
    let shown = format!("sscanf::{name}!({args})");
    let consts = |n: &str| tys.iter().find(|t| t.2.is_some() && t.0.parse::<TokenStream>().map(|x| x.to_string() == n).unwrap_or(false)).map(|t| t.2.unwrap().to_string());
    let actual = match invoke(mac, &args) {
        Err(e) => Actual::Panic(e),
        Ok(t) => {
            let m = messages(t.clone());
            if !m.is_empty() { Actual::Errors(m) } else {
                match eval_concat(&t, &consts) { None => Actual::AcceptUnreadable, Some(Ok(r)) => Actual::Regex(r), Some(Err(_)) => Actual::UnknownTypes }
            }
        }
    };
    (shown, unescaped, actual)
}

/// The squiggle block of a message: (line shown after "At ", leading spaces, carets)
fn squiggle(m: &str) -> Option<(String, usize, usize)> {
    let at = m.rfind("\nAt ").map(|i| i + 4).or(if m.starts_with("At ") { Some(3) } else { None })?;
    let (text, last) = m[at..].rsplit_once('\n')?;
    let t = last.trim_start_matches(' ');
    if t.is_empty() || !t.chars().all(|c| c == '^') { return Some((text.to_string(), last.len() - t.len(), usize::MAX)); }
    Some((text.to_string(), last.len() - t.len(), t.len()))
}

pub fn check(c: &Case, tys: &[(&'static str, TyKind, Option<&'static str>)], rng: &mut Rng, rep: &mut Report) {
    let (shown, unescaped, actual) = run_case(c, tys);
    rep.evaluations += 1;
    let ex = expect(c, tys, unescaped);
    let bad = |what: String, rep: &mut Report| rep.found.push(Found { program: shown.clone(), input: None, what });
    match (&ex, &actual) {
        (_, Actual::Panic(e)) => bad(format!("the macro panics: {}", e), rep),
        (Expect::Unspecified, _) => { rep.skipped += 1; }
        (Expect::Accept { .. }, Actual::Errors(m)) => bad(format!("rejected, but it is a documented form: {}", m[0]), rep),
        (Expect::Reject { kinds }, Actual::Regex(_) | Actual::UnknownTypes | Actual::AcceptUnreadable) => bad(format!("accepted, but it has to be a compile error ({} at {:?} of the literal)", kinds[0].0, kinds[0].1), rep),
        (Expect::Accept { regex, .. }, Actual::Regex(r)) => {
            rep.nontrivial(&shown);
            if regex.is_empty() { rep.skipped += 1; return; }
            match hircmp::compare(regex, r, rng, 60) {
                Cmp::Same => {}
                Cmp::Unknown => if hircmp::hir(regex).is_err() { rep.skipped += 1 } else { rep.unknown += 1; if std::env::var("DBG").is_ok() { eprintln!("UNK {}\n  E {}\n  A {}", shown, regex, r); } },
                Cmp::Differ(w, d) => rep.found.push(Found { program: shown.clone(), input: Some(w), what: format!("{} (generated regex `{}`, documented meaning `{}`)", d, r, regex) }),
            }
        }
        (Expect::Accept { .. }, Actual::AcceptUnreadable) => { rep.unknown += 1; if std::env::var("DBG").is_ok() { eprintln!("UNREADABLE {}", shown); } }
        (Expect::Accept { regex, .. }, Actual::UnknownTypes) => { if !regex.is_empty() { rep.unknown += 1; if std::env::var("DBG").is_ok() { eprintln!("UNKTY {}", shown); } } }
        (Expect::Reject { kinds }, Actual::Errors(m)) => {
            rep.nontrivial(&shown);
            if m.len() != kinds.len() { bad(format!("{} errors reported, expected {}: {:?}", m.len(), kinds.len(), m), rep); return; }
            if c.body.chars().any(|c| c.is_control()) { return; }
            for (k, m) in kinds.iter().zip(m) {
                match (k.1, squiggle(m)) {
                    (None, None) => {}
                    (None, Some(_)) => bad(format!("error about a type argument ({}) points into the literal: {}", k.0, m), rep),
                    (Some(_), None) => bad(format!("error ({}) does not show the literal: {}", k.0, m), rep),
                    (Some((a, b)), Some((text, sp, carets))) => {
                        let want_sp = 3 + UnicodeWidthStr::width(&c.token[..c.prefix_len + a]);
                        let want_ca = UnicodeWidthStr::width(&c.body[a..b]);
                        if text != c.token { bad(format!("error shows `{}` instead of the literal `{}`", text, c.token), rep); }
                        else if sp != want_sp || (carets != want_ca && !(want_ca == 0 && carets == usize::MAX)) {
                            bad(format!("error ({}) underlines columns {}+{} instead of {}+{} (`{}`): {}", k.0, sp, carets, want_sp, want_ca, &c.body[a..b], m), rep);
                        }
                    }
                }
            }
        }
    }
}
