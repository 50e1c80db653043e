//! Random derive inputs (attributes, formats, fields) against the documented acceptance rules.
use crate::fmtfuzz::messages;
use crate::rng::Rng;
use crate::{Found, Report};
use proc_macro2::TokenStream;

#[derive(Clone, Copy, PartialEq)]
enum Ctx { Struct, Variant, Enum, Field }
/// what one item's attributes amount to
#[derive(Clone, PartialEq, Debug)]
enum Got { None, Reject(&'static str), Format { body: String }, Transparent, Skip, AutoGen, Default, From { ty: &'static str } }
const CASES: &[&str] = &["lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "CaseSensitive", "CaseInsensitive"];

/// one attribute argument: (text, kind name for duplicate detection, meaning)
fn arg(rng: &mut Rng, ctx: Ctx, bad: usize, body: &str) -> (String, &'static str, Got) {
    let q = |s: &str| format!("{:?}", s);
    if rng.chance(bad) {
        let own: &[&str] = match ctx { Ctx::Struct => &["format", "format_unescaped", "transparent"], Ctx::Variant => &["format", "format_unescaped", "transparent", "skip"], Ctx::Enum => &["autogen", "autogenerate"], Ctx::Field => &["default", "map", "filter_map", "from", "try_from"] };
        let all = ["format", "format_unescaped", "transparent", "skip", "autogen", "autogenerate", "default", "map", "filter_map", "from", "try_from"];
        return match rng.below(9) {
            0 => { let n = rng.pick(&["frmt", "Format", "formats", "autogenerated", "defaults", "r#format", "foo", "format_escaped", "ski", "skipp", "tryfrom", "filtermap", "into", "x"]); (format!("{}{}", n, rng.pick(&["", " = \"{}\"", " = 5"])), "?", Got::Reject("unknown attribute")) }
            1 | 2 => { let o: Vec<&&str> = all.iter().filter(|a| !own.contains(a)).collect(); let n = o[rng.below(o.len())]; (format!("{}{}", n, rng.pick(&["", " = \"{}\"", " = u8", " = |x: u8| x", "= \"snake_case\""])), "?", Got::Reject("misplaced attribute")) }
            3 if ctx == Ctx::Enum || ctx == Ctx::Field => (rng.pick(&["\"\"", "\"{}\"", "r\"x\"", "r#\"{}\"#", "\"snake_case\""]).to_string(), "?", Got::Reject("bare literal")),
            4 => (format!("{} {}", own[rng.below(own.len())], rng.pick(&["=", "5", "\"x\"", "(\"x\")", ": \"x\"", "= =", "= +"])), "?", Got::Reject("malformed attribute")),
            5 => match ctx {
                Ctx::Struct | Ctx::Variant => (rng.pick(&["format", "format_unescaped", "format = 5", "format = x", "format_unescaped = 'x'", "format = b\"x\"", "transparent = true", "transparent = \"{}\"", "format = concat!(\"a\", \"b\")", "transparent = 0", "format = (\"a\", 1)"]).to_string(), "?", Got::Reject("bad value")),
                Ctx::Enum => (rng.pick(&["autogen = 5", "autogen = snake_case", "autogen = \"\"", "autogen = \"snake\"", "autogen = \"Snake_Case\"", "autogen = \"lowerCase\"", "autogen = \"Sensitive\"", "autogenerate = true", "autogen = \"camel case\"", "autogen = \"casesensitive\"", "autogen = \"UPPER_CASE\"", "autogen = \"kebab_case\"", "autogenerate = \"foo\"", "autogen = 'x'", "autogen = \" snake_case\"", "autogen = \"snake_case \""]).to_string(), "?", Got::Reject("bad autogen value")),
                Ctx::Field => (rng.pick(&["map", "filter_map", "from", "try_from", "map = 5", "map = foo", "map = |x| x", "filter_map = |x| Some(x)", "map = || 3", "map = |a: u8, b: u8| a + b", "from = 5", "try_from = 5 + 6", "from = &u8", "try_from = &'a str", "from = &mut str", "filter_map = |a: u8, b| Some(a)", "map = \"x\"", "from = [u8]", "from = \"u8\"", "filter_map = 3", "map = move || 5"]).to_string(), "?", Got::Reject("bad value")),
            },
            6 if ctx == Ctx::Variant => (rng.pick(&["skip = true", "skip = \"x\"", "skip = 0"]).to_string(), "?", Got::Reject("superfluous value")),
            _ => { let n = own[rng.below(own.len())]; (format!("{}::{}", n, n), "?", Got::Reject("path instead of name")) }
        };
    }
    let rawq = |s: &str| if s.contains('"') { format!("r##\"{}\"##", s) } else { format!("r\"{}\"", s) };
    match ctx {
        Ctx::Struct | Ctx::Variant => match rng.below(if ctx == Ctx::Variant { 9 } else { 8 }) {
            0 | 1 => (format!("format = {}", q(body)), "format", Got::Format { body: body.into() }),
            2 => (format!("format = {}", rawq(body)), "format", Got::Format { body: body.into() }),
            3 | 4 => (q(body), "format", Got::Format { body: body.into() }),
            5 => (rawq(body), "format_unescaped", Got::Format { body: body.into() }),
            6 => (format!("format_unescaped = {}", if rng.chance(50) { q(body) } else { rawq(body) }), "format_unescaped", Got::Format { body: body.into() }),
            7 => ("transparent".into(), "transparent", Got::Transparent),
            _ => ("skip".into(), "skip", Got::Skip),
        },
        Ctx::Enum => { let (n, k) = rng.one(&[("autogen", "autogen"), ("autogenerate", "autogenerate")]); (if rng.chance(25) { n.into() } else { format!("{} = {:?}", n, rng.pick(CASES)) }, k, Got::AutoGen) }
        Ctx::Field => match rng.below(6) {
            0 => ("default".into(), "default", Got::Default),
            1 => (rng.pick(&["default = 5", "default = foo(1, 2)", "default = { let x = 1; x }", "default = \"a\"", "default = |x: u8| x", "default = vec![1, 2]"]).to_string(), "default", Got::Default),
            2 => { let (t, s) = rng.one(&[("map = |x: u8| x as u16", "u8"), ("map = |s: &str| s.len()", "&str"), ("map = |(a): String| a", "String"), ("map = |_x: i32| { 5 }", "i32")]); (t.into(), "map", Got::From { ty: s }) }
            3 => { let (t, s) = rng.one(&[("filter_map = |x: u8| Some(x)", "u8"), ("filter_map = |s: &str| s.parse().ok()", "&str")]); (t.into(), "filter_map", Got::From { ty: s }) }
            4 => { let s: &'static str = rng.one(&["u8", "i32", "String", "&str", "std::string::String", "a::B<C>"]); (format!("from = {}", s), "from", Got::From { ty: s }) }
            _ => { let s: &'static str = rng.one(&["u8", "i32", "String", "&str"]); (format!("try_from = {}", s), "try_from", Got::From { ty: s }) }
        },
    }
}

/// all `#[..]` of one item
fn attrs(rng: &mut Rng, ctx: Ctx, bad: usize, most: usize, body: &dyn Fn(&mut Rng) -> String) -> (String, Got) {
    let mut out = String::new();
    let mut got = Got::None;
    let mut seen: Vec<&'static str> = vec![];
    let mut n = 0;
    let want = if rng.chance(bad) { rng.below(4) } else { most };
    let mut rejected = None;
    let noise = |rng: &mut Rng, out: &mut String| if rng.chance(8) { out.push_str(rng.one(&["#[doc = \"x\"] ", "#[foo::sscanf(\"{}\")] ", "#[allow(dead_code)] ", "#[sscanf()] ", "/// text\n"])) };
    noise(rng, &mut out);
    if rng.chance(bad / 6) { out.push_str(rng.one(&["#[sscanf] ", "#[sscanf = \"{}\"] ", "#[sscanf = 5] "])); rejected = Some("attribute without parentheses"); }
    while n < want {
        let k = 1 + if rng.chance(30) { rng.below(2) } else { 0 };
        let mut list = vec![];
        for _ in 0..k {
            if n >= want { break }
            n += 1;
            let b = body(rng);
            let (t, kind, g) = arg(rng, ctx, bad, &b);
            list.push(t);
            if let Got::Reject(w) = &g { rejected = Some(w); }
            else if seen.contains(&kind) { rejected = Some("duplicate attribute"); }
            else if !seen.is_empty() { rejected = Some("conflicting attributes"); }
            seen.push(kind);
            got = g;
        }
        let close = match rng.below(12) { 0 => ("[", "]"), 1 => ("{", "}"), _ => ("(", ")") };
        out.push_str(&format!("#[sscanf{}{}{}{}] ", close.0, list.join(", "), if rng.chance(10) { "," } else { "" }, close.1));
        noise(rng, &mut out);
    }
    match rejected { Some(w) => (out, Got::Reject(w)), None => (out, got) }
}

struct Fld { name: String, ty: &'static str, got: Got }
const TYPES: &[&str] = &["u8", "i32", "u64", "usize", "String", "&'a str", "f32", "Foo", "Vec<u8>", "bool"];

fn fields(rng: &mut Rng, bad: usize, attrchance: usize, none: bool) -> (String, Vec<Fld>, Option<&'static str>, bool) {
    let n = if none { 0 } else { rng.one(&[0, 1, 1, 2, 2, 3, 4]) };
    let named = rng.chance(50);
    let mut v = vec![];
    let mut s = String::new();
    let mut rej = None;
    for k in 0..n {
        let ty = TYPES[rng.below(TYPES.len())];
        let most = usize::from(rng.chance(attrchance));
        let (a, got) = attrs(rng, Ctx::Field, bad / 3, most, &|_| String::new());
        if let Got::Reject(w) = got { rej = Some(w); }
        let name = if named { ["a", "bb", "c_c", "d1"][k].to_string() } else { k.to_string() };
        s.push_str(&if named { format!("{}{}: {}, ", a, name, ty) } else { format!("{}{}, ", a, ty) });
        v.push(Fld { name, ty, got });
    }
    let text = if n == 0 && rng.chance(60) { String::new() } else if named { format!("{{ {} }}", s) } else { format!("({})", s) };
    (text, v, rej, named || n == 0 && text_is_brace(named))
}
fn text_is_brace(named: bool) -> bool { named }

/// a format for these fields: mostly right, sometimes with one of the documented mistakes
fn body_for(rng: &mut Rng, f: &[Fld], bad: usize) -> String {
    let mut named = vec![]; let mut unnamed = 0;
    for (i, x) in f.iter().enumerate() { if x.got != Got::Default { if rng.chance(50) { named.push(if rng.chance(70) { x.name.clone() } else { i.to_string() }) } else { unnamed += 1 } } }
    let mut ph: Vec<String> = named;
    for _ in 0..unnamed { ph.push(String::new()) }
    if rng.chance(bad) {
        match rng.below(6) {
            0 => ph.push(String::new()),
            1 => { if !ph.is_empty() { let k = rng.below(ph.len()); ph.remove(k); } }
            2 => ph.push(rng.pick(&["zz", "A", "99", "4", "aa", "c-c", "self"]).to_string()),
            3 => { if !f.is_empty() { let k = rng.below(f.len()); ph.push(f[k].name.clone()) } }
            4 => { if !f.is_empty() { let k = rng.below(f.len()); ph.push(k.to_string()) } }
            _ => { if !ph.is_empty() { let k = rng.below(ph.len()); ph[k] = rng.pick(&["bb", "0", "1", "", "nope"]).to_string() } }
        }
    }
    for i in (1..ph.len()).rev() { let j = rng.below(i + 1); ph.swap(i, j) }
    let mut s = String::from(rng.one(&["", "x", "a b ", "{{"]));
    for p in ph {
        s.push('{'); s.push_str(&p);
        if rng.chance(12) { s.push_str(rng.one(&[":x", ":r7", ":/a+/", ":#b", ":/[^x]/"])) }
        s.push('}');
        s.push_str(rng.one(&["", ",", " ", "-"]));
    }
    s
}

/// documented rule for a format on these fields. None: accepted
fn mapping(body: &str, f: &[Fld]) -> Option<&'static str> {
    let mut src: Vec<Option<usize>> = f.iter().map(|x| if x.got == Got::Default { Some(usize::MAX) } else { None }).collect();
    let mut phs = vec![];
    let mut rest = body.replace("{{", "");
    while let Some(i) = rest.find('{') {
        let j = i + rest[i..].find('}').unwrap();
        let inner = rest[i + 1..j].to_string();
        let (id, opt) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (inner.clone(), String::new()) };
        phs.push((id, opt));
        rest = rest[j + 1..].to_string();
    }
    let mut target = vec![usize::MAX; phs.len()];
    for (k, (id, _)) in phs.iter().enumerate() {
        if id.is_empty() { continue }
        let t = f.iter().position(|x| &x.name == id).or_else(|| id.parse::<usize>().ok().filter(|n| *n < f.len()));
        let Some(t) = t else { return Some("no such field") };
        if src[t].is_some() { return Some("two sources for a field") }
        src[t] = Some(k); target[k] = t;
    }
    for (k, (id, _)) in phs.iter().enumerate() {
        if !id.is_empty() { continue }
        let Some(t) = src.iter().position(|s| s.is_none()) else { return Some("surplus placeholder") };
        src[t] = Some(k); target[k] = t;
    }
    if src.iter().any(|s| s.is_none()) { return Some("field without source") }
    for (k, (_, opt)) in phs.iter().enumerate() {
        let x = &f[target[k]];
        let ty = match &x.got { Got::From { ty } => *ty, _ => x.ty };
        if ty == "?" { continue }
        if !opt.is_empty() && !opt.starts_with('/') && !["u8", "i32", "u64", "usize"].contains(&ty) { return Some("radix option on a type that is no primitive integer") }
    }
    None
}
fn body_ok(g: &Got, f: &[Fld]) -> Option<&'static str> {
    match g {
        Got::Transparent => if f.len() != 1 { Some("transparent needs exactly one field") } else { mapping("{}", f) },
        Got::Format { body } => mapping(body, f),
        _ => unreachable!(),
    }
}

pub fn case(prop: &str, rng: &mut Rng) -> (String, Option<&'static str>) {
    let (battr, bmap, attrc) = match prop { "C10" => (2, 45, 45), "C13" => (12, 3, 5), _ => (28, 6, 40) };
    if rng.chance(1) { return ("union U { a: u8, b: u16 }".into(), Some("union")); }
    if prop != "C13" && rng.chance(if prop == "C10" { 65 } else { 50 }) {
        let (text, f, rej, named) = fields(rng, battr, attrc, false);
        let most = usize::from(!rng.chance(battr / 2));
        let (a, g) = { let fr = &f; attrs(rng, Ctx::Struct, battr, most, &|r| body_for(r, fr, bmap)) };
        let semi = if text.starts_with('{') { "" } else { ";" };
        let _ = named;
        let src = format!("{}struct S<'a> {}{}", a, text, semi);
        let why = match &g { Got::Reject(w) => Some(*w), Got::None => Some("struct without format"), g => rej.or_else(|| body_ok(g, &f)) };
        return (src, why);
    }
    let most = if prop == "C13" { usize::from(rng.chance(92)) } else { usize::from(rng.chance(40)) };
    let (ea, eg) = attrs(rng, Ctx::Enum, battr / 2, most, &|_| String::new());
    let mut why = match &eg { Got::Reject(w) => Some(*w), _ => None };
    let auto = eg == Got::AutoGen;
    let nv = if rng.chance(4) { 0 } else { 1 + rng.below(4) };
    let mut s = String::new();
    let mut made = 0;
    for k in 0..nv {
        let none = auto && !rng.chance(battr);
        let (text, f, rej, _) = { let nn = none && rng.chance(90); fields(rng, battr / 2, attrc, nn) };
        let most = if auto { usize::from(rng.chance(30)) } else { usize::from(rng.chance(75)) };
        let (a, g) = { let fr = &f; attrs(rng, Ctx::Variant, battr / 2, most, &|r| body_for(r, fr, bmap)) };
        let name = ["Alpha", "BetaGamma", "r#type", "Delta"][k];
        match &g {
            Got::Reject(w) => { why = why.or(Some(*w)); s.push_str(&format!("{}{}{}, ", a, name, text)); continue }
            Got::Skip => { s.push_str(&format!("{}{}, ", a, name)); continue }
            Got::None => {
                if auto {
                    if !f.is_empty() { why = why.or(Some("autogen on a variant with fields")); }
                    made += 1;
                    s.push_str(&format!("{}{}{}, ", a, name, text));
                } else { s.push_str(&format!("{}{}, ", a, name)); }
                continue
            }
            g => { why = why.or(rej).or(body_ok(g, &f)); made += 1; }
        }
        s.push_str(&format!("{}{}{}, ", a, name, text));
    }
    if made == 0 { why = why.or(Some("enum without a parseable variant")); }
    (format!("{}enum E<'a> {{ {} }}", ea, s), why)
}

pub fn derive(src: &str) -> Option<Result<TokenStream, String>> {
    let t: TokenStream = src.parse().ok()?;
    syn::parse2::<syn::DeriveInput>(t.clone()).ok()?;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lab::derive_from_sscanf(fake_pm::TokenStream::from(t))));
    Some(match r { Ok(t) => Ok(t.into()), Err(e) => Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) })
}
pub fn check(prop: &str, rng: &mut Rng, rep: &mut Report) {
    let (src, why) = case(prop, rng);
    let Some(r) = derive(&src) else { rep.skipped += 1; if std::env::var("DBG").is_ok() { eprintln!("SKIP {}", src); } return };
    rep.evaluations += 1;
    let mut bad = |what: String| rep.found.push(Found { program: format!("#[derive(sscanf::FromScanf)] {}", src), input: None, what });
    match r {
        Err(e) => bad(format!("the derive macro panics: {}", e)),
        Ok(t) => {
            let m = messages(t.clone());
            let text = t.to_string();
            match (why, m.is_empty()) {
                (None, false) => bad(format!("rejected, but every part of it is documented: {}", m[0])),
                (Some(w), true) => bad(format!("accepted, but it has to be a compile error ({})", w)),
                (None, true) if !(text.contains("RegexRepresentation for") && text.contains("FromScanf <")) => bad("accepted, but the implementations are not emitted".into()),
                _ => rep.nontrivial(&src),
            }
        }
    }
}
