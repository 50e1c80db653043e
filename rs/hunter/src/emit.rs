//! Runs the macros (as ordinary functions) on given programs and prints what they emit, and prints
//! regexes as terms of the regex model in contracts/regex_lang.vrs.
use regex_syntax::hir::{Class, Hir, HirKind, Look};
use serde_json::{json, Value};
use sscanf::RegexRepresentation;

fn run(kind: &str, tokens: &str) -> Value {
    let t: proc_macro2::TokenStream = match tokens.parse() { Ok(t) => t, Err(e) => return json!({"error": format!("lex: {}", e)}) };
    let t = fake_pm::TokenStream::from(t);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind { "sscanf" => lab::sscanf(t), "unescaped" => lab::sscanf_unescaped(t), "get_regex" => lab::sscanf_get_regex(t), _ => lab::derive_from_sscanf(t) }));
    match r { Err(_) => json!({"error": "macro panicked"}), Ok(o) => json!({"out": o.0.to_string()}) }
}

fn cls(v: Vec<(u32, u32)>) -> String { format!("Re::Cls(seq![{}])", v.iter().map(|(a, b)| format!("({}u32, {}u32)", a, b)).collect::<Vec<_>>().join(", ")) }
pub fn term(h: &Hir) -> String {
    let b = |s: String| format!("Box::new({})", s);
    match h.kind() {
        HirKind::Empty => "Re::Eps".into(),
        HirKind::Literal(l) => {
            let s = String::from_utf8_lossy(&l.0);
            let v: Vec<String> = s.chars().map(|c| cls(vec![(c as u32, c as u32)])).collect();
            cat(v)
        }
        HirKind::Class(Class::Unicode(c)) => cls(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
        HirKind::Class(Class::Bytes(c)) => cls(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect()),
        HirKind::Look(Look::Start) => "Re::Start".into(),
        HirKind::Look(Look::End) => "Re::End".into(),
        HirKind::Look(_) => "Re::Other".into(),
        HirKind::Repetition(r) => format!("Re::Rep({}, {}, {})", b(term(&r.sub)), r.min, match r.max { Some(m) => format!("Some({}nat)", m), None => "None".into() }),
        HirKind::Capture(c) => format!("Re::Cap({})", b(term(&c.sub))),
        HirKind::Concat(v) => cat(v.iter().map(flat_lit).flatten().collect()),
        HirKind::Alternation(v) => { let mut it = v.iter().rev(); let mut t = term(it.next().unwrap()); for x in it { t = format!("Re::Alt({}, {})", b(term(x)), b(t)) } t }
    }
}
fn flat_lit(h: &Hir) -> Vec<String> { match h.kind() { HirKind::Literal(l) => String::from_utf8_lossy(&l.0).chars().map(|c| cls(vec![(c as u32, c as u32)])).collect(), _ => vec![term(h)] } }
fn cat(v: Vec<String>) -> String { let mut it = v.into_iter().rev(); let mut t = it.next().unwrap(); for x in it { t = format!("Re::Cat(Box::new({}), Box::new({}))", x, t) } t }

pub fn consts() -> Value {
    use std::num::*;
    macro_rules! c { ($($t:ty),*) => { { let mut m = serde_json::Map::new(); $(m.insert(stringify!($t).replace(' ', ""), json!(<$t as RegexRepresentation>::REGEX));)* Value::Object(m) } } }
    #[allow(deprecated)]
    use sscanf::{FullF32, FullF64, HexNumber};
    #[allow(deprecated)]
    let v = c!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize,
        NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize, f32, f64, String, str, char, bool, std::path::PathBuf, FullF32, FullF64, HexNumber);
    v
}

pub fn main(input: &str, output: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(input).unwrap()).unwrap();
    let mut o = serde_json::Map::new();
    for c in v.as_array().unwrap() {
        let (n, k, t) = (c["name"].as_str().unwrap(), c["kind"].as_str().unwrap(), c["text"].as_str().unwrap());
        let r = match k {
            "hir" => match crate::hircmp::hir(t) { Ok(h) => json!({"term": term(&h), "groups": h.properties().explicit_captures_len()}), Err(e) => json!({"error": e}) },
            "consts" => json!({"consts": consts().as_object().unwrap().iter().map(|(k, v)| { let r = v.as_str().unwrap(); let h = crate::hircmp::hir(r); (k.clone(), match h { Ok(h) => json!({"regex": r, "term": term(&h), "groups": h.properties().explicit_captures_len()}), Err(e) => json!({"regex": r, "error": e}) }) }).collect::<serde_json::Map<_, _>>() }),
            // text: {"sub": regex, "sup": regex}: an input that sub matches as a whole and sup does not; {"regex":, "inputs": []}: which are matched
            "included" => { let q: Value = serde_json::from_str(t).unwrap(); let (a, b) = (q["sub"].as_str().unwrap(), q["sup"].as_str().unwrap());
                json!({"witness": crate::hircmp::distinguish(&format!("^(?:(?:{})|(?:{}))$", a, b), &format!("^(?:{})$", b))}) }
            "matches" => { let q: Value = serde_json::from_str(t).unwrap(); match regex::Regex::new(&format!("^(?:{})$", q["regex"].as_str().unwrap())) { Ok(r) => json!({"matches": q["inputs"].as_array().unwrap().iter().map(|i| r.is_match(i.as_str().unwrap())).collect::<Vec<_>>()}), Err(e) => json!({"error": e.to_string()}) } }
            k => run(k, t),
        };
        o.insert(n.into(), r);
    }
    std::fs::write(output, serde_json::to_string_pretty(&Value::Object(o)).unwrap()).unwrap();
}
