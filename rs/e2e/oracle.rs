//! Independent meaning of formats and derived types (written from the documentation), random inputs,
//! and comparison with what the real macros do. Used by generated programs (`cases.rs`).
#![allow(dead_code, deprecated)]
use regex_syntax::hir::{Class, Hir, HirKind};
use std::fmt::Write as _;

// ---------------------------------------------------------------- descriptions
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pfx { Never, Opt(char), Forced(char) }
#[derive(Clone)]
pub enum T {
    Int(u32, bool), NonZero(u32, bool), USize, ISize, NzUSize, NzISize,
    F32, F64, Bool, Char, Str, Cow, Strng, PathBuf, Hex, FullF32, FullF64,
    /// user type via FromStr: letters, or digits followed by `x`
    Word,
    /// user type with a hand written FromScanf (2 own capture groups)
    Hand,
    D(Box<Def>),
}
#[derive(Clone)]
pub enum O { None, Radix(u32, Pfx), Re(String) }
#[derive(Clone)]
pub struct F { pub unesc: bool, pub parts: Vec<String>, pub phs: Vec<(T, O)> }
#[derive(Clone)]
pub enum Src { Ph(usize), Def(String) }
pub type Conv = fn(Val) -> Result<Val, Vec<String>>;
#[derive(Clone)]
pub struct Fld { pub name: String, pub src: Src, pub conv: Option<Conv> }
#[derive(Clone)]
pub struct S { pub name: String, pub fmt: F, pub fields: Vec<Fld> }
#[derive(Clone)]
pub enum Def { Struct(S), Enum(String, Vec<S>) }
impl Def { fn name(&self) -> &str { match self { Def::Struct(s) => &s.name, Def::Enum(n, _) => n } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { U(u128), I(i128), T(String) }
impl Val { pub fn show(&self) -> String { match self { Val::U(x) => x.to_string(), Val::I(x) => x.to_string(), Val::T(s) => s.clone() } } }

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok(String), NoMatch, Fail(Vec<String>), Panic(String), Groups(Vec<Option<String>>) }

// ---------------------------------------------------------------- observing the real result
pub trait Show { fn show(&self, base: &str) -> String; }
macro_rules! show_disp { ($($t:ty),*) => { $(impl Show for $t { fn show(&self, _: &str) -> String { self.to_string() } })* } }
show_disp!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
use std::num::*;
show_disp!(NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize);
impl Show for f32 { fn show(&self, _: &str) -> String { if self.is_nan() { "NaN".into() } else { format!("{:08x}", self.to_bits()) } } }
impl Show for f64 { fn show(&self, _: &str) -> String { if self.is_nan() { "NaN".into() } else { format!("{:016x}", self.to_bits()) } } }
impl Show for char { fn show(&self, _: &str) -> String { format!("{:?}", self) } }
impl Show for String { fn show(&self, _: &str) -> String { format!("S{:?}", self) } }
fn span(s: &str, base: &str) -> String {
    let (a, b) = (s.as_ptr() as usize, base.as_ptr() as usize);
    if a < b || a + s.len() > b + base.len() { return format!("NOT-BORROWED({:?})", s); }
    format!("@{}..{}", a - b, a - b + s.len())
}
impl Show for &str { fn show(&self, base: &str) -> String { span(self, base) } }
impl Show for std::borrow::Cow<'_, str> { fn show(&self, base: &str) -> String { match self { std::borrow::Cow::Borrowed(s) => format!("B{}", span(s, base)), std::borrow::Cow::Owned(s) => format!("OWNED({:?})", s) } } }
impl Show for std::path::PathBuf { fn show(&self, _: &str) -> String { format!("P{:?}", self) } }
macro_rules! show_wrapper { ($($w:ident: $t:ty, $x:ident => [$($v:expr),*];)*) => { $(impl Show for sscanf::$w {
    /// compares and dereferences like the wrapped value, in both directions and against values next to it
    fn show(&self, b: &str) -> String {
        let mut m: sscanf::$w = *self;
        let $x = self.0;
        for v in [$x, $($v),*] {
            assert!((*self == v) == (self.0 == v) && (*self != v) == (self.0 != v) && (v == *self) == (v == self.0) && (v != *self) == (v != self.0), "{:?} compares with {:?} unlike what it wraps", self, v);
            assert!((*self == sscanf::$w(v)) == (self.0 == v) && (sscanf::$w(v) == *self) == (v == self.0), "{:?} compares with {:?} unlike what it wraps", self, v);
            *m = v; let (x, y): ($t, $t) = (m.0, *m);
            assert!(x.show("") == v.show("") && y.show("") == v.show(""), "dereferencing gives another value");
        }
        self.0.show(b)
    }
})* } }
show_wrapper! {
    HexNumber: usize, x => [0, 1, x ^ 1, x.wrapping_add(1), usize::MAX];
    FullF32: f32, x => [f32::NAN, 0.0, -0.0, 1.0, -x, f32::INFINITY, f32::from_bits(x.to_bits() ^ 1)];
    FullF64: f64, x => [f64::NAN, 0.0, -0.0, 1.0, -x, f64::INFINITY, f64::from_bits(x.to_bits() ^ 1)];
}
impl<X: Show> Show for Option<X> { fn show(&self, b: &str) -> String { match self { Some(x) => format!("Some({})", x.show(b)), None => "None".into() } } }
macro_rules! show_tuple { ($(($($n:tt $t:ident),*))*) => { $(impl<$($t: Show),*> Show for ($($t,)*) { #[allow(unused)] fn show(&self, b: &str) -> String { let v: Vec<String> = vec![$(self.$n.show(b)),*]; v.join(" , ") } })* } }
show_tuple!(() (0 A, 1 B) (0 A, 1 B, 2 C) (0 A, 1 B, 2 C, 3 D) (0 A, 1 B, 2 C, 3 D, 4 E) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G, 7 H) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G, 7 H, 8 I) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G, 7 H, 8 I, 9 J) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G, 7 H, 8 I, 9 J, 10 K) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F1, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L));

#[derive(Debug, PartialEq)]
pub struct Word(pub String);
#[derive(Debug, PartialEq)]
pub struct WordErr;
impl std::fmt::Display for WordErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "word too long") } }
impl std::error::Error for WordErr {}
impl std::str::FromStr for Word { type Err = WordErr; fn from_str(s: &str) -> Result<Self, WordErr> { if s.len() > 4 { Err(WordErr) } else { Ok(Word(s.into())) } } }
impl sscanf::RegexRepresentation for Word { const REGEX: &'static str = "[a-z]+|[0-9]+x"; }
impl Show for Word { fn show(&self, _: &str) -> String { format!("W{}", self.0) } }
pub struct Hand(pub char, pub u8);
impl sscanf::RegexRepresentation for Hand { const REGEX: &'static str = r"a([0-9]+)|b([0-9]+)"; }
impl sscanf::FromScanf<'_> for Hand {
    type Err = std::num::ParseIntError;
    const NUM_CAPTURES: usize = 3;
    fn from_matches(src: &mut sscanf::regex::SubCaptureMatches<'_, '_>) -> Result<Self, Self::Err> {
        src.next().unwrap().unwrap();
        let a = src.next().unwrap();
        let b = src.next().unwrap();
        match (a, b) { (Some(m), None) => Ok(Hand('a', m.as_str().parse()?)), (None, Some(m)) => Ok(Hand('b', m.as_str().parse()?)), _ => panic!("captures shifted") }
    }
}
impl Show for Hand { fn show(&self, _: &str) -> String { format!("Hand{}{}", self.0, self.1) } }

fn chain(e: &dyn std::error::Error) -> Vec<String> { let mut v = vec![e.to_string()]; let mut c = e.source(); while let Some(x) = c { v.push(x.to_string()); c = x.source(); } v }
pub fn out<X: Show>(r: Result<X, sscanf::Error>, base: &str) -> Out {
    match r {
        Ok(v) => Out::Ok(v.show(base)),
        Err(e) => {
            let shown = e.to_string();
            let src = std::error::Error::source(&e).map(|s| chain(s));
            match (&e, src) {
                (sscanf::Error::MatchFailed, None) if shown == "sscanf: The input did not match the format string" => Out::NoMatch,
                (sscanf::Error::ParsingFailed(inner), Some(c)) if shown == format!("sscanf: Parsing failed: {}", inner) && c[0] == inner.to_string() => Out::Fail(c),
                (_, c) => Out::Fail(vec![format!("INCONSISTENT ERROR {:?} `{}` source {:?}", e, shown, c)]),
            }
        }
    }
}
pub fn groups(r: &sscanf::regex::Regex, s: &str) -> Out {
    match r.captures(s) { None => Out::NoMatch, Some(c) => Out::Groups(c.iter().skip(1).map(|m| m.map(|m| m.as_str().to_string())).collect()) }
}

// ---------------------------------------------------------------- the oracle
pub fn digits_needed(bits: u32, radix: u32) -> u32 { let mut m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 }; let mut n = 0; while m > 0 { m /= radix as u128; n += 1 } n }
fn int_of(t: &T) -> Option<(u32, bool)> { match t { T::Int(b, s) => Some((*b, *s)), T::USize => Some((usize::BITS, false)), T::ISize => Some((usize::BITS, true)), _ => None } }
fn nz_of(t: &T) -> Option<(u32, bool)> { match t { T::NonZero(b, s) => Some((*b, *s)), T::NzUSize => Some((usize::BITS, false)), T::NzISize => Some((usize::BITS, true)), _ => None } }
fn class(radix: u32) -> String { (0..radix).map(|d| { let c = char::from_digit(d, radix).unwrap(); if c.is_ascii_digit() { c.to_string() } else { format!("{}{}", c, c.to_ascii_uppercase()) } }).collect() }

enum Node { Leaf(T, O), Hand(String, String), Struct(S, Vec<(String, Node)>), Enum(String, Vec<(String, S, Vec<(String, Node)>)>) }
pub struct Oracle { re: regex::Regex, hir: Hir, nodes: Vec<(String, Node)>, fmt: F, first_groups: bool }

fn leaf_regex(t: &T) -> String {
    if let Some((b, s)) = int_of(t) { return format!("{}\\d{{1,{}}}", if s { "[-+]?" } else { "[+]?" }, digits_needed(b, 10)); }
    if let Some((b, s)) = nz_of(t) { return format!("{}[1-9]\\d{{0,{}}}", if s { "[-+]?" } else { "[+]?" }, digits_needed(b, 10) - 1); }
    match t {
        T::F32 | T::F64 | T::FullF32 | T::FullF64 => r"[-+]?(?i:inf|infinity|nan|(?:\d+|\d+[.]\d*|\d*[.]\d+)(?:e[-+]?\d+)?)".into(),
        T::Bool => "true|false".into(), T::Char => ".".into(),
        T::Str | T::Cow | T::Strng => ".+?".into(), T::PathBuf => ".+".into(),
        T::Hex => "0[xX][0-9a-fA-F]+|[0-9a-fA-F]+".into(),
        T::Word => "[a-z]+|[0-9]+x".into(),
        _ => unreachable!(),
    }
}
fn build(f: &F, n: &mut usize, out: &mut String) -> Vec<(String, Node)> {
    let mut nodes = vec![];
    let lit = |s: &str, out: &mut String| if f.unesc { out.push_str(s) } else { for c in s.chars() { write!(out, "\\x{{{:X}}}", c as u32).unwrap() } };
    for (i, (t, o)) in f.phs.iter().enumerate() {
        lit(&f.parts[i], out);
        *n += 1;
        let g = format!("g{}", n);
        write!(out, "(?P<{}>", g).unwrap();
        let node = match (t, o) {
            (_, O::Re(r)) => { out.push_str(r); Node::Leaf(t.clone(), o.clone()) }
            (_, O::Radix(radix, p)) => {
                let (b, s) = int_of(t).unwrap();
                out.push_str(if s { "[-+]?" } else { "[+]?" });
                match p { Pfx::Never => {}, Pfx::Opt(c) => write!(out, "(?:0[{}{}])?", c, c.to_ascii_uppercase()).unwrap(), Pfx::Forced(c) => write!(out, "0[{}{}]", c, c.to_ascii_uppercase()).unwrap() }
                write!(out, "[{}]{{1,{}}}", class(*radix), digits_needed(b, *radix)).unwrap();
                Node::Leaf(t.clone(), o.clone())
            }
            (T::Hand, _) => { *n += 2; write!(out, "a(?P<g{}>[0-9]+)|b(?P<g{}>[0-9]+)", *n - 1, *n).unwrap(); Node::Hand(format!("g{}", *n - 1), format!("g{}", *n)) }
            (T::D(d), _) => match &**d {
                Def::Struct(s) => { let sub = build(&s.fmt, n, out); Node::Struct(s.clone(), sub) }
                Def::Enum(name, vs) => {
                    let mut list = vec![];
                    out.push_str("(?:");
                    for (k, v) in vs.iter().enumerate() {
                        if k > 0 { out.push('|') }
                        *n += 1;
                        let vg = format!("g{}", n);
                        write!(out, "(?P<{}>", vg).unwrap();
                        let sub = build(&v.fmt, n, out);
                        out.push(')');
                        list.push((vg, v.clone(), sub));
                    }
                    out.push(')');
                    Node::Enum(name.clone(), list)
                }
            },
            _ => { out.push_str(&leaf_regex(t)); Node::Leaf(t.clone(), o.clone()) }
        };
        out.push(')');
        nodes.push((g, node));
    }
    lit(f.parts.last().unwrap(), out);
    nodes
}

/// value of a numeral: sign, digits. None if no digits / bad digit. (Mathematical value as sign + magnitude; magnitude None = too big for u128)
fn numeral(text: &str, radix: u32, pfx: Pfx) -> (bool, Option<u128>) {
    let (neg, t) = match text.strip_prefix('-') { Some(t) => (true, t), None => (false, text.strip_prefix('+').unwrap_or(text)) };
    let t = match pfx { Pfx::Never => t, Pfx::Opt(c) | Pfx::Forced(c) => if t.len() > 2 && t.starts_with('0') && t[1..].starts_with(|x: char| x.to_ascii_lowercase() == c) { &t[2..] } else { t } };
    let mut v: Option<u128> = Some(0);
    for ch in t.chars() { let d = ch.to_digit(radix).expect("oracle regex only lets digits pass") as u128; v = v.and_then(|v| v.checked_mul(radix as u128)).and_then(|v| v.checked_add(d)); }
    (neg, v)
}
const POS: &str = "number too large to fit in target type";
const NEG: &str = "number too small to fit in target type";
fn from_str<X: std::str::FromStr>(s: &str, show: impl Fn(X) -> Val) -> Result<Val, Vec<String>> where X::Err: std::fmt::Display {
    match s.parse::<X>() { Ok(v) => Ok(show(v)), Err(e) => Err(vec![format!("type {} failed to parse from a string: {}", std::any::type_name::<X>(), e), e.to_string()]) }
}
pub fn val_of(t: &T, s: &str, base: &str) -> Result<Val, Vec<String>> {
    macro_rules! int { ($(($b:literal $s:literal $t:ident $w:ident)),*) => { match t {
        $(T::Int($b, $s) => return from_str::<$t>(s, |v| Val::$w(v as _)),)* _ => {} } } }
    int!((8 false u8 U), (16 false u16 U), (32 false u32 U), (64 false u64 U), (128 false u128 U), (8 true i8 I), (16 true i16 I), (32 true i32 I), (64 true i64 I), (128 true i128 I));
    macro_rules! nz { ($(($b:literal $s:literal $t:ident $w:ident)),*) => { match t {
        $(T::NonZero($b, $s) => return from_str::<$t>(s, |v| Val::$w(v.get() as _)),)* _ => {} } } }
    nz!((8 false NonZeroU8 U), (16 false NonZeroU16 U), (32 false NonZeroU32 U), (64 false NonZeroU64 U), (128 false NonZeroU128 U), (8 true NonZeroI8 I), (16 true NonZeroI16 I), (32 true NonZeroI32 I), (64 true NonZeroI64 I), (128 true NonZeroI128 I));
    match t {
        T::USize => from_str::<usize>(s, |v| Val::U(v as _)), T::ISize => from_str::<isize>(s, |v| Val::I(v as _)),
        T::NzUSize => from_str::<NonZeroUsize>(s, |v| Val::U(v.get() as _)), T::NzISize => from_str::<NonZeroIsize>(s, |v| Val::I(v.get() as _)),
        T::F32 => from_str::<f32>(s, |v| Val::T(v.show(""))), T::F64 => from_str::<f64>(s, |v| Val::T(v.show(""))),
        T::FullF32 => s.parse::<f32>().map(|v| Val::T(v.show(""))).map_err(|e| vec![format!("type {} failed to parse from a string: {}", std::any::type_name::<sscanf::FullF32>(), e), e.to_string()]),
        T::FullF64 => s.parse::<f64>().map(|v| Val::T(v.show(""))).map_err(|e| vec![format!("type {} failed to parse from a string: {}", std::any::type_name::<sscanf::FullF64>(), e), e.to_string()]),
        T::Bool => from_str::<bool>(s, |v| Val::T(v.to_string())), T::Char => from_str::<char>(s, |v| Val::T(v.show(""))),
        T::Str => Ok(Val::T(span(s, base))), T::Cow => Ok(Val::T(format!("B{}", span(s, base)))),
        T::Strng => Ok(Val::T(s.to_string().show(""))), T::PathBuf => Ok(Val::T(std::path::PathBuf::from(s).show(""))),
        T::Hex => {
            let d = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")).unwrap_or(s);
            usize::from_str_radix(d, 16).map(|v| Val::U(v as u128)).map_err(|e| vec![format!("type {} failed to parse from a string: {}", std::any::type_name::<sscanf::HexNumber>(), e), e.to_string()])
        }
        T::Word => from_str::<Word>(s, |v| Val::T(v.show(""))),
        _ => unreachable!(),
    }
}
type Caps<'a> = regex::Captures<'a>;
fn eval(node: &Node, g: &str, c: &Caps, base: &str) -> Result<Val, Vec<String>> {
    let text = c.name(g).unwrap().as_str();
    match node {
        Node::Leaf(t, O::Radix(radix, p)) => {
            let (b, signed) = int_of(t).unwrap();
            let (neg, v) = numeral(text, *radix, *p);
            let max = if b == 128 { if signed { i128::MAX as u128 } else { u128::MAX } } else { (1u128 << (b - u32::from(signed))) - 1 };
            match v {
                Some(v) if !neg && v <= max => Ok(if signed { Val::I(v as i128) } else { Val::U(v) }),
                Some(v) if neg && v <= max => Ok(Val::I(-(v as i128))),
                Some(v) if neg && v == max + 1 => Ok(Val::I((v as i128).wrapping_neg())),
                _ => Err(vec![if neg { NEG } else { POS }.to_string()]),
            }
        }
        Node::Leaf(t, _) => val_of(t, text, base),
        Node::Hand(a, b) => {
            let (k, m) = match (c.name(a), c.name(b)) { (Some(m), _) => ('a', m), (_, Some(m)) => ('b', m), _ => unreachable!() };
            m.as_str().parse::<u8>().map(|n| Val::T(format!("Hand{}{}", k, n))).map_err(|e| vec![e.to_string()])
        }
        Node::Struct(s, sub) => eval_s(s, sub, c, base).map(|f| Val::T(format!("{}{}", s.name, f))).map_err(|e| wrap(&s.name, e)),
        Node::Enum(name, vs) => {
            for (vg, s, sub) in vs { if c.name(vg).is_some() { return eval_s(s, sub, c, base).map(|f| Val::T(format!("{}::{}{}", name, s.name, f))).map_err(|e| wrap(name, e)); } }
            unreachable!()
        }
    }
}
fn wrap(name: &str, mut e: Vec<String>) -> Vec<String> { e.insert(0, format!("type {} failed to parse from sscanf: {}", name, e[0])); e }
fn eval_s(s: &S, sub: &[(String, Node)], c: &Caps, base: &str) -> Result<String, Vec<String>> {
    let mut vals: Vec<Option<String>> = vec![None; s.fields.len()];
    for (i, (g, n)) in sub.iter().enumerate() {
        let k = s.fields.iter().position(|f| matches!(f.src, Src::Ph(j) if j == i)).unwrap();
        let mut v = eval(n, g, c, base)?;
        if let Some(conv) = s.fields[k].conv { v = conv(v)?; }
        vals[k] = Some(v.show());
    }
    for (k, f) in s.fields.iter().enumerate() { if let Src::Def(d) = &f.src { vals[k] = Some(d.clone()) } }
    Ok(format!("{{{}}}", s.fields.iter().zip(vals).map(|(f, v)| format!("{}={}", f.name, v.unwrap())).collect::<Vec<_>>().join(";")))
}

impl Oracle {
    pub fn new(f: F) -> Oracle {
        let mut s = String::from("^");
        let mut n = 0;
        let nodes = build(&f, &mut n, &mut s);
        s.push('$');
        let re = regex::RegexBuilder::new(&s).size_limit(200 << 20).build().unwrap_or_else(|e| panic!("oracle regex {}: {}", s, e));
        let hir = regex_syntax::Parser::new().parse(&s).unwrap();
        Oracle { re, hir, nodes, fmt: f, first_groups: false }
    }
    pub fn expect(&self, s: &str, mode: u8) -> Out {
        match self.re.captures(s) {
            None => Out::NoMatch,
            Some(c) => {
                if mode == 1 { return Out::Groups(self.nodes.iter().map(|(g, _)| c.name(g).map(|m| m.as_str().to_string())).collect()); }
                let mut v = vec![];
                for (g, n) in &self.nodes { match eval(n, g, &c, s) { Ok(x) => v.push(x.show()), Err(e) => return Out::Fail(e) } }
                Out::Ok(v.join(" , "))
            }
        }
    }
    pub fn input(&self, rng: &mut Rng) -> String {
        let mut s = String::new();
        let form = rng.below(10);
        if form < 6 { text(&self.fmt, rng, &mut s); } else { gen(&self.hir, rng, &mut s); }
        if rng.chance(30) { s = mutate(&s, rng); }
        s
    }
}

// ---------------------------------------------------------------- inputs
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn u128(&mut self) -> u128 { ((self.next() as u128) << 64) | self.next() as u128 }
}
fn to_radix(mut v: u128, radix: u32, rng: &mut Rng) -> String {
    let up = rng.below(3);
    let mut d = vec![];
    loop { let c = char::from_digit((v % radix as u128) as u32, radix).unwrap(); d.push(if up == 0 || (up == 2 && rng.chance(50)) { c.to_ascii_uppercase() } else { c }); v /= radix as u128; if v == 0 { break } }
    d.iter().rev().collect()
}
fn magnitude(bits: u32, signed: bool, rng: &mut Rng) -> (bool, u128) {
    let top: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let half = 1u128 << (bits - 1);
    let neg = signed && rng.chance(50);
    let v = match rng.below(12) {
        0 => top, 1 => half, 2 => half - 1, 3 => half.saturating_add(1), 4 => top.saturating_add(1), 5 => 0, 6 => 1, 7 => top / 2 + rng.below(7) as u128, 8 => rng.below(300) as u128,
        9 => top >> rng.below(bits as usize), _ => rng.u128() & top };
    (neg, v)
}
fn text(f: &F, rng: &mut Rng, out: &mut String) {
    for (i, (t, o)) in f.phs.iter().enumerate() {
        lit(f, &f.parts[i], rng, out);
        match o {
            O::Re(r) => gen(&regex_syntax::Parser::new().parse(r).unwrap(), rng, out),
            O::Radix(radix, p) => {
                let (b, s) = int_of(t).unwrap();
                let (neg, v) = magnitude(b, s, rng);
                if neg { out.push('-') } else if rng.chance(20) { out.push('+') }
                match p { Pfx::Never => {}, Pfx::Opt(c) => if rng.chance(50) { out.push('0'); out.push(if rng.chance(50) { *c } else { c.to_ascii_uppercase() }) }, Pfx::Forced(c) => if rng.chance(95) { out.push('0'); out.push(if rng.chance(50) { *c } else { c.to_ascii_uppercase() }) } }
                let d = to_radix(v, *radix, rng);
                let full = digits_needed(b, *radix) as usize;
                if rng.chance(15) && d.len() < full { for _ in 0..(full - d.len()) { out.push('0') } }
                out.push_str(&d);
                if rng.chance(6) { let n = char::from_digit(radix % 36, 36).unwrap(); out.push(n) }
            }
            O::None => sample_t(t, rng, out),
        }
    }
    lit(f, f.parts.last().unwrap(), rng, out);
}
fn lit(f: &F, s: &str, rng: &mut Rng, out: &mut String) { if f.unesc { if let Ok(h) = regex_syntax::Parser::new().parse(s) { gen(&h, rng, out) } } else { out.push_str(s) } }
fn sample_t(t: &T, rng: &mut Rng, out: &mut String) {
    if let Some((b, s)) = int_of(t).or_else(|| nz_of(t)) {
        let (neg, v) = magnitude(b, s, rng);
        if neg { out.push('-') } else if rng.chance(15) { out.push('+') }
        out.push_str(&to_radix(v, 10, rng));
        return;
    }
    match t {
        T::F32 | T::FullF32 => { let v = f32::from_bits(rng.next() as u32); match rng.below(4) { 0 => write!(out, "{}", v), 1 => write!(out, "{:e}", v), 2 => write!(out, "{:E}", v), _ => write!(out, "{}", (rng.below(2000) as f32 - 1000.0) / 8.0) }.unwrap() }
        T::F64 | T::FullF64 => { let v = f64::from_bits(rng.next()); match rng.below(4) { 0 => write!(out, "{}", v), 1 => write!(out, "{:e}", v), 2 => write!(out, "{:E}", v), _ => write!(out, "{}", (rng.below(2000) as f64 - 1000.0) / 8.0) }.unwrap() }
        T::Bool => out.push_str(if rng.chance(50) { "true" } else { "false" }),
        T::Char => out.push(rchar(rng)),
        T::Str | T::Cow | T::Strng | T::PathBuf => for _ in 0..1 + rng.below(5) { out.push(rchar(rng)) },
        T::Hex => { if rng.chance(50) { out.push_str(if rng.chance(50) { "0x" } else { "0X" }) } let (_, v) = magnitude(64, false, rng); let s = to_radix(v, 16, rng); out.push_str(&s) }
        T::Word => if rng.chance(60) { for _ in 0..1 + rng.below(6) { out.push((b'a' + rng.below(26) as u8) as char) } } else { write!(out, "{}x", rng.below(5000)).unwrap() },
        T::Hand => write!(out, "{}{}", if rng.chance(50) { 'a' } else { 'b' }, rng.below(400)).unwrap(),
        T::D(d) => match &**d { Def::Struct(s) => text(&s.fmt, rng, out), Def::Enum(_, v) => { let k = rng.below(v.len()); text(&v[k].fmt, rng, out) } },
        _ => {}
    }
}
fn rchar(rng: &mut Rng) -> char { let v: Vec<char> = "abcxyz019 ABZ.,;-+:/#(){}[]é日😀\u{212A}\u{301}".chars().collect(); if rng.chance(2) { '\n' } else { v[rng.below(v.len())] } }
fn gen(h: &Hir, rng: &mut Rng, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(&String::from_utf8_lossy(&l.0)),
        HirKind::Class(Class::Unicode(c)) => {
            let r = c.ranges();
            if r.is_empty() { return }
            let k = if rng.chance(75) { 0 } else { rng.below(r.len()) };
            let (a, b) = (r[k].start() as u32, r[k].end() as u32);
            let (lo, hi) = if a < 0x20 && b > 0x7e && rng.chance(80) { (0x20, 0x7e) } else if b > 0x7e && a <= 0x40 && rng.chance(80) { (a.max(0x21), 0x7e) } else { (a, b) };
            let x = match rng.below(4) { 0 => lo, 1 => hi, _ => lo + rng.below((hi - lo + 1) as usize) as u32 };
            out.push(char::from_u32(x).unwrap_or(r[k].start()));
        }
        HirKind::Class(Class::Bytes(c)) => { let r = c.ranges(); if r.is_empty() { return } let k = rng.below(r.len()); let (a, b) = (r[k].start() as usize, r[k].end() as usize); out.push((a + rng.below(b - a + 1)) as u8 as char) }
        HirKind::Repetition(r) => { let max = r.max.unwrap_or(r.min + 4); let n = match rng.below(5) { 0 => r.min, 1 => max, 2 => r.min + rng.below((max - r.min + 1).min(3) as usize) as u32, _ => r.min + rng.below((max - r.min + 1) as usize) as u32 }; for _ in 0..n { gen(&r.sub, rng, out) } }
        HirKind::Capture(c) => gen(&c.sub, rng, out),
        HirKind::Concat(v) => for x in v { gen(x, rng, out) },
        HirKind::Alternation(v) => { let k = rng.below(v.len()); gen(&v[k], rng, out) }
    }
}
/// a long text: one character of it many times
fn stretch(s: &str, n: usize, rng: &mut Rng) -> String {
    let v: Vec<char> = s.chars().collect();
    if v.is_empty() { return " ".repeat(n) }
    let i = match rng.below(4) { 0 => v.len() - 1, _ => rng.below(v.len()) };
    v[..i].iter().collect::<String>() + &v[i].to_string().repeat(n) + &v[i..].iter().collect::<String>()
}
fn mutate(s: &str, rng: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let pool: Vec<char> = "01289azAZfgFG{}+-_ .x\nkK\u{212A}\u{17F}٣é/\\:^$,()|".chars().collect();
    for _ in 0..1 + rng.below(2) {
        let i = rng.below(v.len() + 1);
        match rng.below(6) {
            0 => v.insert(i, pool[rng.below(pool.len())]),
            1 if i < v.len() => { v.remove(i); }
            2 if i < v.len() => { let c = v[i]; v[i] = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }
            3 if i < v.len() => { let c = v[i]; v.insert(i, c) }
            4 if v.len() > 1 => { let j = rng.below(v.len()); let i = rng.below(v.len()); v.swap(i, j) }
            _ if i < v.len() => v[i] = pool[rng.below(pool.len())],
            _ => v.push(pool[rng.below(pool.len())]),
        }
    }
    v.into_iter().collect()
}

// ---------------------------------------------------------------- driver
pub struct Case { pub id: &'static str, pub shown: &'static str, pub fmt: fn() -> F, pub run: fn(&str) -> Out, /// 0 values, 1 capture groups, 2 FromStr shortcut of a leaf type
    pub mode: u8, pub extra: &'static [&'static str] }

fn expected(c: &Case, o: &Oracle, s: &str) -> Out {
    if c.mode == 2 { let t = &o.fmt.phs[0].0; return match val_of(t, s, s) { Ok(v) => Out::Ok(v.show()), Err(e) => Out::Fail(e) }; }
    o.expect(s, c.mode)
}
fn run(c: &Case, s: &str) -> Out { match std::panic::catch_unwind(|| (c.run)(s)) { Ok(o) => o, Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) } }

pub fn main(cases: Vec<Case>) {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let c = cases.iter().find(|c| c.id == a[2]).expect("no such case");
        let o = Oracle::new((c.fmt)());
        let (e, g) = (expected(c, &o, &a[3]), run(c, &a[3]));
        println!("{}\ninput    {:?}\nexpected {:?}\nactual   {:?}", c.shown, a[3], e, g);
        std::process::exit(i32::from(e != g));
    }
    let (seed, secs, outfile) = (a[1].parse::<u64>().unwrap(), a[2].parse::<f64>().unwrap(), &a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let ncases = cases.len();
    let (evals, distinct, nomatch, fails, found, samples) = {
        let cases = &cases;
        let parts: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nthreads).map(|k| sc.spawn(move || {
                let mut rng = Rng::new(seed * 64 + k as u64);
                let mine: Vec<(&Case, Oracle)> = cases.iter().enumerate().filter(|(i, _)| i % nthreads == k).map(|(_, c)| (c, Oracle::new((c.fmt)()))).collect();
                let (mut evals, mut nomatch, mut fails) = (0u64, 0u64, 0u64);
                let mut seen = std::collections::HashSet::new();
                let mut found: Vec<String> = vec![];
                let mut badcases = std::collections::HashSet::new();
                let mut samples = vec![];
                let mut round = 0;
                loop {
                    for (c, o) in &mine {
                        if badcases.contains(c.id) { continue }
                        let fixed: Vec<String> = if round == 0 { c.extra.iter().map(|s| s.to_string()).chain(["".to_string()]).collect() } else { vec![] };
                        for k in 0..fixed.len() + 4 {
                            let mut s = if k < fixed.len() { fixed[k].clone() } else { o.input(&mut rng) };
                            if round == 1 && k < 2 {
                                // a long text, one that matches if there is one
                                for _ in 0..8 {
                                    if t0.elapsed().as_secs_f64() > secs * 0.7 { break }
                                    let t = stretch(&o.input(&mut rng), if k > 0 { 300 } else { match o.re.as_str().len() { 0..=400 => 66000, 401..=1500 => 5000, _ => 400 } }, &mut rng);
                                    let stop = o.re.is_match(&t);
                                    s = t;
                                    if stop { break }
                                }
                            }
                            let (e, g) = (expected(c, o, &s), run(c, &s));
                            evals += 1;
                            match &e { Out::NoMatch => nomatch += 1, Out::Fail(_) => fails += 1, _ => {} }
                            if !matches!(e, Out::NoMatch) { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (c.id, &s).hash(&mut h); if seen.insert(h.finish()) && samples.len() < 3 { samples.push(format!("{} on {:?} -> {:?}", c.shown.lines().last().unwrap_or(""), s, e)) } }
                            if e != g {
                                badcases.insert(c.id);
                                found.push(serde_json::json!({"case": c.id, "program": c.shown, "input": s, "what": format!("expected {:?}, got {:?}", e, g)}).to_string());
                                break;
                            }
                        }
                    }
                    round += 1;
                    if t0.elapsed().as_secs_f64() > secs || found.len() > 5 { break }
                }
                (evals, seen.len() as u64, nomatch, fails, found, samples)
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut acc = (0, 0, 0, 0, vec![], vec![]);
        for p in parts { acc.0 += p.0; acc.1 += p.1; acc.2 += p.2; acc.3 += p.3; acc.4.extend(p.4); acc.5.extend(p.5); }
        acc
    };
    let found: Vec<serde_json::Value> = found.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    std::fs::write(outfile, serde_json::to_string_pretty(&serde_json::json!({"programs": ncases, "evaluations": evals, "distinct_nontrivial": distinct, "nomatch": nomatch, "fails": fails, "found": found, "samples": samples.into_iter().take(8).collect::<Vec<String>>()})).unwrap()).unwrap();
}
pub fn ccode(s: &str) -> u32 { let c: String = s.to_string(); let inner = &c[1..c.len() - 1]; let mut it = inner.chars(); match it.next().unwrap() { '\\' => match it.next().unwrap() { 'n' => 10, 't' => 9, 'r' => 13, '0' => 0, '\'' => 39, '\\' => 92, '"' => 34, _ => u32::from_str_radix(inner.split_once('{').unwrap().1.trim_end_matches('}'), 16).unwrap() }, x => x as u32 } }
