//! Comparing two regexes: identical HIR => same language and captures. Otherwise search a
//! distinguishing input: shortest one via the product of the two DFAs, then random samples.
use crate::rng::Rng;
use regex_syntax::hir::{Class, Hir, HirKind};

pub fn hir(r: &str) -> Result<Hir, String> { regex_syntax::Parser::new().parse(r).map_err(|e| e.to_string()) }

pub enum Cmp { Same, Differ(String, String), Unknown }

fn caps(r: &regex::Regex, s: &str) -> Option<Vec<Option<(usize, usize)>>> {
    r.captures(s).map(|c| c.iter().map(|m| m.map(|m| (m.start(), m.end()))).collect())
}
fn show(c: &Option<Vec<Option<(usize, usize)>>>, s: &str) -> String {
    match c { None => "no match".into(), Some(v) => format!("match with groups {:?}", v.iter().map(|m| m.map(|(a, b)| &s[a..b])).collect::<Vec<_>>()) }
}

pub fn compare(expected: &str, actual: &str, rng: &mut Rng, samples: usize) -> Cmp {
    let (he, ha) = match (hir(expected), hir(actual)) {
        (Ok(a), Ok(b)) => (a, b),
        (Ok(h), Err(e)) => return Cmp::Differ(sample(&h, rng), format!("expected regex `{}`, but the generated `{}` is invalid: {}", expected, actual, e)),
        _ => return Cmp::Unknown,
    };
    if he == ha || canon(&he) == canon(&ha) { return Cmp::Same; }
    let (re, ra) = match (regex::Regex::new(expected), regex::Regex::new(actual)) {
        (Ok(a), Ok(b)) => (a, b),
        (Ok(_), Err(e)) => return Cmp::Differ(sample(&he, rng), format!("generated regex `{}` is invalid: {}", actual, e)),
        _ => return Cmp::Unknown,
    };
    if let Some(w) = distinguish(expected, actual) {
        let (a, b) = (caps(&re, &w), caps(&ra, &w));
        if a.is_some() != b.is_some() { return Cmp::Differ(w.clone(), format!("expected {}, got {}", show(&a, &w), show(&b, &w))); }
    }
    for k in 0..samples {
        let h = if k % 2 == 0 { &he } else { &ha };
        let mut w = sample(h, rng);
        if k % 3 == 2 { w = mutate(&w, rng); }
        let (a, b) = (caps(&re, &w), caps(&ra, &w));
        if a != b { return Cmp::Differ(w.clone(), format!("expected {}, got {}", show(&a, &w), show(&b, &w))); }
    }
    Cmp::Unknown
}

/// Shortest input (as text) accepted as a whole by exactly one of two `^...$` regexes.
pub fn distinguish(a: &str, b: &str) -> Option<String> {
    use regex_automata::{dfa::{dense, Automaton, StartKind}, Anchored, util::start};
    let build = |p: &str| dense::Builder::new()
        .configure(dense::Config::new().start_kind(StartKind::Anchored).minimize(false).dfa_size_limit(Some(20 << 20)).determinize_size_limit(Some(20 << 20)))
        .build(p).ok();
    let (da, db) = (build(a)?, build(b)?);
    let cfg = start::Config::new().anchored(Anchored::Yes);
    let (sa, sb) = (da.start_state(&cfg).ok()?, db.start_state(&cfg).ok()?);
    let mut seen = std::collections::HashMap::new();
    let mut queue = std::collections::VecDeque::new();
    seen.insert((sa, sb), None);
    queue.push_back((sa, sb));
    let mut steps = 0usize;
    while let Some((x, y)) = queue.pop_front() {
        let ea = da.is_match_state(da.next_eoi_state(x));
        let eb = db.is_match_state(db.next_eoi_state(y));
        if ea != eb {
            let mut bytes = vec![];
            let mut cur = (x, y);
            while let Some(Some((prev, byte))) = seen.get(&cur) { bytes.push(*byte); cur = *prev; }
            bytes.reverse();
            if let Ok(s) = String::from_utf8(bytes) { return Some(s); }
        }
        steps += 1;
        if steps > 200_000 { return None; }
        for byte in 0..=255u8 {
            let n = (da.next_state(x, byte), db.next_state(y, byte));
            if da.is_dead_state(n.0) && db.is_dead_state(n.1) { continue; }
            if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(n) { e.insert(Some(((x, y), byte))); queue.push_back(n); }
        }
    }
    None
}

pub fn sample(h: &Hir, rng: &mut Rng) -> String { let mut s = String::new(); gen(h, rng, &mut s); s }
fn gen(h: &Hir, rng: &mut Rng, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(&String::from_utf8_lossy(&l.0)),
        HirKind::Class(Class::Unicode(c)) => {
            let r = c.ranges();
            if r.is_empty() { return; }
            let k = if rng.chance(60) { rng.below(r.len().min(4)) } else { rng.below(r.len()) };
            let (a, b) = (r[k].start() as u32, r[k].end() as u32);
            let (lo, hi) = if k == 0 && a < 0x20 && b > 0x7e && rng.chance(80) { (0x20, 0x7e) } else { (a, b) };
            let x = match rng.below(4) { 0 => lo, 1 => hi, _ => lo + rng.below((hi - lo + 1) as usize) as u32 };
            out.push(char::from_u32(x).unwrap_or(r[k].start()));
        }
        HirKind::Class(Class::Bytes(c)) => {
            let r = c.ranges();
            if r.is_empty() { return; }
            let k = rng.below(r.len());
            let (a, b) = (r[k].start() as u32, r[k].end() as u32);
            let x = match rng.below(4) { 0 => a, 1 => b, _ => a + rng.below((b - a + 1) as usize) as u32 };
            out.push(char::from_u32(x).unwrap_or('?'));
        }
        HirKind::Repetition(r) => {
            let max = r.max.unwrap_or(r.min + 4);
            let n = match rng.below(4) { 0 => r.min, 1 => max, _ => r.min + rng.below((max - r.min + 1) as usize) as u32 };
            for _ in 0..n.min(200) { gen(&r.sub, rng, out) }
        }
        HirKind::Capture(c) => gen(&c.sub, rng, out),
        HirKind::Concat(v) => for x in v { gen(x, rng, out) },
        HirKind::Alternation(v) => { let k = rng.below(v.len()); gen(&v[k], rng, out) }
    }
}
pub fn mutate(s: &str, rng: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let pool: Vec<char> = "0129azAZgG{}+-_ .x\nK\u{212A}\u{17F}٣é/\\:^$".chars().collect();
    for _ in 0..1 + rng.below(2) {
        let i = rng.below(v.len() + 1);
        match rng.below(4) {
            0 => v.insert(i, pool[rng.below(pool.len())]),
            1 if i < v.len() => { v.remove(i); }
            2 if i < v.len() => { let c = v[i]; v[i] = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }; }
            _ if i < v.len() => v[i] = pool[rng.below(pool.len())],
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// Canonical text: classes as sorted ranges whatever their kind (only if ASCII), literals split into
/// characters, concatenations flattened. Equal text => equal language, preferences and groups.
pub fn canon(h: &Hir) -> String { let mut v = vec![]; canon_into(h, &mut v); v.join(" ") }
fn range_str(v: Vec<(u32, u32)>) -> String { v.iter().map(|(a, b)| format!("{:x}-{:x}", a, b)).collect::<Vec<_>>().join(",") }
fn canon_into(h: &Hir, out: &mut Vec<String>) {
    match h.kind() {
        HirKind::Empty => {}
        HirKind::Look(l) => out.push(format!("look:{:?}", l)),
        HirKind::Literal(l) => match std::str::from_utf8(&l.0) {
            Ok(s) => for c in s.chars() { out.push(range_str(vec![(c as u32, c as u32)])) },
            Err(_) => out.push(format!("bytes:{:?}", l.0)),
        },
        HirKind::Class(Class::Unicode(c)) => out.push(range_str(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect())),
        HirKind::Class(Class::Bytes(c)) if c.is_ascii() => out.push(range_str(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect())),
        HirKind::Class(Class::Bytes(c)) => out.push(format!("bytes:{:?}", c)),
        HirKind::Repetition(r) => {
            let inner = canon(&r.sub);
            if r.min == 1 && r.max == Some(1) { out.push(inner); } else { out.push(format!("({}){{{},{:?}}}{}", inner, r.min, r.max, if r.greedy { "" } else { "?" })) }
        }
        HirKind::Capture(c) => out.push(format!("<{} {}>", c.index, canon(&c.sub))),
        HirKind::Concat(v) => for x in v { canon_into(x, out) },
        HirKind::Alternation(v) => out.push(format!("[{}]", v.iter().map(canon).collect::<Vec<_>>().join(" | "))),
    }
}
