//! Mechanical extraction of functions of /repo into a Verus file.
//!
//! `vx TEMPLATE REPO OUT.rs LOG.json [NAME=TOKENFILE ..]`
//! The template is Verus text. `//@item` and `//@fn` directives are replaced by items taken from the
//! repository's current source; `//@fn` adds the contract that follows it. The executable text is
//! changed only by the rules in rewrite.rs; every application is written to the log.
mod emitted;
mod errs;
mod rewrite;
mod roles;
mod seqs;
use rewrite::Rewriter;
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;

pub struct Fail(pub String);
pub type Res<T> = Result<T, Fail>;
pub fn fail<T>(s: impl Into<String>) -> Res<T> { Err(Fail(s.into())) }

#[derive(Default, Debug)]
pub struct Spec { pub file: String, pub path: String, pub rename: Option<String>, pub secs: BTreeMap<String, String>, pub roles: Vec<(String, String)>, pub flags: Vec<(String, String)>, pub free: bool, pub stub: bool }

fn parse_spec(head: &str, lines: &[&str]) -> Spec {
    let mut s = Spec::default();
    let w: Vec<&str> = head.split_whitespace().collect();
    s.file = w[0].into(); s.path = w[1].into();
    let mut i = 2;
    while i < w.len() { match w[i] { "as" => { s.rename = Some(w[i + 1].into()); i += 2 } "free" => { s.free = true; i += 1 } x => panic!("directive: {}", x) } }
    let mut cur = String::new();
    for l in lines {
        if let Some(d) = l.trim_start().strip_prefix("//@") {
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            match k {
                "role" => { let (a, b) = rest.split_once('=').unwrap(); s.roles.push((a.trim().into(), b.trim().into())); cur.clear(); }
                "flag" => { let (a, b) = rest.split_once('=').unwrap_or((rest, "")); s.flags.push((a.trim().into(), b.trim().into())); cur.clear(); }
                _ => { cur = d.trim().to_string(); s.secs.entry(cur.clone()).or_default(); }
            }
        } else if !cur.is_empty() { let e = s.secs.get_mut(&cur).unwrap(); e.push_str(l); e.push('\n'); }
    }
    s
}

pub struct Source { files: BTreeMap<String, syn::File>, repo: String, extra: BTreeMap<String, String> }
impl Source {
    fn file(&mut self, f: &str) -> Res<&syn::File> {
        if !self.files.contains_key(f) {
            // `@crate/path` is a file of a dependency
            let p = match f.strip_prefix('@') { Some(x) => { let (c, r) = x.split_once('/').unwrap(); format!("{}/{}", self.extra.get(&format!("@{}", c)).cloned().unwrap_or_default(), r) } None => self.extra.get(f).cloned().unwrap_or_else(|| format!("{}/{}", self.repo, f)) };
            let t = std::fs::read_to_string(&p).map_err(|e| Fail(format!("lost anchor: {}: {}", f, e)))?;
            let mut a = syn::parse_file(&t).map_err(|e| Fail(format!("cannot parse {}: {}", f, e)))?;
            expand_macros(&mut a.items);
            self.files.insert(f.into(), a);
        }
        Ok(&self.files[f])
    }
    /// every file of the crate, for helpers that moved
    fn all(&mut self) -> Vec<String> {
        let mut v = vec![];
        fn walk(d: &std::path::Path, root: &str, v: &mut Vec<String>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect(); es.sort();
            for p in es { if p.is_dir() { walk(&p, root, v) } else if p.extension().map_or(false, |e| e == "rs") { v.push(p.strip_prefix(root).unwrap().to_string_lossy().into()) } }
        }
        let repo = self.repo.clone();
        for d in ["src", "sscanf_macro/src"] { walk(&std::path::Path::new(&repo).join(d), &repo, &mut v) }
        v
    }
}

/// item macros of one arm with parameters separated by commas (`($a: ty, $b: ty) => { .. }`), expanded in place
fn expand_macros(items: &mut Vec<syn::Item>) {
    use proc_macro2::{TokenStream, TokenTree};
    let mut defs: BTreeMap<String, (Vec<String>, TokenStream)> = BTreeMap::new();
    for it in items.iter() { if let syn::Item::Macro(m) = it { if let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) {
        let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if let [TokenTree::Group(p), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(b), ..] = &t[..] {
            if t.len() > 5 { continue }
            let ps: Vec<TokenTree> = p.stream().into_iter().collect();
            let names: Option<Vec<String>> = ps.chunks(5).map(|c| match c { [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(_), TokenTree::Ident(_), ..] if d.as_char() == '$' => Some(n.to_string()), _ => None }).collect();
            if let Some(names) = names { defs.insert(n.to_string(), (names, b.stream())); }
        }
    } } }
    fn subst(t: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
        let mut o = vec![]; let mut it = t.into_iter().peekable();
        while let Some(x) = it.next() { match x {
            TokenTree::Punct(p) if p.as_char() == '$' => { if let Some(TokenTree::Ident(i)) = it.peek() { if let Some(r) = map.get(&i.to_string()) { o.extend(r.clone()); it.next(); continue } } o.push(TokenTree::Punct(p)) }
            TokenTree::Group(g) => o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map)))),
            x => o.push(x),
        } }
        o.into_iter().collect()
    }
    let mut add = vec![];
    for it in items.iter() { if let syn::Item::Macro(m) = it { if let Some((names, body)) = m.mac.path.get_ident().and_then(|i| defs.get(&i.to_string())) {
        let mut args: Vec<TokenStream> = vec![TokenStream::new()];
        for x in m.mac.tokens.clone() { match x { TokenTree::Punct(p) if p.as_char() == ',' => args.push(TokenStream::new()), x => args.last_mut().unwrap().extend([x]) } }
        if args.len() == names.len() { if let Ok(f) = syn::parse2::<syn::File>(subst(body.clone(), &names.iter().cloned().zip(args).collect())) { add.extend(f.items) } }
    } } }
    items.extend(add);
}

#[derive(Clone)]
pub struct FnItem { pub sig: syn::Signature, pub block: syn::Block, pub owner: Option<(syn::Generics, syn::Type, Option<syn::Path>)> }

fn find_in_block(b: &syn::Block, name: &str) -> Option<FnItem> {
    struct V<'a>(&'a str, Option<FnItem>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_item_fn(&mut self, f: &'b syn::ItemFn) { if f.sig.ident == self.0 && self.1.is_none() { self.1 = Some(FnItem { sig: f.sig.clone(), block: (*f.block).clone(), owner: None }) } syn::visit::visit_item_fn(self, f) }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}
pub fn find_fn(items: &[syn::Item], path: &str) -> Option<FnItem> {
    let segs: Vec<&str> = path.split("::").collect();
    if segs.last() == Some(&"{closure}") { return emitted::lifted(&find_fn_segs(items, &segs[..segs.len() - 1])?) }
    find_fn_segs(items, &segs)
}
fn norm(t: &impl quote::ToTokens) -> String { t.to_token_stream().to_string().replace(' ', "") }
fn find_fn_segs(items: &[syn::Item], segs: &[&str]) -> Option<FnItem> {
    // what is directly here comes before what is in a module
    let mut deep = None;
    for it in items {
        match it {
            syn::Item::Fn(f) if f.sig.ident == segs[0] => {
                if segs.len() == 1 { return Some(FnItem { sig: f.sig.clone(), block: (*f.block).clone(), owner: None }) }
                if let Some(r) = find_in_block(&f.block, segs[1]) { return Some(r) }
            }
            syn::Item::Mod(m) => if let Some((_, c)) = &m.content {
                if segs.len() > 1 && m.ident == segs[0] { if let Some(r) = find_fn_segs(c, &segs[1..]) { return Some(r) } }
                if segs.len() == 1 { if let Some(r) = find_fn_segs(c, segs) { return Some(r) } }
                if segs.len() > 1 { if let Some(r) = find_fn_segs(c, segs) { deep = deep.or(Some(r)) } }
            },
            syn::Item::Impl(im) if segs.len() >= 2 => {
                let ty = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => continue };
                // `Trait@Type::f` names a trait implementation, `Type::f` an inherent one
                let want = match segs[0].split_once('@') {
                    Some((tr, t)) => t == ty && im.trait_.as_ref().map_or(false, |x| norm(&x.1).ends_with(tr) || x.1.segments.last().unwrap().ident == tr),
                    None => segs[0] == ty && im.trait_.is_none(),
                };
                if !want { continue }
                for m in &im.items { if let syn::ImplItem::Const(c) = m { if segs.len() == 2 && c.ident == segs[1] { let (sig, block) = emitted::const_fn(c); return Some(FnItem { sig, block, owner: Some((im.generics.clone(), (*im.self_ty).clone(), im.trait_.as_ref().map(|t| t.1.clone()))) }) } } }
                for m in &im.items { if let syn::ImplItem::Fn(f) = m { if f.sig.ident == segs[1] {
                    let r = FnItem { sig: f.sig.clone(), block: f.block.clone(), owner: Some((im.generics.clone(), (*im.self_ty).clone(), im.trait_.as_ref().map(|t| t.1.clone()))) };
                    if segs.len() == 2 { return Some(r) }
                    if let Some(r) = find_in_block(&f.block, segs[2]) { return Some(r) }
                } } }
            }
            syn::Item::Trait(tr) if segs.len() == 2 && tr.ident == segs[0] => {
                for m in &tr.items { if let syn::TraitItem::Fn(f) = m { if f.sig.ident == segs[1] { if let Some(b) = &f.default { return Some(FnItem { sig: f.sig.clone(), block: b.clone(), owner: None }) } } } }
            }
            _ => {}
        }
    }
    deep
}

fn item_named<'a>(items: &'a [syn::Item], kind: &str, name: &str) -> Option<&'a syn::Item> {
    for it in items {
        match (it, kind) {
            (syn::Item::Struct(s), "struct") if s.ident == name => return Some(it),
            (syn::Item::Enum(s), "enum") if s.ident == name => return Some(it),
            (syn::Item::Const(s), "const") if s.ident == name => return Some(it),
            (syn::Item::Static(s), "static") if s.ident == name => return Some(it),
            (syn::Item::Type(s), "type") if s.ident == name => return Some(it),
            (syn::Item::Mod(m), _) => if let Some((_, c)) = &m.content { if let Some(r) = item_named(c, kind, name) { return Some(r) } },
            _ => {}
        }
    }
    None
}

fn emit_item(it: &syn::Item) -> String {
    let mut it = it.clone();
    struct Strip;
    impl VisitMut for Strip {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
        fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) { if matches!(v, syn::Visibility::Inherited | syn::Visibility::Restricted(_)) { } }
        fn visit_field_mut(&mut self, f: &mut syn::Field) { f.attrs.clear(); f.vis = syn::parse_quote!(pub); syn::visit_mut::visit_type_mut(self, &mut f.ty) }
        fn visit_variant_mut(&mut self, f: &mut syn::Variant) { f.attrs.clear(); for x in f.fields.iter_mut() { x.attrs.clear(); } }
    }
    Strip.visit_item_mut(&mut it);
    match &mut it { syn::Item::Struct(s) => { s.attrs.clear(); s.vis = syn::parse_quote!(pub) } syn::Item::Enum(s) => { s.attrs.clear(); s.vis = syn::parse_quote!(pub) } syn::Item::Const(s) => { s.attrs.clear(); s.vis = syn::parse_quote!(pub) } _ => {} }
    pretty(&quote::quote!(#it).to_string())
}

/// line breaks after `{`, `}` and `;` outside of literals
pub fn pretty(s: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let (mut i, mut depth) = (0, 0usize);
    while i < b.len() {
        let c = b[i];
        if c == '"' || (c == 'r' && i + 1 < b.len() && (b[i + 1] == '"' || b[i + 1] == '#') && (i == 0 || !b[i - 1].is_alphanumeric() && b[i - 1] != '_')) {
            let raw = c == 'r';
            let mut h = 0; let mut j = i + usize::from(raw);
            while raw && j < b.len() && b[j] == '#' { h += 1; j += 1 }
            if j < b.len() && b[j] == '"' {
                j += 1;
                loop {
                    if j >= b.len() { break }
                    if !raw && b[j] == '\\' { j += 2; continue }
                    if b[j] == '"' && b[j + 1..].iter().take(h).filter(|x| **x == '#').count() == h { j += 1 + h; break }
                    j += 1;
                }
                o.extend(&b[i..j.min(b.len())]); i = j; continue;
            }
        }
        if c == '\'' { // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] == '\\' { let mut j = i + 2; j += 1; while b[j] != '\'' { j += 1 } o.extend(&b[i..=j]); i = j + 1; continue }
            if i + 2 < b.len() && b[i + 2] == '\'' { o.extend(&b[i..i + 3]); i += 3; continue }
        }
        o.push(c);
        match c { '{' => { depth += 1; o.push('\n'); for _ in 0..depth { o.push_str("  ") } } '}' => { depth = depth.saturating_sub(1); o.push('\n'); for _ in 0..depth { o.push_str("  ") } } ';' => { o.push('\n'); for _ in 0..depth { o.push_str("  ") } } _ => {} }
        i += 1;
    }
    o
}

fn substitute(text: &str, roles: &BTreeMap<String, String>) -> Res<String> {
    let mut o = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1 }
            let n: String = b[i + 1..j].iter().collect();
            match roles.get(&n) { Some(v) => o.push_str(v), None => return fail(format!("lost anchor: no role {}", n)) }
            i = j;
        } else { o.push(b[i]); i += 1 }
    }
    Ok(o)
}

/// a function whose current text is out of reach: its contract is assumed (and reported as undecided)
fn skipped(spec: &Spec) -> bool { spec.stub || std::env::var("VX_SKIP").unwrap_or_default().split(',').any(|x| x == spec.path) }
fn emit_fn(spec: &Spec, src: &mut Source, log: &mut Vec<serde_json::Value>, known: &[String]) -> Res<String> {
    let f = src.file(&spec.file).ok().and_then(|f| find_fn(&f.items, &spec.path));
    let mut f = match f { Some(f) => f, None => {
        let mut r = None;
        for a in src.all() { if let Ok(fl) = src.file(&a) { if let Some(x) = find_fn(&fl.items, &spec.path) { r = Some(x); break } } }
        match r { Some(x) => x, None => return fail(format!("lost anchor: {} not found in {}", spec.path, spec.file)) }
    } };
    // a method as a function: the receiver is a parameter
    if let Some(t) = spec.flags.iter().find(|f| f.0 == "self_param").map(|f| f.1.clone()) {
        use proc_macro2::{TokenStream, TokenTree};
        fn go(t: TokenStream) -> TokenStream { t.into_iter().map(|x| match x { TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("vx_self", i.span())), TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream()))), x => x }).collect() }
        let b = &f.block; f.block = syn::parse2(go(quote::quote!(#b))).map_err(|e| Fail(format!("self: {}", e)))?;
        let ty: syn::Type = syn::parse_str(&t).unwrap();
        if let Some(a @ syn::FnArg::Receiver(_)) = f.sig.inputs.iter_mut().next() { *a = syn::parse_quote!(vx_self: #ty) }
    }
    let mut rw = Rewriter::new(spec, known.to_vec());
    // helpers of the same crate without a contract are inlined
    if spec.file.starts_with('!') { if let Ok(fl) = src.file(&spec.file) { rw.add_helpers(&fl.items) } }
    for a in src.all() { if !spec.file.starts_with('@') && !spec.file.starts_with('!') && a.starts_with(if spec.file.starts_with("src/") { "src/" } else { "sscanf_macro/" }) { if let Ok(fl) = src.file(&a) { rw.add_helpers(&fl.items) } } }
    rw.add_block_helpers(&f.block);
    if spec.flags.iter().any(|f| f.0 == "err_suffix") { let mut e = errs::Errs::new(&rw.helpers); e.run(&mut f); let n = e.hits; if n > 0 { rw.log.insert("drop_message (only ways to Err follow)".into(), n); } }
    { let mut q = seqs::Seqs::new(); q.run(&mut f.block); for h in q.hits { *rw.log.entry(h).or_default() += 1 } }
    let skip = skipped(spec);
    if skip { f.block = syn::parse_quote!({ unimplemented!() }); }
    if spec.flags.iter().any(|f| f.0 == "emitted" || f.0 == "runtime") && !skip { match emitted::Emitted::run(&mut f, &spec.flags) { Ok(h) => for x in h { *rw.log.entry(x).or_default() += 1 }, Err(e) => return fail(e) } }
    if skip { let _ = rw.run(&mut f); } else { rw.run(&mut f)?; }
    let mut roles = if skip { Default::default() } else { roles::resolve(spec, &f)? };
    for (k, p) in roles::params(&f.sig).iter().enumerate() { roles.insert(k.to_string(), p.clone()); }
    let name = spec.rename.clone().unwrap_or_else(|| f.sig.ident.to_string());
    let sec = |k: &str| -> Res<String> { match spec.secs.get(k) { Some(t) => substitute(t, &roles), None => Ok(String::new()) } };
    let gens = spec.flags.iter().find(|f| f.0 == "generics").map(|f| f.1.clone()).unwrap_or_else(|| rewrite::generics(&f.sig.generics, spec));
    for (k, a) in f.sig.inputs.iter_mut().enumerate() { if let syn::FnArg::Typed(t) = a { if matches!(&*t.pat, syn::Pat::Wild(_)) { let n = quote::format_ident!("vx_arg{}", k); *t.pat = syn::parse_quote!(#n) } } }
    let inputs: Vec<String> = f.sig.inputs.iter().map(|a| quote::quote!(#a).to_string()).collect();
    let ret = match &f.sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.secs.get("ret").map(|s| s.trim()).filter(|s| !s.is_empty()).unwrap_or("res"), quote::quote!(#t)) };
    let vis = if spec.flags.iter().any(|f| f.0 == "in_impl") { "" } else { "pub " };
    let mut head = format!("{vis}fn {}{}({}){}\n", name, gens, inputs.join(", "), ret);
    for k in ["requires", "ensures", "decreases"] { let t = sec(k)?; if !t.trim().is_empty() { head.push_str(&format!("    {}\n{}", k, t)); } }
    if skip { f.block = syn::parse_quote!({ unimplemented!() }); }
    let block = &f.block;
    let mut body = pretty(&quote::quote!(#block).to_string());
    // the characters of string literals that are compared with
    while let Some(p) = body.find("vx_reveal ! (") {
        let toks: syn::LitStr; let mut q = p;
        loop { q += body[q..].find(')').unwrap() + 1; if let Ok(l) = syn::parse_str::<syn::LitStr>(body[p + 13..q - 1].trim()) { toks = l; break } }
        let mut e = q; while body[e..].starts_with(|c: char| c == ';' || c.is_whitespace()) { e += 1 }
        let l = quote::quote!(#toks).to_string();
        let chars: Vec<String> = toks.value().chars().map(|c| format!("{:?}", c)).collect();
        let sq = if chars.is_empty() { "Seq::<char>::empty()".to_string() } else { format!("seq![{}]", chars.join(", ")) };
        body = format!("{}proof {{ reveal_strlit({}); assert({}@ =~= {}); }}\n{}", &body[..p], l, l, sq, &body[e..]);
    }
    // markers
    let mut used = std::collections::BTreeSet::new();
    loop {
        let Some(p) = body.find("vx_mark ! (") else { break };
        let q = body[p..].find(')').unwrap() + p;
        let key = body[p + 11..q].trim().trim_matches('"').to_string();
        let mut e = q + 1;
        while body[e..].starts_with(|c: char| c == ';' || c.is_whitespace()) { e += 1 }
        let text = sec(&key)?;
        used.insert(key.clone());
        if key.starts_with("loop ") || key.starts_with("rloop ") {
            // `.. { vx_mark!(..);`  ->  `.. invariant .. {`
            let open = body[..p].rfind('{').unwrap();
            if text.trim().is_empty() { if !spec.flags.iter().any(|f| f.0 == "loops_free") { return fail(format!("lost anchor: {} of {} has no contract", key, spec.path)) } }
            // what every loop keeps
            let common = sec("common")?; let mut done = false;
            let text: String = text.lines().map(|l| { let w = l.trim_start(); if !done && w.starts_with("invariant") && !w.starts_with("invariant_except_break") && !common.is_empty() { done = true; format!("{}\n{}\n", l, common.trim_end()) } else { format!("{}\n", l) } }).collect();
            body = format!("{}\n{}{{\n{}", &body[..open], text, &body[e..]);
        } else {
            body = format!("{}{}\n{}", &body[..p], text, &body[e..]);
        }
    }
    // a function whose loops are all gone (an iterator adaptor instead, say) needs no loop contract
    let no_loops = spec.flags.iter().any(|f| f.0 == "loops_optional") && !used.iter().any(|k| k.starts_with("loop "));
    if !skip { for k in spec.secs.keys() {
        if no_loops && (k.starts_with("loop ") || k.starts_with("loop_")) { continue }
        if (k.starts_with("loop ") || k.starts_with("loop_") || k.starts_with("after_") || k.starts_with("before_")) && !used.contains(k) { return fail(format!("lost anchor: {} has no {}", spec.path, k)) }
    } }
    if std::env::var("VX_PROBE").is_ok() && !skip { if let Some(p) = body.find('{') { body.insert_str(p + 1, "assert(false);") } }
    if !skip && spec.file.trim_start_matches('!').starts_with("sscanf_macro/") | spec.file.starts_with('!') && ["to_string ()", "into ()", "String :: from ("].iter().any(|t| body.contains(t)) { if let Some(p) = body.find('{') { body.insert_str(p + 1, "broadcast use vx_text;") } }
    let mut attrs = sec("attrs")?;
    if skip { attrs.push_str("#[verifier::external_body]\n") }
    if (body.contains("while ") || body.contains("loop ")) && !spec.flags.iter().any(|f| f.0 == "isolate") { attrs.push_str("#[verifier::loop_isolation(false)]#[verifier::allow_complex_invariants]\n") }
    let mut out = format!("{}{}{}\n", attrs, head, body);
    if let (Some((g, ty, _)), false) = (&f.owner, spec.free) {
        let g = rewrite::generics(g, spec);
        let mut t = ty.clone(); rw.visit_type_mut(&mut t);
        let wh: Vec<String> = f.owner.as_ref().unwrap().0.where_clause.iter().flat_map(|w| w.predicates.iter()).filter_map(|p| if let syn::WherePredicate::Lifetime(l) = p { Some(quote::quote!(#l).to_string()) } else if spec.flags.iter().any(|f| f.0 == "keep_where") { Some(quote::quote!(#p).to_string()) } else { None }).collect();
        let wh = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
        out = format!("impl{} {}{} {{\n{}}}\n", g, quote::quote!(#t), wh, out);
    }
    let flag = |k: &str| spec.flags.iter().find(|f| f.0 == k).map(|f| f.1.clone());
    if spec.stub { log.push(serde_json::json!({"stub": format!("{}::{}", spec.file, spec.path)})); return Ok(out) }
    log.push(serde_json::json!({"function": format!("{}::{}", spec.file, spec.path), "path": spec.path, "as": name, "rewrites": rw.log, "props": flag("props"), "skipped": skip}));
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = std::fs::read_to_string(&a[1]).unwrap();
    let extra = a[5..].iter().map(|x| { let (k, v) = x.split_once('=').unwrap(); (k.to_string(), v.to_string()) }).collect();
    let mut src = Source { files: BTreeMap::new(), repo: a[2].clone(), extra };
    let mut out = String::new();
    let mut log = vec![];
    // includes
    let base = std::path::Path::new(&a[1]).parent().unwrap().to_path_buf();
    let mut text = String::new();
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") { text.push_str(&std::fs::read_to_string(base.join(f.trim())).unwrap()); text.push('\n'); }
        else { text.push_str(l); text.push('\n'); }
    }
    let lines: Vec<&str> = text.lines().collect();
    let known: Vec<String> = lines.iter().filter_map(|l| l.trim().strip_prefix("//@fn ").or(l.trim().strip_prefix("//@stub "))).map(|l| l.split_whitespace().nth(1).unwrap().rsplit("::").next().unwrap().to_string()).collect();
    // functions that the template itself defines are never inlined
    let mut known = known;
    for l in &lines { if let Some(p) = l.find("fn ") { let n: String = l[p + 3..].trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); if !n.is_empty() { known.push(n) } } }
    let mut i = 0;
    let mut status = Ok(());
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(h) = l.strip_prefix("//@item ") {
            let w: Vec<&str> = h.split_whitespace().collect();
            let r = src.file(w[0]).and_then(|f| match item_named(&f.items, w[1], w[2]) { Some(i) => Ok(emit_item(i)), None => fail(format!("lost anchor: {} {} not found in {}", w[1], w[2], w[0])) });
            match r { Ok(mut s) => { for r in &w[3..] { let (x, y) = r.split_once("=>").unwrap(); s = s.replace(&x.replace('~', " "), &y.replace('~', " ")); } out.push_str(&s); out.push('\n'); log.push(serde_json::json!({"item": h})); } Err(e) => { status = Err(e.0); break } }
            i += 1;
        } else if let Some(h) = l.strip_prefix("//@stub ") {
            // the contract of a function that is proved in another unit: only assumed here
            let w: Vec<&str> = h.split_whitespace().collect();
            let t = std::fs::read_to_string(base.join(w[0])).unwrap();
            let tl: Vec<&str> = t.lines().collect();
            let r = match tl.iter().position(|x| x.trim().strip_prefix("//@fn ").map_or(false, |h| h.split_whitespace().nth(1) == Some(w[1]))) {
                None => fail(format!("lost anchor: {} is not in {}", w[1], w[0])),
                Some(a) => { let b = (a..tl.len()).find(|k| tl[*k].trim() == "//@end").unwrap();
                    let mut spec = parse_spec(tl[a].trim().strip_prefix("//@fn ").unwrap(), &tl[a + 1..b]);
                    spec.stub = true; spec.roles.clear(); spec.secs.retain(|k, _| ["requires", "ensures", "ret"].contains(&k.as_str()));
                    emit_fn(&spec, &mut src, &mut log, &known).map(|s| (spec.path.clone(), s)) }
            };
            match r { Ok((p, s)) => { out.push_str(&format!("// <<< {}\n", p)); out.push_str(&s); out.push_str("// >>>\n"); } Err(e) => { status = Err(format!("{}: {}", w[1], e.0)); break } }
            i += 1;
        } else if let Some(h) = l.strip_prefix("//@fn ") {
            let mut j = i + 1;
            while lines[j].trim() != "//@end" { j += 1 }
            let spec = parse_spec(h, &lines[i + 1..j]);
            match emit_fn(&spec, &mut src, &mut log, &known) { Ok(s) => { out.push_str(&format!("// <<< {}\n", spec.path)); out.push_str(&s); out.push_str("// >>>\n"); } Err(e) => { status = Err(format!("{}: {}", spec.path, e.0)); break } }
            i = j + 1;
        } else { out.push_str(lines[i]); out.push('\n'); i += 1 }
    }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&serde_json::json!({"ok": status.is_ok(), "error": status.as_ref().err(), "extracted": log})).unwrap()).unwrap();
    if let Err(e) = status { eprintln!("{}", e); std::process::exit(3) }
}
