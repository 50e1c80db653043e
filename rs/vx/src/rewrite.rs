//! The rewriting rules. Each keeps the meaning of the code (std's own definition of the method that
//! is expanded) except where the rule's name starts with `drop`.
use crate::{fail, FnItem, Res, Spec};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub fn generics(g: &syn::Generics, spec: &Spec) -> String {
    let _ = spec;
    let v: Vec<String> = g.params.iter().filter_map(|p| match p {
        syn::GenericParam::Lifetime(l) => { let mut l = l.clone(); l.attrs.clear(); Some(l.to_token_stream().to_string()) }
        syn::GenericParam::Type(t) => if t.bounds.to_token_stream().to_string().contains("Iterator") { None } else { Some(t.to_token_stream().to_string()) },
        syn::GenericParam::Const(c) => Some(c.to_token_stream().to_string()),
    }).collect();
    if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) }
}

pub struct Rewriter<'s> { spec: &'s Spec, pub log: BTreeMap<String, usize>, err: Option<String>, known: Vec<String>, pub helpers: BTreeMap<String, FnItem>, consts: BTreeMap<String, Expr>, fors: usize, inline_depth: usize, ret_option: bool, tmp: usize, params: Vec<String> }

fn path_str(e: &Expr) -> Option<String> { match e { Expr::Path(p) if p.qself.is_none() => Some(p.path.to_token_stream().to_string().replace(' ', "")), Expr::Paren(p) => path_str(&p.expr), _ => None } }
fn closure(e: &Expr) -> Option<&syn::ExprClosure> { match e { Expr::Closure(c) => Some(c), Expr::Paren(p) => closure(&p.expr), _ => None } }
/// `*x` of names bound by a reference pattern that is now bound by value
struct Unref(BTreeSet<String>);
impl VisitMut for Unref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, syn::UnOp::Deref(_)) { if let Some(p) = path_str(&u.expr) { if self.0.contains(&p) { *e = (*u.expr).clone(); return } } } }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn bound(p: &Pat) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) } }
    let mut v = V(BTreeSet::new()); v.visit_pat(p); v.0
}
/// pattern without outer references (`&(a, b)` -> `(a, b)`)
fn by_value(p: &Pat) -> Pat { match p { Pat::Reference(r) => by_value(&r.pat), Pat::Type(t) => by_value(&t.pat), Pat::Paren(t) => by_value(&t.pat), p => p.clone() } }
struct Rename(BTreeMap<String, Expr>);
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e { if matches!(u.op, syn::UnOp::Deref(_)) { if let Some(p) = path_str(&u.expr) { if let Some(Expr::Reference(r)) = self.0.get(&p) { *e = (*r.expr).clone(); return } } } }
        if let Expr::MethodCall(m) = e { if let Some(p) = path_str(&m.receiver) { if let Some(Expr::Reference(r)) = self.0.get(&p) { let x = (*r.expr).clone(); *m.receiver = x; for a in m.args.iter_mut() { self.visit_expr_mut(a) } return } } }
        if let Some(p) = path_str(e) { if let Some(x) = self.0.get(&p) { *e = x.clone(); return } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { if let Some(x) = self.0.get(&p.ident.to_string()) { if let Some(s) = path_str(x) { p.ident = format_ident!("{}", s) } } visit_mut::visit_pat_ident_mut(self, p) }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // names inside macro arguments
        fn go(t: TokenStream, map: &BTreeMap<String, Expr>) -> TokenStream { t.into_iter().flat_map(|tt| match tt { proc_macro2::TokenTree::Ident(i) => match map.get(&i.to_string()) { Some(x) => x.to_token_stream(), None => proc_macro2::TokenTree::Ident(i).into() }, proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), map))).into(), x => x.into() }).collect() }
        m.tokens = go(m.tokens.clone(), &self.0);
    }
}
fn has_return(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true } fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {} }
    let mut v = V(false); v.visit_block(b); v.0
}

impl<'s> Rewriter<'s> {
    pub fn new(spec: &'s Spec, known: Vec<String>) -> Self { Self { spec, log: Default::default(), err: None, known, helpers: Default::default(), consts: Default::default(), fors: 0, inline_depth: 0, ret_option: false, tmp: 0, params: vec![] } }
    pub fn add_helpers(&mut self, items: &[syn::Item]) {
        for it in items { match it {
            syn::Item::Fn(f) => { self.helpers.entry(f.sig.ident.to_string()).or_insert(FnItem { sig: f.sig.clone(), block: (*f.block).clone(), owner: None }); }
            syn::Item::Const(c) => { self.consts.entry(c.ident.to_string()).or_insert((*c.expr).clone()); }
            syn::Item::Static(c) => { self.consts.entry(c.ident.to_string()).or_insert((*c.expr).clone()); }
            syn::Item::Mod(m) => if let Some((_, c)) = &m.content { self.add_helpers(c) },
            syn::Item::Impl(im) => if let syn::Type::Path(p) = &*im.self_ty { let t = p.path.segments.last().unwrap().ident.to_string(); for m in &im.items { match m {
                syn::ImplItem::Fn(f) => { self.helpers.entry(format!("{}::{}", t, f.sig.ident)).or_insert(FnItem { sig: f.sig.clone(), block: f.block.clone(), owner: None }); }
                syn::ImplItem::Const(c) => { self.consts.entry(format!("{}::{}", t, c.ident)).or_insert(c.expr.clone()); }
                _ => {} } } },
            _ => {}
        } }
    }
    pub fn add_block_helpers(&mut self, b: &syn::Block) { for s in &b.stmts { if let Stmt::Item(i) = s { let items = [i.clone()]; self.add_helpers(&items) } } }
    fn hit(&mut self, r: &str) { *self.log.entry(r.to_string()).or_default() += 1 }
    fn bad(&mut self, s: String) { if self.err.is_none() { self.err = Some(s) } }
    fn flag(&self, k: &str) -> Option<&str> { self.spec.flags.iter().find(|f| f.0 == k).map(|f| f.1.as_str()) }
    fn flags<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a str> + 'a { self.spec.flags.iter().filter(move |f| f.0 == k).map(|f| f.1.as_str()) }

    pub fn run(&mut self, f: &mut FnItem) -> Res<()> {
        self.ret_option = match &f.sig.output { syn::ReturnType::Type(_, t) => t.to_token_stream().to_string().starts_with("Option"), _ => false };
        f.sig.generics.where_clause = None; self.params = crate::roles::params(&f.sig);
        for a in f.sig.inputs.iter_mut() { match a { syn::FnArg::Typed(t) => { t.attrs.clear(); self.visit_type_mut(&mut t.ty) } syn::FnArg::Receiver(r) => { r.attrs.clear() } } }
        if let Some(r) = self.flag("returns").map(|s| s.to_string()) { let t: syn::Type = syn::parse_str(&r).unwrap(); f.sig.output = parse_quote!(-> #t); self.hit("type_map"); }
        for p in self.flags("param").map(|s| s.to_string()).collect::<Vec<_>>() {
            let (i, t) = p.split_once(' ').unwrap(); let t: syn::Type = syn::parse_str(t).unwrap(); let i: usize = i.parse().unwrap();
            if let Some(syn::FnArg::Typed(a)) = f.sig.inputs.iter_mut().filter(|a| matches!(a, syn::FnArg::Typed(_))).nth(i) { *a.ty = t; }
        }
        if let syn::ReturnType::Type(_, t) = &mut f.sig.output { self.visit_type_mut(t) }
        let mut b = f.block.clone();
        self.visit_block_mut(&mut b);
        let mut n = Number { spec: self.spec, k: 0 };
        n.visit_block_mut(&mut b);
        b.stmts.insert(0, mark("begin"));
        if self.spec.secs.contains_key("before_tail") {
            let last = b.stmts.len() - usize::from(matches!(b.stmts.last(), Some(Stmt::Expr(_, None))));
            b.stmts.insert(last, mark("before_tail"));
        }
        // what is left must be in the subset
        struct Left(Option<String>, bool);
        impl<'a> Visit<'a> for Left {
            // (Verus loses what a &mut parameter was on the exits behind a guard)
            fn visit_arm(&mut self, a: &'a syn::Arm) { if a.guard.is_some() && self.1 { self.0 = Some("unsupported construct: match guard".into()) } syn::visit::visit_arm(self, a) }
            fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { self.0 = Some(format!("unsupported construct: closure {}", c.to_token_stream())) }
            fn visit_macro(&mut self, m: &'a syn::Macro) { let n = m.path.to_token_stream().to_string(); if !["matches", "vx_mark", "vx_reveal", "vec"].contains(&n.as_str()) { self.0 = Some(format!("unsupported construct: macro {}!", n)) } }
            fn visit_expr_for_loop(&mut self, c: &'a syn::ExprForLoop) { self.0 = Some(format!("unsupported construct: for loop over {}", c.expr.to_token_stream())) }
        }
        let refs = f.sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("& mut") || a.to_token_stream().to_string().contains("mut self")); let mut l = Left(None, refs); l.visit_block(&b);
        if self.flag("closures_ok").is_none() { if let Some(e) = l.0 { self.bad(e) } }
        f.block = b;
        match self.err.take() { Some(e) => fail(e), None => Ok(()) }
    }

    fn inline(&mut self, name: &str, f: FnItem, args: Vec<Expr>) -> Option<Expr> {
        if self.inline_depth > 3 || has_return(&f.block) { return None }
        let mut map = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let params: Vec<&syn::PatType> = f.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() || params.len() != f.sig.inputs.len() { return None }
        // own names for the helper's locals
        struct B(BTreeSet<String>);
        impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.insert(p.ident.to_string()); } } }
        let mut bs = B(BTreeSet::new()); bs.visit_block(&f.block);
        self.tmp += 1; let id = self.tmp;
        for b in &bs.0 { let n = format_ident!("{}_h{}", b, id); map.insert(b.clone(), parse_quote!(#n)); }
        for (p, a) in params.iter().zip(args) {
            let pn = match &*p.pat { Pat::Ident(i) => i.ident.clone(), _ => return None };
            let simple = match &a { Expr::Path(_) | Expr::Lit(_) => true, Expr::Reference(r) => matches!(&*r.expr, Expr::Path(_)), _ => false };
            if simple && !map.contains_key(&pn.to_string()) { map.insert(pn.to_string(), a); }
            else { let n = format_ident!("{}_h{}", pn, id); let t = &p.ty; if t.to_token_stream().to_string().contains("impl ") { lets.push(parse_quote!(let #n = #a;)); } else { lets.push(parse_quote!(let #n : #t = #a;)); } map.insert(pn.to_string(), parse_quote!(#n)); }
        }
        let mut b = f.block.clone();
        Rename(map).visit_block_mut(&mut b);
        let mut stmts = lets; stmts.extend(b.stmts);
        b.stmts = stmts;
        self.inline_depth += 1;
        let mut e: Expr = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
        self.visit_expr_mut(&mut e);
        self.inline_depth -= 1;
        self.hit(&format!("inline {}", name));
        Some(e)
    }

    /// (condition parts, item expression) of what a for loop runs over
    fn source(&mut self, e: &Expr, k: &str, lets: &mut Vec<Stmt>, conds: &mut Vec<Expr>) -> Option<Expr> {
        let idx = format_ident!("vx_i{}", k);
        match e {
            Expr::Paren(p) => self.source(&p.expr, k, lets, conds),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => self.source(&m.receiver, k, lets, conds),
            Expr::MethodCall(m) if m.method == "enumerate" => { let x = self.source(&m.receiver, k, lets, conds)?; Some(parse_quote!((#idx, #x))) }
            Expr::MethodCall(m) if m.method == "zip" => { let a = self.source(&m.receiver, k, lets, conds)?; let b = self.source(&m.args[0], k, lets, conds)?; Some(parse_quote!((#a, #b))) }
            Expr::Path(_) | Expr::Field(_) | Expr::Reference(_) => {
                let v = format_ident!("vx_v{}_{}", k, conds.len());
                let inner = if let Expr::Reference(r) = e { if r.mutability.is_some() { return None } (*r.expr).clone() } else { e.clone() };
                lets.push(if self.flag("list_iter").is_some() { parse_quote!(let #v = vx_list(&#inner);) } else { parse_quote!(let #v = &#inner;) });
                conds.push(parse_quote!(#idx < #v.len()));
                Some(parse_quote!(&#v[#idx]))
            }
            Expr::Call(_) if self.flag("owned_loops").is_some() => {
                let v = format_ident!("vx_v{}_{}", k, conds.len());
                lets.push(parse_quote!(let #v = #e;));
                conds.push(parse_quote!(#idx < #v.len()));
                Some(parse_quote!(&#v[#idx]))
            }
            Expr::MethodCall(m) if self.known.contains(&m.method.to_string()) => {
                let v = format_ident!("vx_v{}_{}", k, conds.len());
                lets.push(parse_quote!(let #v = #e;));
                conds.push(parse_quote!(#idx < #v.len()));
                Some(parse_quote!(&#v[#idx]))
            }
            _ => None,
        }
    }

    /// `&x` inside a pattern: bound by reference, then copied
    fn ref_pats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct R<'a>(&'a mut usize, Vec<Stmt>);
        impl VisitMut for R<'_> { fn visit_pat_mut(&mut self, p: &mut Pat) { if let Pat::Reference(r) = p { if let (Pat::Ident(i), true) = (&*r.pat, r.mutability.is_none()) { *self.0 += 1; let n = format_ident!("vx_p{}", *self.0); self.1.push(parse_quote!(let #i = *#n;)); *p = parse_quote!(#n); return } } visit_mut::visit_pat_mut(self, p) } }
        if matches!(p, Pat::Reference(_)) { return vec![] }
        let mut r = R(&mut self.tmp, vec![]); r.visit_pat_mut(p); r.1
    }
    /// `P if g => a, .., P => b` becomes `P => if g { a } else { b }` (the arms in between are about other variants)
    fn merge_guards(m: &mut syn::ExprMatch) -> bool {
        type Ren = Vec<(syn::Ident, syn::Ident)>;
        fn covers(p: &mut Pat, q: &Pat, ren: &mut Ren, fresh: &mut usize) -> bool {
            match (&mut *p, q) {
                (_, Pat::Wild(_)) => true,
                (Pat::Wild(_), Pat::Ident(i)) if i.subpat.is_none() && i.by_ref.is_none() => { *fresh += 1; let n = format_ident!("vx_g{}", *fresh); *p = parse_quote!(#n); ren.push((n, i.ident.clone())); true }
                (Pat::Ident(a), Pat::Ident(b)) => { let same = a.subpat.is_none() && b.subpat.is_none() && a.by_ref.is_some() == b.by_ref.is_some() && a.mutability.is_some() == b.mutability.is_some();
                    let constant = |i: &syn::Ident| i.to_string().starts_with(char::is_uppercase);
                    if constant(&a.ident) || constant(&b.ident) { return same && a.ident == b.ident }
                    if a.ident != b.ident { ren.push((a.ident.clone(), b.ident.clone())); } same }
                (Pat::Reference(a), Pat::Reference(b)) => a.mutability.is_some() == b.mutability.is_some() && covers(&mut a.pat, &b.pat, ren, fresh),
                (Pat::TupleStruct(a), Pat::TupleStruct(b)) => a.path == b.path && a.elems.len() == b.elems.len() && a.elems.iter_mut().zip(&b.elems).all(|(x, y)| covers(x, y, ren, fresh)),
                (Pat::Tuple(a), Pat::Tuple(b)) => a.elems.len() == b.elems.len() && a.elems.iter_mut().zip(&b.elems).all(|(x, y)| covers(x, y, ren, fresh)),
                (a, b) => *a == *b,
            }
        }
        fn head(p: &Pat) -> Option<String> { match p { Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()), Pat::Struct(t) => t.path.segments.last().map(|s| s.ident.to_string()), Pat::Path(t) => t.path.segments.last().map(|s| s.ident.to_string()), Pat::Ident(i) if i.ident.to_string().starts_with(char::is_uppercase) => Some(i.ident.to_string()), Pat::Reference(r) => head(&r.pat), _ => None } }
        let mut hit = false; let mut fresh = 0;
        for i in (0..m.arms.len()).rev() {
            let Some((_, g)) = m.arms[i].guard.clone() else { continue };
            let mut found = None;
            for j in i + 1..m.arms.len() {
                if m.arms[j].guard.is_some() { break }
                let mut p = m.arms[i].pat.clone(); let mut ren = vec![];
                if covers(&mut p, &m.arms[j].pat, &mut ren, &mut fresh) { found = Some((j, p, ren)); break }
                match (head(&m.arms[i].pat), head(&m.arms[j].pat)) { (Some(a), Some(b)) if a != b => {} _ => break }
            }
            let Some((j, p, ren)) = found else { continue };
            if matches!(m.arms[i].pat, Pat::Wild(_)) && matches!(m.arms[j].pat, Pat::Ident(_)) { continue }
            let (a, b) = (m.arms[i].body.clone(), m.arms[j].body.clone());
            let lets: Vec<Stmt> = ren.iter().map(|(x, y)| parse_quote!(let #y = #x;)).collect();
            m.arms[i].pat = p; m.arms[i].guard = None;
            m.arms[i].body = parse_quote!({ if #g { #a } else { #(#lets)* #b } });
            m.arms[i].comma = Some(Default::default());
            hit = true;
        }
        hit
    }
    /// the text of format!(..) with plain holes
    fn format_text(m: &syn::Macro) -> Option<Expr> {
        let t: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
        let l = match t.first()? { Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => l.value(), _ => return None };
        let mut args = t.iter().skip(1); let mut out: Vec<Stmt> = vec![]; let mut cur = String::new(); let mut it = l.chars().peekable();
        let flush = |cur: &mut String, out: &mut Vec<Stmt>| if !cur.is_empty() { out.push(parse_quote!(vx_reveal!(#cur);)); out.push(parse_quote!(string_push_str(&mut vx_s, #cur);)); cur.clear() };
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{') }
                '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}') }
                '{' => {
                    let mut n = String::new(); loop { match it.next()? { '}' => break, c => n.push(c) } }
                    let a: Expr = if n.is_empty() { args.next()?.clone() } else { syn::parse_str::<syn::Ident>(&n).ok().map(|i| parse_quote!(#i))? };
                    flush(&mut cur, &mut out); out.push(parse_quote!(string_push_str(&mut vx_s, #a.vx_shown());));
                }
                '}' => return None,
                c => cur.push(c),
            }
        }
        flush(&mut cur, &mut out);
        if args.next().is_some() { return None }
        Some(parse_quote!({ let mut vx_s = String::new(); #(#out)* vx_s }))
    }
    fn rewrite(&mut self, e: &mut Expr) {
        if let Expr::Assign(a) = e { if let Expr::Macro(m) = &*a.right { if m.mac.path.is_ident("format") { if let Some(x) = Self::format_text(&m.mac) { *a.right = x; self.hit("format_text"); } } } }
        if let Expr::Match(m) = e { let strs = m.arms.iter().any(|a| { struct L(bool); impl<'a> syn::visit::Visit<'a> for L { fn visit_pat(&mut self, p: &'a Pat) { if let Pat::Lit(l) = p { if let syn::Lit::Str(_) = l.lit { self.0 = true } } syn::visit::visit_pat(self, p) } } let mut l = L(false); syn::visit::Visit::visit_pat(&mut l, &a.pat); l.0 }); if !strs && Self::merge_guards(m) { self.hit("guard_to_if"); } }
        if let Expr::If(i) = e { if let Expr::Let(l) = &mut *i.cond { let mut p = (*l.pat).clone(); let v = self.ref_pats(&mut p); if !v.is_empty() { *l.pat = p; for s in v.into_iter().rev() { i.then_branch.stmts.insert(0, s) } self.hit("ref_pattern"); } } }
        if let Expr::Match(m) = e { for a in &mut m.arms { if a.guard.is_some() { continue } let mut p = a.pat.clone(); let v = self.ref_pats(&mut p); if !v.is_empty() { a.pat = p; let b = &a.body; *a.body = parse_quote!({ #(#v)* #b }); self.hit("ref_pattern"); } } }
        // under err_suffix the message of E.ok_or_else(..)? is dropped
        if self.flag("err_suffix").is_some() { if let Expr::Try(t) = e { if let Expr::MethodCall(m) = &*t.expr { if ["ok_or", "ok_or_else"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 {
            let r = &m.receiver; *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => return Err(vx_err()) }); self.hit("ok_or_else?");
        } } } }
        if let Expr::MethodCall(m) = e {
            let (name, n) = (m.method.to_string(), m.args.len());
            if name == "collect" && n == 0 { if let Expr::MethodCall(m2) = &*m.receiver { if let (true, Some(c)) = (m2.method == "map" && m2.args.len() == 1, m2.args.first().and_then(closure)) {
                let k = self.fors; let mut lets = vec![]; let mut conds = vec![];
                if let Some(item) = self.source(&m2.receiver.clone(), &k.to_string(), &mut lets, &mut conds) {
                    self.fors += 1;
                    let idx = format_ident!("vx_i{}", k); let c1 = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                    let l = destructure(&c.inputs[0], &item); let b = &c.body;
                    *e = parse_quote!({ #(#lets)* let mut #idx: usize = 0; let mut vx_c = Vec::new(); while #c1 { #(#l)* #idx += 1; vx_c.push(#b); } vx_c }); self.hit("map_collect_to_loop"); return;
                }
            } } }
            let own = ["method", "method_ref", "method_mut", "method_mut0", "call_method", "rename_method", "drop_method"].iter().any(|k| self.flags(k).any(|f| f.split("=>").next().unwrap().trim() == name));
            if !own && ["sort_by_key", "sort_by_cached_key", "sort_unstable_by_key"].contains(&name.as_str()) { if let Some(c) = m.args.first().and_then(closure) {
                let k = self.fors; self.fors += 1; let idx = format_ident!("vx_i{}", k); let x = &m.receiver; let p = &c.inputs[0]; let b = &c.body;
                *e = parse_quote!({ let mut vx_keys = Vec::new(); let mut #idx: usize = 0; while #idx < #x.len() { let #p = &#x[#idx]; #idx += 1; vx_keys.push(#b); } vx_sort_by_keys(&mut #x, &vx_keys) }); self.hit("sort_by_key"); return;
            } }
        }
        // pre-order: for loops
        if let Expr::ForLoop(f) = e {
            let k = self.fors; self.fors += 1;
            let ks = k.to_string();
            if let Expr::Range(r) = &*f.expr {
                if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    let idx = format_ident!("vx_i{}", ks); let end = format_ident!("vx_e{}", ks);
                    let pat = &f.pat; let body = &f.body.stmts;
                    *e = parse_quote!({ let mut #idx = #a; let #end = #b; while #idx < #end { let #pat = #idx; #idx += 1; #(#body)* } });
                    self.hit("for_range_to_while"); return;
                }
            }
            let mut lets = vec![]; let mut conds = vec![];
            if self.flag("owned_loops").is_some() {
                // by value: every element is moved out once
                fn owned(e: &Expr) -> Option<(Expr, bool)> { match e { Expr::Paren(p) => owned(&p.expr), Expr::Path(_) | Expr::Field(_) => Some((e.clone(), false)), Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => owned(&m.receiver), Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => owned(&m.receiver).filter(|x| !x.1).map(|x| (x.0, true)), _ => None } }
                if let Some((v, en)) = owned(&f.expr) {
                    let idx = format_ident!("vx_i{}", ks); let name = format_ident!("vx_v{}_0", ks);
                    let pat = &f.pat; let body = &f.body.stmts;
                    let item: Expr = if en { parse_quote!((#idx, vx_take(&#name, #idx))) } else { parse_quote!(vx_take(&#name, #idx)) };
                    let l = destructure(pat, &item);
                    let step: Stmt = parse_quote!(#idx += 1;);
                    let (l1, l2): (Vec<Stmt>, Vec<Stmt>) = (l, vec![step]);
                    *e = parse_quote!({ let #name = vx_seq(#v); let mut #idx: usize = 0; while #idx < #name.len() { #(#l1)* #(#l2)* #(#body)* } });
                    self.hit("for_by_value_to_while"); return;
                }
            }
            if let Some(item) = self.source(&f.expr.clone(), &ks, &mut lets, &mut conds) {
                let idx = format_ident!("vx_i{}", ks);
                let pat = &f.pat; let body = &f.body.stmts;
                let c = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                let simple = matches!(&**pat, Pat::Wild(_));
                let l: Vec<Stmt> = if simple { vec![] } else { destructure(pat, &item) };
                *e = parse_quote!({ #(#lets)* let mut #idx: usize = 0; while #c { #(#l)* #idx += 1; #(#body)* } });
                self.hit("for_to_while");
            }
        }
    }
    fn post(&mut self, e: &mut Expr) {
        // E? in a function that returns Option
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                if m.method == "ok_or_else" && m.args.len() == 1 { if let Some(c) = closure(&m.args[0]) { let r = &m.receiver; let b = &c.body; *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => return Err(#b) }); self.hit("ok_or_else?"); return } }
                if m.method == "ok_or" && m.args.len() == 1 { let r = &m.receiver; let b = &m.args[0]; *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => return Err(#b) }); self.hit("ok_or?"); return }
                if m.method == "map_err" && m.args.len() == 1 { if let Some(c) = closure(&m.args[0]) { let r = &m.receiver; let b = &c.body; let p = &c.inputs[0]; *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(#p) => return Err(#b) }); self.hit("map_err?"); return } }
            }
            if let Expr::Match(_) = &*t.expr { if self.flag("try_plain").is_none() && !self.ret_option { let r = &t.expr; *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) }); self.hit("try"); return } }
            if self.ret_option { let r = &t.expr; *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => return None }); self.hit("try_option"); return }
        }
        if self.flag("str_index").is_some() {
            if let Expr::Reference(r) = e { if matches!(&*r.expr, Expr::Call(c) if path_str(&c.func).map_or(false, |p| p.starts_with("vx_str_") )) { let x = (*r.expr).clone(); *e = x; return } }
            if let Expr::Index(i) = e {
                let x = &i.expr;
                let n: Option<Expr> = match &*i.index {
                    Expr::Range(g) => match (&g.start, &g.end, &g.limits) { (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(vx_str_to(&#x, #b))), (Some(a), None, _) => Some(parse_quote!(vx_str_from(&#x, #a))), (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(vx_str_cut(&#x, #a, #b))), _ => None },
                    Expr::Path(r) => Some(parse_quote!(vx_str_range(&#x, #r))),
                    Expr::MethodCall(m) if m.args.is_empty() => { let r = &m; Some(parse_quote!(vx_str_range(&#x, #r))) }
                    _ => None };
                if let Some(n) = n { *e = n; self.hit("std_call_as_shim"); return }
            }
            if let Expr::MethodCall(m) = e { if m.method == "get" && m.args.len() == 1 { if let Expr::Range(g) = &m.args[0] { if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) { let r = &m.receiver; *e = parse_quote!(vx_str_get(#r, #a, #b)); self.hit("std_call_as_shim"); return } } } }
        }
        if let Expr::Range(_) = e { return }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.to_token_stream().to_string();
            match n.as_str() {
                "syn :: parse_quote" | "parse_quote" if self.flag("quote_leaves").is_some() => {
                    let mut out = vec![];
                    if quote_leaves(m.mac.tokens.clone(), false, &mut out) { let f = format_ident!("vx_parse{}", out.len()); *e = parse_quote!(#f(#(&#out),*)); self.hit("drop_quoted_text (what is pasted is kept)"); }
                }
                "quote" | "quote :: quote" | "quote_spanned" | "quote :: quote_spanned" if self.flag("quote_leaves").is_some() => {
                    // what is pasted, in order; the fixed text only where nothing is pasted
                    use proc_macro2::TokenTree as T;
                    let mut out = vec![];
                    let mut toks = m.mac.tokens.clone();
                    if n.ends_with("quote_spanned") {
                        let v: Vec<T> = toks.into_iter().collect();
                        let a = v.windows(2).position(|w| matches!((&w[0], &w[1]), (T::Punct(a), T::Punct(b)) if a.as_char() == '=' && b.as_char() == '>')).map_or(0, |k| k + 2);
                        toks = v[a..].iter().cloned().collect();
                    }
                    let t: Vec<T> = toks.clone().into_iter().collect();
                    let plain = self.flag("quote_leaves") != Some("only") && t.iter().all(|x| match x { T::Ident(_) => true, T::Punct(p) => p.as_char() == ':', _ => false });
                    if plain {
                        let mut x: Expr = parse_quote!(TokenStream::vx_new()); let mut lits: Vec<syn::LitStr> = vec![];
                        for (i, y) in t.iter().enumerate() { match y { T::Ident(n) => { let l = syn::LitStr::new(&n.to_string(), n.span()); x = parse_quote!(#x.vx_id(#l)); lits.push(l) } _ => if matches!(t.get(i + 1), Some(T::Punct(_))) { x = parse_quote!(#x.vx_colon2()) } } }
                        *e = parse_quote!({ #(vx_reveal!(#lits);)* #x }); self.hit("quote_of_path_tokens");
                    } else if quote_leaves(toks, false, &mut out) {
                        if let Some(d) = self.flag("quote_ignore").map(|s| s.to_string()) { let names: Vec<String> = d.split_whitespace().map(|x| match x.parse::<usize>() { Ok(k) => self.params.get(k).cloned().unwrap_or_default(), Err(_) => x.to_string() }).collect(); out.retain(|n| !names.contains(&n.to_string())) }
                        let mut x: Expr = parse_quote!(TokenStream::vx_new());
                        for n in out { x = parse_quote!(#x.vx_add(&#n)) }
                        *e = x; self.hit("drop_quoted_text (what is pasted is kept)");
                    } else { *e = parse_quote!(vx_quote()); self.hit("drop_quoted_tokens"); }
                }
                "quote" if self.flag("quote_paths").is_some() => {
                    let t: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut x: Expr = parse_quote!(TokenStream::vx_new()); let mut i = 0; let mut ok = true; let mut lits: Vec<syn::LitStr> = vec![];
                    while i < t.len() { match &t[i..] {
                        [proc_macro2::TokenTree::Ident(n), ..] => { let l = syn::LitStr::new(&n.to_string(), n.span()); x = parse_quote!(#x.vx_id(#l)); lits.push(l); i += 1 }
                        [proc_macro2::TokenTree::Punct(a), proc_macro2::TokenTree::Punct(b), ..] if a.as_char() == ':' && b.as_char() == ':' => { x = parse_quote!(#x.vx_colon2()); i += 2 }
                        _ => { ok = false; break }
                    } }
                    if ok { *e = parse_quote!({ #(vx_reveal!(#lits);)* #x }); self.hit("quote_of_path_tokens"); } else { *e = parse_quote!(vx_quote()); self.hit("drop_quoted_tokens"); }
                }
                "quote" if self.flag("quote").is_some() => {
                    let t: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    match &t[..] { [proc_macro2::TokenTree::Punct(p), proc_macro2::TokenTree::Ident(i)] if p.as_char() == '#' => { *e = parse_quote!(vx_tokens(&#i)); self.hit("quote_of_one_value"); } _ => { *e = parse_quote!(vx_quote()); self.hit("drop_quoted_tokens"); } }
                }
                "quote_spanned" if self.flag("quote").is_some() => { *e = parse_quote!(vx_quote()); self.hit("drop_quoted_tokens"); }
                "parse_macro_input" | "syn :: parse_macro_input" => {
                    struct M(Expr, syn::Type); impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e: syn::Ident = i.parse()?; i.parse::<syn::Token![as]>()?; let t = i.parse()?; Ok(M(parse_quote!(#e), t)) } }
                    if let Ok(M(x, t)) = m.mac.parse_body::<M>() { *e = parse_quote!(match vx_macro_input::<#t>(#x) { Ok(vx_v) => vx_v, Err(vx_e) => return vx_e }); self.hit("parse_macro_input"); }
                }
                "format" | "write" | "writeln" if self.flag("text").is_some() => match text_macro(&n, m.mac.tokens.clone()) {
                    Some(t) => *e = self.text_chain(t),
                    None => self.bad(format!("unsupported construct: {}", m.mac.to_token_stream())),
                },
                "format" => { *e = parse_quote!(vx_fmt()); self.hit("drop_format_text"); }
                "panic" | "unimplemented" | "unreachable" | "todo" => { *e = parse_quote!(vx_panic()); self.hit("panic_as_false_precondition"); }
                "assert" => { let t: syn::punctuated::Punctuated<Expr, syn::Token![,]> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).unwrap(); let c = &t[0]; *e = parse_quote!(vx_assert(#c)); self.hit("assert_as_precondition"); self.visit_expr_mut(e); }
                _ => {}
            }
            return;
        }
        if let Expr::Match(m) = e {
            // on string literals
            fn lits(p: &Pat, o: &mut Vec<Expr>) -> bool { match p { Pat::Lit(l) => { if let syn::Lit::Str(_) = l.lit { o.push(Expr::Lit(l.clone())); true } else { false } } Pat::Or(q) => q.cases.iter().all(|c| lits(c, o)), Pat::Paren(q) => lits(&q.pat, o), _ => false } }
            if m.arms.iter().any(|a| lits(&a.pat, &mut vec![])) {
                let s = &m.expr;
                let mut rest: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let mut l = vec![]; let b = &a.body;
                    if lits(&a.pat, &mut l) {
                        let g = a.guard.as_ref().map(|g| { let g = &g.1; quote!(&& #g) });
                        let r = rest.take().map(|r| quote!(else { #r }));
                        rest = Some(parse_quote!(if ({ #(vx_reveal!(#l);)* #(str_eq(vx_m, #l))||* }) #g { #b } #r));
                    } else {
                        let bind: TokenStream = match &a.pat { Pat::Ident(i) => { let i = &i.ident; quote!(let #i = vx_m;) } Pat::Wild(_) => quote!(), _ => { self.bad("unsupported construct: match on strings".into()); quote!() } };
                        rest = Some(match (&a.guard, rest.take()) { (Some((_, g)), Some(r)) => parse_quote!({ #bind if #g { #b } else { #r } }), _ => parse_quote!({ #bind #b }) });
                    }
                }
                *e = parse_quote!({ let vx_m = #s; #rest }); self.hit("match_str_to_if");
            }
            return;
        }
        if let Expr::Call(c) = e {
            if let Some(p) = path_str(&c.func) {
                if p.ends_with("alloc::__export::must_use") && self.flag("text").is_some() {
                    // format!, as the compiler expands it
                    struct F(Option<TokenStream>);
                    impl<'a> Visit<'a> for F { fn visit_macro(&mut self, m: &'a syn::Macro) { if m.path.is_ident("format_args") && self.0.is_none() { self.0 = Some(m.tokens.clone()) } } }
                    let mut f = F(None); f.visit_expr(e);
                    match f.0.and_then(|t| text_macro("format", t)) { Some(t) => *e = self.text_chain(t), None => self.bad("unsupported construct: format!".to_string()) }
                    return;
                }
                if p.ends_with("alloc::__export::must_use") { *e = parse_quote!(vx_fmt()); self.hit("drop_format_text"); return }
                let last2: Vec<&str> = p.rsplit("::").take(2).collect();
                let short = if last2.len() == 2 { format!("{}::{}", last2[1], last2[0]) } else { p.clone() };
                if p == "char::from_u32" { c.func = Box::new(parse_quote!(std::char::from_u32)); }
                for r in self.flags("call").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = r.split_once("=>").unwrap(); if a.trim() == short || a.trim() == p { let f: Expr = syn::parse_str(b.trim()).unwrap(); let args = &c.args; *e = parse_quote!(#f(#args)); self.hit("std_call_as_shim"); return } }
                if let Some(f) = match short.as_str() { "String::from" => Some("string_from"), "mem::take" => Some("vx_mem_take"), "u32::from_str_radix" => Some("u32_from_str_radix"), "usize::from_str_radix" => Some("usize_from_str_radix"), _ => None } { let f = format_ident!("{}", f); let args = &c.args; let lits: Vec<&Expr> = args.iter().filter(|x| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))).collect(); *e = parse_quote!({ #(vx_reveal!(#lits);)* #f(#args) }); self.hit("std_call_as_shim"); return }
                let name = p.rsplit("::").next().unwrap().to_string();
                let key = if p.contains("::") { short.clone() } else { p.clone() };
                let key = if let (true, Some(owner)) = (key.starts_with("Self::"), self.spec.path.split("::").next()) { key.replace("Self", owner) } else { key };
                if !self.known.contains(&name) { if let Some(f) = self.helpers.get(&key).cloned() { let args: Vec<Expr> = c.args.iter().cloned().collect(); if let Some(x) = self.inline(&key, f, args) { *e = x; } } }
            }
            return;
        }
        if let Expr::Lit(l) = e { if let (syn::Lit::Str(_), true) = (&l.lit, self.flag("reveal_lits").is_some()) { *e = parse_quote!(({ vx_reveal!(#l); #l })); } return }
        if let Expr::Path(p) = e {
            if let Some(s) = path_str(&Expr::Path(p.clone())) {
                if self.flag("inline_consts").is_some() { let owner = self.spec.path.rsplit("::").nth(1).unwrap_or("").rsplit('@').next().unwrap().to_string(); if let Some(x) = self.consts.get(&s.replace("Self::", &format!("{}::", owner))) { *e = x.clone(); self.hit("inline_const"); return } }
                let key = s.strip_prefix("crate::").unwrap_or(&s).to_string();
                if key.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && key.len() > 1 { if let Some(x) = self.consts.get(&key) { if matches!(x, Expr::Lit(_)) && !self.known.contains(&key) { *e = x.clone(); self.hit("inline_const"); } } }
            }
            return;
        }
        if let Expr::Binary(b) = e {
            // comparison with a field-less variant (derived PartialEq)
            let variant = |x: &Expr| matches!(x, Expr::Path(p) if p.path.segments.len() >= 2 && { let l = p.path.segments.last().unwrap().ident.to_string(); l.starts_with(|c: char| c.is_uppercase()) && l.chars().any(|c| c.is_lowercase()) });
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && variant(&b.right) {
                let (l, r) = (&b.left, &b.right);
                let l: Expr = match &**l { Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => (*u.expr).clone(), x => x.clone() };
                *e = if matches!(b.op, syn::BinOp::Ne(_)) { parse_quote!(!matches!(#l, #r)) } else { parse_quote!(matches!(#l, #r)) };
                self.hit("variant_eq_to_matches"); return
            }
            if self.flag("ident_eq").is_some() && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                let is = |x: &Expr| matches!(x, Expr::Field(f) if f.member.to_token_stream().to_string() == "ident");
                let (l, r) = if is(&b.left) { (b.left.clone(), b.right.clone()) } else { (b.right.clone(), b.left.clone()) };
                if is(&l) {
                    let lit: Vec<Expr> = if matches!(&*r, Expr::Lit(_)) { vec![(*r).clone()] } else { vec![] };
                    let c: Expr = parse_quote!(({ #(vx_reveal!(#lit);)* vx_ident_eq(&#l, #r) }));
                    *e = if matches!(b.op, syn::BinOp::Ne(_)) { parse_quote!(!#c) } else { c }; self.hit("ident_eq"); return
                }
            }
            // String comparisons with a literal
            // (a literal whose characters are revealed already)
            let plain = |x: &Expr| -> Expr { let mut y = x; while let Expr::Paren(p) = y { y = &p.expr } if let Expr::Block(b) = y { if let [Stmt::Macro(m), Stmt::Expr(l @ Expr::Lit(_), None)] = &b.block.stmts[..] { if m.mac.path.is_ident("vx_reveal") { return l.clone() } } } x.clone() };
            let (bl, br) = (plain(&b.left), plain(&b.right)); *b.left = bl; *b.right = br;
            let islit = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (islit(&b.left) || islit(&b.right)) {
                let (l, r) = (&b.left, &b.right);
                let not = matches!(b.op, syn::BinOp::Ne(_));
                let lit = if islit(l) { l } else { r };
                let c: Expr = parse_quote!(({ vx_reveal!(#lit); str_eq(#l, #r) }));
                *e = if not { parse_quote!(!#c) } else { c }; self.hit("str_eq");
            }
            return;
        }
        let Expr::MethodCall(m) = e else { return };
        let r = m.receiver.clone();
        let name = m.method.to_string();
        for f in self.flags("method").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let f: Expr = syn::parse_str(b.trim()).unwrap(); let args = &m.args; *e = parse_quote!(#f(#r, #args)); self.hit("std_call_as_shim"); return } }
        for f in self.flags("method_ref").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let f: Expr = syn::parse_str(b.trim()).unwrap(); let args = &m.args; *e = parse_quote!(#f(&#r, #args)); self.hit("std_call_as_shim"); return } }
        for f in self.flags("method_mut").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let f: Expr = syn::parse_str(b.trim()).unwrap(); let args = &m.args; *e = parse_quote!(#f(&mut #r, #args)); self.hit("std_call_as_shim"); return } }
        for f in self.flags("method_mut0").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let f: Expr = syn::parse_str(b.trim()).unwrap(); *e = parse_quote!(#f(&mut #r)); self.hit(&format!("std method {} => contract of it (argument dropped)", name)); return } }
        for f in self.flags("call_method").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let f: Expr = syn::parse_str(b.trim()).unwrap(); let args = &m.args; *e = parse_quote!(#f(#r, #args)); self.hit(&format!("std method {} => contract of it", name)); return } }
        for f in self.flags("rename_method").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim() == name { let n = format_ident!("{}", b.trim()); let args = &m.args; *e = parse_quote!(#r.#n(#args)); self.hit(&format!("method {} => contract of it", name)); return } }
        for f in self.flags("drop_method").map(|s| s.to_string()).collect::<Vec<_>>() { if f == name { *e = *r; self.hit(&format!("drop_method {}", name)); return } }
        let chr = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_)));
        let strl = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
        match (name.as_str(), m.args.len()) {
            ("peekable", 0) => { if let Expr::MethodCall(m2) = &*r { if m2.method == "char_indices" { if let Expr::MethodCall(m3) = &*m2.receiver { if m3.method == "text" { let x = &m3.receiver; *e = parse_quote!(#x.char_iter()); self.hit("char_indices_peekable"); } } else { let x = &m2.receiver; *e = parse_quote!(vx_char_iter(#x)); self.hit("char_indices_peekable"); } } } }
            ("next_if", 1) => if let Some(c) = closure(&m.args[0]) {
                let p = by_value(&c.inputs[0]); let mut b = (*c.body).clone(); Unref(bound(&p)).visit_expr_mut(&mut b);
                *e = parse_quote!(match #r.peek() { Some(#p) => if #b { #r.next() } else { None }, None => None }); self.hit("next_if");
            },
            ("peek", 1) => {
                let t = m.args[0].to_token_stream(); if let Ok(mut t) = syn::parse2::<syn::Type>(t) { self.visit_type_mut(&mut t); *e = parse_quote!(#r.peek::<#t>()); self.hit("peek_by_type"); }
            }
            ("parse_terminated", 2) if path_str(&m.args[0]).as_deref() == Some("Type::parse") && m.args[1].to_token_stream().to_string().replace(' ', "") == "Token![,]" => { *e = parse_quote!(#r.parse_types()); self.hit("std_call_as_shim"); }
            ("next_if_eq", 1) => { let a = match &m.args[0] { Expr::Reference(x) => (*x.expr).clone(), x => x.clone() }; *e = parse_quote!(match #r.peek() { Some(vx_p) => if vx_p == #a { #r.next() } else { None }, None => None }); self.hit("next_if"); }
            ("find", 1) if matches!(&*r, Expr::MethodCall(x) if x.method == "iter") => if let Some(c) = closure(&m.args[0]) {
                let k = self.fors; self.fors += 1;
                let mut lets = vec![]; let mut conds = vec![];
                if let Some(item) = self.source(&r, &k.to_string(), &mut lets, &mut conds) {
                    let idx = format_ident!("vx_i{}", k);
                    let p = by_value(&c.inputs[0]); let mut b = (*c.body).clone(); if !matches!(c.inputs[0], Pat::Reference(_)) { Unref(bound(&p)).visit_expr_mut(&mut b); }
                    let cd = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                    *e = parse_quote!({ #(#lets)* let mut #idx: usize = 0; let mut vx_f = None; while #cd { let vx_p = #item; let #p = vx_p; if #b { vx_f = Some(vx_p); break; } #idx += 1; } vx_f }); self.hit("find_to_loop");
                }
            },
            ("find", 1) => if let Some(c) = closure(&m.args[0]) {
                let p = by_value(&c.inputs[0]); let mut b = (*c.body).clone(); Unref(bound(&p)).visit_expr_mut(&mut b);
                *e = parse_quote!({ let mut vx_f: Option<(usize, char)> = None; while let Some(vx_p) = #r.next() { let #p = vx_p; if #b { vx_f = Some(vx_p); break; } } vx_f }); self.hit("find_to_loop");
            },
            ("any", 1) => {
                let k = self.fors; self.fors += 1;
                let mut lets = vec![]; let mut conds = vec![];
                if let Some(item) = self.source(&r, &k.to_string(), &mut lets, &mut conds) {
                    let idx = format_ident!("vx_i{}", k);
                    let cond: Expr = match closure(&m.args[0]) { Some(c) => { let p = &c.inputs[0]; let b = &c.body; parse_quote!({ let #p = #item; #b }) } None => { let f = &m.args[0]; parse_quote!(#f(#item)) } };
                    let c = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                    *e = parse_quote!({ #(#lets)* let mut #idx: usize = 0; let mut vx_any = false; while #c { if #cond { vx_any = true; break; } #idx += 1; } vx_any }); self.hit("any_to_loop");
                }
            }
            ("all", 1) => {
                let k = self.fors; self.fors += 1;
                let mut lets = vec![]; let mut conds = vec![];
                if let Some(item) = self.source(&r, &k.to_string(), &mut lets, &mut conds) {
                    let idx = format_ident!("vx_i{}", k);
                    let cond: Expr = match closure(&m.args[0]) { Some(c) => { let p = &c.inputs[0]; let b = &c.body; parse_quote!({ let #p = #item; #b }) } None => { let f = &m.args[0]; parse_quote!(#f(#item)) } };
                    let c = conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
                    *e = parse_quote!({ #(#lets)* let mut #idx: usize = 0; let mut vx_all = true; while #c { if !#cond { vx_all = false; break; } #idx += 1; } vx_all }); self.hit("all_to_loop");
                }
            }
            ("ok_or_else", 1) => if let Some(c) = closure(&m.args[0]) { let b = &c.body; *e = parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }); self.hit("ok_or_else"); },
            ("map_err", 1) => if let Some(c) = closure(&m.args[0]) { let b = &c.body; let p = &c.inputs[0]; *e = parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }); self.hit("map_err"); } else { let f = &m.args[0]; *e = parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#f(vx_e)) }); self.hit("map_err"); },
            ("and_then", 1) => { let res = self.flag("and_then") == Some("result"); let (ok, no): (TokenStream, TokenStream) = if res { (quote!(Ok), quote!(Err(vx_e) => Err(vx_e))) } else { (quote!(Some), quote!(None => None)) };
                match closure(&m.args[0]) { Some(c) => { let p = &c.inputs[0]; let b = &c.body; *e = parse_quote!(match #r { #ok(#p) => #b, #no }); } None => { let f = &m.args[0]; *e = parse_quote!(match #r { #ok(vx_v) => #f(vx_v), #no }); } } self.hit("and_then"); }
            ("or_else", 1) => if let Some(c) = closure(&m.args[0]) { if c.inputs.is_empty() { let b = &c.body; *e = parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b }); self.hit("or_else"); } },
            ("unwrap_or", 1) => { let b = &m.args[0]; *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => #b }); self.hit("unwrap_or"); }
            ("unwrap_or_else", 1) => if let Some(c) = closure(&m.args[0]) { let b = &c.body; if c.inputs.is_empty() { *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => #b }); } else { let p = &c.inputs[0]; *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(#p) => #b }); } self.hit("unwrap_or_else"); },
            ("map", 1) if self.flag("map").is_some() => { let res = self.flag("map") == Some("result"); let (ok, no): (TokenStream, TokenStream) = if res { (quote!(Ok), quote!(Err(vx_e) => Err(vx_e))) } else { (quote!(Some), quote!(None => None)) };
                match closure(&m.args[0]) { Some(c) => { let p = &c.inputs[0]; let b = &c.body; *e = parse_quote!(match #r { #ok(#p) => #ok(#b), #no }); } None => { let f = &m.args[0]; *e = parse_quote!(match #r { #ok(vx_v) => #ok(#f(vx_v)), #no }); } } self.hit("map"); }
            ("contains", 1) => { let a = match &m.args[0] { Expr::Reference(x) => (*x.expr).clone(), x => x.clone() };
                let rr = match &*r { Expr::Paren(p) => (*p.expr).clone(), x => x.clone() };
                if let Expr::Range(g) = rr { if let (Some(lo), Some(hi)) = (&g.start, &g.end) { let incl = matches!(g.limits, syn::RangeLimits::Closed(_)); *e = if incl { parse_quote!((#lo <= #a && #a <= #hi)) } else { parse_quote!((#lo <= #a && #a < #hi)) }; self.hit("range_contains"); } } }
            ("slice", 1) => if let Expr::Range(g) = &m.args[0] {
                let (s, t) = (&g.start, &g.end);
                *e = match (s, t, &g.limits) { (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => parse_quote!(#r.slice_excl(#a, #b)), (Some(a), Some(b), _) => parse_quote!(#r.slice_incl(#a, #b)), (Some(a), None, _) => parse_quote!(#r.slice_from(#a)), _ => { self.bad("unsupported construct: slice range".into()); return } };
                self.hit("slice_by_kind_of_range");
            },
            ("starts_with", 1) | ("ends_with", 1) | ("strip_prefix", 1) | ("strip_suffix", 1) => {
                let a = m.args[0].clone(); let f = format_ident!("str_{}_{}", name, if chr(&a) { "char" } else { "str" }); *e = if strl(&a) { parse_quote!({ vx_reveal!(#a); #f(#r, #a) }) } else { parse_quote!(#f(#r, #a)) }; self.hit("std_call_as_shim");
            }
            ("parse", 0) => { if let Some(t) = &m.turbofish { let n = t.args.to_token_stream().to_string(); if n.chars().all(|c| c.is_alphanumeric()) && (n.starts_with(|c: char| c.is_lowercase()) || n == "TokenStream") { let f = format_ident!("str_parse_{}", n); *e = parse_quote!(#f(#r)); self.hit("std_call_as_shim"); } } }
            ("len_utf8", 0) => { *e = parse_quote!(char_len_utf8(#r)); self.hit("std_call_as_shim"); }
            ("push_str", 1) => { let a = &m.args[0]; let lits: Vec<&Expr> = m.args.iter().filter(|x| strl(x)).collect(); *e = parse_quote!({ #(vx_reveal!(#lits);)* string_push_str(&mut #r, #a) }); self.hit("std_call_as_shim"); }
            ("into", 0) if strl(&r) => { *e = parse_quote!({ vx_reveal!(#r); string_from(#r) }); self.hit("std_call_as_shim"); }
            ("to_string", 0) | ("to_owned", 0) if strl(&r) => { *e = parse_quote!({ vx_reveal!(#r); string_from(#r) }); self.hit("std_call_as_shim"); }
            _ => {}
        }
    }
}
/// what is pasted by the tokens of a quote!, in order
fn quote_leaves(t: TokenStream, in_rep: bool, out: &mut Vec<proc_macro2::Ident>) -> bool {
    use proc_macro2::TokenTree as T;
    let t: Vec<T> = t.into_iter().collect(); let mut i = 0;
    while i < t.len() {
        match (&t[i], t.get(i + 1)) {
            (T::Punct(p), Some(T::Ident(n))) if p.as_char() == '#' => { out.push(n.clone()); i += 2 }
            (T::Punct(p), Some(T::Group(g))) if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                let n = out.len(); if in_rep || !quote_leaves(g.stream(), true, out) || out.len() != n + 1 { return false } i += 2 }
            (T::Group(g), _) => { if !quote_leaves(g.stream(), in_rep, out) { return false } i += 1 }
            _ => i += 1,
        }
    }
    true
}
impl<'s> Rewriter<'s> {
    fn text_chain(&mut self, (to, lits, mut args): (Option<Expr>, Vec<syn::LitStr>, Vec<Option<Expr>>)) -> Expr {
        for a in args.iter_mut().flatten() { self.visit_expr_mut(a) }
        let mut x: Expr = parse_quote!(VxText::new());
        for (l, a) in lits.iter().zip(args.iter().map(Some).chain([None])) {
            if !l.value().is_empty() { x = parse_quote!(#x.lit({ vx_reveal!(#l); #l })) }
            if let Some(Some(a)) = a { x = parse_quote!(#x.arg(&#a)) }
        }
        self.hit("format_text_by_piece");
        match to { Some(mut to) => { self.visit_expr_mut(&mut to); parse_quote!(vx_write(&mut #to, #x)) } None => parse_quote!(#x.done()) }
    }
}
/// `format!`, `write!`, `writeln!` with `{}` and `{name}`: (what is written to, the fixed pieces, what is shown between them)
fn text_macro(n: &str, t: TokenStream) -> Option<(Option<Expr>, Vec<syn::LitStr>, Vec<Option<Expr>>)> {
    use syn::parse::Parser;
    let mut a: Vec<Expr> = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(t).ok()?.into_iter().collect();
    let to = if n == "format" { None } else { if a.is_empty() { return None } Some(a.remove(0)) };
    let f = if a.is_empty() { if n == "writeln" { syn::LitStr::new("", proc_macro2::Span::call_site()) } else { return None } } else { match a.remove(0) { Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => l, _ => return None } };
    let mut v = f.value(); if n == "writeln" { v.push('\n') }
    let (mut lits, mut args, mut cur) = (vec![], vec![], String::new());
    let mut it = v.chars().peekable(); let mut next = 0; let mut used = 0;
    while let Some(c) = it.next() { match c {
        '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{') }
        '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}') }
        '{' => {
            let name: String = it.by_ref().take_while(|c| *c != '}').collect();
            lits.push(syn::LitStr::new(&std::mem::take(&mut cur), f.span()));
            let n = if name.is_empty() { next += 1; Some(next - 1) } else { name.parse::<usize>().ok() };
            args.push(Some(if let Some(n) = n { used = used.max(n + 1); a.get(n)?.clone() } else if name.chars().all(|c| c.is_alphabetic() || c == '_') { let i = format_ident!("{}", name); parse_quote!(#i) } else { return None }));
        }
        c => cur.push(c),
    } }
    if used < a.len() { return None }
    lits.push(syn::LitStr::new(&cur, f.span()));
    Some((to, lits, args))
}
/// `let PAT = ITEM;` split into simple bindings
fn destructure(p: &Pat, item: &Expr) -> Vec<Stmt> {
    match (p, item) {
        (Pat::Tuple(t), Expr::Tuple(x)) if t.elems.len() == x.elems.len() => t.elems.iter().zip(x.elems.iter()).flat_map(|(a, b)| destructure(a, b)).collect(),
        (Pat::Wild(_), _) => vec![],
        (Pat::Reference(r), Expr::Reference(x)) => destructure(&r.pat, &x.expr),
        _ => vec![parse_quote!(let #p = #item;)],
    }
}
fn mark(k: &str) -> Stmt { parse_quote!(vx_mark!(#k);) }

impl VisitMut for Rewriter<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut v = vec![];
        let last = b.stmts.len();
        for (vx_n, s) in b.stmts.drain(..).enumerate() {
            match s {
                Stmt::Item(syn::Item::Fn(_)) => { self.hit("drop_nested_fn_item (extracted on its own)"); }
                Stmt::Item(syn::Item::Type(_)) if self.flag("drop_alias").is_some() => { self.hit("drop_type_alias (given by the template)"); }
                Stmt::Item(syn::Item::Use(_)) if self.flag("keep_use").is_none() => { self.hit("drop_use_item"); }
                Stmt::Item(syn::Item::Const(c)) => { self.consts.insert(c.ident.to_string(), (*c.expr).clone()); if !matches!(&*c.expr, Expr::Lit(_)) { v.push(Stmt::Item(syn::Item::Const(c))) } }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac }); self.post(&mut e);
                    v.push(Stmt::Expr(e, if vx_n + 1 == last { m.semi_token } else { m.semi_token.or(Some(Default::default())) }));
                }
                s => v.push(s),
            }
        }
        b.stmts = v;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
    fn visit_local_mut(&mut self, l: &mut syn::Local) { l.attrs.clear();
        for f in self.flags("let_type").map(|s| s.to_string()).collect::<Vec<_>>() { let (n, t) = f.split_once(':').unwrap(); if let Pat::Ident(i) = &l.pat { if i.ident == n.trim() { let t: syn::Type = syn::parse_str(t).unwrap(); let p = &l.pat; l.pat = Pat::Type(parse_quote!(#p: #t)); } } }
        visit_mut::visit_local_mut(self, l) }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.rewrite(e);
        if let Expr::Macro(m) = e { if m.mac.path.is_ident("vec") {
            if let Ok(p) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                let v: Vec<Expr> = p.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                if v.is_empty() { *e = parse_quote!(Vec::new()); } else { *e = parse_quote!(vec![#(#v),*]); }
            } else {
                let t = m.mac.tokens.clone().to_string();
                if let Some((a, b)) = t.split_once(';') { let mut a: Expr = syn::parse_str(a).unwrap(); let mut b: Expr = syn::parse_str(b).unwrap(); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); *e = parse_quote!(vx_vec_repeat(#a, #b)); self.hit("std_call_as_shim"); }
            }
            return;
        }
        if m.mac.path.is_ident("matches") {
            // arguments: expression, pattern (and guard)
            struct M(Expr, Pat, Option<Expr>);
            impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e = i.parse()?; i.parse::<syn::Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?; let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None }; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok(M(e, p, g)) } }
            let mm = m.mac.parse_body::<M>().ok().map(|M(x, p, g)| { let g = if g.is_none() && p.to_token_stream().to_string().contains('"') { Some(parse_quote!(true)) } else { g }; M(x, p, g) });
            if let Some(M(x, p, Some(g))) = mm {
                struct NoRef; impl VisitMut for NoRef { fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { p.by_ref = None; visit_mut::visit_pat_ident_mut(self, p) } }
                let mut p = p; let by_ref = p.to_token_stream().to_string().contains("ref "); if by_ref { NoRef.visit_pat_mut(&mut p) }
                let x: Expr = match &x { Expr::Unary(u) if by_ref && matches!(u.op, syn::UnOp::Deref(_)) => { let i = &u.expr; parse_quote!(&*#i) } x if by_ref => parse_quote!(&#x), x => x.clone() };
                *e = parse_quote!(match #x { #p => #g, _ => false }); self.hit("matches_with_guard");
                self.visit_expr_mut(e);
            }
            return;
        } }
        if let Expr::Binary(b) = e { if matches!(b.op, syn::BinOp::AddAssign(_)) && matches!(&*b.right, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_))) { let (l, r) = (&b.left, &b.right); *e = parse_quote!(#l.push_str(#r)); } }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        for f in self.flags("type").map(|s| s.to_string()).collect::<Vec<_>>() { let (a, b) = f.split_once("=>").unwrap(); if a.trim().replace(' ', "") == s { *t = syn::parse_str(b.trim()).unwrap(); self.hit("type_map"); return } }
        if let syn::Type::Macro(m) = t { if m.mac.path.is_ident("Token") { let n = match m.mac.tokens.to_string().as_str() { "," => "TokComma", "=" => "TokEq", "&" => "TokAnd", _ => "TokOther" }; *t = syn::parse_str(n).unwrap(); return } }
        if let syn::Type::Path(p) = t { if p.path.segments.last().map_or(false, |s| s.ident == "Peekable") { *t = parse_quote!(PeekIter); self.hit("type_map Peekable => PeekIter"); return } }
        if let syn::Type::Reference(r) = t { if r.lifetime.as_ref().map_or(false, |l| l.ident == "_") { r.lifetime = None } }
        visit_mut::visit_type_mut(self, t)
    }
}

/// markers for loop contracts, in source order
struct Number<'s> { spec: &'s Spec, k: usize }
impl Number<'_> {
    fn has(&self, k: &str) -> bool { self.spec.secs.contains_key(k) }
    fn body(&mut self, b: &mut syn::Block, k: usize) {
        visit_mut::visit_block_mut(self, b);
        let (bg, en) = (format!("loop_begin {}", k), format!("loop_end {}", k));
        if self.has(&en) { b.stmts.push(mark(&en)) }
        if self.has(&bg) { b.stmts.insert(0, mark(&bg)) }
        b.stmts.insert(0, mark(&format!("loop {}", k)));
    }
}
impl VisitMut for Number<'_> {
    fn visit_expr_while_mut(&mut self, w: &mut syn::ExprWhile) { let k = self.k; self.k += 1; self.visit_expr_mut(&mut w.cond); let mut b = w.body.clone(); self.body(&mut b, k); w.body = b; }
    fn visit_expr_loop_mut(&mut self, w: &mut syn::ExprLoop) { let k = self.k; self.k += 1; let mut b = w.body.clone(); self.body(&mut b, k); w.body = b; }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut v: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            let is = |e: &Expr| matches!(e, Expr::While(_) | Expr::Loop(_));
            let l = match &s { Stmt::Expr(e, _) => is(e), _ => false };
            let k = self.k;
            if l && self.has(&format!("before_loop {}", k)) { v.push(mark(&format!("before_loop {}", k))) }
            self.visit_stmt_mut(&mut s);
            if l { if let Stmt::Expr(_, semi) = &mut s { if self.has(&format!("after_loop {}", k)) { if semi.is_none() { *semi = Some(Default::default()) } } } }
            v.push(s);
            if l && self.has(&format!("after_loop {}", k)) { v.push(mark(&format!("after_loop {}", k))) }
        }
        b.stmts = v;
    }
}
