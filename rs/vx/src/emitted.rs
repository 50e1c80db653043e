//! Rules for code the macros emit (flag `emitted`): paths into the sscanf and regex crates become paths
//! into the template's model of them, associated constants become calls, `lazy_static!` is evaluated in
//! place, and the closure that is called once becomes a function of its own (`path::{closure}`).
use crate::FnItem;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub fn const_fn(c: &syn::ImplItemConst) -> (syn::Signature, syn::Block) {
    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
    let f: syn::ItemFn = parse_quote!(fn #n() -> #t { #e });
    (f.sig, *f.block)
}

/// literal texts of a format string, each with the argument that follows it
fn fmt_pieces(f: &str) -> Option<Vec<(String, Option<String>)>> {
    let (mut o, mut t, mut it) = (vec![], String::new(), f.chars().peekable());
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); t.push('{') }
            '}' if it.peek() == Some(&'}') => { it.next(); t.push('}') }
            '{' => { let mut a = String::new(); loop { match it.next()? { '}' => break, c => a.push(c) } } if a.contains(':') { return None } o.push((std::mem::take(&mut t), Some(a))) }
            '}' => return None,
            c => t.push(c),
        }
    }
    o.push((t, None));
    Some(o)
}
fn ident(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => ident(&p.expr), _ => None } }
/// the closure without parameters that is bound by a `let`
fn closure_of(b: &syn::Block) -> Option<(String, syn::ExprClosure, Vec<(String, syn::Type, bool)>, )> {
    struct V<'a> { got: Option<(String, syn::ExprClosure)>, scope: BTreeMap<String, (bool, Option<syn::Type>)>, _p: &'a () }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_local(&mut self, l: &'b syn::Local) {
            if self.got.is_some() { return }
            let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                if let Expr::Closure(c) = &*init.expr { if c.inputs.is_empty() { self.got = Some((i.ident.to_string(), c.clone())); return } }
                syn::visit::visit_local(self, l);
                if self.got.is_some() { return }
                let is_ref = matches!(&*init.expr, Expr::Reference(r) if r.mutability.is_some());
                self.scope.insert(i.ident.to_string(), (is_ref, None));
                return;
            }
            syn::visit::visit_local(self, l)
        }
    }
    let mut v = V { got: None, scope: BTreeMap::new(), _p: &() };
    v.visit_block(b);
    let (name, c) = v.got?;
    // what it captures, in the order of first use
    struct F<'a> { scope: &'a BTreeMap<String, (bool, Option<syn::Type>)>, bound: Vec<String>, out: Vec<String> }
    impl<'a, 'b> Visit<'b> for F<'a> {
        fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { self.bound.push(p.ident.to_string()); }
        fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if let Some(i) = p.path.get_ident() { let s = i.to_string(); if (self.scope.contains_key(&s) || s == "src") && !self.bound.contains(&s) && !self.out.contains(&s) { self.out.push(s) } } }
    }
    let mut f = F { scope: &v.scope, bound: vec![], out: vec![] };
    f.visit_expr(&c.body);
    // iterators first
    f.out.sort_by_key(|n| !v.scope.get(n).map_or(true, |x| x.0));
    let caps = f.out.iter().map(|n| { let r = v.scope.get(n).map_or(true, |x| x.0); let t: syn::Type = if r { parse_quote!(crate::sscanf::SubCaptureMatches<'_, 't>) } else { parse_quote!(usize) }; (n.clone(), t, !r) }).collect();
    Some((name, c, caps))
}
fn fix_qself(q: &mut Option<syn::QSelf>, before: usize, p: &syn::Path) { if let Some(q) = q { if q.position > 0 { q.position = q.position + p.segments.len() - before } } }
struct DerefName(Vec<String>);
impl VisitMut for DerefName { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Some(n) = ident(e) { if self.0.contains(&n) { let i = format_ident!("{}", n); *e = parse_quote!((*#i)); return } } visit_mut::visit_expr_mut(self, e) } }

pub fn lifted(f: &FnItem) -> Option<FnItem> {
    let (_, c, caps) = closure_of(&f.block)?;
    // the type of the capture iterator, as the function that contains the closure writes it
    let src_ty = f.sig.inputs.iter().find_map(|a| match a { syn::FnArg::Typed(t) => match &*t.ty { syn::Type::Reference(r) if r.mutability.is_some() => Some((*r.elem).clone()), _ => None }, _ => None });
    let params: Vec<syn::FnArg> = caps.iter().map(|(n, t, val)| { let i = format_ident!("{}", n); let t = if *val { t.clone() } else { src_ty.clone().unwrap_or_else(|| t.clone()) }; parse_quote!(#i: &mut #t) }).collect();
    let out = match &c.output { syn::ReturnType::Type(_, t) => (**t).clone(), _ => return None };
    let mut body = (*c.body).clone();
    DerefName(caps.iter().filter(|c| c.2).map(|c| c.0.clone()).collect()).visit_expr_mut(&mut body);
    let block: syn::Block = match body { Expr::Block(b) => b.block, e => parse_quote!({ #e }) };
    let mut sig = f.sig.clone();
    sig.ident = format_ident!("vx_closure");
    sig.inputs = params.into_iter().collect();
    sig.output = parse_quote!(-> #out);
    Some(FnItem { sig, block, owner: f.owner.clone() })
}

/// `runtime`: code of src/ rather than emitted code; paths: texts of paths and types that the template names differently
pub struct Emitted { pub hits: Vec<String>, closure: Option<(String, Vec<(String, bool)>)>, method: bool, pub bad: Option<String>, lazy: Vec<String>, runtime: bool, paths: Vec<(String, String)>, dyn_some: bool }
impl Emitted {
    pub fn run(f: &mut FnItem, flags: &[(String, String)]) -> Result<Vec<String>, String> {
        let runtime = flags.iter().any(|f| f.0 == "runtime");
        let closure = if runtime { None } else { closure_of(&f.block).map(|(n, _, c)| (n, c.into_iter().map(|(a, _, v)| (a, v)).collect())) };
        let paths = flags.iter().filter(|f| f.0 == "path").map(|f| { let (a, b) = f.1.split_once("=>").unwrap(); (a.trim().replace(' ', ""), b.trim().to_string()) }).collect();
        let mut e = Emitted { hits: vec![], closure, method: f.owner.is_some(), bad: None, lazy: vec![], runtime, paths, dyn_some: flags.iter().any(|f| f.0 == "dyn_some") };
        for a in f.sig.inputs.iter_mut() { e.visit_fn_arg_mut(a) }
        e.visit_return_type_mut(&mut f.sig.output);
        let mut b = f.block.clone(); e.visit_block_mut(&mut b); f.block = b;
        match e.bad { Some(b) => Err(b), None => Ok(e.hits) }
    }
    fn hit(&mut self, s: &str) { self.hits.push(s.into()) }
}
impl VisitMut for Emitted {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() >= 2 && (p.leading_colon.is_some() || s[0] == "crate") {
            if self.runtime && s[0] == "crate" && s[1] != "sscanf" { let keep: Vec<_> = p.segments.iter().skip(1).cloned().collect(); let mut n: syn::Path = parse_quote!(crate::sscanf); n.segments.extend(keep); *p = n; self.hit("path crate => model"); }
            else if s[0] == "sscanf" { p.leading_colon = None; p.segments.insert(0, parse_quote!(crate)); self.hit("path ::sscanf => model"); }
            else if s[0] == "std" && ["convert", "default", "borrow"].contains(&s[1].as_str()) { let last = p.segments.last().unwrap().clone(); let keep: Vec<_> = p.segments.iter().skip(2).cloned().collect(); let _ = last; let mut n: syn::Path = parse_quote!(crate::sscanf); n.segments.extend(keep); *p = n; self.hit("path ::std => model"); }
            else if s[0] == "std" && s[1] == "primitive" && s.len() == 3 { let l = p.segments.last().unwrap().clone(); *p = l.into(); }
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        if let Some(x) = self.paths.iter().find(|p| p.0 == s) { *t = syn::parse_str(&x.1).unwrap(); self.hit("type of the trait => type parameter"); return }
        if s.contains("dyn") && s.contains("Error") && s.contains("Box<") && !s.contains("Result") { *t = parse_quote!(crate::sscanf::DynErr); self.hit("type Box<dyn Error> => DynErr"); return }
        let n = if let syn::Type::Path(p) = &*t { p.path.segments.len() } else { 0 };
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t { fix_qself(&mut p.qself, n, &p.path) }
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        let n = p.path.segments.len();
        visit_mut::visit_expr_path_mut(self, p);
        fix_qself(&mut p.qself, n, &p.path)
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut v = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Macro(m) if m.mac.path.segments.last().unwrap().ident == "lazy_static" => {
                    let t = m.mac.tokens.to_string();
                    let t = t.trim().trim_start_matches("pub").trim();
                    let stat = t.strip_prefix("static ref ").unwrap_or(t);
                    match syn::parse_str::<syn::ItemStatic>(&format!("static {}", stat)) { Ok(i) => { let (n, e) = (&i.ident, &i.expr); self.lazy.push(n.to_string()); v.push(parse_quote!(let #n = #e;)); self.hit("lazy_static evaluated in place"); } Err(e) => { self.bad = Some(format!("unsupported construct: lazy_static: {}", e)) } }
                }
                Stmt::Item(syn::Item::Const(c)) => { let (n, t, e) = (&c.ident, &c.ty, &c.expr); v.push(parse_quote!(let #n: #t = #e;)); self.hit("const to let"); }
                Stmt::Local(l) => {
                    let lifted = match (&l.pat, &l.init, &self.closure) { (Pat::Ident(i), Some(init), Some((n, _))) => i.ident == n.as_str() && matches!(&*init.expr, Expr::Closure(c) if c.inputs.is_empty()), _ => false };
                    if lifted { self.hit("closure called once => function"); } else { v.push(Stmt::Local(l)) }
                }
                s => v.push(s),
            }
        }
        // { let f: fn(A) -> B = CLOSURE; TAIL } with one call of f in TAIL
        if v.len() == 2 {
            let beta = match &v[0] { Stmt::Local(l) => match (&l.pat, &l.init) { (Pat::Type(t), Some(init)) if matches!(&*t.ty, syn::Type::BareFn(_)) => match (&*t.pat, &*init.expr) { (Pat::Ident(i), Expr::Closure(c)) => Some((i.ident.to_string(), c.clone())), _ => None }, _ => None }, _ => None };
            if let (Some((n, c)), 1) = (beta, 1) {
                struct B(String, syn::ExprClosure, usize);
                impl VisitMut for B { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Call(k) = e { if ident(&k.func).as_deref() == Some(&self.0) && k.args.len() == 1 { let (p, b, a) = (&self.1.inputs[0], &self.1.body, &k.args[0]); *e = parse_quote!({ let #p = #a; #b }); self.2 += 1; } } } }
                let mut bb = B(n, c, 0); bb.visit_stmt_mut(&mut v[1]);
                if bb.2 == 1 { v.remove(0); self.hit("closure applied in place"); }
            }
        }
        if let Some(Stmt::Expr(e, None)) = v.last_mut() { if let Expr::Reference(r) = &*e { if let Some(n) = ident(&r.expr) { if self.lazy.contains(&n) { let x = (*r.expr).clone(); *e = x; self.hit("reference to a static => its value") } } } }
        b.stmts = v;
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { let s = p.to_token_stream().to_string().replace(' ', ""); if let Some(x) = self.paths.iter().find(|p| p.0 == s) { *e = syn::parse_str(&x.1).unwrap(); self.hit("type of the trait => type parameter"); return } }
        if let Expr::Struct(p) = e { let s = p.path.to_token_stream().to_string().replace(' ', ""); if let Some(x) = self.paths.iter().find(|p| p.0 == s) { p.path = syn::parse_str(&x.1).unwrap(); } }
        if self.dyn_some { if let Expr::Call(c) = e { if ident(&c.func).as_deref() == Some("Some") && c.args.len() == 1 { let mut a = c.args[0].clone(); self.visit_expr_mut(&mut a); *e = parse_quote!(Some(crate::sscanf::vx_dyn(#a))); self.hit("coercion to dyn Error => function"); return } } }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if self.runtime && (n == "format" || n == "write") {
                if let Ok(p) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let k = usize::from(n == "write");
                    if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = p.iter().nth(k) {
                        if let Some(ps) = fmt_pieces(&f.value()) {
                            let mut next = k + 1;
                            let mut st: Vec<Stmt> = vec![]; let mut ok = true;
                            for (t, a) in ps {
                                if !t.is_empty() { if n == "write" { let w = &p[0]; st.push(parse_quote!({ vx_reveal!(#t); #w.lit(#t); })) } else { let cs: Vec<char> = t.chars().collect(); st.push(parse_quote!({ #(vx_r.ch(#cs);)* })) } }
                                if let Some(a) = a {
                                    let x: Option<Expr> = if a.is_empty() { next += 1; p.iter().nth(next - 1).cloned() } else if let Ok(i) = a.parse::<usize>() { p.iter().nth(k + 1 + i).cloned() } else { syn::parse_str(&a).ok() };
                                    match x { Some(mut x) => { self.visit_expr_mut(&mut x); if n == "write" { let w = &p[0]; st.push(parse_quote!(#w.arg(&#x);)) } else { st.push(parse_quote!(vx_r.push(#x);)) } } None => ok = false }
                                }
                            }
                            if ok { *e = if n == "write" { parse_quote!({ #(#st)* Ok(()) }) } else { parse_quote!({ let mut vx_r = crate::sscanf::Rx::empty(); #(#st)* vx_mark!("concat"); vx_r }) }; self.hit("format text => pieces"); return }
                        }
                    }
                }
            }
            if n == "concatcp" {
                if let Ok(p) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let st: Vec<Stmt> = p.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &x { let cs: Vec<char> = l.value().chars().collect(); parse_quote!({ #(vx_r.ch(#cs);)* }) } else { parse_quote!(vx_r.push(#x);) } }).collect();
                    *e = parse_quote!({ let mut vx_r = crate::sscanf::Rx::empty(); #(#st)* vx_mark!("concat"); vx_r }); self.hit("concatcp => Rx");
                    return;
                }
            }
            if n == "stringify" { let s = m.mac.tokens.to_string(); *e = parse_quote!({ vx_reveal!(#s); #s }); return }
            if n == "format" {
                if let Ok(p) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = &p[0] {
                        let f = f.value();
                        let ps: Vec<&str> = f.split("{}").collect();
                        if !f.replace("{}", "").contains(|c| c == '{' || c == '}') && ps.len() == p.len() {
                            let mut st: Vec<Stmt> = vec![];
                            for (k, x) in ps.iter().enumerate() {
                                if !x.is_empty() { st.push(parse_quote!({ vx_reveal!(#x); string_push_str(&mut vx_s, #x); })) }
                                if k + 1 < ps.len() { let mut a = p[k + 1].clone(); self.visit_expr_mut(&mut a); st.push(parse_quote!(string_push_str(&mut vx_s, #a);)) }
                            }
                            *e = parse_quote!({ let mut vx_s = String::new(); #(#st)* vx_s }); self.hit("format => pushes");
                            return;
                        }
                    }
                }
            }
            if !["panic", "unreachable"].contains(&n.as_str()) { if let Ok(_) = syn::parse2::<Expr>(m.mac.tokens.clone()) {} }
            return;
        }
        // the lifted closure's call
        if let Expr::Call(c) = e { if c.args.is_empty() { if let (Some(n), Some((cn, caps))) = (ident(&c.func), &self.closure) { if n == *cn {
            let args: Vec<Expr> = caps.iter().map(|(n, val)| { let i = format_ident!("{}", n); if *val { parse_quote!(&mut #i) } else { parse_quote!(&mut *#i) } }).collect();
            *e = if self.method { parse_quote!(Self::vx_closure(#(#args),*)) } else { parse_quote!(vx_closure(#(#args),*)) };
            return;
        } } } }
        // str::get(&(x), ..)
        if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if s.ends_with("str::get") && c.args.len() == 2 && matches!(&c.args[1], Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                let mut a = &c.args[0]; loop { match a { Expr::Paren(p) => a = &p.expr, Expr::Reference(r) => a = &r.expr, _ => break } }
                let a = a.clone(); *e = parse_quote!(vx_str_get_full(#a)); self.hit("std_call_as_shim"); return;
            }
            let w: Vec<&str> = s.split("::").collect();
            if !self.runtime && w.len() == 2 && w[1] == "from_str_radix" { let f = format_ident!("from_str_radix_{}", w[0]); let args: Vec<Expr> = c.args.iter().map(|a| match a { Expr::Reference(r) => { let x = &r.expr; parse_quote!(#x.as_str()) } a => a.clone() }).collect(); *e = parse_quote!(crate::radix_std::#f(#(#args),*)); self.hit("std_call_as_shim"); return; }
        } }
        if let Expr::Path(p) = e {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if (last == "NUM_CAPTURES" || last == "REGEX") && (p.qself.is_some() || p.path.segments.len() == 2) { let mut x = e.clone(); visit_mut::visit_expr_mut(self, &mut x); *e = parse_quote!(#x()); self.hit("associated const => function"); return }
        }
        if let Expr::Try(t) = e {
            // ? in a function that returns Box<dyn Error>
            if self.runtime { self.visit_expr_mut(&mut t.expr); let r = &t.expr; *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) }); self.hit("? => match, From is the identity"); return }
            let boxed = !matches!(&*t.expr, Expr::MethodCall(m) if m.method == "map_err" );
            if boxed {
                self.visit_expr_mut(&mut t.expr);
                let r = match &*t.expr { Expr::MethodCall(m) if m.method == "ok_or" && m.args.len() == 1 => { let (r, a) = (&m.receiver, &m.args[0]); *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => return Err(crate::sscanf::vx_into_box(#a)) }); self.hit("ok_or?"); return } x => x.clone() };
                *e = parse_quote!(match #r { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::sscanf::vx_into_box(vx_e)) }); self.hit("? => match, From for Box<dyn Error>"); return
            }
        }
        if let Expr::MethodCall(m) = e { if m.method == "expect" { m.method = format_ident!("unwrap"); m.args.clear(); self.hit("expect => unwrap"); } }
        visit_mut::visit_expr_mut(self, e);
        let _ = quote!();
    }
}
