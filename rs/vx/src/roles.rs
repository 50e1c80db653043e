//! Names of locals found by what they are used for, so that contracts survive renaming.
use crate::{fail, FnItem, Res, Spec};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::{Expr, Pat};

pub fn params(sig: &syn::Signature) -> Vec<String> {
    sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(match &*t.pat { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() }), _ => None }).collect()
}
fn path(e: &Expr) -> Option<String> { match e { Expr::Path(p) if p.path.get_ident().is_some() => Some(p.path.get_ident().unwrap().to_string()), Expr::Paren(p) => path(&p.expr), Expr::Reference(r) => path(&r.expr), _ => None } }

pub fn resolve(spec: &Spec, f: &FnItem) -> Res<BTreeMap<String, String>> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (k, p) in params(&f.sig).iter().enumerate() { m.insert(k.to_string(), p.clone()); }
    for (name, rules) in &spec.roles {
        let mut got = None;
        for rule in rules.split('|') {
            let w: Vec<&str> = rule.trim().split_whitespace().collect();
            let arg = |k: usize| -> String { let s = w.get(k).copied().unwrap_or(""); m.get(s.trim_start_matches('$')).filter(|_| s.starts_with('$')).cloned().unwrap_or_else(|| s.to_string()) };
            struct V<'a> { w: &'a [String], got: Option<String>, loops: usize }
            impl<'a, 'b> Visit<'b> for V<'a> {
                fn visit_field_value(&mut self, v: &'b syn::FieldValue) { if self.w[0] == "field" && v.member.to_token_stream().to_string() == self.w[1] && self.got.is_none() { self.got = path(&v.expr) } syn::visit::visit_field_value(self, v) }
                fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
                    if self.got.is_none() && self.w[0] == "argof" && path(&c.receiver).as_deref() == Some(&self.w[1]) && c.method == self.w[2].as_str() && c.args.len() > 0 { self.got = path(&c.args[0]) }
                    if self.got.is_none() && self.w[0] == "recv" && c.method == self.w[1].as_str() && (self.w.len() < 3 || c.args.to_token_stream().to_string().replace(' ', "").contains(&self.w[2])) { self.got = path(&c.receiver) }
                    syn::visit::visit_expr_method_call(self, c)
                }
                fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
                    if self.got.is_none() && self.w[0] == "callarg" && c.func.to_token_stream().to_string().replace(' ', "").ends_with(self.w[1].as_str()) { self.got = c.args.iter().nth(self.w[2].parse::<usize>().unwrap()).and_then(path) }
                    syn::visit::visit_expr_call(self, c)
                }
                fn visit_local(&mut self, l: &'b syn::Local) {
                    if let (Pat::Ident(i), Some(init), "init") = (match &l.pat { Pat::Type(t) => &*t.pat, p => p }, &l.init, self.w[0].as_str()) {
                        let t = init.expr.to_token_stream().to_string().replace(' ', "");
                        if self.got.is_none() && (t == self.w[1] || self.w[1].starts_with('~') && t.contains(&self.w[1][1..])) { self.got = Some(i.ident.to_string()) }
                    }
                    if let ("initpat", Some(init), None) = (self.w[0].as_str(), &l.init, &self.got) {
                        if init.expr.to_token_stream().to_string().replace(' ', "").contains(&self.w[1]) {
                            struct B(Vec<String>); impl<'c> Visit<'c> for B { fn visit_pat_ident(&mut self, p: &'c syn::PatIdent) { self.0.push(p.ident.to_string()) } }
                            let mut b = B(vec![]); b.visit_pat(&l.pat); self.got = b.0.get(self.w[2].parse::<usize>().unwrap()).cloned();
                        }
                    }
                    if self.w[0] == "let" && self.got.is_none() { if let Pat::Ident(i) = (match &l.pat { Pat::Type(t) => &*t.pat, p => p }) { if i.ident == self.w[1].as_str() { self.got = Some(self.w[1].clone()) } } }
                    syn::visit::visit_local(self, l)
                }
                fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) {
                    if self.w[0] == "assigned" && self.got.is_none() && a.right.to_token_stream().to_string().replace(' ', "").contains(&self.w[1]) { self.got = path(&a.left) }
                    syn::visit::visit_expr_assign(self, a)
                }
                fn visit_expr_while(&mut self, l: &'b syn::ExprWhile) {
                    let k = self.loops; self.loops += 1;
                    if self.w[0] == "loopvar" && self.w[1] == k.to_string() { if let Expr::Let(x) = &*l.cond {
                        struct B(Vec<String>); impl<'c> Visit<'c> for B { fn visit_pat_ident(&mut self, p: &'c syn::PatIdent) { self.0.push(p.ident.to_string()) } }
                        let mut b = B(vec![]); b.visit_pat(&x.pat); self.got = b.0.get(self.w[2].parse::<usize>().unwrap()).cloned();
                    } }
                    syn::visit::visit_expr_while(self, l)
                }
                fn visit_expr_loop(&mut self, l: &'b syn::ExprLoop) { self.loops += 1; syn::visit::visit_expr_loop(self, l) }
            }
            if w[0] == "param" { got = params(&f.sig).get(w[1].parse::<usize>().unwrap()).cloned(); }
            else { let ws: Vec<String> = (0..w.len()).map(|k| if k == 0 { w[0].to_string() } else { arg(k) }).collect(); let mut v = V { w: &ws, got: None, loops: 0 }; v.visit_block(&f.block); got = v.got; }
            if got.is_some() { break }
        }
        match got { Some(g) => { m.insert(name.clone(), g); } None => return fail(format!("lost anchor: no variable of {} is `{}` ({})", spec.path, name, rules)) }
    }
    Ok(m)
}
