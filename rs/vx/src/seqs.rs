//! Iterator adapters that are bound to a name and used later, and constructors bound to a name: written
//! out where they are used (std's own definition of the adapter).
use quote::format_ident;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Seqs { pub hits: Vec<String>, n: usize }
fn ident_of(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => ident_of(&p.expr), _ => None } }
fn closure(e: &Expr) -> Option<&syn::ExprClosure> { match e { Expr::Closure(c) => Some(c), Expr::Paren(p) => closure(&p.expr), _ => None } }
fn call<'a>(e: &'a Expr, name: &str) -> Option<&'a syn::ExprMethodCall> { match e { Expr::MethodCall(m) if m.method == name => Some(m), Expr::Paren(p) => call(&p.expr, name), _ => None } }
fn uses(s: &[Stmt], name: &str) -> usize {
    struct U<'a>(&'a str, usize);
    impl<'a, 'b> Visit<'b> for U<'a> { fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if p.path.is_ident(self.0) { self.1 += 1 } } }
    let mut u = U(name, 0); for x in s { u.visit_stmt(x) } u.1
}
/// `X.iter_mut().enumerate().filter(|P| C)` and the like: (X, mutable, numbered, filter)
struct Chain { x: Expr, muta: bool, numbered: bool, filter: Option<(Pat, Expr)> }
fn chain(e: &Expr) -> Option<Chain> {
    let (e, filter) = match call(e, "filter") { Some(m) => { let c = closure(&m.args[0])?; (&*m.receiver, Some((c.inputs[0].clone(), (*c.body).clone()))) } None => (e, None) };
    let (e, numbered) = match call(e, "enumerate") { Some(m) => (&*m.receiver, true), None => (e, false) };
    let (m, muta) = match (call(e, "iter_mut"), call(e, "iter")) { (Some(m), _) => (m, true), (_, Some(m)) => (m, false), _ => return None };
    ident_of(&m.receiver)?;
    Some(Chain { x: (*m.receiver).clone(), muta, numbered, filter })
}
impl Chain {
    fn item(&self, k: &syn::Ident) -> Expr { let x = &self.x; let r: Expr = if self.muta { parse_quote!(&mut #x[#k]) } else { parse_quote!(&#x[#k]) }; if self.numbered { parse_quote!((#k, #r)) } else { r } }
    /// the filter's condition on element k
    fn cond(&self, k: &syn::Ident) -> Option<Expr> {
        let Some((p, c)) = &self.filter else { return Some(parse_quote!(true)) };
        let p = match p { Pat::Reference(r) => &*r.pat, p => p };
        let x = &self.x;
        let mut lets: Vec<Stmt> = vec![];
        let mut one = |p: &Pat, e: Expr| -> Option<()> { match p { Pat::Wild(_) => Some(()), Pat::Ident(i) if i.subpat.is_none() => { let n = &i.ident; lets.push(parse_quote!(let #n = #e;)); Some(()) } _ => None } };
        if self.numbered { let Pat::Tuple(t) = p else { return None }; if t.elems.len() != 2 { return None } one(&t.elems[0], parse_quote!(&#k))?; one(&t.elems[1], parse_quote!(&#x[#k]))?; } else { one(p, parse_quote!(&#x[#k]))?; }
        Some(if lets.is_empty() { c.clone() } else { parse_quote!({ #(#lets)* #c }) })
    }
}
struct Use<'a> { name: &'a str, cur: syn::Ident, ch: Chain, ok: bool }
impl VisitMut for Use<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let it = match &*f.expr { Expr::MethodCall(m) if m.method == "by_ref" => ident_of(&m.receiver), Expr::Reference(r) => ident_of(&r.expr), x => ident_of(x) };
            if it.as_deref() == Some(self.name) {
                let k = format_ident!("vx_k"); let (cur, x) = (self.cur.clone(), self.ch.x.clone());
                let Some(c) = self.ch.cond(&k) else { self.ok = false; return };
                let mut body = f.body.clone(); self.visit_block_mut(&mut body);
                let b = &body.stmts;
                let item = self.ch.item(&k);
                let l: Vec<Stmt> = match (&*f.pat, &item) { (Pat::Tuple(p), Expr::Tuple(t)) if p.elems.len() == 2 => p.elems.iter().zip(t.elems.iter()).filter(|(p, _)| !matches!(p, Pat::Wild(_))).map(|(p, t)| parse_quote!(let #p = #t;)).collect(), (Pat::Wild(_), _) => vec![], (p, i) => vec![parse_quote!(let #p = #i;)] };
                *e = parse_quote!(while #cur < #x.len() { let #k = #cur; #cur += 1; if #c { #(#l)* #(#b)* } });
                return;
            }
        }
        if let Expr::MethodCall(m) = e { if m.method == "next" && m.args.is_empty() && ident_of(&m.receiver).as_deref() == Some(self.name) {
            let k = format_ident!("vx_k"); let (cur, x) = (self.cur.clone(), self.ch.x.clone());
            let Some(c) = self.ch.cond(&k) else { self.ok = false; return };
            let item = self.ch.item(&k);
            *e = parse_quote!({ let mut vx_r: Option<usize> = None; while #cur < #x.len() { let #k = #cur; #cur += 1; if #c { vx_r = Some(#k); break; } } match vx_r { Some(#k) => Some(#item), None => None } });
            return;
        } }
        if ident_of(e).as_deref() == Some(self.name) { self.ok = false }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// calls of a constructor that was bound to a name
struct Ctor<'a> { name: &'a str, cond: Expr, a: Expr, b: Expr, ok: bool }
impl VisitMut for Ctor<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if ident_of(&c.func).as_deref() == Some(self.name) { let (k, a, b, args) = (&self.cond, &self.a, &self.b, &c.args); *e = parse_quote!(if #k { #a(#args) } else { #b(#args) }); return } }
        if ident_of(e).as_deref() == Some(self.name) { self.ok = false }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn tail_path(b: &syn::Block) -> Option<Expr> { match &b.stmts[..] { [Stmt::Expr(e @ Expr::Path(p), None)] if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())) => Some(e.clone()), _ => None } }
impl Seqs {
    pub fn new() -> Self { Seqs { hits: vec![], n: 0 } }
    pub fn run(&mut self, b: &mut syn::Block) { self.visit_block_mut(b) }
}
impl VisitMut for Seqs {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &b.stmts[i] { if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                let name = p.ident.to_string();
                if let (Some(ch), true) = (chain(&init.expr), init.diverge.is_none()) {
                    let cur = format_ident!("vx_it{}", self.n);
                    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                    let mut u = Use { name: &name, cur: cur.clone(), ch, ok: true };
                    for s in &mut rest { u.visit_stmt_mut(s) }
                    if u.ok { self.n += 1; b.stmts[i] = parse_quote!(let mut #cur: usize = 0;); b.stmts.truncate(i + 1); b.stmts.extend(rest); self.hits.push("lazy_iterator_to_cursor".into()); }
                } else if let Expr::If(c) = &*init.expr { if let (Some(a), Some((_, el)), true) = (tail_path(&c.then_branch), &c.else_branch, ident_of(&c.cond).is_some()) { if let Expr::Block(eb) = &**el { if let Some(bb) = tail_path(&eb.block) {
                    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                    if uses(&rest, &name) > 0 {
                        let mut u = Ctor { name: &name, cond: (*c.cond).clone(), a, b: bb, ok: true };
                        for s in &mut rest { u.visit_stmt_mut(s) }
                        if u.ok { b.stmts.truncate(i); b.stmts.extend(rest); self.hits.push("constructor_in_a_variable".into()); continue }
                    }
                } } } }
            } }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
