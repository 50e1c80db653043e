//! `err_suffix`: the statements of a block from which every way on ends the function with `Err` are
//! replaced by `return Err(vx_err())`: they only build the message. (That building it ends, and does
//! not panic, is dropped.)
use crate::FnItem;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Errs<'a> { pub helpers: &'a BTreeMap<String, FnItem>, pub hits: usize, depth: usize }

/// every `return` (outside closures) has an error as its value
struct Returns<'a, 'b> { e: &'a Errs<'b>, ok: bool }
impl<'a, 'b, 'c> Visit<'c> for Returns<'a, 'b> {
    fn visit_expr_closure(&mut self, _: &'c syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'c syn::Item) {}
    fn visit_expr_return(&mut self, r: &'c syn::ExprReturn) { if !r.expr.as_ref().map_or(false, |x| self.e.is_err(x)) { self.ok = false } }
    fn visit_expr_break(&mut self, b: &'c syn::ExprBreak) { if b.label.is_some() { self.ok = false } }
    fn visit_expr_continue(&mut self, b: &'c syn::ExprContinue) { if b.label.is_some() { self.ok = false } }
}
/// `break` and `continue` of a loop outside
struct Escapes(usize, bool);
impl<'c> Visit<'c> for Escapes {
    fn visit_expr_closure(&mut self, _: &'c syn::ExprClosure) {}
    fn visit_expr_for_loop(&mut self, l: &'c syn::ExprForLoop) { self.0 += 1; syn::visit::visit_expr_for_loop(self, l); self.0 -= 1 }
    fn visit_expr_while(&mut self, l: &'c syn::ExprWhile) { self.0 += 1; syn::visit::visit_expr_while(self, l); self.0 -= 1 }
    fn visit_expr_loop(&mut self, l: &'c syn::ExprLoop) { self.0 += 1; syn::visit::visit_expr_loop(self, l); self.0 -= 1 }
    fn visit_expr_break(&mut self, _: &'c syn::ExprBreak) { if self.0 == 0 { self.1 = true } }
    fn visit_expr_continue(&mut self, _: &'c syn::ExprContinue) { if self.0 == 0 { self.1 = true } }
}

impl<'a> Errs<'a> {
    pub fn new(helpers: &'a BTreeMap<String, FnItem>) -> Self { Errs { helpers, hits: 0, depth: 0 } }
    fn returns_ok(&self, s: &Stmt) -> bool { let mut r = Returns { e: self, ok: true }; r.visit_stmt(s); let mut x = Escapes(0, false); x.visit_stmt(s); r.ok && !x.1 }
    /// the value can only be `Err` (or the expression does not end normally)
    fn is_err(&self, e: &Expr) -> bool {
        if self.depth > 6 { return false }
        match e {
            Expr::Paren(p) => self.is_err(&p.expr),
            Expr::Return(r) => r.expr.as_ref().map_or(false, |x| self.is_err(x)),
            Expr::Block(b) => self.block_is_err(&b.block),
            Expr::If(i) => self.block_is_err(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| self.is_err(&x.1)),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| self.is_err(&a.body)),
            Expr::Call(c) => {
                let p = c.func.to_token_stream().to_string().replace(' ', "");
                let p = p.split("::<").next().unwrap().to_string();
                if p == "Err" || p.ends_with("::Err") { return true }
                self.fn_is_err(&p)
            }
            Expr::MethodCall(m) => {
                // methods of the crate's own error types
                let n = m.method.to_string();
                n == "build_err" && self.fn_is_err("ErrorBuilder::build_err") || n == "err" && m.args.len() == 1
            }
            _ => false,
        }
    }
    fn fn_is_err(&self, p: &str) -> bool {
        let segs: Vec<&str> = p.rsplit("::").take(2).collect();
        let key = if segs.len() == 2 { format!("{}::{}", segs[1], segs[0]) } else { p.to_string() };
        let Some(f) = self.helpers.get(&key) else { return false };
        let e = Errs { helpers: self.helpers, hits: 0, depth: self.depth + 1 };
        e.block_is_err(&f.block)
    }
    fn block_is_err(&self, b: &syn::Block) -> bool { self.suffix(b) == Some(0) }
    /// the first statement of the part that only leads to an error
    fn suffix(&self, b: &syn::Block) -> Option<usize> {
        let n = b.stmts.len();
        let last = match b.stmts.last()? { Stmt::Expr(e, None) => self.is_err(e), Stmt::Expr(e @ Expr::Return(_), Some(_)) => self.is_err(e), Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)), Some(_)) => self.is_err(e) && ends_in_return(e), _ => false };
        if !last || !self.returns_ok(b.stmts.last().unwrap()) { return None }
        let mut i = n - 1;
        while i > 0 && self.returns_ok(&b.stmts[i - 1]) { i -= 1 }
        Some(i)
    }
    fn cut(&mut self, b: &mut syn::Block) {
        if let Some(i) = self.suffix(b) { b.stmts.truncate(i); b.stmts.push(parse_quote!(return Err(vx_err());)); self.hits += 1 }
    }
    /// blocks whose value is the function's value
    fn exit(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.exit_block(&mut b.block),
            Expr::If(i) => { self.exit_block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.exit(x) } }
            Expr::Match(m) => for a in &mut m.arms { if self.is_err(&a.body) && !matches!(&*a.body, Expr::Block(_)) { *a.body = parse_quote!(return Err(vx_err())); self.hits += 1 } else { self.exit(&mut a.body) } },
            Expr::Return(r) => if let Some(x) = &mut r.expr { self.exit(x) },
            _ => {}
        }
    }
    fn exit_block(&mut self, b: &mut syn::Block) {
        self.cut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { self.exit(e) }
    }
    pub fn run(&mut self, f: &mut FnItem) { self.exit_block(&mut f.block); let mut b = f.block.clone(); self.visit_block_mut(&mut b); f.block = b }
}
fn ends_in_return(e: &Expr) -> bool {
    fn blk(b: &syn::Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(e, _)) => ends_in_return(e), _ => false } }
    match e { Expr::Return(_) => true, Expr::Block(b) => blk(&b.block), Expr::If(i) => blk(&i.then_branch) && i.else_branch.as_ref().map_or(false, |x| ends_in_return(&x.1)), Expr::Match(m) => m.arms.iter().all(|a| ends_in_return(&a.body)), _ => false }
}
impl VisitMut for Errs<'_> {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // a block that ends the function wherever it stands
        if let Some(Stmt::Expr(e, _)) = b.stmts.last() { if ends_in_return(e) { self.cut(b) } }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        if let Some(x) = &mut r.expr { if self.is_err(x) && x.to_token_stream().to_string().replace(' ', "") != "Err(vx_err())" { **x = parse_quote!(Err(vx_err())); self.hits += 1 } else { self.exit(x) } }
        visit_mut::visit_expr_return_mut(self, r)
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) { visit_mut::visit_arm_mut(self, a) }
}
