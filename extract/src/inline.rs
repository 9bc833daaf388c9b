//! Source-level normal forms used before lowering.
//!
//! * `unreturn`: a body whose early returns all sit in statement-level `if`s is rewritten so that every
//!   value it gives is a tail value (`if c { return a; } rest` becomes `if c { a } else { rest }`).
//! * `tail_loops`: `xs.all(|p| c)` as the value of a function is `for p in xs { if !(c) { return false; } } true`,
//!   dually for `any`.
//! * `while_let_loops`: an iterator that only a `while let Some(p) = it.next()` uses is a `for` loop.
//! * `split_or`: an arm with alternatives is several arms.
use quote::ToTokens;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn has_return_b(b: &Block) -> bool {
    let mut v = HasReturn(false);
    v.visit_block(b);
    v.0
}
fn has_return_s(s: &Stmt) -> bool {
    let mut v = HasReturn(false);
    v.visit_stmt(s);
    v.0
}
fn has_return_e(e: &Expr) -> bool {
    let mut v = HasReturn(false);
    v.visit_expr(e);
    v.0
}

/// The block with every return turned into a tail value, if its shape allows it.
pub fn unreturn(b: &Block) -> Option<Block> {
    if !has_return_b(b) {
        return Some(b.clone());
    }
    let st = stmts(&b.stmts)?;
    Some(Block { brace_token: b.brace_token, stmts: st })
}
fn ends(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
fn stmts(ss: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in ss.iter().enumerate() {
        let last = i + 1 == ss.len();
        match s {
            Stmt::Expr(Expr::Return(r), _) if last => {
                if let Some(e) = &r.expr {
                    if has_return_e(e) {
                        return None;
                    }
                    out.push(Stmt::Expr((**e).clone(), None));
                }
            }
            Stmt::Expr(Expr::If(f), _) if !last && has_return_s(s) => {
                if has_return_e(&f.cond) || f.else_branch.is_some() || !ends(&f.then_branch) {
                    return None;
                }
                let a = Block { brace_token: f.then_branch.brace_token, stmts: stmts(&f.then_branch.stmts)? };
                let r = stmts(&ss[i + 1..])?;
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #a else { #(#r)* }), None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), None) if last && has_return_s(s) => {
                if has_return_e(&f.cond) {
                    return None;
                }
                let a = Block { brace_token: f.then_branch.brace_token, stmts: stmts(&f.then_branch.stmts)? };
                let c = &f.cond;
                match &f.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(eb) if eb.label.is_none() => {
                            let r = stmts(&eb.block.stmts)?;
                            out.push(Stmt::Expr(parse_quote!(if #c #a else { #(#r)* }), None));
                        }
                        e @ Expr::If(_) => {
                            let r = stmts(&[Stmt::Expr(e.clone(), None)])?;
                            out.push(Stmt::Expr(parse_quote!(if #c #a else { #(#r)* }), None));
                        }
                        _ => return None,
                    },
                    None => return None,
                }
            }
            s if has_return_s(s) => return None,
            s => out.push(s.clone()),
        }
    }
    Some(out)
}

/// `all` / `any` as the value of a function.
pub fn tail_loops(b: &Block) -> Block {
    let mut b = b.clone();
    let new = match b.stmts.last() {
        Some(Stmt::Expr(Expr::MethodCall(m), None)) if m.method == "all" || m.method == "any" => match m.args.first() {
            Some(Expr::Closure(c)) if m.args.len() == 1 && c.inputs.len() == 1 => {
                let x = &m.receiver;
                let p = &c.inputs[0];
                let e = &c.body;
                let simple = !e.to_token_stream().to_string().contains("return");
                if !simple {
                    None
                } else if m.method == "all" {
                    let f: Stmt = parse_quote!(for #p in #x { if !(#e) { return false; } });
                    Some((f, parse_quote!(true)))
                } else {
                    let f: Stmt = parse_quote!(for #p in #x { if #e { return true; } });
                    Some((f, parse_quote!(false)))
                }
            }
            _ => None,
        },
        _ => None,
    };
    if let Some((f, e)) = new {
        b.stmts.pop();
        b.stmts.push(f);
        b.stmts.push(Stmt::Expr(e, None));
    }
    b
}

/// `let mut it = E; while let Some(p) = it.next() { .. }` with no other use of `it` is `for p in E { .. }`.
pub fn while_let_loops(b: &Block) -> Block {
    struct W(String);
    fn count(t: proc_macro2::TokenStream, n: &str) -> usize {
        t.into_iter()
            .map(|x| match x {
                proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
                proc_macro2::TokenTree::Group(g) => count(g.stream(), n),
                _ => 0,
            })
            .sum()
    }
    impl VisitMut for W {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut i = 0;
            while i + 1 < b.stmts.len() {
                let name = match &b.stmts[i] {
                    Stmt::Local(l) if l.init.as_ref().map_or(false, |x| x.diverge.is_none()) => match &l.pat {
                        Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.ident.to_string(),
                        _ => String::new(),
                    },
                    _ => String::new(),
                };
                let hit = match &b.stmts[i + 1] {
                    Stmt::Expr(Expr::While(w), _) if w.label.is_none() && !name.is_empty() => match &*w.cond {
                        Expr::Let(l) => match (&*l.pat, &*l.expr) {
                            (Pat::TupleStruct(t), Expr::MethodCall(m))
                                if t.path.is_ident("Some")
                                    && t.elems.len() == 1
                                    && m.method == "next"
                                    && m.args.is_empty()
                                    && m.receiver.to_token_stream().to_string() == name =>
                            {
                                Some((t.elems[0].clone(), w.body.clone()))
                            }
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                if let (Some((p, body)), Stmt::Local(l)) = (hit, b.stmts[i].clone()) {
                    let ws: usize = b.stmts.iter().map(|s| count(s.to_token_stream(), &name)).sum();
                    if ws == 2 && count(self.0.parse().unwrap(), &name) == 2 {
                        let e = l.init.unwrap().expr;
                        b.stmts[i + 1] = parse_quote!(for #p in #e #body);
                        b.stmts.remove(i);
                    }
                }
                i += 1;
            }
        }
    }
    let mut b = b.clone();
    W(b.to_token_stream().to_string()).visit_block_mut(&mut b);
    b
}

/// `A(x) | B(x) => e` is two arms.
pub fn split_or(b: &Block) -> Block {
    struct O;
    impl VisitMut for O {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let mut arms = vec![];
            for a in std::mem::take(&mut m.arms) {
                let t = a.body.to_token_stream().to_string();
                let simple = !["for ", "while ", "loop ", "|"].iter().any(|k| t.contains(k));
                match &a.pat {
                    Pat::Or(o) if simple && o.cases.iter().any(|c| matches!(c, Pat::TupleStruct(_))) => {
                        for c in &o.cases {
                            let mut a2 = a.clone();
                            a2.pat = c.clone();
                            if a2.comma.is_none() {
                                a2.comma = Some(Default::default());
                            }
                            arms.push(a2);
                        }
                    }
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
        }
    }
    let mut b = b.clone();
    O.visit_block_mut(&mut b);
    b
}

/// All identifiers of a piece of syntax.
pub fn idents(t: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
